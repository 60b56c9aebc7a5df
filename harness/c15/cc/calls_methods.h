#pragma once
#define METHODS_C 
#define METHODS_N 
#define METHODS_P2 
#include "calls_types.h"
