#include "../../common/fs.cc"
