#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts is this file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CC, H = "src/cxx.cc", "include/cxx.h"

p("C01", "rust::String and rust::Str constructed in C++ always hold valid UTF-8",
  "A rust::String or rust::Str built from C++ bytes is created exactly when those bytes are valid UTF-8 and then holds those bytes unchanged; otherwise construction throws std::invalid_argument and leaks nothing. The lossy constructors never fail and give exactly Rust's lossy decoding, and the UTF-16 constructor accepts exactly well-formed UTF-16 and transcodes it exactly.",
  ["inputs"], "every byte sequence and every UTF-16 sequence, through every constructor, including embedded NULs and truncated or overlong sequences",
  "the tests construct a handful of ASCII strings and one invalid one; validity must hold for every byte sequence",
  [CC, H, "src/symbols/rust_string.rs", "src/symbols/rust_str.rs"],
  [("initString / initStr", "src/cxx.cc"), ("string_from_utf8, string_from_utf8_lossy, string_from_utf16(_lossy)", "src/symbols/rust_string.rs"), ("str_from", "src/symbols/rust_str.rs")])

p("C02", "rust::String and rust::Str compare as Rust strings do",
  "For any two strings the C++ operators ==, !=, <, <=, >, >= on rust::String and on rust::Str give the same answers as Rust's comparison of the same strings, i.e. unsigned bytewise lexicographic order.",
  ["inputs"], "every pair of valid UTF-8 strings, including prefixes of one another, empty strings, embedded NULs and non-ASCII characters",
  "existing tests compare a few ASCII literals; order over all pairs of strings cannot be sampled",
  [CC, H], [("String::operator== ... operator>=", "src/cxx.cc"), ("Str::operator== ... operator>=", "src/cxx.cc")])

p("C03", "rust::String and rust::Str behave as C++ values without leak or double free",
  "Copying, moving, assigning (including to itself), swapping and destroying rust::String preserves contents of every string not written to, leaves moved-from strings usable, and releases each buffer exactly once. Size, iteration, conversion to std::string, c_str, reserve, capacity and stream output agree with the string's bytes, and c_str is NUL-terminated without changing the string's length.",
  ["histories", "inputs"], "every sequence of the public operations on a small set of strings and every content, up to the stated length",
  "unit tests run one fixed sequence per operation; ownership must hold for every interleaving of copies, moves, assignments and throws",
  [CC, H, "src/symbols/rust_string.rs", "src/rust_string.rs"],
  [("String copy/move/assign/destructor", "src/cxx.cc"), ("c_str / reserve_additional / reserve_total", "src/symbols/rust_string.rs")])

p("C04", "rust::Vec is a correct owning sequence in C++",
  "Under any sequence of its public operations a rust::Vec<T> contains exactly the elements an ideal sequence would contain in the same order, for primitive, string and user-defined element types. Each element is destroyed exactly once, also when an element's copy constructor throws or when an argument refers to an element of the same vector; at() out of range throws std::out_of_range.",
  ["histories", "inputs"], "every sequence of push_back, emplace_back, reserve, clear, truncate, copy, move, assign, swap, iteration and access, up to the stated length",
  "tests exercise one push/copy history per type; element lifetime and reallocation depend on the whole history and on capacities",
  [H, CC, "src/symbols/rust_vec.rs", "src/rust_vec.rs", "gen/src/write.rs", "macro/src/expand.rs"],
  [("class Vec", "include/cxx.h"), ("rust_vec_shims", "src/symbols/rust_vec.rs"), ("write_rust_vec_extern / expand_rust_vec", "gen/src/write.rs, macro/src/expand.rs")])

p("C05", "rust::Slice views exactly the elements it was built from",
  "A rust::Slice<T> has exactly the length and the element addresses of the range or container it was made from, in C++ and after crossing to Rust in either direction, and an empty slice is valid on both sides. at() throws std::out_of_range exactly when the index is not below the length, and its iterators obey the random-access iterator laws.",
  ["inputs", "histories"], "every length, index and iterator offset within the slice, for element types of different sizes, mutable and const",
  "tests check a few fixed slices; index arithmetic must hold for all indices, offsets and element sizes, including empty",
  [H, CC, "src/rust_slice.rs", "src/symbols/rust_slice.rs"],
  [("class Slice, Slice::iterator", "include/cxx.h"), ("sliceInit/slicePtr/sliceLen", "src/cxx.cc"), ("RustSlice repr", "src/rust_slice.rs")])

p("C06", "rust::Box owns its Rust value exactly once",
  "A rust::Box<T> holds its value at a stable address through moves, copies the value when copied, and drops it exactly once over any history of construction, move, assignment, swap, into_raw, from_raw and crossings to and from Rust. Nothing is leaked or freed with the wrong allocator, also when the value's construction throws.",
  ["histories", "fault_sequences"], "every sequence of the public Box operations up to the stated length, for Rust opaque types and shared structs, with construction failing or not",
  "the tests cover single straight-line uses; exactly-once drop is a property of every history",
  [H, "macro/src/expand.rs", "gen/src/write.rs"],
  [("class Box", "include/cxx.h"), ("write_rust_box_extern/impl", "gen/src/write.rs"), ("expand_rust_box", "macro/src/expand.rs")])

p("C07", "A Rust Err reaches C++ as rust::Error carrying its Display text",
  "When a Rust function exposed to C++ returns Err, the C++ caller sees rust::Error thrown whose what() is the error's Display text, and when it returns Ok the caller gets exactly the Ok value and no exception. rust::Error can be copied, moved and assigned in any order without leaking, double freeing or changing the message of any object not assigned to.",
  ["inputs", "histories"], "every message and every Ok value, for every return class, and every sequence of copy/move/assign/destroy of errors",
  "tests throw one fixed message; message content, value and copy histories are unbounded",
  ["src/result.rs", "src/symbols/exception.rs", CC, H, "gen/src/write.rs", "macro/src/expand.rs"],
  [("r#try / to_c_error", "src/result.rs"), ("cxxbridge1$exception", "src/symbols/exception.rs"), ("Error", "src/cxx.cc")])

p("C08", "A C++ exception reaches Rust as Err carrying its what() text",
  "When a C++ function declared as returning Result throws an exception derived from std::exception, the Rust caller gets Err whose text is the exception's what(), with invalid UTF-8 replaced; when it returns normally the caller gets Ok of exactly the returned value. No value or message is leaked or freed twice either way, and an exception leaving a function not declared fallible terminates the process instead of entering Rust.",
  ["inputs", "fault_sequences"], "every thrown message and returned value, for every return class, throwing or not",
  "tests throw a few fixed messages; the guarantee is over all messages, values and throw points",
  ["src/result.rs", "src/exception.rs", CC, H, "gen/src/write.rs", "gen/src/builtin.rs", "macro/src/expand.rs"],
  [("trycatch / Fail", "gen/src/builtin.rs"), ("PtrLen / CxxResult / exception()", "src/result.rs"), ("errorCopy / cxxbridge1$error", "src/cxx.cc")])

p("C09", "A Rust panic never unwinds into C++",
  "When Rust code called from C++ panics, whether in a function, method, destructor or generated operation, the process aborts: the C++ caller is neither returned to nor unwound, and no exception becomes visible to C++. When it does not panic the call returns normally.",
  ["inputs", "fault_sequences"], "every kind of Rust entry point called from C++, with the panic raised or not depending on the input",
  "a test process cannot survive the abort to look at every entry point; the tests contain no panicking bridge function",
  ["src/unwind.rs", "macro/src/expand.rs", "src/result.rs"],
  [("prevent_unwind", "src/unwind.rs"), ("expand_rust_function_shim_impl", "macro/src/expand.rs"), ("box/vec drop shims", "macro/src/expand.rs")])

p("C10", "CxxString gives Rust the bytes of a std::string",
  "Length, emptiness, byte access, UTF-8 conversion (strict and lossy), comparison, equality, hashing and formatting of a std::string seen from Rust agree with its bytes, and appending, clearing and reserving through Rust have the effect they have in C++. A string created from Rust, owned or on the stack, holds exactly the given bytes and is destroyed exactly once.",
  ["inputs", "histories"], "every content, including embedded NULs and invalid UTF-8, short and heap-allocated, and every sequence of operations",
  "the tests use a few short ASCII strings",
  ["src/cxx_string.rs", CC, "src/lossy.rs"],
  [("CxxString", "src/cxx_string.rs"), ("StackString", "src/cxx_string.rs"), ("cxx_string_* functions", "src/cxx.cc")])

p("C11", "CxxVector gives Rust the elements of a std::vector",
  "Length, indexed access, iteration (including its reported remaining length), slices and in-place mutation of a std::vector seen from Rust agree with the vector's elements, with out-of-range access yielding None. Pushing and popping through Rust have exactly the effect of the C++ operations, moving each element once.",
  ["inputs", "histories"], "every vector content and length up to the bound, every index, every sequence of push/pop/iterate, for primitive, std::string, opaque and shared element types",
  "tests use one short vector per type; indices, lengths and histories are unbounded",
  ["src/cxx_vector.rs", CC, "gen/src/write.rs", "macro/src/expand.rs"],
  [("CxxVector, Iter, IterMut", "src/cxx_vector.rs"), ("write_cxx_vector", "gen/src/write.rs"), ("expand_cxx_vector", "macro/src/expand.rs")])

p("C12", "UniquePtr has the ownership semantics of std::unique_ptr",
  "A UniquePtr<T> in Rust is bit-for-bit a std::unique_ptr<T>: null exactly when the C++ pointer is null, pointing at the same object, and destroying its object exactly once over any history of creation, crossing in either direction, borrowing, into_raw and from_raw. Dereferencing a null one panics rather than touching memory; comparison, hashing, formatting and I/O act on the target.",
  ["histories"], "every history of the public operations up to the stated length, null and non-null, for strings, vectors, opaque and shared types",
  "exactly-once destruction and null handling are properties of all histories; the tests run a few",
  ["src/unique_ptr.rs", CC, "gen/src/write.rs", "macro/src/expand.rs"],
  [("UniquePtr", "src/unique_ptr.rs"), ("write_unique_ptr", "gen/src/write.rs"), ("expand_unique_ptr", "macro/src/expand.rs")])

p("C13", "SharedPtr and WeakPtr count references as their C++ counterparts do",
  "Clones, drops, downgrades, upgrades, null pointers and crossings of SharedPtr and WeakPtr leave the object alive exactly as long as a strong reference exists on either side and destroy it exactly once. Upgrading yields non-null exactly while a strong reference exists, and equality, ordering, hash and dereference act on the same object as in C++.",
  ["histories"], "every history of the public operations over a few pointers, up to the stated length, for primitive, string, opaque and shared types",
  "reference counts depend on the whole history; the tests run two or three straight-line histories",
  ["src/shared_ptr.rs", "src/weak_ptr.rs", CC, "gen/src/write.rs", "macro/src/expand.rs"],
  [("SharedPtr", "src/shared_ptr.rs"), ("WeakPtr", "src/weak_ptr.rs"), ("write_shared_ptr / write_weak_ptr", "gen/src/write.rs")])

p("C14", "Values passed from Rust to a C++ function arrive unchanged, and back",
  "Calling a C++ function through a bridge passes every argument to the C++ function with exactly the value the Rust caller gave, in the declared order, and gives the caller exactly the returned value. This holds for every supported type in every position, as a method or a free function, fallible or not, with each owned value destroyed exactly once.",
  ["inputs", "programs"], "every value of every argument, for bridges combining every supported type class, by value, reference, mutable reference and pointer, methods and free functions",
  "tests call each function with one value; swapped, truncated or duplicated arguments need all values",
  ["macro/src/expand.rs", "gen/src/write.rs", "src/rust_vec.rs", "src/rust_string.rs", "src/rust_str.rs", "src/rust_slice.rs"],
  [("expand_cxx_function_shim", "macro/src/expand.rs"), ("write_cxx_function_shim", "gen/src/write.rs")])

p("C15", "Values passed from C++ to a Rust function arrive unchanged, and back",
  "Calling a Rust function through a bridge from C++, directly, as a method or through a function pointer, passes every argument with exactly the value the C++ caller gave, in the declared order, and gives the caller exactly the returned value. Each owned value is destroyed exactly once, whichever side holds it last, and a function pointer declared unsafe accepts unsafe functions.",
  ["inputs", "programs"], "every value of every argument, for bridges combining every supported type class, by value, reference, mutable reference and pointer, methods, free functions and function pointers",
  "tests call each function with one value; swapped, truncated or duplicated arguments need all values",
  ["macro/src/expand.rs", "gen/src/write.rs", H],
  [("expand_rust_function_shim_impl", "macro/src/expand.rs"), ("write_rust_function_shim_impl", "gen/src/write.rs"), ("class Fn", "include/cxx.h")])

p("C16", "Shared structs and enums mean the same thing in both languages",
  "Every field of a shared struct read in one language has the value last written to it in the other, the struct's size and alignment agree, and copying or destroying it on either side copies or destroys each field once. A shared enum's variants have the same numeric values on both sides, and an enum value not among the listed variants passes through either side unchanged.",
  ["inputs", "programs"], "every field value of structs mixing every field type class, including nested structs, arrays and generated default construction, and every integer value of enums with every representation",
  "the tests use a few structs with fixed values; layout agreement must hold for all field types and values",
  ["macro/src/expand.rs", "gen/src/write.rs", "syntax/discriminant.rs"],
  [("expand_struct / expand_enum", "macro/src/expand.rs"), ("write_struct / write_enum", "gen/src/write.rs")])

p("C17", "Derived operators on shared structs agree across the two languages",
  "For a shared struct deriving comparison traits, the C++ operators ==, !=, <, <=, >, >= give the same answers as Rust's trait implementations on the same values, and derived Hash makes std::hash equal for equal values. Derived Clone, Copy and Default act field by field, and Debug names every field or variant.",
  ["inputs", "programs"], "every pair of values of structs and enums with the derives, with integer, float, string and nested fields",
  "tests compare a few pairs; partial orders (NaN) and field-order dependence need all pairs",
  ["macro/src/derive.rs", "gen/src/write.rs", "macro/src/expand.rs", "syntax/derive.rs"],
  [("struct_partial_eq / struct_partial_ord / enum_*", "macro/src/derive.rs"), ("write_struct_operators", "gen/src/write.rs")])

p("C18", "Enum discriminants follow Rust's rules in both languages",
  "The discriminants and representation chosen for a shared enum are those Rust assigns to the same declaration: explicit values as written, implicit ones one above the previous, the representation as declared or else the smallest fitting the rules. A declaration is rejected exactly when a value does not fit, overflows or is not an integer literal, and the two generated languages always agree.",
  ["inputs", "programs"], "every sequence of explicit and implicit discriminants with every declared or undeclared representation, at and around every integer type's limits",
  "unit tests list a few enums; the limits, negative runs and inference depend on all sequences of values",
  ["syntax/discriminant.rs", "syntax/parse.rs", "gen/src/write.rs", "macro/src/expand.rs"],
  [("DiscriminantSet", "syntax/discriminant.rs"), ("expr_to_discriminant / insert_next / inferred_repr", "syntax/discriminant.rs")])

p("C19", "Both generators agree on which link symbol means which function",
  "For every bridge that is accepted, every external symbol the generated Rust code imports is defined by the generated C++ code or the runtime, and the other way round, for the same function or operation. Two different items never share a symbol, whatever their names, namespaces, receiver types and renamings.",
  ["programs", "inputs"], "every bridge built from functions, methods, types, namespaces and renaming attributes whose names are arbitrary identifiers",
  "the test bridge has one fixed set of names; collisions and disagreements depend on the choice of names",
  ["syntax/mangle.rs", "syntax/symbol.rs", "gen/src/write.rs", "macro/src/expand.rs"],
  [("mangle::extern_fn / operator / *_thunk", "syntax/mangle.rs"), ("Symbol::from_idents / join", "syntax/symbol.rs")])

p("C20", "Conditional items are included exactly when their cfg predicate holds",
  "An item of a bridge carrying a cfg attribute appears in the generated C++ exactly when the predicate, under the standard meaning of all, any and not, is true in the build's configuration, and an undeterminable predicate is reported as an error instead of guessed. An item depending on an undefined configuration value is decided without it whenever the other operands decide the predicate.",
  ["inputs", "configurations"], "every predicate up to the stated depth and every configuration (set, unset, undetermined) of its atoms",
  "tests cover a few predicates in one configuration; the truth table grows exponentially with depth",
  ["gen/src/cfg.rs", "syntax/cfg.rs", "gen/build/src/cfg.rs", "gen/cmd/src/cfg.rs"],
  [("eval / strip", "gen/src/cfg.rs"), ("UnsupportedCfgEvaluator, FlagCfgEvaluator", "gen/cmd/src/cfg.rs, gen/lib/src/lib.rs"), ("CargoEnvCfgEvaluator", "gen/build/src/cfg.rs")])

p("C21", "Generated C++ declares every type before its first use by value",
  "In the generated C++ every shared struct is defined after all structs and enums it contains by value, and every type is at least declared before it is mentioned, whatever the order of declaration in the bridge. A bridge whose structs contain each other by value in a cycle is rejected, and one without such a cycle is never rejected for that reason.",
  ["programs"], "every containment graph over the stated number of structs and every declaration order",
  "tests have one or two orders; correctness is over all dependency graphs",
  ["syntax/toposort.rs", "syntax/types.rs", "gen/src/write.rs"],
  [("toposort", "syntax/toposort.rs"), ("gen / write_data_structures", "gen/src/write.rs")])

p("C22", "Unsound or unsupported signatures are always rejected",
  "A bridge is rejected with an error when it passes an opaque C++ type by value, reuses a type name, names an undeclared or reserved type, returns a mutable reference without a mutable argument, or uses a type in a position the language boundary does not support. Accepted forms of the same declarations stay accepted.",
  ["programs"], "every combination of type form, position (argument, return, field, element of a container), receiver and origin language of the type, up to the stated nesting",
  "the ui tests cover one example per diagnostic; soundness depends on every combination of type form and position",
  ["syntax/check.rs", "syntax/parse.rs", "syntax/types.rs", "syntax/trivial.rs"],
  [("typecheck", "syntax/check.rs"), ("parse_items", "syntax/parse.rs"), ("required_trivial_reasons", "syntax/trivial.rs")])

p("C23", "Generated build files stay inside the build's own directories",
  "Whatever path names a bridge source and whatever relative include prefix is configured, cxx_build::bridge(s) creates, writes and removes only below OUT_DIR/cxxbridge and the shared cxxbridge directory of the target directory, following links. For source files named by relative paths below the manifest directory and ending in .rs, the generated header and source are found under the include prefix and the file's own path, and two different files never take each other's place. Every link it makes refers to the generated file, cxx.h or package directory it stands for, however OUT_DIR and the manifest directory are spelled or linked. A repeated run with unchanged input writes no generated file again and changed input replaces the old text. A source without a valid bridge fails the build.",
  ["inputs", "histories"], "every relative or absolute source path and include prefix up to the stated length, every left-over state and every spelling of the directories stated",
  "tests use a few tidy paths; escaping, collisions and misdirected links arise from odd component sequences, links on the way and what an earlier run left behind",
  ["gen/build/src/paths.rs", "gen/build/src/out.rs", "gen/build/src/lib.rs", "gen/build/src/target.rs", "gen/src/fs.rs"],
  [("local_relative_path", "gen/build/src/paths.rs"), ("write / relative_symlink_file / best_effort_relativize_symlink", "gen/build/src/out.rs"), ("generate_bridge / make_include_dir / make_crate_dir", "gen/build/src/lib.rs")])

p("C24", "Generated C++ text keeps names, includes and nesting exact",
  "Every include requested by a bridge or by the command line is emitted once as the same header name in the same bracket or quote form, and every item is emitted in the namespace its bridge assigns it, with namespaces opened and closed in balance. Reserved-word and renamed identifiers appear exactly as the attributes say. Documentation becomes comments only: whatever its text, the code is the same as without it.",
  ["inputs", "programs"], "every include path text, and every assignment of items to nested namespaces up to the stated depth, in every order",
  "tests contain a few namespaces and plain include names; nesting order and unusual characters are unbounded",
  ["gen/src/include.rs", "gen/src/out.rs", "gen/src/block.rs", "gen/src/nested.rs", "gen/src/namespace.rs"],
  [("write_doc", "gen/src/write.rs"), ("OutFile::block / Content::flush", "gen/src/out.rs"), ("NamespaceEntries", "gen/src/nested.rs"), ("Includes", "gen/src/include.rs")])

p("C25", "Header directories reach exactly the crates they are exported to",
  "A crate's C++ build sees its own generated headers, its package directory and CFG.exported_header_dirs, in this order and first, and every header directory its direct dependencies told Cargo, each once and each dependency's in the order of their numbers. To its own dependents it passes on its own directories and those of a dependency exactly if that dependency's include prefix begins, component by component, with an element of exported_header_prefixes or its links attribute is in exported_header_links. A configuration is refused exactly if an exported directory is not absolute, an exported prefix is empty or matches no direct dependency, an exported links attribute matches none, or anything is exported without a links attribute.",
  ["inputs", "configurations"], "every prefix and links text, directory set, numbering and environment order up to the stated sizes, through chains of three crates",
  "the tests build one crate without dependencies; what is passed on depends on the whole configuration and on other crates' metadata",
  ["gen/build/src/lib.rs", "gen/build/src/deps.rs", "gen/build/src/cfg.rs"],
  [("make_this_crate / validate_cfg", "gen/build/src/lib.rs"), ("direct_dependencies / print_to_cargo", "gen/build/src/deps.rs"), ("Cfg", "gen/build/src/cfg.rs")])

p("C26", "The cxxbridge command writes what was asked where it was asked, or nothing",
  "For every command line, each -o output receives the header if --header is given or its name ends in .h, .hh or .hpp, and the implementation otherwise, generated with exactly the includes, annotations and cfg flags given, in their order; `-` and no -o at all mean standard output; without an input, --header gives the text of cxx.h. Nothing else is written. A source that cannot be read, is no UTF-8, does not parse, has no bridge, has errors or depends on a cfg the flags leave open ends with code 1, a command line that makes no sense or contradicts itself with code 2, and then nothing is written anywhere. A #! line at the start of a source does not matter, whatever it says.",
  ["inputs", "configurations"], "every output name, include text, annotation, cfg flag and first line up to the stated lengths, every combination of outputs, and sources damaged at every place",
  "the tests compare the help text and a few parses of --cfg; no test runs the program on a command line and looks at what was written",
  ["gen/cmd/src/main.rs", "gen/cmd/src/app.rs", "gen/cmd/src/cfg.rs", "gen/cmd/src/output.rs", "gen/src/mod.rs", "gen/src/fs.rs"],
  [("try_main / Kind", "gen/cmd/src/main.rs"), ("from_args / arg_cfg", "gen/cmd/src/app.rs"), ("FlagsCfgEvaluator", "gen/cmd/src/cfg.rs"), ("generate_from_path / generate_from_string", "gen/src/mod.rs")])

p("C27", "Types shared across bridges are the same type, and allow what is done to them",
  "The type identifier of a bridge's struct, enum, opaque or aliased type is that of `type_id!` with its full C++ name, and two identifiers are the same exactly when the full names are, so an alias is accepted by rustc exactly when it names the same C++ type. An aliased type is asserted to be Trivial in Rust, and to be relocatable in C++, exactly when some use moves it by value through Rust, whatever else the bridge does with it; an opaque type of the bridge itself cannot be so used at all. Shared structs may not implement Drop in Rust, opaque Rust types are asserted to be Unpin and Sized, and opaque C++ types not to be Unpin.",
  ["inputs", "bridges"], "every name, namespace and renaming up to the stated sizes, every position a type can be used in, alone and beside another use of the same or another type",
  "the tests alias a handful of types and use each in one or two ways; the obligations depend on all uses in the bridge together",
  ["macro/src/type_id.rs", "macro/src/expand.rs", "syntax/trivial.rs", "gen/src/write.rs"],
  [("type_id / expand", "macro/src/type_id.rs"), ("expand_type_alias_verify / expand_extern_shared_struct / expand_forbid_drop", "macro/src/expand.rs"), ("required_trivial_reasons", "syntax/trivial.rs"), ("check_trivial_extern_type", "gen/src/write.rs")])

p("C28", "Rust code sees of a bridge exactly what the bridge declares",
  "Every C++ function or method of a bridge can be called from Rust under its name, as a free function or as a method of its receiver's type, with exactly the declared argument and result types and lifetimes, Result<T> becoming Result<T, cxx::Exception>, and with the declared attributes; calling it takes `unsafe` exactly if it was declared `unsafe fn`, and a function not so declared is refused unless its block or module is `unsafe`. Raw pointer arguments are accepted only on unsafe functions. A Rust function is called exactly once, with exactly the declared types and lifetimes, in an unsafe context exactly if declared `unsafe fn`, and one with lifetimes of its own is refused unless it is. Structs, enums and opaque types appear public with the declared fields, attributes and C layout, aliases and Rust types by the path they stand for, in a module with the declared name, visibility and attributes.",
  ["inputs", "bridges"], "every argument, result and receiver type, lifetime shape, attribute, safety and fallibility within the stated tables, and every combination of safety in a block",
  "the tests call functions whose declaration they already satisfy, which says nothing about calls that must be rejected, and cover few of the combinations of receiver, lifetimes, Result and unsafe",
  ["macro/src/expand.rs", "syntax/parse.rs", "syntax/tokens.rs", "syntax/check.rs"],
  [("expand_cxx_function_shim / expand_rust_function_shim_super / expand_struct / expand_cxx_type", "macro/src/expand.rs"), ("parse_foreign_mod", "syntax/parse.rs"), ("ToTokens for Signature and Type", "syntax/tokens.rs"), ("check_api_fn", "syntax/check.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
