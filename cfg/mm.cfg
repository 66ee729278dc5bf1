root ^void hif::(read|write)_mm_
keep ^(\w+ |.*\) |.*> )?std::(__cxx11|operator(==|!=|<<|\+)|transform|basic_|char_traits|allocator|ios_base|__new_alloc)
keep hif::error|^__gnu_cxx::__(ops|normal)
keep ^hif::Array<[^()]*>::(resize|~?Array)\(
globals
