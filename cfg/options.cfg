root ^Opts::
root __cxx_global_var_init
keep ^std::__cxx11::
keep ^std::(pair|allocator|unordered_map|char_traits|__new_allocator|istream::|basic_istream)
globals
noeh
alltypes
