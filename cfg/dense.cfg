root ^Dense<
keep hif_error|warning|^std::basic_|^std::vector
keep hif::Array<.*>::resize
keep ^void std::(sort|reverse|iota|fill)<
root _Iter_comp_iter<hif::SYEIG<.*>::operator\(\)
noeh
