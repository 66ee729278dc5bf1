root ^LpC?<
keep hif_error|warning|^std::basic_
keep hif::Array<.*>::resize
keep ^void std::(sort|reverse|iota|fill)<
noeh
