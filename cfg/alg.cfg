root ^void hif::prec_(solve|prod)
keep ::multiply_(mrhs_)?(nt|t)_low
keep ::solve_as_strict_
keep ::(QRCP|LUP|SYEIG)<.*>::
keep hif_error|warning|^hif::internal::SmallScaleBase
keep ^std::basic_|^std::vector
keep __divdc3
noeh
