root ^Refine<
keep hif_error|warning|^std::basic_|^std::vector
keep hif::Array<.*>::resize
keep ::multiply_(mrhs_)?(nt|t)_low
keep hif::mt::multiply_
keep hif::HIF<.*>::solve
keep hif::HIF<.*>::(ncols|nrows)
keep norm2
keep ^std::function<.*>::operator\(\)
noeh
