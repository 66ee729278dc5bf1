root ^lhf
keep hif_error|warning|^std::
keep hif::Array<.*>::(resize|~?Array|from_mm)
keep hif::HIF<[^()]*>::(factorize|solve|hifir|mmultiply|HIF|~HIF|empty|nnz|stats|levels|rank|schur_rank|schur_size|nrows|ncols)(<.*>)?\(
keep hif::(CRS|CCS)<.*>::(from_mm|~?CRS|~?CCS)
keep hif::wrap_const
keep hif::internal::mm_read_
keep libhifir_impl::create_params
globals
noeh
keep std::copy<
