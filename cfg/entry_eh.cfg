root ^Entry<
keep hif_error|warning|^std::basic_|^std::vector
keep hif::Array<.*>::resize
keep ^void hif::prec_(solve|prod)
keep hif::compute_prec_work_space|unsigned long hif::compute_prec_work_space
keep hif::NspFilter::filter
keep hif::IterRefine<.*>::iter_refine
keep ::_factorize_kernel
keep ^std::__cxx11::(list|_List_base)<
keep check_validity
keep norm2
keep ^(void )?hif::(mt::)?multiply
keep get_nthreads
