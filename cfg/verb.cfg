root ^[^(]*hif::HIF<[^(]*>::factorize<
root ^[^(]*hif::HIF<[^(]*>::_factorize_kernel<
root ^hif::C[RC]S<[a-z:<>]*, int, long> hif::[a-z_]*level_factorize<
root ^[^(]*hif::(do_preprocessing|run_amd|run_rcm)<
root ^[^(]*hif::do_maching<
root ^[^(]*hif::EqlDriver<[^(]*::do_matching
root ^[^(]*hif::(QRCP|LUP|SYEIG)<[^(]*>::(re)?factorize
keep ^[^(]*(hif_error|warning|hif::info|hif::error|hif_info)
keep ^[^(]*hif::internal::(StdoutStruct|StderrStruct|DummyStreamer)
keep ^[^(]*std::basic_
keep ^[^(]*hif::(Pivot)?Crout(Base)?::(update_|defer_entry|symm_|compute_[a-z]|scale_|apply_thres)
keep ^[^(]*hif::(internal::|mt::)?(apply_num_dropping|apply_space_dropping|extract_\w+|drop_\w+|compute_\w+|compress_tails?|make_transpose)[<(]
keep ^[^(]*std::vector<[^(]*emplace_back
keep ^[^(]*hif::BiPermMatrix<[^(]*(build_inv|make_eye|resize)
keep ^[^(]*hif::Array<[^(]*::(resize|reserve|operator=|Array|~Array)
keep ^[^(]*hif::(CRS|CCS|AugCRS|AugCCS|DenseMatrix|internal::CompressedStorage)<[^(]*>::
keep ^[^(]*hif::(SparseVector|IndexValueArray)<[^(]*::(sort|restore|reset|assign|push|SparseVector|IndexValueArray)
keep ^[^(]*std::(sort|replace_if)
keep ^[^(]*hif::(amd::AMD|rcm::RCM)<[^(]*::(order|apply)
keep ^[^(]*hif::eql::
noeh
