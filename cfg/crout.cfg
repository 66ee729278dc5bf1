root ^hif::Prec<double, int, long, [^(]*>::Prec\(unsigned long, unsigned long
root ^hif::C[RC]S<[a-z:<>]*, int, long> hif::[a-z_]*level_factorize<.*, int\*?\)$
keep ^[^(]*(hif_error|warning|hif::info|hif::error|hif_info)
keep ^[^(]*std::basic_
keep ^[^(]*hif::(Pivot)?Crout(Base)?::(update_|defer_entry|symm_|compute_[a-z]|scale_|apply_thres)
keep ^[^(]*hif::(internal::|mt::)?(apply_num_dropping|apply_space_dropping|do_preprocessing|extract_\w+|drop_\w+|compute_\w+|compress_tails?|make_transpose|print_post_flag)[<(]
keep ^[^(]*std::vector<[^(]*emplace_back
keep ^[^(]*hif::BiPermMatrix<[^(]*(build_inv|make_eye|resize)
keep ^[^(]*hif::Array<[^(]*::(resize|reserve|operator=|Array|~Array)
keep ^[^(]*hif::(CRS|CCS|AugCRS|AugCCS|DenseMatrix|internal::CompressedStorage)<[^(]*>::
keep ^[^(]*hif::(SparseVector|IndexValueArray)<[^(]*::(sort|restore|reset|assign|push|SparseVector|IndexValueArray)
keep ^[^(]*std::(sort|replace_if|(min|max)_element)
keep ^[^(]*hif::(SmallScale\w*|DenseSolver\w*|QRCP|LUP|SYEIG)<
noeh
