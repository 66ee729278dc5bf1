keep ^[^(]*std::lower_bound<
root ^[^(]*hif::(Pivot)?Crout(Base)?::(compute_|update_|scale_|defer_entry|symm_|_load_)
root ^[^(]*hif::compute_Schur_simple<.*SparseVector
root ^[^(]*hif::internal::extract_perm_diag<
root ^[^(]*hif::internal::extract_[EF]<
root ^[^(]*hif::apply_(num|space)_dropping<
root ^[^(]*hif::internal::drop_offsets_kernel<
keep ^[^(]*(hif_error|warning|hif::info|hif::error|hif_info)
keep ^[^(]*hif::SparseVector<[^(]*::
keep ^[^(]*hif::IndexValueArray<[^(]*::
keep ^[^(]*hif::Array<[^(]*::(resize|reserve|operator=|Array|~Array)
keep ^[^(]*hif::(CRS|CCS|internal::CompressedStorage)<[^(]*>::(resize|reserve|CRS|CCS|~|begin_|end_)
noeh
