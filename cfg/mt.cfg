root ^part
root \.omp_outlined
root ^[^(]*hif::mt::(multiply|drop_|compute_)
keep ^[^(]*(hif_error|warning|hif::info|hif::error|hif_info)
keep ^[^(]*hif::mt::(multiply|drop_|compute_)
keep ^[^(]*std::(sort|nth_element|__introselect|basic_)
keep ^[^(]*hif::CRS<[^(]*::multiply_
keep ^[^(]*hif::(drop_L_E|drop_U_F|compute_Schur_simple)
keep ^[^(]*hif::SparseVector<[^(]*::
keep ^[^(]*hif::IndexValueArray<[^(]*::
keep ^[^(]*hif::Array<[^(]*::(resize|reserve|operator=|Array|~Array)
keep ^[^(]*hif::(CRS|CCS|internal::CompressedStorage)<[^(]*>::(resize|reserve|CRS|CCS|~)
noeh
