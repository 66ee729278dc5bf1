root ^[^(]*hif::apply_(num|space)_dropping<
root ^[^(]*hif::internal::drop_offsets_kernel<
root ^[^(]*hif::drop_(L_E|U_F)<
root ^[a-z]+ hif::(internal::|mt::)?(apply_space|drop_)[^(]*\(.*'lambda[0-9]*'\([^)]*\)::operator\(\)
root \.omp_outlined
root ^[^(]*hif::mt::drop_
keep ^[^(]*(hif_error|warning|hif::info|hif::error|hif_info)
keep ^[^(]*std::(nth_element|max_element|min_element|sort|stable_sort|partial_sort|partition|iter_swap|copy|copy_n|move|fill|fill_n|transform)<
keep ^[^(]*hif::mt::drop_
keep ^[^(]*hif::(internal::)?(drop_L_E|drop_U_F|drop_offsets_kernel)<
keep ^[^(]*hif::SparseVector<[^(]*::(mark_delete|compress_indices|val|reset_counter|push_back|sort_indices)
keep ^[^(]*hif::IndexValueArray<[^(]*::(val|reset_counter|push_back|sort_indices)
keep ^[^(]*hif::Array<[^(]*::(resize|reserve|operator=|Array|~Array)
noeh
