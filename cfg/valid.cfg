root ^Valid<
root check_validity.*lambda.*operator\(\)
root wrap_const_c.*lambda.*operator\(\)
keep hif_error|warning|^std::basic_|^std::vector
keep std::is_sorted
noeh
