root ^(void )?Kern(Range)?<
keep hif_error|warning
keep ^std::basic_|^std::vector
noeh
