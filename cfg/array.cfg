root std::swap<|hif::Array<.*>::|hif::steal|hif::wrap|hif::error\(
keep ^std::|hif_error|__gnu
keep ^hif::Array<[^()]*>::~?Array\(
globals
