root ^COpts::
root ^lhfSet
keep ^std::
keep ^hif::HIF<
noeh
