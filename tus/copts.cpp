// instantiation unit: parameter array of the C interface
#include "libhifir/src/libhifir.cpp"
struct COpts {
  static hif::Params create(const double *params) { return libhifir_impl::create_params(params); }
};
hif::Params (*q0)(const double *) = &COpts::create;
// positions and codes, folded by the compiler
extern const int lhf_pos[] = {LHF_DROPTOL_L, LHF_DROPTOL_U, LHF_COND_D, LHF_COND, LHF_ALPHA_L, LHF_ALPHA_U, LHF_VERBOSE, LHF_REORDER, LHF_SYMMPRELVLS, LHF_THREADS, LHF_RRQR_COND, LHF_PIVOT, LHF_BETA, LHF_ISSYMM, LHF_NOPRE, LHF_NZP_THRES, LHF_DENSE_THRES, LHF_NUMBER_PARAMS};
extern const int lhf_codes[] = {LHF_VERBOSE_NULL, LHF_VERBOSE_INFO, LHF_VERBOSE_PRE, LHF_VERBOSE_FAC, LHF_VERBOSE_PRE_TIME, LHF_VERBOSE_MEM, LHF_REORDER_OFF, LHF_REORDER_AUTO, LHF_REORDER_AMD, LHF_REORDER_RCM, LHF_PIVOTING_OFF, LHF_PIVOTING_ON, LHF_PIVOTING_AUTO};
extern const int core_codes[] = {hif::VERBOSE_NONE, hif::VERBOSE_INFO, hif::VERBOSE_PRE, hif::VERBOSE_FAC, hif::VERBOSE_PRE_TIME, hif::VERBOSE_MEM, hif::REORDER_OFF, hif::REORDER_AUTO, hif::REORDER_AMD, hif::REORDER_RCM, hif::PIVOTING_OFF, hif::PIVOTING_ON, hif::PIVOTING_AUTO};
extern const int base_codes[] = {HIF_VERBOSE_NONE, HIF_VERBOSE_INFO, HIF_VERBOSE_PRE, HIF_VERBOSE_FAC, HIF_VERBOSE_PRE_TIME, HIF_VERBOSE_MEM, HIF_REORDER_OFF, HIF_REORDER_AUTO, HIF_REORDER_AMD, HIF_REORDER_RCM, HIF_PIVOTING_OFF, HIF_PIVOTING_ON, HIF_PIVOTING_AUTO};
