// instantiation unit: option tables and their users
#include <istream>
#include "hif/Options.h"
struct Opts {
  static bool set_d(const std::string &a, double v, hif::Options &o) { return hif::set_option_attr(a, v, o); }
  static bool set_i(const std::string &a, int v, hif::Options &o) { return hif::set_option_attr(a, v, o); }
  static bool setp_d(const std::string &a, double v, hif::Options &o) { return hif::set_param_attr(a, v, o); }
  static void read(std::istream &s, hif::Options &o) { s >> o; }
  static hif::Options defaults() { return hif::get_default_options(); }
  static hif::Options defaults_p() { return hif::get_default_params(); }
  static void verbose(int f, hif::Options &o) { hif::enable_verbose(f, o); }
  static std::string name(const hif::Options &o) { return hif::get_verbose(o); }
  static const bool *dtypes() { return hif::internal::option_dtypes; }
  static const char *reorder(const hif::Options &o) { return hif_get_reorder_name(&o); }
};
bool (*p0)(const std::string &, double, hif::Options &) = &Opts::set_d;
bool (*p1)(const std::string &, int, hif::Options &) = &Opts::set_i;
bool (*p2)(const std::string &, double, hif::Options &) = &Opts::setp_d;
void (*p3)(std::istream &, hif::Options &) = &Opts::read;
hif::Options (*p4)() = &Opts::defaults;
hif::Options (*p5)() = &Opts::defaults_p;
void (*p6)(int, hif::Options &) = &Opts::verbose;
std::string (*p7)(const hif::Options &) = &Opts::name;
const char *(*p8)(const hif::Options &) = &Opts::reorder;
const bool *(*p9)() = &Opts::dtypes;
const std::unordered_map<std::string, int> &tags() { return hif::internal::option_tag2pos; }
