// iostream pieces that depend on locales: replaced by "C"-locale equivalents, defined under the library's symbol names.
#include <ios>
#include <ostream>
#include <streambuf>
#include <cstdint>
#include <cstring>
extern "C" {
void _ZNSt8ios_baseC2Ev(void *) {}
void _ZNSt8ios_baseD2Ev(void *) {}
// a locale without facets: flags as for "C"; std::locale::_Impl is {refcount, facets, ...}
static void *sx_facets[64]; static struct { long refs; void **facets; void *rest[8]; } sx_impl = {1, sx_facets, {}};
void _ZNSt6localeC1Ev(void *p) { *(void **)p = &sx_impl; }
void _ZNSt6localeC1ERKS_(void *p, const void *) { *(void **)p = &sx_impl; }
void _ZNSt6localeD1Ev(void *) {}
void *_ZNSt6localeaSERKS_(void *p, const void *) { *(void **)p = &sx_impl; return p; }
void _ZSt21ios_base_library_initv() {}
uint64_t _ZNKSt6locale2id5_M_idEv(const void *) { return 0; }
void sx_check(bool, const char *);
}
struct IosBaseAcc : std::ios_base {
  static void setup(std::ios_base *p) { auto q = (IosBaseAcc *)p; q->_M_flags = std::ios_base::skipws | std::ios_base::dec; q->_M_precision = 6; q->_M_width = 0; _ZNSt6localeC1Ev(&q->_M_ios_locale); }
};
extern "C" void _ZNSt8ios_base7_M_initEv(std::ios_base *p) { IosBaseAcc::setup(p); }
struct IosAcc : std::basic_ios<char> {
  static void setup(std::basic_ios<char> *p, std::streambuf *sb) {
    auto q = (IosAcc *)p; q->flags(std::ios_base::skipws | std::ios_base::dec); q->precision(6); q->width(0);
    q->_M_fill = ' '; q->_M_fill_init = true; q->_M_tie = 0; q->_M_exception = std::ios_base::goodbit; q->_M_streambuf = sb; q->_M_streambuf_state = sb ? std::ios_base::goodbit : std::ios_base::badbit; q->_M_ctype = 0; q->_M_num_put = 0; q->_M_num_get = 0;
  }
};
extern "C" {
void _ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E(std::basic_ios<char> *p, std::streambuf *sb) { IosAcc::setup(p, sb); }
void _ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate(std::basic_ios<char> *p, int st) {}
static std::ostream *num(std::ostream *o, bool neg, uint64_t v, uint64_t raw) {
  char b[24]; int i = 24; auto f = o->flags() & std::ios_base::basefield; unsigned base = f == std::ios_base::hex ? 16 : f == std::ios_base::oct ? 8 : 10; if (base != 10) { v = raw; neg = false; }
  do { unsigned d = v % base; b[--i] = d < 10 ? '0' + d : 'a' + d - 10; v /= base; } while (v);
  if (neg) b[--i] = '-';
  else if (base == 10 && (o->flags() & std::ios_base::showpos)) b[--i] = '+';
  o->rdbuf()->sputn(b + i, 24 - i); return o;
}
std::ostream *_ZNSo9_M_insertIlEERSoT_(std::ostream *o, long v) { return num(o, v < 0, v < 0 ? 0 - (uint64_t)v : v, v); }
std::ostream *_ZNSo9_M_insertImEERSoT_(std::ostream *o, unsigned long v) { return num(o, false, v, v); }
std::ostream *_ZNSo9_M_insertIxEERSoT_(std::ostream *o, long long v) { return num(o, v < 0, v < 0 ? 0 - (uint64_t)v : v, v); }
std::ostream *_ZNSo9_M_insertIyEERSoT_(std::ostream *o, unsigned long long v) { return num(o, false, v, v); }
std::ostream *_ZNSo9_M_insertIbEERSoT_(std::ostream *o, bool v) { return num(o, false, v, v); }
}
