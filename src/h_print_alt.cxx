// the same conversion built with the multiplication-avoiding code path
#define ERTHINK_D2A_AVOID_MUL 1
#include "fast_positive/erthink/erthink_d2a.h"
#include "print_alt.h"
namespace {
template <bool A> char *run(const double &v, char *b) {
  // a printer type of its own: no symbol is shared with the other unit
  struct P : public erthink::grisu::ieee754_default_printer<A> {
    using erthink::grisu::ieee754_default_printer<A>::ieee754_default_printer;
  } p(b, b + 23);
  erthink::grisu::convert(p, v);
  return p.finalize_and_get().second;
}
} // namespace
char *alt_d2a_accurate(const double &v, char *b) { return run<true>(v, b); }
char *alt_d2a_fast(const double &v, char *b) { return run<false>(v, b); }
