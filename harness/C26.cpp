// Intervals: numbers that are terms.
#include "hx.h"
#include "tgen.h"
extern "C" int sx_main() {
  int a = (int)sx_sym(32, "a"), b = (int)sx_sym(32, "b");
#if MODE == 0
  Interval x(a), y(b); sx_check((int)x == a && x.interval == a, "an interval has the number it was given"); sx_check(x.is_interval && x.is_atom() && !x.is_var && !x.has_var && x.complexity == 1 && x.is_hashed, "an interval is an atom and nothing else");
  sx_check((x == y) == (a == b), "intervals are equal exactly when their numbers are"); sx_check((x.hash_value == y.hash_value) == (a == b), "the hash of an interval is determined by its number"); sx_check((x < y || y < x) == (a != b), "of two different intervals exactly one precedes"); sx_check(!(x < y && y < x), "an order is asymmetric"); if (a == b) REACH("equal"); else REACH("different");
  Interval z(x); sx_check(z == x && z.interval == a, "a copy of an interval is equal to it"); z = y; sx_check(z == y && z.interval == b && z.hash_value == y.hash_value, "an assigned interval is equal to its source"); sx_check(x.interval == a, "copying leaves the source alone");
#elif MODE == 1
  long long s = (long long)a + b; sx_assume(s >= INT32_MIN); sx_assume(s <= INT32_MAX);
  Interval x(a), y(b), z = x + y; sx_check(z.interval == s, "the sum of two intervals is the sum of their numbers"); sx_check(z == *N((int)s) && z.hash_value == N((int)s)->hash_value && z.is_interval, "a sum is the interval of that number"); sx_check(x.interval == a && y.interval == b, "adding leaves the summands alone"); sx_check(x.hash_value == Interval(a).hash_value && y.hash_value == Interval(b).hash_value, "adding leaves the summands alone");
  sx_check((y + x) == z, "addition of intervals is commutative"); Interval &r = (x += y); sx_check(&r == &x && x.interval == s && x == z && x.hash_value == z.hash_value, "adding in place changes the number and the hash"); sx_check(y.interval == b, "adding leaves the summands alone"); REACH("sum");
  if (a == b) { Interval w(a); w += w; sx_check(w.interval == s && w == z, "an interval can be added to itself"); REACH("doubled"); }
#elif MODE == 2
  // inside terms: sequences that differ in one interval are different, equal ones are equal
  sx_assume(a >= 0); sx_assume(b >= 0); sx_assume(a < (THOROUGH ? 1000 : 100)); sx_assume(b < 100);
  pTerm k = A("k"), x = K(Connector::SequentialEvents, {k, N(a)}), y = K(Connector::SequentialEvents, {k, N(b)}), u = K(Connector::Conjunction, {N(a), N(b)});
  sx_check((*x == *y) == (a == b), "terms that differ only in an interval are equal exactly when the intervals are"); sx_check(u->terms->size() == (a == b ? 1u : 2u), "equal intervals are one component"); REACH("terms");
  Out o; pTask t = hx_parse(P(), "(&/, k, +" + itos(a) + ").", o); sx_check(o == OK_TASK && *t->sentence->term == *x, "a written interval is the interval of that number"); sx_check(hx_print(*N(a)) == "+" + itos(a), "an interval is printed as its number"); REACH("written");
#endif
  return 0;
}
