// The name dictionary: any history of put, erase, remove and reset over a few entries, against a model.
#include "hx.h"
#include "tgen.h"
using INTERPRETER::Interpreter;
#ifndef NK
#define NK 3
#endif
struct Entry { size_t key; std::string name; int count; pTerm *obj; std::weak_ptr<Term> w; };
static Interpreter *in; static Entry e[NK];
static void compare() {
  size_t n = 0;
  for (auto &x : e) {
    bool there = x.count > 0; n += there;
    sx_check(in->check(x.key) == there, "a key is known exactly while it was put and not removed"); sx_check(in->check_by_name(x.name) == there, "a name is known exactly while its key is");
    sx_check(in->check_count(x.key) == x.count, "the count of a key is the number of times it was put less the number of times it was erased");
    if (there) { sx_check(in->get(x.key) == x.name, "a key has the name it was put with"); sx_check(in->get_by_name(x.name) == x.key, "a name has the key it was put with"); sx_check(in->get_object(x.key) == x.obj, "a key has the object it was put with"); sx_check(*x.obj != nullptr && x.w.lock() != nullptr, "the object of a known key is alive"); }
    else sx_check(x.w.expired(), "the object of a removed key is released");
  }
  sx_check(in->dictionary.size() == n && in->dictionary_inv.size() == n && in->objects.size() == n && in->count.size() == n, "every part of the dictionary has exactly the known keys");
}
static void put(Entry &x) { if (x.count == 0) { x.obj = new pTerm(new Variable(VarPrefix::Independent, "$v")); x.w = *x.obj; } in->put(x.key, x.name, x.obj); x.count++; }
extern "C" int sx_main() {
  { pTerm warm = A("warm"); }
  size_t live = sx_live_heap(); in = new Interpreter; size_t k[NK];
  static const char *NAME[4] = {"m", "a", "zz", "b"};
  for (int i = 0; i < NK; i++) { k[i] = sx_sym(64, ("key" + itos(i)).c_str()); if (i) sx_assume(k[i - 1] < k[i]); e[i].key = k[i]; e[i].name = NAME[i]; e[i].count = 0; e[i].obj = nullptr; }   // every order of the names over the keys
  int perm = sx_choose(NK, "names"); for (int i = 0; i < NK; i++) e[i].name = NAME[(i + perm) % NK];
  bool was_reset = false;
  for (int s = 0; s < STEPS; s++) {
    int op = sx_choose(5, "op"); Entry &x = e[op == 4 ? 0 : sx_choose(NK, "on")];
    switch (op) {
    case 0: put(x); REACH("put"); break;
    case 1: { bool r = in->erase(x.key); sx_check(r == (x.count > 0), "erase reports whether the key was known"); if (x.count > 0) { x.count--; REACH("erased"); } break; }
    case 2: { bool r = in->remove(x.key); sx_check(r == (x.count > 0), "remove reports whether the key was known"); x.count = 0; if (r) REACH("removed"); break; }
    case 3: { bool r = in->remove_by_name(x.name); sx_check(r == (x.count > 0), "removing by name reports whether the name was known"); x.count = 0; if (r) REACH("removed by name"); break; }
    default: in->reset(); for (auto &y : e) y.count = 0; was_reset = true; REACH("reset");
    }
    compare();
  }
  delete in; for (auto &x : e) { sx_check(x.w.expired(), "destroying the dictionary releases its objects"); x.w.reset(); x.name = std::string(); }
  sx_check(sx_live_heap() <= live, "a destroyed dictionary leaves no memory behind"); REACH("destroyed");
  return 0;
}
