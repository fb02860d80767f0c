// The Python module: what its functions, constructors and attributes do, for every argument.
#include "corpus.h"
#include "tgen.h"
namespace py = pybind11;
PYBIND11_MODULE(narsese, m);
static float sf(const char *n) { unsigned b = (unsigned)sx_sym(32, n); float f; __builtin_memcpy(&f, &b, 4); return f; }
static py::object get(const py::object &o, const char *n) { py::Result r = py::attribute(o, n); sx_check(r.ok, "an attribute of a value can be read"); return r.value; }
static std::string repr(const py::object &o) { py::Result r = py::method(o, "__repr__"); sx_check(r.ok && r.value.kind == py::object::STR, "every value has a repr"); return r.value.str; }
extern "C" int sx_main() {
  py::module_ m; sx_module(m); GLOBAL::time = 100;
#if MODE == 0
  // parse: a task that prints like the one the parser reads, or a RuntimeError; the module stays usable
  std::string in = edit(CORPUS[2 + sx_choose(NCORPUS - 2, "sentence")], 1 + THOROUGH, 1, "byte"); py::Result r = py::call("parse", {py::encode(in)}); Out o; pTask t = hx_parse(P(), in, o);
  sx_check(r.ok == (o == OK_TASK), "parse gives a task exactly for the texts the parser accepts");
  if (!r.ok) { sx_check(r.type == "RuntimeError", "a text that is not accepted raises a RuntimeError"); sx_check(!r.msg.empty(), "an error has a message"); REACH("error"); }
  else { sx_check(py::cls(r.value) && py::cls(r.value)->name == "Task", "parse gives a Task"); sx_check(repr(r.value) == "<Task: " + hx_print(*t) + ">", "the repr of a task is its text"); py::object s = get(r.value, "sentence"), x = get(r.value, "term"); sx_check(repr(s) == "<Sentence: " + INTERPRETER::interpreter.interpret(*t->sentence) + ">", "the repr of a sentence is its text");
    auto &te = *t->sentence->term; const char *mark = te.is_statement() ? "Statement" : te.is_compound() ? "Compound" : te.is_var ? "Variable" : "Term"; sx_check(repr(x) == std::string("<") + mark + ": " + hx_print(te) + ">", "the repr of a term is its kind and text"); REACH("task"); }
  py::Result again = py::call("parse", {py::encode("<p --> q>.")}); sx_check(again.ok && repr(get(again.value, "term")) == "<Statement: <p --> q>>", "after any text the next one is read as usual");
#elif MODE == 1
  // terms
  char nm[2]; sx_sym_bytes(nm, 2, "name"); for (char c : nm) { sx_assume(c >= 'a'); sx_assume(c <= 'z'); } std::string name(nm, 1 + sx_choose(2, "length")); py::Result a = py::construct("Term", {py::encode(name)}), a2 = py::construct("Term", {py::encode(name)}), b = py::construct("Term", {py::encode("B")}), n = py::construct("Term", {});
  sx_check(a.ok && a2.ok && b.ok && n.ok, "terms are built with or without a name"); sx_check(py::cast<pTerm>(a.value).get() == py::cast<pTerm>(a2.value).get() && py::cast<pTerm>(a.value).get() != py::cast<pTerm>(b.value).get(), "a name denotes one term"); sx_check(py::cast<pTerm>(a.value).get() == Term::create(name.c_str()).get(), "a name denotes one term"); sx_check(repr(a.value) == "<Term: " + name + ">", "the repr of an atom is its name");
  for (auto x : {a.value, n.value}) for (auto w : {"subject", "predicate", "terms", "copula"}) sx_check(get(x, w).is_none(), "an atom has no parts"); REACH("atom");
  int k = sx_choose(4, "what"); py::object cop = py::enumerator("Copula", "Similarity"), con = py::enumerator("Connector", sx_choose(2, "connector") ? "Product" : "Conjunction");
  if (k == 0) { py::Result s = py::construct("Statement", {a.value, cop, b.value}); sx_check(s.ok, "a statement is built of two terms and a copula"); sx_check(repr(s.value) == "<Statement: <" + name + " <-> B>>", "the repr of a statement is its text"); sx_check(repr(get(s.value, "subject")) == repr(a.value) && repr(get(s.value, "predicate")) == repr(b.value), "a statement has the subject and predicate it was built with"); py::object ts = get(s.value, "terms"); sx_check(ts.items.size() == 2 && py::cast<pTerm>(ts.items[0]).get() == py::cast<pTerm>(a.value).get() && py::cast<pTerm>(ts.items[1]).get() == py::cast<pTerm>(b.value).get(), "the terms of a statement are its subject and predicate"); sx_check(!py::construct("Statement", {a.value, con, b.value}).ok && py::construct("Statement", {a.value, b.value, cop}).type == "TypeError", "a statement needs a copula"); REACH("statement"); }
  else if (k == 1) { int c = sx_choose(3, "components") + 1; std::vector<py::object> v = {con, a.value}; if (c > 1) v.push_back(b.value); if (c > 2) v.push_back(a.value); py::Result s = py::construct("Compound", v); sx_check(s.ok, "a compound is built of a connector and any number of terms"); py::object ts = get(s.value, "terms"); bool set = con.num == Connector::Conjunction; sx_check((int)ts.items.size() == (set ? std::min(c, 2) : c), "the terms of a compound are its components"); for (auto &i : ts.items) { auto *p = py::cast<pTerm>(i).get(); sx_check(p == py::cast<pTerm>(a.value).get() || p == py::cast<pTerm>(b.value).get(), "the terms of a compound are its components"); } if (!set) for (int i = 0; i < c; i++) sx_check(py::cast<pTerm>(ts.items[i]).get() == py::cast<pTerm>(i == 1 ? b.value : a.value).get(), "the terms of a compound are its components in order"); sx_check(get(s.value, "subject").is_none() && get(s.value, "copula").is_none(), "a compound has no subject and no copula"); sx_check(py::construct("Compound", {a.value, b.value}).type == "TypeError", "a compound needs a connector"); REACH("compound"); }
  else if (k == 2) { py::Result s = py::construct("Statement", {a.value, cop, b.value}), q = py::construct("Compound", {con, s.value, a.value}); sx_check(s.ok && q.ok, "statements and compounds are terms"); py::Result w = py::construct("Statement", {q.value, cop, s.value}); sx_check(w.ok && get(w.value, "copula").num == Copula::Similarity, "statements and compounds are terms"); sx_check(repr(get(w.value, "predicate")) == "<Statement: <" + name + " <-> B>>", "a part of a term is shown as what it is"); REACH("nested"); }
  else { py::Result s = py::construct("Sentence", {a.value, py::enumerator("Punctuation", sx_choose(2, "quest") ? "Quest" : "Question"), py::object(), py::object()}); sx_check(s.ok, "a question or quest is built without a truth value"); std::string r = repr(s.value); sx_check(r.find("<Sentence: " + name + (s.ok && r.find('@') != std::string::npos ? "@" : "?")) == 0, "the repr of a sentence is its text"); py::Result tr = py::construct("Truth", {py::encode(1.0), py::encode(0.5)}), j = py::construct("Sentence", {a.value, py::enumerator("Punctuation", "Judgement"), tr.value, py::object()}); sx_check(j.ok && repr(j.value) == "<Sentence: " + name + ". %1.000;0.500%>", "a judgement is built with a truth value"); REACH("sentence"); }
#elif MODE == 2
  // truth values and budgets: numbers in, numbers out
  float f = sf("f"), c = sf("c"), k = sf("k"), q = sf("new"); for (float x : {f, c, k, q}) { sx_assume(x >= 0.0f); sx_assume(x <= 1.0f); } auto E = [](float x) { return py::encode(x); };
  py::Result t = py::construct("Truth", {E(f), E(c), E(k)}), d = py::construct("Truth", {E(f), E(c)}); sx_check(t.ok && d.ok, "a truth value is built of frequency, confidence and, optionally, horizon"); sx_check(get(t.value, "f").num == f && get(t.value, "c").num == c && get(t.value, "k").num == k, "a truth value has the numbers it was built with"); sx_check(get(d.value, "f").num == f && get(d.value, "c").num == c && get(d.value, "k").num == 1, "the horizon is one unless given"); sx_check(!py::construct("Truth", {E(f)}).ok, "a truth value needs a confidence");
  sx_check(get(t.value, "e").num == TRUTH::Truth(f, c, k).e(), "e is the expectation"); py::Result ql = py::call_static("Budget", "quality_from_truth", {t.value}); sx_check(ql.ok && ql.value.num == BUDGET::Budget::quality_from_truth(TRUTH::Truth(f, c, k)), "quality_from_truth is that of the truth value"); sx_check(!py::assign(t.value, "e", E(q)).ok, "e cannot be assigned");
  const char *W[] = {"f", "c", "k"}; int w = sx_choose(3, "field"); sx_check(py::assign(t.value, W[w], E(q)).ok, "the numbers of a truth value can be assigned"); for (int i = 0; i < 3; i++) sx_check(get(t.value, W[i]).num == (i == w ? q : i == 0 ? f : i == 1 ? c : k), "assigning a number changes that number only");
  py::Result b = py::construct("Budget", {E(f), E(c), E(k)}), b2 = py::construct("Budget", {E(f)}), b0 = py::construct("Budget", {}); sx_check(b.ok && b2.ok && b0.ok, "a budget is built of up to three numbers"); const char *V[] = {"p", "d", "q"}; sx_check(get(b.value, "p").num == f && get(b.value, "d").num == c && get(b.value, "q").num == k, "a budget has the numbers it was built with"); float def[3] = {0.9f, 0.9f, 0.5f}; for (int i = 0; i < 3; i++) { sx_check(get(b0.value, V[i]).num == def[i], "an omitted number of a budget is the default"); if (i) sx_check(get(b2.value, V[i]).num == def[i], "an omitted number of a budget is the default"); } sx_check(get(b2.value, "p").num == f, "a budget has the numbers it was built with");
  sx_check(py::assign(b.value, V[w], E(q)).ok, "the numbers of a budget can be assigned"); for (int i = 0; i < 3; i++) sx_check(get(b.value, V[i]).num == (i == w ? q : i == 0 ? f : i == 1 ? c : k), "assigning a number changes that number only"); REACH("numbers");
  py::Result c1 = py::construct("Truth", {py::encode(0.25), py::encode(0.5)}), c2 = py::construct("Budget", {py::encode(0.25), py::encode(0.5), py::encode(0.75)}); sx_check(repr(c1.value) == "<Truth: %0.25, 0.50% (k=1)>" && repr(c2.value) == "<Budget: $0.25;0.50;0.75$>", "the repr of a truth value or budget shows its numbers");
  sx_check(py::attributes().count("parser") == 1 && !py::attributes()["parser"].is_none(), "the module has its parser");
#endif
  return 0;
}
