// The enumerators of the Python module stand for what their names and texts say.
#include "hx.h"
#include "ref.h"
namespace py = pybind11;
PYBIND11_MODULE(narsese, m);
struct Named { const char *name, *text; int value; };
static const Named CON[] = {{"Conjunction", "&&", Connector::Conjunction}, {"Disjunction", "||", Connector::Disjunction}, {"Product", "*", Connector::Product}, {"ParallelEvents", "&|", Connector::ParallelEvents}, {"SequentialEvents", "&/", Connector::SequentialEvents}, {"IntensionalIntersection", "|", Connector::IntensionalIntersection}, {"ExtensionalIntersection", "&", Connector::ExtensionalIntersection}, {"ExtensionalDifference", "-", Connector::ExtensionalDifference}, {"IntensionalDifference", "~", Connector::IntensionalDifference}, {"Negation", "--", Connector::Negation}, {"IntensionalSet", "[", Connector::IntensionalSet}, {"ExtensionalSet", "{", Connector::ExtensionalSet}, {"IntensionalImage", "\\", Connector::IntensionalImage}, {"ExtensionalImage", "/", Connector::ExtensionalImage}, {"List", "#", Connector::List}};
static const Named COP[] = {{"Inheritance", "-->", Copula::Inheritance}, {"Similarity", "<->", Copula::Similarity}, {"Instance", "{--", Copula::Instance}, {"Property", "--]", Copula::Property}, {"InstanceProperty", "{-]", Copula::InstanceProperty}, {"Implication", "==>", Copula::Implication}, {"PredictiveImplication", "=/>", Copula::PredictiveImplication}, {"ConcurrentImplication", "=|>", Copula::ConcurrentImplication}, {"RetrospectiveImplication", "=\\>", Copula::RetrospectiveImplication}, {"Equivalence", "<=>", Copula::Equivalence}, {"PredictiveEquivalence", "</>", Copula::PredictiveEquivalence}, {"ConcurrentEquivalence", "<|>", Copula::ConcurrentEquivalence}};
static const Named PUN[] = {{"Judgement", ".", 0}, {"Question", "?", 1}, {"Goal", "!", 2}, {"Quest", "@", 3}};
template <int N> static void table(const char *e, const Named (&t)[N], int i) {
  auto &v = py::enums()[e].values; sx_check((int)v.size() == N, "an enumeration has every enumerator and no other"); py::object o = py::enumerator(e, t[i].name); sx_check(o.kind == py::object::ENUM, "an enumerator has its documented name"); if (o.kind != py::object::ENUM) return;
  sx_check((int)o.num == t[i].value, "an enumerator stands for what its name says"); for (auto &x : v) sx_check(x.first == t[i].name || x.second.num != o.num, "two enumerators stand for different things");
  for (size_t k = 0; k < v.size(); k++) if (v[k].first == t[i].name) sx_check(py::enums()[e].docs[k] == t[i].text, "an enumerator is documented with its text");
}
extern "C" int sx_main() {
  py::module_ m; sx_module(m);
#if MODE == 0
  switch (sx_choose(3, "enumeration")) {
  case 0: table("Connector", CON, sx_choose(15, "connector")); REACH("connector"); break;
  case 1: { int i = sx_choose(12, "copula"); table("Copula", COP, i);
    py::Result t = py::call("parse", {py::encode(std::string("<a ") + COP[i].text + " b>.")}); sx_check(t.ok, "the text of a copula is read"); if (!t.ok) break; py::Result c = py::attribute(py::attribute(t.value, "term").value, "copula"); bool set = i >= Copula::Instance && i <= Copula::InstanceProperty;
    sx_check(c.ok && c.value.kind == py::object::ENUM && c.value.tag == py::enumerator("Copula", "Inheritance").tag && c.value.num == py::enumerator("Copula", set ? "Inheritance" : COP[i].name).num, "the copula of a statement that was read is the enumerator with its text"); REACH("copula"); break; }
  default: table("Punctuation", PUN, sx_choose(4, "punctuation")); REACH("punctuation"); }
#elif MODE == 1
  // building with an enumerator is writing its text
  py::Result a = py::construct("Term", {py::encode("a")}), b = py::construct("Term", {py::encode("b")}); sx_check(a.ok && b.ok, "terms are built by name"); if (!a.ok || !b.ok) return 0;
  if (sx_choose(2, "what") == 0) {
    int i = sx_choose(14, "connector"); bool one = i == Connector::Negation, set = i == Connector::ExtensionalSet || i == Connector::IntensionalSet; std::vector<py::object> v = {py::enumerator("Connector", CON[i].name), a.value}; if (!one) v.push_back(b.value);
    py::Result t = py::construct("Compound", v); sx_check(t.ok, "a compound is built with a connector and terms"); if (!t.ok) return 0; std::string s = set ? CON[i].text : std::string("(") + CON[i].text + ", "; py::Result r = py::method(t.value, "__repr__"); sx_check(r.ok, "repr"); if (!r.ok) return 0;
    std::string close = set ? (i == Connector::ExtensionalSet ? "}" : "]") : ")"; sx_check(r.value.str == "<Compound: " + s + (one ? "a" : "a, b") + close + ">" || (CONS[i].comm && r.value.str == "<Compound: " + s + "b, a" + close + ">"), "a compound built with an enumerator has its connector"); REACH("compound");
  } else {
    int i = sx_choose(12, "copula"); py::Result t = py::construct("Statement", {a.value, py::enumerator("Copula", COP[i].name), b.value}); sx_check(t.ok, "a statement is built with terms and a copula"); if (!t.ok) return 0; py::Result r = py::method(t.value, "__repr__"), c = py::attribute(t.value, "copula"); sx_check(r.ok && r.value.str == std::string("<Statement: <a ") + COP[i].text + " b>>", "a statement built with an enumerator has its copula"); sx_check(c.ok && c.value.num == COP[i].value, "the copula of a statement is the enumerator it was built with"); REACH("statement");
  }
#endif
  return 0;
}
