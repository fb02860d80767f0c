// Every notation of the same content is read as the same term.
#include "ref.h"
static std::string ins(const std::string &s, const char *sp) { std::string r; for (char c : s) { if (c == ' ') r += sp; else r += c; } return r; }
// two texts of one content must give equal terms with the structure of that content
static void same(const Ex &e, const std::string &a, const std::string &b) {
  Out o1, o2; pTask t1 = hx_parse(P(), a + ".", o1), t2 = hx_parse(P(), b + ".", o2);
  sx_check(o1 == OK_TASK && o2 == OK_TASK, "every documented notation is accepted");
  if (o1 != OK_TASK || o2 != OK_TASK) return;
  Term &x = *t1->sentence->term, &y = *t2->sentence->term;
  sx_check(match(normal(meaning(e)), x) && match(normal(meaning(e)), y), "every notation has the structure of its content");
  sx_check(x == y && y == x, "two notations of one content give equal terms");
  sx_check(hx_print(x) == hx_print(y), "two notations of one content are rendered alike");
  sx_check(x.is_operation == y.is_operation && x.is_higher_order == y.is_higher_order && x.complexity == y.complexity && x.has_var == y.has_var, "two notations of one content give terms of the same kind");
  REACH("same");
}
static Ex part(int k) {
  switch (k) { case 0: return atom("a"); case 1: return ivar("x"); case 2: return dvar("x"); case 3: return qvar("z"); case 4: return num(3); case 5: return cmp(Connector::ExtensionalSet, {atom("a"), atom("b")}); case 6: return stm(atom("a"), Copula::Inheritance, ivar("x"));
    case 7: return cmp(Connector::Product, {atom("a"), atom("c")}); case 8: return cmp(Connector::Conjunction, {atom("a"), dvar("x")}); case 9: return opst("op", {atom("a")}); case 10: return cmp(Connector::IntensionalSet, {atom("b")}); default: return opr("op"); }
}
constexpr int NPART = 12;
extern "C" int sx_main() {
  Ex a = part(sx_choose(NPART, "a")), b = part(sx_choose(NPART, "b")), c = atom("c");
  std::string A = text(a), B = text(b);
  int k = sx_choose(8, "notation");
  if (k == 0) {            // infix = prefix
    static const Connector K[] = {Connector::Product, Connector::Disjunction, Connector::Conjunction, Connector::SequentialEvents, Connector::ParallelEvents, Connector::IntensionalIntersection, Connector::ExtensionalIntersection, Connector::ExtensionalDifference, Connector::IntensionalDifference};
    int i = sx_choose(9, "connector"); std::string op = con_str(K[i]); bool three = i < 7 && sx_choose(2, "three");
    Ex e = cmp(K[i], three ? std::vector<Ex>{a, b, c} : std::vector<Ex>{a, b});
    same(e, "(" + A + " " + op + " " + B + (three ? " " + op + " c" : "") + ")", text(e));
  } else if (k == 1) {     // products: (a, b) = (*, a, b)
    if (a.k == OPR) return 0;   // (^op, b) is an operation
    Ex e = cmp(Connector::Product, {a, b, c}); same(e, "(" + A + ", " + B + ", c)", text(e)); Ex d = cmp(Connector::Product, {a, b}); same(d, "(" + A + ", " + B + ")", text(d));
  } else if (k == 2) {     // operations: op(a, b) = (^op, a, b) = <(*, a, b) --> ^op>
    int n = 1 + sx_choose(3, "arguments"); std::string l = n == 1 ? A : n == 2 ? A + ", " + B : A + ", " + B + ", c"; Ex e = opst("go", n == 1 ? std::vector<Ex>{a} : n == 2 ? std::vector<Ex>{a, b} : std::vector<Ex>{a, b, c});
    std::string s = "go(" + l + ")"; same(e, s, "(^go, " + l + ")"); same(e, s, "<(*, " + l + ") --> ^go>");
  } else if (k == 3) {     // statements: (a --> b) = <a --> b>
    auto &cp = COPS[sx_choose(12, "copula")]; Ex e = stm(a, cp.v, b); same(e, "(" + A + " " + cp.s + " " + B + ")", "<" + A + " " + cp.s + " " + B + ">");
  } else if (k == 4) {     // negation: --a = (--, a)
    Ex e = cmp(Connector::Negation, {a}); same(e, "--" + A, "(--, " + A + ")"); Ex d = cmp(Connector::Negation, {e}); same(d, "--(--, " + A + ")", "(--, --" + A + ")");
  } else if (k == 5) {     // instance and property copulas abbreviate inheritance with sets
    same(stm(cmp(Connector::ExtensionalSet, {a}), Copula::Inheritance, b), "<" + A + " {-- " + B + ">", "<{" + A + "} --> " + B + ">");
    same(stm(a, Copula::Inheritance, cmp(Connector::IntensionalSet, {b})), "<" + A + " --] " + B + ">", "<" + A + " --> [" + B + "]>");
    same(stm(cmp(Connector::ExtensionalSet, {a}), Copula::Inheritance, cmp(Connector::IntensionalSet, {b})), "<" + A + " {-] " + B + ">", "<{" + A + "} --> [" + B + "]>");
  } else if (k == 6) {     // blanks between tokens do not matter
    Ex e = stm(cmp(Connector::Conjunction, {a, b}), Copula::Equivalence, cmp(Connector::IntensionalSet, {c})); std::string t = text(e);
    same(e, ins(t, "   "), ins(t, "")); same(e, "  " + ins(t, " ") + "  ", t);
  } else {                 // differences of infix expressions
    Ex e = cmp(sx_choose(2, "ext") ? Connector::ExtensionalDifference : Connector::IntensionalDifference, {cmp(Connector::ExtensionalIntersection, {a, b}), c}); std::string op = con_str(e.con);
    same(e, "(" + op + ", " + A + " & " + B + ", c)", "((" + A + " & " + B + ") " + op + " c)");
    same(e, "(" + A + " & " + B + " " + op + " c)", text(e));
  }
  return 0;
}
