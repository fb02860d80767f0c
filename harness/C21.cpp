// Coloured rendering: the plain text plus escape sequences, nothing else.
#include "corpus.h"
#include "shapes.h"
using INTERPRETER::interpreter;
static std::string plain(const std::string &s) {
  std::string r; bool coloured = false;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\x1b') { r += s[i]; continue; }
    sx_check(i + 1 < s.size() && s[i + 1] == '[', "an escape sequence starts with ESC ["); size_t j = i + 2; std::string code;
    while (j < s.size() && ((s[j] >= '0' && s[j] <= '9') || s[j] == ';')) code += s[j++];
    sx_check(j < s.size() && s[j] == 'm' && !code.empty(), "an escape sequence only selects colours"); coloured = code != "0"; i = j;
  }
  sx_check(!coloured, "a coloured text ends in the default colour"); return r;
}
static void both(Term &t) {
  std::string a = interpreter.interpret(t), b = interpreter.interpret(t, false), c = interpreter.interpret(t, true);
  sx_check(a == b, "rendering is plain unless colours are asked for"); sx_check(a.find('\x1b') == std::string::npos, "a plain text has no escape sequences"); sx_check(c != a, "colours are used when asked for"); sx_check(plain(c) == a, "a coloured text is the plain text with colours"); sx_check(interpreter.interpret(t) == a, "rendering in colour does not change the plain text");
  REACH("term");
}
extern "C" int sx_main() {
  GLOBAL::time = 100;
#if MODE == 0
  Out o; pTask k1 = hx_parse(P(), "a.", o), k2 = hx_parse(P(), "z.", o);
  int lf = sx_choose(3, "leaf"), ki = lf == 0 ? sx_choose(6, "kind") : sx_choose(2, "unnamed");
  auto unnamed = [&]() { return ki ? pTerm((Term *)new OPERATION::Operation()) : Term::create(); };
  if (lf == 2) { pTerm u = unnamed(); int k = sx_choose(4, "around"); u = k == 0 ? u : k == 1 ? S(K(Connector::Product, {A("a"), N(-3)}), Copula::Inheritance, u) : k == 2 ? K(Connector::ExtensionalSet, {u}) : K(Connector::Product, {u, A("a"), unnamed()}); both(*u); REACH("unnamed"); return 0; }
  pTerm t = lf == 0 ? leafv(ki, "i0") : any_term(1 + THOROUGH, true); both(*t); if (!t->has_var && t->is_atom()) REACH("atom");
#elif MODE == 1
  // every notation and punctuation, with a symbolic byte; tasks and their sentences
  std::string in = edit(CORPUS[2 + sx_choose(NCORPUS - 2, "sentence")], 1, 1, "byte"); for (size_t i = 0; i < in.size(); i++) sx_assume(in[i] != '\x1b'); Out o; pTask t = hx_parse(P(), in, o); if (o != OK_TASK) return 0;
  both(*t->sentence->term); std::string a = interpreter.interpret(*t->sentence), c = interpreter.interpret(*t->sentence, true); sx_check(plain(c) == a && a.find('\x1b') == std::string::npos, "a coloured sentence is the plain sentence with colours"); REACH("sentence");
#elif MODE == 2
  static const float F[5] = {1.0f, 0.0f, 0.5f, 0.1234f, 0.9996f}, B[6] = {0.8f, 0.0f, 1.0f, 0.123f, 0.996f, 0.004f}; static const char *PU[] = {".", "?", "!", "@"}; static const char *BODY[3] = {"<a-->b>", "(^op, a)", "{a, [b]}"};
  pTask t = hx_parse(P(), std::string(BODY[sx_choose(3, "body")]) + PU[sx_choose(4, "punct")]); auto &se = *t->sentence; int te = sx_choose(4, "tense"); se.stamp = te == 0 ? SENTENCE::Stamp::create(true) : SENTENCE::Stamp::create(te == 1 ? 90 : te == 2 ? 100 : 110);
  if (se.truth) { se.truth->f = F[sx_choose(5, "f")]; se.truth->c = F[sx_choose(5, "c")]; }
  int b = sx_choose(6, "budget"); t->budget->priority = B[b]; t->budget->durability = B[(b + 1) % 6]; t->budget->quality = B[(b + 2) % 6];
  std::string a = interpreter.interpret(*t), c = plain(interpreter.interpret(*t, true)), sa = interpreter.interpret(se), sc = plain(interpreter.interpret(se, true));
  sx_check(sa == sc, "a coloured sentence is the plain sentence with colours"); sx_check(a.find('\x1b') == std::string::npos, "a plain task has no escape sequences");
  size_t e = a.find('$', 1); sx_check(a[0] == '$' && e != std::string::npos && a.substr(e + 1) == " " + sa, "a task is its budget followed by its sentence"); if (e == std::string::npos) return 0;
  std::string nums = " "; for (size_t i = 1; i < e; i++) if (a[i] == ';') nums += "  "; else nums += a[i]; nums += "  " + sa;
  sx_check(c == nums, "a coloured task shows the numbers and the sentence of the plain one"); REACH("task");
#endif
  return 0;
}
