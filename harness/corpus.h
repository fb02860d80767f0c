// Sentences that together use every construct of the grammar, and symbolic edits of them.
#pragma once
#include "hx.h"
static const char *const CORPUS[] = {
  "$0.9;.5;1.0$<a-->b>.:|:%1.0;0.9;2%", "$0$ a. %.5;.25%", "<{s}<->[p,q]>!:/:%0%", "<s{--p>?:\\:", "<s--]p>@ :!-12:", "<s{-]p>.:!7:",
  "<<$x-->a>==><$x-->b>>.", "<#y=/>(a,?z)>?", "<(&/,a,+10,b)=\\>+2>!", "<(&|,a,b)=|>c>@", "<(a&&b&&c)<=>(||,d,e)>.", "<(a</>b)<|>(*,c)>.",
  "(^go,{SELF},\"x y\").", "go(a,$v)!", "<(/,r,_,b)-->(\\,r,a,_)>.", "(--,<a-->b>).", "--a?", "((a&b)-c).", "(~,a|b,c).", "(a*b*c)@", "(^op).", "<(a&/b)==>(c||d)>.", "<(a&|b)-->(-,a,b)>.", "(&,(|,a,b),ab).",
};
constexpr int NCORPUS = sizeof CORPUS / sizeof *CORPUS;
// an edit of a sentence: at a chosen place replace rep bytes by k symbolic ones (any byte values)
inline std::string edit(const std::string &t, int rep, int k, const char *id) {
  int places = (int)t.size() - rep + 1; int p = sx_choose(places, "place");
  char b[8]; sx_sym_bytes(b, k, id);
  return t.substr(0, p) + std::string(b, k) + t.substr(p + rep);
}
// what remains of the text before the end-of-input characters
inline std::string until_eof(const std::string &s) { size_t i = 0; while (i < s.size() && s[i] != '\n' && s[i] != 0) i++; return s.substr(0, i); }
