// A recording stand-in for pybind11: the real binding code registers its classes, functions and
// enumerators here, and harnesses call what was registered the way Python would.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#define PYBIND11_EXPORT
#define PYBIND11_MODULE(name, m) extern "C" void sx_module(pybind11::module_ &m)
namespace pybind11 {
struct PyExc { int kind; };
inline PyExc *exc(int k) { static PyExc e[5] = {{0}, {1}, {2}, {3}, {4}}; return &e[k]; }
struct Pending { PyExc *type = nullptr; std::string msg; };
inline Pending &pending() { static Pending p; return p; }
template <class T> struct tag_of { static const void *id() { static char c; return &c; } };
struct object {
  enum Kind { NONE, NUM, STR, ENUM, VAL, LIST, PTR } kind = NONE;
  double num = 0; std::string str; const void *tag = nullptr; std::shared_ptr<void> hold; void *val = nullptr; std::vector<object> items;
  bool is_none() const { return kind == NONE; }
};
using handle = object; using tuple = object; using list = object;
struct args : std::vector<object> { using std::vector<object>::vector; };
struct none : object {};
class error_already_set : public std::exception { std::string m; public: PyExc *type; error_already_set() : m(pending().msg), type(pending().type) { pending() = Pending(); } const char *what() const noexcept override { return m.c_str(); } };
struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };   // becomes a TypeError
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
template <class T> struct is_sp : std::false_type {};
template <class U> struct is_sp<std::shared_ptr<U>> : std::true_type { using elem = U; };
template <class T> struct is_vec : std::false_type {};
template <class U> struct is_vec<std::vector<U>> : std::true_type {};
struct Up { const void *from, *to; void *(*f)(void *); };
inline std::vector<Up> &ups() { static std::vector<Up> v; return v; }
inline void *as(const object &o, const void *to) {
  if (o.kind != object::VAL) return nullptr; const void *t = o.tag; void *v = o.val;
  for (int n = 0; n < 4; n++) { if (t == to) return v; bool up = false; for (auto &u : ups()) if (u.from == t) { v = u.f(v); t = u.to; up = true; break; } if (!up) break; }
  return nullptr;
}
template <class T> object encode(T &&x) {
  using D = std::decay_t<T>; object o;
  if constexpr (std::is_base_of_v<object, D>) { o = x; return o; }
  else if constexpr (std::is_same_v<D, void *>) { if (x) { o.kind = object::PTR; o.val = x; } return o; }
  else if constexpr (std::is_same_v<D, std::nullptr_t>) return o;
  else if constexpr (std::is_arithmetic_v<D>) { o.kind = object::NUM; o.num = (double)x; return o; }
  else if constexpr (std::is_convertible_v<D, std::string> && !std::is_class_v<D>) { o.kind = object::STR; o.str = x; return o; }
  else if constexpr (std::is_same_v<D, std::string>) { o.kind = object::STR; o.str = x; return o; }
  else if constexpr (std::is_enum_v<D>) { o.kind = object::ENUM; o.tag = tag_of<D>::id(); o.num = (double)(long)x; return o; }
  else if constexpr (is_vec<D>::value) { o.kind = object::LIST; for (auto &e : x) o.items.push_back(encode(e)); return o; }
  else if constexpr (is_sp<D>::value) { if (!x) return o; auto h = std::make_shared<D>(x); o.kind = object::VAL; o.tag = tag_of<typename is_sp<D>::elem>::id(); o.val = (void *)h->get(); o.hold = h; return o; }
  else { auto h = std::make_shared<D>(x); o.kind = object::VAL; o.tag = tag_of<D>::id(); o.val = (void *)h.get(); o.hold = h; return o; }
}
// what a parameter of type T is given for a Python object
template <class T> struct Decode {
  using D = std::remove_cv_t<std::remove_reference_t<T>>; D own{}; D *p = nullptr;
  Decode(const object &o) {
    if constexpr (std::is_same_v<D, object>) { own = o; p = &own; }
    else if constexpr (std::is_same_v<D, void *>) { if (o.kind != object::PTR && o.kind != object::NONE) throw type_error("incompatible function arguments"); own = o.val; p = &own; }
    else if constexpr (std::is_arithmetic_v<D>) { if (o.kind != object::NUM) throw type_error("incompatible function arguments"); own = (D)o.num; p = &own; }
    else if constexpr (std::is_same_v<D, std::string>) { if (o.kind != object::STR) throw type_error("incompatible function arguments"); own = o.str; p = &own; }
    else if constexpr (std::is_enum_v<D>) { if (o.kind != object::ENUM || o.tag != tag_of<D>::id()) throw type_error("incompatible function arguments"); own = (D)(long)o.num; p = &own; }
    else if constexpr (is_sp<D>::value) { if (o.kind == object::NONE) { p = &own; return; } if (!as(o, tag_of<typename is_sp<D>::elem>::id())) throw type_error("incompatible function arguments"); own = *(D *)o.hold.get(); p = &own; }
    else throw type_error("unsupported parameter");
  }
  D &get() { return *p; }
};
template <class T> struct DecodeRef { using D = std::remove_cv_t<std::remove_reference_t<T>>; D *p; DecodeRef(const object &o) { p = (D *)as(o, tag_of<D>::id()); if (!p) throw type_error("incompatible function arguments"); } D &get() { return *p; } };
template <class T> using DecodeFor = std::conditional_t<std::is_class_v<std::remove_cv_t<std::remove_reference_t<T>>> && !std::is_same_v<std::decay_t<T>, std::string> && !is_sp<std::decay_t<T>>::value && !std::is_same_v<std::decay_t<T>, object>, DecodeRef<T>, Decode<T>>;
template <class T> T cast(const object &o) { DecodeFor<T> d(o); return d.get(); }
template <class T, class = std::enable_if_t<!std::is_base_of_v<object, std::decay_t<T>>>> object cast(T &&x) { return encode(std::forward<T>(x)); }
inline object iter(const object &o) { if (o.kind != object::LIST) throw type_error("not iterable"); return o; }
template <class I> object make_iterator(I b, I e) { object o; o.kind = object::LIST; for (; b != e; ++b) o.items.push_back(encode(*b)); return o; }
struct arg_v { std::string name; object value; };
struct arg { std::string name; arg(const char *n) : name(n) {} template <class T> arg_v operator=(T &&v) const { return {name, encode(std::forward<T>(v))}; } };
inline arg operator""_a(const char *n, size_t) { return arg(n); }
struct Fn { std::function<object(std::vector<object> &)> f; int arity = 0; bool rest = false; std::vector<std::pair<std::string, object>> named; std::vector<bool> has_default; };
template <class R, class F, class... A, size_t... I> object invoke(F &f, std::vector<object> &v, std::index_sequence<I...>) {
  auto one = [&](auto... d) -> object { if constexpr (std::is_void_v<R>) { f(d.get()...); return object(); } else return encode(f(d.get()...)); };
  return one(DecodeFor<A>(v[I])...);
}
template <class R, class... A, class F> Fn make_fn(F f) {
  Fn n; n.arity = sizeof...(A);
  n.f = [f](std::vector<object> &v) mutable -> object { return invoke<R, F, A...>(f, v, std::make_index_sequence<sizeof...(A)>()); };
  return n;
}
template <class R, class A0, class F> Fn make_rest0(F f) { Fn n; n.rest = true; n.arity = 1; n.f = [f](std::vector<object> &v) mutable -> object { DecodeFor<A0> a(v[0]); args r; for (size_t i = 1; i < v.size(); i++) r.push_back(v[i]); return encode(f(a.get(), r)); }; return n; }
template <class L, class R, class C, class... A> Fn from_op(L f, R (C::*)(A...) const) { if constexpr (sizeof...(A) == 2 && (std::is_same_v<std::decay_t<A>, args> || ...)) return make_rest0<R, std::tuple_element_t<0, std::tuple<A...>>>(f); else return make_fn<R, A...>(f); }
template <class L, class R, class C, class... A> Fn from_op(L f, R (C::*)(A...)) { return make_fn<R, A...>(f); }
template <class L> Fn fn(L f) { return from_op(f, &L::operator()); }
template <class R, class... A> Fn fn(R (*f)(A...)) { return make_fn<R, A...>(f); }
template <class R, class C, class... A> Fn fn(R (C::*f)(A...)) { return make_fn<R, C &, A...>([f](C &c, A... a) -> R { return (c.*f)(a...); }); }
template <class R, class C, class... A> Fn fn(R (C::*f)(A...) const) { return make_fn<R, C &, A...>([f](C &c, A... a) -> R { return (c.*f)(a...); }); }
inline void extra(Fn &n, const arg &a) { n.named.push_back({a.name, object()}); n.has_default.push_back(false); }
inline void extra(Fn &n, const arg_v &a) { n.named.push_back({a.name, a.value}); n.has_default.push_back(true); }
inline void extra(Fn &, const char *) {}
struct Class { std::string name; std::vector<const void *> bases; std::map<std::string, std::vector<Fn>> methods, statics; std::map<std::string, Fn> getters, setters; std::vector<Fn> inits; };
struct Enum { std::string name; std::vector<std::pair<std::string, object>> values; std::vector<std::string> docs; };
inline std::map<const void *, Class> &classes() { static auto *m = new std::map<const void *, Class>; return *m; }
inline std::map<std::string, const void *> &class_names() { static auto *m = new std::map<std::string, const void *>; return *m; }
inline std::map<std::string, Enum> &enums() { static auto *m = new std::map<std::string, Enum>; return *m; }
inline std::map<std::string, std::vector<Fn>> &functions() { static auto *m = new std::map<std::string, std::vector<Fn>>; return *m; }
inline std::map<std::string, object> &attributes() { static auto *m = new std::map<std::string, object>; return *m; }
struct Attr { std::string name; template <class T> void operator=(T &&v) { attributes()[name] = encode(std::forward<T>(v)); } };
struct Doc { template <class T> void operator=(T &&) {} };
struct module_ { template <class F, class... X> module_ &def(const char *n, F f, X... x) { Fn g = fn(f); (extra(g, x), ...); functions()[n].push_back(g); return *this; } Attr attr(const char *n) { return {n}; } Doc doc() { return {}; } };
using module = module_;
template <class... A> struct Ctor {}; template <class F> struct Factory { F f; };
template <class... A> std::enable_if_t<(sizeof...(A) > 0), Ctor<A...>> init() { return {}; }
template <class F> Factory<F> init(F f) { return {f}; }
template <class T, class... O> struct class_ {
  Class &c() { return classes()[tag_of<T>::id()]; }
  template <class B> void base() { if constexpr (std::is_base_of_v<B, T>) { if constexpr (!std::is_same_v<B, T>) ups().push_back({tag_of<T>::id(), tag_of<B>::id(), [](void *v) -> void * { return static_cast<B *>((T *)v); }}); } }
  class_(module_ &, const char *n) { c().name = n; class_names()[n] = tag_of<T>::id(); (base<O>(), ...); }
  template <class F, class... X> class_ &def(const char *n, F f, X... x) { Fn g = fn(f); (extra(g, x), ...); c().methods[n].push_back(g); return *this; }
  template <class F, class... X> class_ &def(Factory<F> f, X... x) { Fn g = fn(f.f); (extra(g, x), ...); c().inits.push_back(g); return *this; }
  template <class... A, class... X> class_ &def(Ctor<A...>, X... x) { Fn g = make_fn<std::shared_ptr<T>, A...>([](A... a) { return std::make_shared<T>(a...); }); (extra(g, x), ...); c().inits.push_back(g); return *this; }
  template <class F, class... X> class_ &def_static(const char *n, F f, X... x) { Fn g = fn(f); (extra(g, x), ...); c().statics[n].push_back(g); return *this; }
  template <class F> class_ &def_property_readonly(const char *n, F f) { c().getters[n] = fn(f); return *this; }
  template <class F, class G> class_ &def_property(const char *n, F f, G g) { c().getters[n] = fn(f); c().setters[n] = fn(g); return *this; }
  template <class C, class M> class_ &def_readonly(const char *n, M C::*m) { c().getters[n] = make_fn<M, T &>([m](T &t) -> M { return t.*m; }); return *this; }
  template <class C, class M> class_ &def_readwrite(const char *n, M C::*m) { def_readonly(n, m); c().setters[n] = make_fn<void, T &, M>([m](T &t, M v) { t.*m = v; }); return *this; }
};
template <class T> struct enum_ {
  Enum &e; enum_(module_ &, const char *n) : e(enums()[n]) { e.name = n; }
  enum_ &value(const char *n, T v, const char *d = "") { e.values.push_back({n, encode(v)}); e.docs.push_back(d); return *this; }
  enum_ &export_values() { return *this; }
};
// ---- calling, as Python does ----
struct Result { object value; bool ok = false; std::string type, msg; };   // type: the Python exception
inline Result run(std::vector<Fn> &fs, std::vector<object> a) {
  Result r; pending() = Pending();
  for (auto &f : fs) {
    std::vector<object> v = a; int n = (int)v.size(); if (!f.rest && n > f.arity) continue; int skip = f.arity - (int)f.named.size();
    bool enough = true; if (f.rest) enough = n >= f.arity; else for (int i = n; i < f.arity; i++) { int k = i - skip; if (k < 0 || k >= (int)f.named.size() || !f.has_default[k]) { enough = false; break; } v.push_back(f.named[k].second); }
    if (!enough) continue;
    try { r.value = f.f(v); r.ok = true; }
    catch (error_already_set &e) { static const char *N[] = {"RuntimeError", "TypeError", "ValueError", "IndexError", "KeyError"}; r.type = e.type ? N[e.type->kind] : "SystemError"; r.msg = e.what(); }
    catch (type_error &) { continue; }
    catch (std::exception &e) { r.type = "RuntimeError"; r.msg = e.what(); }
    if (r.ok && pending().type) { r.ok = false; r.type = "SystemError"; r.msg = "returned a result with an exception set"; }
    return r;
  }
  r.type = "TypeError"; r.msg = "incompatible function arguments"; return r;
}
inline Class *cls(const object &o) { if (o.kind != object::VAL) return nullptr; auto i = classes().find(o.tag); return i == classes().end() ? nullptr : &i->second; }
template <class S> auto *lookup(const object &o, const std::string &n, S s) {
  const void *t = o.tag; for (int k = 0; k < 4; k++) { auto i = classes().find(t); if (i == classes().end()) break; auto &m = i->second.*s; auto j = m.find(n); if (j != m.end()) return &j->second; bool up = false; for (auto &u : ups()) if (u.from == t) { t = u.to; up = true; break; } if (!up) break; }
  return (decltype(&(classes().begin()->second.*s).begin()->second))nullptr;
}
inline Result missing(const std::string &n) { Result r; r.type = "AttributeError"; r.msg = n; return r; }
inline Result call(const std::string &n, std::vector<object> a) { auto i = functions().find(n); return i == functions().end() ? missing(n) : run(i->second, a); }
inline Result construct(const std::string &c, std::vector<object> a) { auto i = class_names().find(c); return i == class_names().end() ? missing(c) : run(classes()[i->second].inits, a); }
inline Result call_static(const std::string &c, const std::string &n, std::vector<object> a) { auto i = class_names().find(c); if (i == class_names().end()) return missing(c); auto &m = classes()[i->second].statics; auto j = m.find(n); return j == m.end() ? missing(n) : run(j->second, a); }
inline Result method(const object &o, const std::string &n, std::vector<object> a = {}) { auto *f = o.kind == object::VAL ? lookup(o, n, &Class::methods) : nullptr; if (!f) return missing(n); a.insert(a.begin(), o); return run(*f, a); }
inline Result attribute(const object &o, const std::string &n) { auto *f = o.kind == object::VAL ? lookup(o, n, &Class::getters) : nullptr; if (!f) return missing(n); std::vector<Fn> v{*f}; return run(v, {o}); }
inline Result assign(const object &o, const std::string &n, object x) { auto *f = o.kind == object::VAL ? lookup(o, n, &Class::setters) : nullptr; if (!f) return missing(n); std::vector<Fn> v{*f}; return run(v, {o, x}); }
inline object enumerator(const std::string &e, const std::string &n) { for (auto &v : enums()[e].values) if (v.first == n) return v.second; return object(); }
} // namespace pybind11
inline pybind11::PyExc *PyExc_RuntimeError = pybind11::exc(0), *PyExc_TypeError = pybind11::exc(1), *PyExc_ValueError = pybind11::exc(2), *PyExc_IndexError = pybind11::exc(3), *PyExc_KeyError = pybind11::exc(4);
inline void PyErr_SetString(pybind11::PyExc *t, const char *m) { pybind11::pending().type = t; pybind11::pending().msg = m; }
