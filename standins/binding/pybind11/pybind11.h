// Stand-in for pybind11: what a module defines is recorded, and can be called
// the way Python calls it: by name, with values whose types are found out at
// the time of the call, positional or by keyword, defaults filled in, overloads
// tried in order, absl errors raised. No interpreter is involved.
#ifndef STANDIN_PYBIND11_H_
#define STANDIN_PYBIND11_H_
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "google/protobuf/message.h"

namespace pybind11 {

// What `except` would catch.
struct TypeError : std::runtime_error { using runtime_error::runtime_error; };
struct Raised : std::runtime_error {
  absl::Status status;
  explicit Raised(const absl::Status& s) : runtime_error(s.ToString()), status(s) {}
};

// A Python value.
struct Value {
  enum Kind { kNone, kBool, kInt, kFloat, kStr, kArray, kMessage, kObject } kind = kNone;
  long long i = 0;
  double f = 0;
  std::string s;
  std::shared_ptr<std::vector<double>> array;
  std::shared_ptr<::google::protobuf::Message> message;
  std::shared_ptr<void> object;
  std::type_index type = typeid(void);
};
inline Value None() { return {}; }
inline Value Bool(bool b) { Value v; v.kind = Value::kBool; v.i = b; return v; }
inline Value Int(long long i) { Value v; v.kind = Value::kInt; v.i = i; return v; }
inline Value Float(double f) { Value v; v.kind = Value::kFloat; v.f = f; return v; }
inline Value Str(std::string s) { Value v; v.kind = Value::kStr; v.s = std::move(s); return v; }
inline Value Array(std::vector<double> a) { Value v; v.kind = Value::kArray; v.array = std::make_shared<std::vector<double>>(std::move(a)); return v; }
template <class M> Value Message(const M& m) { Value v; v.kind = Value::kMessage; v.message = std::make_shared<M>(m); return v; }
template <class T> Value Object(std::shared_ptr<T> p) { Value v; v.kind = Value::kObject; v.object = p; v.type = typeid(T); return v; }

namespace detail {
struct NoMatch {};  // this overload does not take these arguments

template <class T> struct is_span : std::false_type {};
template <class T> struct is_span<absl::Span<T>> : std::true_type {};
template <class T> struct is_status_or : std::false_type {};
template <class T> struct is_status_or<absl::StatusOr<T>> : std::true_type {};

// From Python: holds what the parameter refers to for as long as the call.
template <class P> struct Caster {
  using T = std::remove_cv_t<std::remove_reference_t<P>>;
  static constexpr bool is_pointer = std::is_pointer_v<T>;
  using U = std::remove_cv_t<std::remove_pointer_t<T>>;
  static constexpr bool by_reference =
      std::is_class_v<U> && !std::is_same_v<U, std::string> && !std::is_same_v<U, absl::string_view> && !is_span<U>::value && !std::is_same_v<U, std::vector<double>>;
  struct Empty {};
  std::conditional_t<by_reference || is_pointer, Empty, T> value{};
  U* pointer = nullptr;
  const Value* from = nullptr;
  explicit Caster(const Value& v) : from(&v) {
    if constexpr (std::is_same_v<T, const char*>) {
      if (v.kind != Value::kStr) throw NoMatch();
    } else if constexpr (std::is_base_of_v<::google::protobuf::Message, U>) {
      if (v.kind != Value::kMessage) throw NoMatch();
      pointer = dynamic_cast<U*>(v.message.get());
      if (!pointer) throw NoMatch();
    } else if constexpr (by_reference) {
      if (is_pointer && v.kind == Value::kNone) return;
      if (v.kind != Value::kObject || v.type != typeid(U)) throw NoMatch();
      pointer = static_cast<U*>(v.object.get());
    } else if constexpr (std::is_same_v<T, bool>) {
      if (v.kind != Value::kBool && v.kind != Value::kInt && v.kind != Value::kFloat && v.kind != Value::kNone) throw NoMatch();
      value = v.kind == Value::kFloat ? v.f != 0 : v.i != 0;
    } else if constexpr (std::is_integral_v<T>) {
      if (v.kind != Value::kBool && v.kind != Value::kInt) throw NoMatch();
      if (static_cast<long long>(static_cast<T>(v.i)) != v.i) throw NoMatch();
      value = static_cast<T>(v.i);
    } else if constexpr (std::is_floating_point_v<T>) {
      if (v.kind != Value::kBool && v.kind != Value::kInt && v.kind != Value::kFloat) throw NoMatch();
      value = v.kind == Value::kFloat ? static_cast<T>(v.f) : static_cast<T>(v.i);
    } else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, absl::string_view>) {
      if (v.kind != Value::kStr) throw NoMatch();
      value = T(v.s);
    } else if constexpr (is_span<T>::value) {
      if (v.kind != Value::kArray) throw NoMatch();
      value = T(v.array->data(), v.array->size());
    } else if constexpr (std::is_same_v<T, std::vector<double>>) {
      if (v.kind != Value::kArray) throw NoMatch();
      value = *v.array;
    } else {
      static_assert(!sizeof(T*), "the stand-in cannot convert this parameter");
    }
  }
  decltype(auto) get() {
    if constexpr (std::is_same_v<T, const char*>) return from->s.c_str();
    else if constexpr (is_pointer) return pointer;
    else if constexpr (by_reference) return static_cast<U&>(*pointer);
    else return static_cast<T&>(value);
  }
};

// To Python.
template <class R> Value ToPython(R&& r) {
  using T = std::remove_cv_t<std::remove_reference_t<R>>;
  if constexpr (std::is_same_v<T, Value>) return r;
  else if constexpr (std::is_same_v<T, absl::Status>) { if (!r.ok()) throw Raised(r); return None(); }
  else if constexpr (is_status_or<T>::value) { if (!r.ok()) throw Raised(r.status()); return ToPython(*std::forward<R>(r)); }
  else if constexpr (std::is_base_of_v<::google::protobuf::Message, T>) return Message(r);
  else if constexpr (std::is_same_v<T, bool>) return Bool(r);
  else if constexpr (std::is_integral_v<T>) return Int(r);
  else if constexpr (std::is_floating_point_v<T>) return Float(r);
  else if constexpr (std::is_convertible_v<T, std::string> || std::is_same_v<T, absl::string_view>) return Str(std::string(r));
  else if constexpr (std::is_same_v<T, std::vector<double>>) return Array(r);
  else return Object(std::make_shared<T>(std::forward<R>(r)));
}

template <class F> struct Signature : Signature<decltype(&F::operator())> { static constexpr bool functor = true; };
template <class R, class... A> struct Signature<R (*)(A...)> { using Result = R; using Args = std::tuple<A...>; };
template <class R, class... A> struct Signature<R(A...)> { using Result = R; using Args = std::tuple<A...>; };
// A member function takes the instance first; a functor's own instance is not an argument.
template <class C, class R, class... A> struct Signature<R (C::*)(A...)> { using Result = R; using Args = std::tuple<A...>; using Class = C; };
template <class C, class R, class... A> struct Signature<R (C::*)(A...) const> { using Result = R; using Args = std::tuple<A...>; using Class = C; };
template <class C, class R, class... A> struct Signature<R (C::*)(A...) noexcept> : Signature<R (C::*)(A...)> {};
template <class C, class R, class... A> struct Signature<R (C::*)(A...) const noexcept> : Signature<R (C::*)(A...) const> {};

template <class... T> struct List {};
template <class F, class R, class... A, size_t... I>
Value CallWith(F& f, const std::vector<Value>& v, List<R>, List<A...>, std::index_sequence<I...>) {
  std::tuple<Caster<A>...> casters{Caster<A>(v[I])...};
  (void)casters;
  if constexpr (std::is_void_v<R>) { std::invoke(f, std::get<I>(casters).get()...); return None(); }
  else return ToPython(std::invoke(f, std::get<I>(casters).get()...));
}
template <class R, class... A, class F> std::pair<size_t, std::function<Value(const std::vector<Value>&)>> Wrap(F f) {
  return {sizeof...(A), [f](const std::vector<Value>& v) mutable { return CallWith(f, v, List<R>(), List<A...>(), std::index_sequence_for<A...>()); }};
}
template <class Self, class F, class... A> auto WrapTuple(F f, std::tuple<A...>*) {
  using R = typename Signature<std::decay_t<F>>::Result;
  if constexpr (std::is_member_function_pointer_v<F>) return Wrap<R, Self&, A...>(f);
  else return Wrap<R, A...>(f);
}
}  // namespace detail


struct arg {
  std::string name; Value fallback; bool has = false;
  explicit arg(const char* n) : name(n) {}
  template <class T> arg operator=(T&& v) const { arg a = *this; a.fallback = detail::ToPython(std::forward<T>(v)); a.has = true; return a; }
  arg& noconvert(bool = true) { return *this; }
  arg& none(bool = true) { return *this; }
};
struct kw_only {};
struct gil_scoped_release {};
struct gil_scoped_acquire {};
template <class... T> struct call_guard {};
template <size_t, size_t> struct keep_alive {};
struct dynamic_attr {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <class... A> struct init_of {};
template <class... A> init_of<A...> init() { return {}; }
template <class F> struct factory { F f; };
template <class F, class = decltype(&F::operator())> factory<F> init(F f) { return {f}; }

template <class... A> struct overload_cast_of {
  template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
  template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
  template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
};
template <class... A> constexpr overload_cast_of<A...> overload_cast{};
constexpr std::true_type const_{};

// One definition of a name: its parameters and what it does.
struct Definition {
  size_t arity = 0;
  std::vector<arg> names;
  bool method = false;
  std::function<Value(const std::vector<Value>&)> fn;
};
typedef std::map<std::string, Value> Keywords;
typedef std::map<std::string, std::vector<Definition>> Scope;

template <class E> void Note(Definition& d, const E& e) { if constexpr (std::is_same_v<E, arg>) d.names.push_back(e); }

inline Value Call(const Scope& scope, const std::string& name, std::vector<Value> args, const Keywords& kw = {}) {
  auto it = scope.find(name);
  if (it == scope.end()) throw TypeError("there is no " + name);
  for (auto& d : it->second) {
    std::vector<Value> all = args;
    bool fits = all.size() <= d.arity; size_t used = 0;
    while (fits && all.size() < d.arity) {
      size_t k = all.size() - (d.method ? 1 : 0);
      if (k >= d.names.size()) { fits = false; break; }
      auto named = kw.find(d.names[k].name);
      if (named != kw.end()) { all.push_back(named->second); ++used; }
      else if (d.names[k].has) all.push_back(d.names[k].fallback);
      else fits = false;
    }
    if (!fits || used != kw.size()) continue;
    try { return d.fn(all); } catch (const detail::NoMatch&) {}
  }
  throw TypeError(name + "(): incompatible function arguments");
}

class module_ {
 public:
  struct Contents { Scope functions; std::map<std::string, Scope> classes; std::map<std::string, std::vector<std::type_index>> types; std::string doc; };
  std::shared_ptr<Contents> in = std::make_shared<Contents>();
  std::string& doc() { return in->doc; }
  template <class F, class... E> module_& def(const char* name, F&& f, const E&... e) {
    using D = std::decay_t<F>;
    auto w = detail::WrapTuple<void>(D(f), static_cast<typename detail::Signature<D>::Args*>(nullptr));
    Definition d; d.arity = w.first; d.fn = w.second; (Note(d, e), ...);
    in->functions[name].push_back(d);
    return *this;
  }
  static module_ import(const char*) { return {}; }
  // What is set here is not called by anyone.
  struct Attribute { template <class T> Attribute& operator=(T&&) { return *this; } };
  Attribute attr(const char*) { return {}; }
};
typedef module_ module;

template <class T, class... Options> class class_ {
 public:
  template <class... E> class_(module_& m, const char* name, const E&...) : in_(m.in), name_(name) { in_->classes[name_]; }
  template <class... A, class... E> class_& def(init_of<A...>, const E&... e) {
    return Add("__init__", detail::Wrap<Value, A...>([](A... a) { return Object(std::make_shared<T>(std::forward<A>(a)...)); }), false, e...);
  }
  template <class F, class... E> class_& def(factory<F> f, const E&... e) {
    using S = detail::Signature<F>;
    return Add("__init__", detail::WrapTuple<void>(f.f, static_cast<typename S::Args*>(nullptr)), false, e...);
  }
  template <class F, class... E> class_& def(const char* name, F&& f, const E&... e) {
    using D = std::decay_t<F>;
    return Add(name, detail::WrapTuple<T>(D(f), static_cast<typename detail::Signature<D>::Args*>(nullptr)), true, e...);
  }
  template <class... E> class_& def_readwrite(const char*, const E&...) { return *this; }
  template <class... E> class_& def_readonly(const char*, const E&...) { return *this; }
  template <class... E> class_& def_property(const char*, const E&...) { return *this; }
  template <class... E> class_& def_property_readonly(const char*, const E&...) { return *this; }
  template <class F, class... E> class_& def_static(const char* name, F&& f, const E&... e) {
    using D = std::decay_t<F>;
    return Add(name, detail::WrapTuple<void>(D(f), static_cast<typename detail::Signature<D>::Args*>(nullptr)), false, e...);
  }

 private:
  template <class W, class... E> class_& Add(const char* name, W w, bool method, const E&... e) {
    Definition d; d.arity = w.first; d.fn = w.second; d.method = method; (Note(d, e), ...);
    in_->classes[name_][name].push_back(d);
    return *this;
  }
  std::shared_ptr<module_::Contents> in_;
  std::string name_;
};

// The modules of this program.
inline std::map<std::string, void (*)(module_&)>& Modules() { static std::map<std::string, void (*)(module_&)> m; return m; }
inline bool Provide(const char* name, void (*fn)(module_&)) { Modules()[name] = fn; return true; }

namespace google { inline module_ ImportStatusModule(bool = true) { return {}; } }
}  // namespace pybind11

#define PYBIND11_MODULE(name, variable, ...)                                              \
  static void pybind11_init_##name(::pybind11::module_&);                                 \
  static const bool pybind11_provided_##name = ::pybind11::Provide(#name, &pybind11_init_##name); \
  static void pybind11_init_##name(::pybind11::module_& variable)
#endif
