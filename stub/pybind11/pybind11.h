// Stand-in for pybind11 used when the bindings are executed symbolically: every registration is
// reported to the executor together with a thunk that performs the call in C++.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <exception>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

extern "C" {
typedef void (*sx_thunk)(void *closure, void **args, void *ret);
void sx_class(const char *tname, const char *pyname, std::size_t size, void (*dtor)(void *));
void sx_base(const char *tname, const char *base);
// kind: 0 method, 1 constructor, 2 property getter, 3 property setter, 4 static/free function
void sx_begin(const char *tname, const char *name, int kind, const char *ret, std::size_t ret_size, sx_thunk thunk, void *closure);
void sx_arg(const char *type, int none);
void sx_argname(const char *name, const char *deftype, void *value, int none);
void sx_keep_alive(int nurse, int patient);
void sx_policy(int policy);
void sx_end();
void sx_exception(const char *tname, const char *name);
}

#ifndef PYBIND11_NAMESPACE
#define PYBIND11_NAMESPACE pybind11
#endif

namespace pybind11 {
namespace sx {
template <typename T> struct tag {};
template <typename T> inline const char *tname() { return __PRETTY_FUNCTION__; }
template <typename T> struct intrinsic { using type = std::remove_cv_t<std::remove_pointer_t<std::remove_reference_t<T>>>; };
template <typename T> using intrinsic_t = typename intrinsic<T>::type;
template <typename T> struct is_handle : std::false_type {};

// argument i as the type the function wants; the slot holds the address of an object of the plain type
template <typename A, bool Ptr = std::is_pointer<std::remove_reference_t<A>>::value> struct caster {
    static std::remove_reference_t<A> &get(void *p) { return *static_cast<std::remove_cv_t<std::remove_reference_t<A>> *>(p); }
};
template <typename A> struct caster<A, true> {
    static std::remove_cv_t<std::remove_reference_t<A>> get(void *p) { return static_cast<intrinsic_t<A> *>(p); }
};
template <typename A, bool Ptr = std::is_pointer<std::remove_reference_t<A>>::value> struct pass {
    static A go(void *p) { return static_cast<A>(caster<A>::get(p)); }
};
template <typename A> struct pass<A, true> {
    static std::remove_cv_t<std::remove_reference_t<A>> go(void *p) { return caster<A>::get(p); }
};

template <typename R> struct ret_type {
    using type = std::conditional_t<std::is_pointer<std::remove_reference_t<R>>::value,
                                    std::remove_cv_t<std::remove_reference_t<R>>,
                                    std::remove_cv_t<std::remove_reference_t<R>>>;
    static const char *name() { return tname<type>(); }
    static std::size_t size() { return sizeof(type); }
};
template <> struct ret_type<void> {
    using type = void;
    static const char *name() { return tname<void>(); }
    static std::size_t size() { return 0; }
};

template <typename R> struct invoke_store {
    template <typename F, typename... A> static void go(void *ret, F &&f, A &&... a) {
        new (ret) typename ret_type<R>::type(f(std::forward<A>(a)...));
    }
};
template <> struct invoke_store<void> {
    template <typename F, typename... A> static void go(void *, F &&f, A &&... a) { f(std::forward<A>(a)...); }
};

// functions: a callable object F stored in the closure, with signature R(A...)
template <typename F, typename R, typename... A> struct fn {
    template <std::size_t... I> static void call(void *closure, void **args, void *ret, std::index_sequence<I...>) {
        F &f = *static_cast<F *>(closure);
        invoke_store<R>::go(ret, f, pass<A>::go(args[I])...);
    }
    static void thunk(void *closure, void **args, void *ret) { call(closure, args, ret, std::index_sequence_for<A...>()); }
};

template <typename T> inline void arg_types(tag<T>) {}
inline void report_args() {}
template <typename A, typename... B> inline void report_args(tag<A>, tag<B>... b) {
    sx_arg(tname<intrinsic_t<A>>(), std::is_pointer<A>::value);
    report_args(b...);
}

template <typename F, typename R, typename... A>
inline void begin(const char *cls, const char *name, int kind, F f, tag<R(A...)>) {
    sx_begin(cls, name, kind, ret_type<R>::name(), ret_type<R>::size(), &fn<F, R, A...>::thunk, new F(f));
    report_args(tag<A>()...);
}

// signatures of callables
template <typename T> struct sig : sig<decltype(&T::operator())> {};
template <typename C, typename R, typename... A> struct sig<R (C::*)(A...)> { using type = R(A...); };
template <typename C, typename R, typename... A> struct sig<R (C::*)(A...) const> { using type = R(A...); };
template <typename R, typename... A> struct sig<R (*)(A...)> { using type = R(A...); };

template <typename C, typename R, typename... A> struct memfn {
    R (C::*f)(A...);
    R operator()(C &c, A... a) const { return (c.*f)(std::forward<A>(a)...); }
};
template <typename C, typename R, typename... A> struct cmemfn {
    R (C::*f)(A...) const;
    R operator()(const C &c, A... a) const { return (c.*f)(std::forward<A>(a)...); }
};
template <typename C, typename D> struct reader {
    D C::*m;
    const D &operator()(const C &c) const { return c.*m; }
};
template <typename C, typename D> struct writer {
    D C::*m;
    void operator()(C &c, const D &v) const { c.*m = v; }
};
template <typename C, typename... A> struct maker {
    C *operator()(A... a) const { return new C(std::forward<A>(a)...); }
};

// what a factory makes, as a pointer
template <typename C, typename T> C *made(T *p) { return p; }
template <typename C, typename T, typename D> C *made(std::unique_ptr<T, D> p) { return p.release(); }
template <typename C, typename T> C *made(std::shared_ptr<T> p) { return (new std::shared_ptr<T>(std::move(p)))->get(); }
template <typename C> C *made(C v) { return new C(std::move(v)); }
template <typename C, typename F, typename S> struct factory;
template <typename C, typename F, typename R, typename... A> struct factory<C, F, R(A...)> {
    F f;
    C *operator()(A... a) { return made<C>(f(std::forward<A>(a)...)); }
};

template <typename K, typename R, typename C, typename... A> auto wrap(R (C::*f)(A...)) { return memfn<K, R, A...>{static_cast<R (K::*)(A...)>(f)}; }
template <typename K, typename R, typename C, typename... A> auto wrap(R (C::*f)(A...) const) { return cmemfn<K, R, A...>{static_cast<R (K::*)(A...) const>(f)}; }
template <typename K, typename F, typename = std::enable_if_t<!std::is_member_pointer<std::decay_t<F>>::value>> auto wrap(F &&f) { return std::decay_t<F>(std::forward<F>(f)); }
} // namespace sx

enum class return_value_policy : uint8_t { automatic = 0, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <std::size_t N, std::size_t P> struct keep_alive {};
template <typename... T> struct call_guard {};
struct gil_scoped_release {};
struct gil_scoped_acquire {};
struct dynamic_attr {};
struct multiple_inheritance {};
struct is_method {};
struct module_local { explicit module_local(bool = true) {} };
struct buffer_protocol {};

struct arg_v;
struct arg {
    const char *name;
    bool none_ok = true;
    constexpr explicit arg(const char *n = nullptr) : name(n) {}
    arg &noconvert(bool = true) { return *this; }
    arg &none(bool v = true) { none_ok = v; return *this; }
    template <typename T> arg_v operator=(T &&v) const;
};
struct arg_v {
    const char *name; const char *type; void *value; bool none_ok;
    arg_v &noconvert(bool = true) { return *this; }
    arg_v &none(bool v = true) { none_ok = v; return *this; }
};
template <typename T> arg_v arg::operator=(T &&v) const {
    using D = std::decay_t<T>;
    return arg_v{name, sx::tname<D>(), new D(std::forward<T>(v)), none_ok};
}
inline namespace literals { inline arg operator"" _a(const char *n, std::size_t) { return arg(n); } }

namespace sx {
inline void extra(const char *) {}
template <std::size_t N> inline void extra(const char (&)[N]) {}
template <std::size_t N, std::size_t P> inline void extra(keep_alive<N, P>) { sx_keep_alive(N, P); }
template <typename... T> inline void extra(call_guard<T...>) {}
inline void extra(return_value_policy p) { sx_policy((int)p); }
inline void extra(const arg &a) { sx_argname(a.name, nullptr, nullptr, a.none_ok); }
inline void extra(const arg_v &a) { sx_argname(a.name, a.type, a.value, a.none_ok); }
inline void extra(is_method) {}
inline void extras() {}
template <typename E, typename... Es> inline void extras(const E &e, const Es &... es) { extra(e); extras(es...); }
} // namespace sx

namespace detail {
template <typename... A> struct init_t {};
template <typename F> struct factory_t { F f; };
template <typename... A> struct overload_cast_impl {
    constexpr overload_cast_impl() {}
    template <typename R> constexpr auto operator()(R (*pf)(A...)) const -> decltype(pf) { return pf; }
    template <typename R, typename C> constexpr auto operator()(R (C::*pmf)(A...), std::false_type = {}) const -> decltype(pmf) { return pmf; }
    template <typename R, typename C> constexpr auto operator()(R (C::*pmf)(A...) const, std::true_type) const -> decltype(pmf) { return pmf; }
};
} // namespace detail
template <typename... A> detail::init_t<A...> init() { return {}; }
template <typename F> detail::factory_t<std::decay_t<F>> init(F &&f) { return {std::forward<F>(f)}; }
template <typename... A> static constexpr detail::overload_cast_impl<A...> overload_cast = {};
static constexpr auto const_ = std::true_type{};

struct any_ref { template <typename T> any_ref &operator=(const T &) { return *this; } };
struct module_ {
    const char *name_;
    any_ref doc() { return {}; }
    static module_ import(const char *n) { return module_{n}; }
    any_ref attr(const char *) { return {}; }
    template <typename F, typename... X> module_ &def(const char *name, F &&f, const X &... x) {
        auto g = std::decay_t<F>(std::forward<F>(f));
        sx::begin("", name, 4, g, sx::tag<typename sx::sig<decltype(g)>::type>());
        sx::extras(x...);
        sx_end();
        return *this;
    }
};
using module = module_;

template <typename... B> struct bases_of { static void report(const char *) {} };
template <typename T, typename... Options> class class_ {
    const char *tn;
    template <typename B> static std::enable_if_t<std::is_base_of<B, T>::value> base(const char *n) { sx_base(n, sx::tname<B>()); }
    template <typename B> static std::enable_if_t<!std::is_base_of<B, T>::value> base(const char *) {}
    static void destroy(void *p) { delete static_cast<T *>(p); }
    template <typename F, typename... X> void add(const char *name, int kind, F f, const X &... x) {
        sx::begin(tn, name, kind, f, sx::tag<typename sx::sig<F>::type>());
        sx::extras(x...);
        sx_end();
    }
public:
    template <typename S, typename... X> class_(S &, const char *name, const X &...) : tn(sx::tname<T>()) {
        sx_class(tn, name, sizeof(T), &destroy);
        int unused[] = {0, (base<Options>(tn), 0)...};
        (void)unused;
    }
    template <typename... A, typename... X> class_ &def(detail::init_t<A...>, const X &... x) {
        sx::begin(tn, "__init__", 1, sx::maker<T, A...>{}, sx::tag<T *(A...)>());
        sx::extras(x...);
        sx_end();
        return *this;
    }
    template <typename F, typename... X> class_ &def(detail::factory_t<F> f, const X &... x) {
        add("__init__", 1, sx::factory<T, F, typename sx::sig<F>::type>{f.f}, x...);
        return *this;
    }
    template <typename F, typename... X> class_ &def(const char *name, F &&f, const X &... x) {
        add(name, 0, sx::wrap<T>(std::forward<F>(f)), x...);
        return *this;
    }
    template <typename F, typename... X> class_ &def_static(const char *name, F &&f, const X &... x) {
        add(name, 4, std::decay_t<F>(f), x...);
        return *this;
    }
    template <typename C, typename D, typename... X> class_ &def_readonly(const char *name, D C::*m, const X &... x) {
        add(name, 2, sx::reader<T, D>{m}, x...);
        return *this;
    }
    template <typename C, typename D, typename... X> class_ &def_readwrite(const char *name, D C::*m, const X &... x) {
        add(name, 2, sx::reader<T, D>{m}, x...);
        add(name, 3, sx::writer<T, D>{m});
        return *this;
    }
    template <typename G, typename... X> class_ &def_property_readonly(const char *name, G &&g, const X &... x) {
        add(name, 2, sx::wrap<T>(std::forward<G>(g)), x...);
        return *this;
    }
    template <typename G, typename S, typename... X> class_ &def_property(const char *name, G &&g, S &&s, const X &... x) {
        add(name, 2, sx::wrap<T>(std::forward<G>(g)), x...);
        add(name, 3, sx::wrap<T>(std::forward<S>(s)), x...);
        return *this;
    }
};

template <typename E> struct exception {};
template <typename E, typename... X> exception<E> register_exception(module_ &, const char *name, const X &...) {
    sx_exception(typeid(E).name(), name);
    return {};
}

// the exceptions of pybind11 itself
#define SX_PYEXC(n) class n : public std::exception { public: explicit n(const char * = "") {} explicit n(const std::string &) {} };
SX_PYEXC(stop_iteration) SX_PYEXC(index_error) SX_PYEXC(key_error) SX_PYEXC(value_error) SX_PYEXC(type_error) SX_PYEXC(cast_error)
} // namespace pybind11

namespace py_sx_alias {}
#define PYBIND11_MODULE(name, variable)                                   \
    static void sx_module_body(pybind11::module_ &);                      \
    extern "C" void sx_init_##name() { pybind11::module_ m{#name}; sx_module_body(m); } \
    static void sx_module_body(pybind11::module_ &variable)
