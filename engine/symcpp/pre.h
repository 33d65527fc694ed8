// Force-included before the real extension sources: afterwards the type name `double` denotes Sym,
// a handle to a symbolic value owned by engine/sym.py, so the same source text computes symbolically.
#pragma once
#include <bits/stdc++.h>
#include <pybind11/pybind11.h>
#include <pybind11/functional.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>

namespace symns {
using real_double = double;
namespace py = pybind11;

struct Api {
    PyObject *cls, *lift, *add, *sub, *mul, *div, *neg, *cmp[6], *fexp, *flog, *fpow, *fabs_, *ffn, *zero,
        *isnan, *isinf, *choose, *uniform, *expo;
    Api() {
        py::module_ m = py::module_::import("engine.cppapi");
        auto g = [&](const char *n) {
            PyObject *o = py::object(m.attr(n)).release().ptr();
            return o;
        };
        cls = g("S"); lift = g("lift_any"); add = g("add"); sub = g("sub"); mul = g("mul");
        div = g("div"); neg = g("neg");
        cmp[0] = g("lt"); cmp[1] = g("le"); cmp[2] = g("gt"); cmp[3] = g("ge"); cmp[4] = g("eq"); cmp[5] = g("ne");
        fexp = g("sexp"); flog = g("slog"); fpow = g("power"); fabs_ = g("sabs"); ffn = g("call");
        zero = g("ZERO"); isnan = g("isnan"); isinf = g("isinf");
        choose = g("choose"); uniform = g("uniform"); expo = g("exponential");
    }
};
inline Api &api() {
    static Api *a = new Api();
    return *a;
}

struct Sym {
    PyObject *p;
    static PyObject *chk(PyObject *r) {
        if (!r) throw py::error_already_set();
        return r;
    }
    // steals
    static Sym own(PyObject *r) {
        Sym s(nullptr, 0);
        s.p = chk(r);
        return s;
    }
    Sym(std::nullptr_t, int) : p(nullptr) {}
    Sym() : p(nullptr) {}
    Sym(const Sym &o) : p(o.p) { Py_XINCREF(p); }
    Sym(Sym &&o) noexcept : p(o.p) { o.p = nullptr; }
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
    Sym(T v) : p(nullptr) {
        if (v == T(0)) return;
        PyObject *o = std::is_integral<T>::value ? PyLong_FromLongLong((long long) v) : PyFloat_FromDouble((real_double) v);
        p = PyObject_CallFunctionObjArgs(api().lift, chk(o), nullptr);
        Py_DECREF(o);
        chk(p);
    }
    ~Sym() { Py_XDECREF(p); }
    Sym &operator=(const Sym &o) {
        Py_XINCREF(o.p);
        PyObject *t = p;
        p = o.p;
        Py_XDECREF(t);
        return *this;
    }
    Sym &operator=(Sym &&o) noexcept {
        std::swap(p, o.p);
        return *this;
    }
    // borrowed reference to a lifted S
    PyObject *get() const {
        Api &a = api();
        if (!p || p == Py_None) return a.zero;
        if (Py_TYPE(p) == (PyTypeObject *) a.cls) return p;
        PyObject *n = PyObject_CallFunctionObjArgs(a.lift, p, nullptr);
        chk(n);
        PyObject *old = p;
        const_cast<Sym *>(this)->p = n;
        Py_DECREF(old);
        return p;
    }
    bool is_zero_ptr() const { return !p || p == api().zero; }
    static Sym un(PyObject *f, const Sym &x) { return own(PyObject_CallFunctionObjArgs(f, x.get(), nullptr)); }
    static Sym bin(PyObject *f, const Sym &x, const Sym &y) {
        PyObject *a = x.get(), *b = y.get();
        return own(PyObject_CallFunctionObjArgs(f, a, b, nullptr));
    }
    static bool rel(int k, const Sym &x, const Sym &y) {
        PyObject *a = x.get(), *b = y.get();
        PyObject *r = chk(PyObject_CallFunctionObjArgs(api().cmp[k], a, b, nullptr));
        bool v = (r == Py_True);
        Py_DECREF(r);
        return v;
    }
    Sym &operator+=(const Sym &o) { return *this = bin(api().add, *this, o); }
    Sym &operator-=(const Sym &o) { return *this = bin(api().sub, *this, o); }
    Sym &operator*=(const Sym &o) { return *this = bin(api().mul, *this, o); }
    Sym &operator/=(const Sym &o) { return *this = bin(api().div, *this, o); }
    Sym operator-() const { return un(api().neg, *this); }
    Sym operator+() const { return *this; }
    Sym &operator++() { return *this += Sym(1); }
    explicit operator bool() const { return rel(5, *this, Sym()); }
    long long to_ll() const {
        PyObject *n = PyNumber_Long(get());
        if (!n) throw py::error_already_set();
        long long v = PyLong_AsLongLong(n);
        Py_DECREF(n);
        return v;
    }
    real_double to_d() const {
        real_double v = PyFloat_AsDouble(get());
        if (PyErr_Occurred()) throw py::error_already_set();
        return v;
    }
    explicit operator int() const { return (int) to_ll(); }
    explicit operator long() const { return (long) to_ll(); }
    explicit operator long long() const { return to_ll(); }
    explicit operator unsigned long() const { return (unsigned long) to_ll(); }
    explicit operator unsigned int() const { return (unsigned int) to_ll(); }
    explicit operator real_double() const { return to_d(); }
};

#define SYM_BIN(OP, F)                                                                             \
    inline Sym operator OP(const Sym &a, const Sym &b) { return Sym::bin(api().F, a, b); }         \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>        \
    inline Sym operator OP(const Sym &a, T b) { return Sym::bin(api().F, a, Sym(b)); }             \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>        \
    inline Sym operator OP(T a, const Sym &b) { return Sym::bin(api().F, Sym(a), b); }
SYM_BIN(+, add)
SYM_BIN(-, sub)
SYM_BIN(*, mul)
SYM_BIN(/, div)
#define SYM_CMP(OP, K)                                                                             \
    inline bool operator OP(const Sym &a, const Sym &b) { return Sym::rel(K, a, b); }              \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>        \
    inline bool operator OP(const Sym &a, T b) { return Sym::rel(K, a, Sym(b)); }                  \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>        \
    inline bool operator OP(T a, const Sym &b) { return Sym::rel(K, Sym(a), b); }
SYM_CMP(<, 0)
SYM_CMP(<=, 1)
SYM_CMP(>, 2)
SYM_CMP(>=, 3)
SYM_CMP(==, 4)
SYM_CMP(!=, 5)

inline Sym exp(const Sym &x) { return Sym::un(api().fexp, x); }
inline Sym log(const Sym &x) { return Sym::un(api().flog, x); }
inline Sym abs(const Sym &x) { return Sym::un(api().fabs_, x); }
inline Sym fabs(const Sym &x) { return Sym::un(api().fabs_, x); }
inline Sym pow(const Sym &x, const Sym &y) { return Sym::bin(api().fpow, x, y); }
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
inline Sym pow(const Sym &x, T y) { return pow(x, Sym(y)); }
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
inline Sym pow(T x, const Sym &y) { return pow(Sym(x), y); }
inline Sym sqrt(const Sym &x) { return pow(x, Sym(0.5)); }
inline Sym cbrt(const Sym &x) { return pow(x, Sym(1) / Sym(3)); }
inline Sym call1(const char *n, const Sym &x) {
    py::object r = py::reinterpret_borrow<py::object>(api().ffn)(n, py::reinterpret_borrow<py::object>(x.get()));
    return Sym::own(r.release().ptr());
}
#define SYM_FN(N)                                                                                  \
    inline Sym N(const Sym &x) { return call1(#N, x); }
SYM_FN(log1p) SYM_FN(expm1) SYM_FN(log2) SYM_FN(log10) SYM_FN(exp2) SYM_FN(sin) SYM_FN(cos) SYM_FN(tanh) SYM_FN(lgamma)
SYM_FN(floor) SYM_FN(ceil) SYM_FN(round) SYM_FN(erf) SYM_FN(erfc)
inline bool isnan(const Sym &x) { return Sym::un(api().isnan, x).p == Py_True; }
inline bool isinf(const Sym &x) { return Sym::un(api().isinf, x).p == Py_True; }
inline bool isfinite(const Sym &x) { return !isnan(x) && !isinf(x); }
inline Sym hypot(const Sym &x, const Sym &y) { return sqrt(x * x + y * y); }
inline Sym fmax(const Sym &x, const Sym &y) { return x < y ? y : x; }
inline Sym fmin(const Sym &x, const Sym &y) { return y < x ? y : x; }
inline Sym fma(const Sym &x, const Sym &y, const Sym &z) { return x * y + z; }
inline Sym max(const Sym &x, const Sym &y) { return x < y ? y : x; }
inline Sym min(const Sym &x, const Sym &y) { return y < x ? y : x; }
inline std::ostream &operator<<(std::ostream &o, const Sym &) { return o << "<sym>"; }

// randomness: the engine decides (see engine/cppapi.py)
template <class IntType = int>
struct discrete_distribution {
    std::vector<Sym> w;
    template <class It>
    discrete_distribution(It b, It e) { for (; b != e; ++b) w.push_back(Sym(*b)); }
    discrete_distribution(std::initializer_list<Sym> l) : w(l) {}
    template <class G>
    IntType operator()(G &) {
        py::list l;
        for (auto &x : w) l.append(py::reinterpret_borrow<py::object>(x.get()));
        py::object r = py::reinterpret_borrow<py::object>(api().choose)(l);
        return r.cast<IntType>();
    }
};
template <class T = Sym>
struct uniform_real_distribution {
    Sym a, b;
    uniform_real_distribution(Sym a_ = Sym(0), Sym b_ = Sym(1)) : a(a_), b(b_) {}
    template <class G>
    Sym operator()(G &) {
        py::object r = py::reinterpret_borrow<py::object>(api().uniform)(
            py::reinterpret_borrow<py::object>(a.get()), py::reinterpret_borrow<py::object>(b.get()));
        return Sym::own(r.release().ptr());
    }
};
template <class T = Sym>
struct exponential_distribution {
    Sym l;
    exponential_distribution(Sym l_ = Sym(1)) : l(l_) {}
    template <class G>
    Sym operator()(G &) {
        py::object r = py::reinterpret_borrow<py::object>(api().expo)(py::reinterpret_borrow<py::object>(l.get()));
        return Sym::own(r.release().ptr());
    }
};
}  // namespace symns
using symns::Sym;

namespace std {
using symns::exp; using symns::log; using symns::abs; using symns::fabs; using symns::pow; using symns::sqrt;
using symns::log1p; using symns::expm1; using symns::log2; using symns::log10; using symns::exp2; using symns::sin;
using symns::cos; using symns::tanh; using symns::lgamma; using symns::floor; using symns::ceil; using symns::round;
using symns::isnan; using symns::isinf; using symns::isfinite; using symns::hypot; using symns::fmax;
using symns::fmin; using symns::max; using symns::min; using symns::cbrt; using symns::erf; using symns::erfc; using symns::fma;
namespace symrnd {
template <class I = int> using discrete_distribution = symns::discrete_distribution<I>;
template <class T = Sym> using uniform_real_distribution = symns::uniform_real_distribution<T>;
template <class T = Sym> using exponential_distribution = symns::exponential_distribution<T>;
}
template <>
struct numeric_limits<Sym> {
    static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false;
    static constexpr bool has_infinity = true, has_quiet_NaN = true;
    static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2;
    static constexpr int min_exponent = -1021, max_exponent = 1024, min_exponent10 = -307, max_exponent10 = 308;
    static Sym infinity() { return Sym(std::numeric_limits<symns::real_double>::infinity()); }
    static Sym quiet_NaN() { return Sym(std::numeric_limits<symns::real_double>::quiet_NaN()); }
    static Sym epsilon() { return Sym(std::numeric_limits<symns::real_double>::epsilon()); }
    static Sym max() { return Sym(std::numeric_limits<symns::real_double>::max()); }
    static Sym min() { return Sym(std::numeric_limits<symns::real_double>::min()); }
    static Sym lowest() { return Sym(std::numeric_limits<symns::real_double>::lowest()); }
};
}  // namespace std

namespace pybind11 {
namespace detail {
template <>
struct npy_format_descriptor<Sym> {
    static constexpr auto name = const_name("numpy.object_");
    static constexpr int value = npy_api::NPY_OBJECT_;
    static pybind11::dtype dtype() { return pybind11::dtype(value); }
    static std::string format() { return "O"; }
};
template <>
struct type_caster<Sym> {
    PYBIND11_TYPE_CASTER(Sym, const_name("Sym"));
    bool load(handle src, bool) {
        if (!src) return false;
        PyObject *o = PyObject_CallFunctionObjArgs(symns::api().lift, src.ptr(), nullptr);
        if (!o) {
            PyErr_Clear();
            return false;
        }
        value = Sym::own(o);
        return true;
    }
    static handle cast(const Sym &s, return_value_policy, handle) {
        PyObject *o = s.get();
        Py_INCREF(o);
        return o;
    }
};
template <>
struct compare_buffer_info<Sym> {
    static bool compare(const buffer_info &b) { return b.format == "O" && b.itemsize == (ssize_t) sizeof(Sym); }
};
}  // namespace detail
template <>
struct format_descriptor<Sym> {
    static constexpr const char c = 'O';
    static constexpr const char value[2] = {'O', '\0'};
    static std::string format() { return "O"; }
};
}  // namespace pybind11

#ifdef SYM_EIGEN
#include <Eigen/Core>
namespace Eigen {
template <>
struct NumTraits<Sym> : GenericNumTraits<Sym> {
    typedef Sym Real;
    typedef Sym NonInteger;
    typedef Sym Nested;
    typedef Sym Literal;
    enum {
        IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1,
        ReadCost = 1, AddCost = 3, MulCost = 3
    };
    static inline Sym epsilon() { return std::numeric_limits<Sym>::epsilon(); }
    static inline Sym dummy_precision() { return Sym(1e-12); }
    static inline Sym highest() { return std::numeric_limits<Sym>::max(); }
    static inline Sym lowest() { return std::numeric_limits<Sym>::lowest(); }
    static inline Sym infinity() { return std::numeric_limits<Sym>::infinity(); }
    static inline Sym quiet_NaN() { return std::numeric_limits<Sym>::quiet_NaN(); }
    static inline int digits10() { return 15; }
};
template <typename BinaryOp> struct ScalarBinaryOpTraits<Sym, symns::real_double, BinaryOp> { typedef Sym ReturnType; };
template <typename BinaryOp> struct ScalarBinaryOpTraits<symns::real_double, Sym, BinaryOp> { typedef Sym ReturnType; };
}  // namespace Eigen
namespace symns {
inline const Sym &conj(const Sym &x) { return x; }
inline const Sym &real(const Sym &x) { return x; }
inline Sym imag(const Sym &) { return Sym(); }
inline Sym abs2(const Sym &x) { return x * x; }
}
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <Eigen/Householder>
#include <unsupported/Eigen/MatrixFunctions>
#include <pybind11/eigen.h>
namespace Eigen {
typedef Matrix<Sym, Dynamic, Dynamic> SymMatrixX;
typedef Matrix<Sym, Dynamic, 1> SymVectorX;
typedef Matrix<Sym, 1, Dynamic> SymRowVectorX;
typedef Array<Sym, Dynamic, Dynamic> SymArrayXX;
typedef Array<Sym, Dynamic, 1> SymArrayX;
}
#define MatrixXd SymMatrixX
#define VectorXd SymVectorX
#define RowVectorXd SymRowVectorX
#define ArrayXXd SymArrayXX
#define ArrayXd SymArrayX
#endif

#define discrete_distribution symrnd::discrete_distribution
#define uniform_real_distribution symrnd::uniform_real_distribution
#define exponential_distribution symrnd::exponential_distribution
#ifndef SYM_KEEP_CONSTEXPR
#define constexpr const
#endif
#define double Sym
