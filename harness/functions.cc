// contracts on mito::functions: every operator applied to opaque operands
#include "opaque_functions.h"
using namespace mito;
namespace fn = mito::functions;
using S = tensor::scalar_t;
using V = tensor::vector_t<2>;
using M = tensor::matrix_t<2>;

struct sink {
    double * o;
    void put(double v) { *o++ = v; }
    template <class T>
    void put(const T & t)
    requires(!std::is_convertible_v<T, double>)
    {
        for (auto v : t)
            *o++ = v;
    }
};

template <class X>
static X point(const double * p)
{
    if constexpr (std::is_same_v<X, S>)
        return p[0];
    else
        return X{ p[0], p[1] };
}

template <class X>
constexpr int nv = 1;
template <>
constexpr int nv<V> = 2;

// value and partial derivatives
template <class X>
static void emit(sink & k, const X & x, const auto & e)
{
    k.put(e(x));
    k.put(fn::derivative<0>(e)(x));
    if constexpr (nv<X> > 1)
        k.put(fn::derivative<1>(e)(x));
}

// value only (no derivation rule for this operator)
template <class X>
static void value(sink & k, const X & x, const auto & e)
{
    k.put(e(x));
}

template <class X>
struct operands {
    fn::Opaque<1, X, S, 0> f;
    fn::Opaque<2, X, S, 0> g;
    fn::Opaque<3, X, S, 0> h;
    fn::Opaque<4, X, V, 0> F;
    fn::Opaque<5, X, V, 0> G;
    fn::Opaque<6, X, M, 0> P;
    fn::Opaque<7, X, M, 0> Q;
    fn::Opaque<8, S, S, 0> s;
    fn::Opaque<9, V, S, 0> w;
    fn::Opaque<10, V, V, 0> W;
};

// in: x0 x1 a b v0 v1 A00 A01 A10 A11
template <class X>
static void scalars(const double * in, double * out)
{
    sink k{ out };
    auto x = point<X>(in);
    auto [f, g, h, F, G, P, Q, s, w, W] = operands<X>();
    double a = in[2], b = in[3];
    emit(k, x, f + g);
    emit(k, x, f + a);
    emit(k, x, a + f);
    emit(k, x, a * f);
    emit(k, x, f * a);
    emit(k, x, f / a);
    emit(k, x, -f);
    emit(k, x, f - g);
    emit(k, x, a - f);
    emit(k, x, f - a);
    emit(k, x, f * g);
    emit(k, x, a / f);
    emit(k, x, f / g);
    emit(k, x, f + 3);
    emit(k, x, 3 * f);
    emit(k, x, f - 2);
    emit(k, x, 3 - f);
    emit(k, x, f / 4);
    emit(k, x, fn::linear_combination(std::array<double, 2>{ a, b }, f, g));
    emit(k, x, fn::linear_combination(std::array<double, 3>{ a, b, 2.0 }, f, g, h));
    emit(k, x, fn::summation(f, g, h));
    emit(k, x, fn::linear_combination(std::array<double, 2>{ a, b }, f, f));
    emit(k, x, s(f));
    emit(k, x, s(f + g));
    emit(k, x, s(s(f)));
    emit(k, x, (s + s * s)(f));
    emit(k, x, (a * s)(f * g));
    emit(k, x, fn::derivative<0>(f * g));
    emit(k, x, fn::derivative<0>(f / g));
    emit(k, x, fn::derivative<0>(s(f)));
    emit(k, x, f + fn::constant<X>(a));
    emit(k, x, f * fn::constant<X>(a));
    emit(k, x, fn::zero<X> + f);
    emit(k, x, fn::one<X> * f);
    emit(k, x, (f + g) * h);
    emit(k, x, f * (g - h) / (a + g));
    emit(k, x, fn::function([a, b](const X & x) { return a * fn::coord(x, 0) + b * fn::coord(x, 1); }) (x) * f);
}

template <class X>
static void tensors(const double * in, double * out)
{
    sink k{ out };
    auto x = point<X>(in);
    auto [f, g, h, F, G, P, Q, s, w, W] = operands<X>();
    double a = in[2], b = in[3];
    V v{ in[4], in[5] };
    M A{ in[6], in[7], in[8], in[9] };
    emit(k, x, F + G);
    emit(k, x, F - G);
    emit(k, x, -F);
    emit(k, x, a * F);
    emit(k, x, F * a);
    emit(k, x, F / a);
    emit(k, x, f * F);
    emit(k, x, F * f);
    emit(k, x, F / f);
    emit(k, x, F * G);
    emit(k, x, F + v);
    emit(k, x, v - F);
    emit(k, x, F - v);
    emit(k, x, v * f);
    emit(k, x, f * v);
    emit(k, x, v * F);
    emit(k, x, F * v);
    emit(k, x, A * F);
    emit(k, x, F[0]);
    emit(k, x, F[1]);
    emit(k, x, (F + G)[1]);
    emit(k, x, (f * F)[0]);
    emit(k, x, (F * f)[1]);
    emit(k, x, (A * F)[1]);
    emit(k, x, P + Q);
    emit(k, x, P - Q);
    emit(k, x, P * F);
    emit(k, x, P * Q);
    emit(k, x, a * P);
    emit(k, x, P * a);
    emit(k, x, f * P);
    emit(k, x, A * P);
    emit(k, x, P * A);
    emit(k, x, P * v);
    emit(k, x, P[{ 0, 1 }]);
    emit(k, x, P[{ 1, 0 }]);
    emit(k, x, fn::transpose(P));
    emit(k, x, fn::transpose(P * Q));
    emit(k, x, fn::linear_combination(std::array<double, 2>{ a, b }, F, G));
    emit(k, x, fn::constant<X>(v) * f);
    value(k, x, fn::determinant(P));
    value(k, x, fn::inverse(P));
    value(k, x, fn::dyadic(F, G));
    value(k, x, fn::dyadic(F, G)[{ 0, 1 }]);
}

extern "C" void scalars_s(const double * in, double * out) { scalars<S>(in, out); }
extern "C" void scalars_v(const double * in, double * out) { scalars<V>(in, out); }
extern "C" void tensors_s(const double * in, double * out) { tensors<S>(in, out); }
extern "C" void tensors_v(const double * in, double * out) { tensors<V>(in, out); }

// functions of vectors: chain rule, full derivatives
extern "C" void chains(const double * in, double * out)
{
    sink k{ out };
    auto x = point<V>(in);
    auto [f, g, h, F, G, P, Q, s, w, W] = operands<V>();
    double a = in[2];
    emit(k, x, w(F));
    emit(k, x, w(F + G));
    emit(k, x, w(f * F));
    emit(k, x, W(F));
    emit(k, x, W(F)[1]);
    emit(k, x, (a * w)(F));
    emit(k, x, (w * w)(W));
    emit(k, x, s(w(F)));
    k.put(fn::derivative(f)(x));
    k.put(fn::derivative(F)(x));
    k.put(fn::derivative(f * g)(x));
    k.put(fn::derivative(W(F))(x));
    fn::Opaque<11, V, tensor::vector_t<3>, 0> H;
    k.put(fn::derivative(H)(x));
    fn::Opaque<12, S, V, 0> C;
    k.put(fn::derivative(C)(in[0]));
    k.put(fn::derivative(s)(in[0]));
}

// library functions
extern "C" void library(const double * in, double * out)
{
    sink k{ out };
    double x = in[0];
    auto f = fn::Opaque<1, S, S, 0>();
    emit(k, x, fn::sin);
    emit(k, x, fn::cos);
    emit(k, x, fn::tan);
    emit(k, x, fn::acos);
    emit(k, x, fn::asin);
    emit(k, x, fn::atan);
    emit(k, x, fn::exp);
    emit(k, x, fn::log);
    emit(k, x, fn::sqrt);
    emit(k, x, fn::cbrt);
    emit(k, x, fn::pow<1>);
    emit(k, x, fn::pow<2>);
    emit(k, x, fn::pow<3>);
    emit(k, x, fn::pow<4>);
    emit(k, x, fn::pow<5>);
    emit(k, x, fn::pow<7>);
    emit(k, x, fn::constant<S>(in[1]));
    emit(k, x, fn::zero<S>);
    emit(k, x, fn::one<S>);
    emit(k, x, fn::derivative<0>(fn::sin));
    emit(k, x, fn::derivative<0>(fn::pow<4>));
    emit(k, x, fn::derivative<0>(fn::cos));
    emit(k, x, fn::sin(fn::cos));
    emit(k, x, fn::exp(fn::sin) * fn::pow<2>);
    emit(k, x, fn::sin * fn::cos - fn::exp / (fn::pow<2> + 1.0));
}

extern "C" void components(const double * in, double * out)
{
    sink k{ out };
    using W = tensor::vector_t<3>;
    W x{ in[0], in[1], in[2] };
    auto all = [&](auto e) {
        k.put(e(x));
        k.put(fn::derivative<0>(e)(x));
        k.put(fn::derivative<1>(e)(x));
        k.put(fn::derivative<2>(e)(x));
    };
    all(fn::component<W, 0>);
    all(fn::component<W, 1>);
    all(fn::component<W, 2>);
    all(fn::component<W, 0> * fn::component<W, 1> * fn::component<W, 2>);
    all(fn::sin(fn::component<W, 2>) * fn::component<W, 0>);
    all(fn::constant<W>(in[3]));
    all(fn::zero<W>);
    all(fn::one<W>);
}

// functions of vectors in three dimensions, maps between dimensions
// in: x0 x1 x2 a v0 v1 v2 A00 .. A22
extern "C" void three(const double * in, double * out)
{
    sink k{ out };
    using V3 = tensor::vector_t<3>;
    using M3 = tensor::matrix_t<3>;
    V3 x{ in[0], in[1], in[2] };
    double a = in[3];
    V3 v{ in[4], in[5], in[6] };
    M3 A{ in[7], in[8], in[9], in[10], in[11], in[12], in[13], in[14], in[15] };
    fn::Opaque<1, V3, S, 0> f;
    fn::Opaque<2, V3, S, 0> g;
    fn::Opaque<3, V3, S, 0> h;
    fn::Opaque<4, V3, V3, 0> F;
    fn::Opaque<5, V3, V3, 0> G;
    fn::Opaque<6, V3, M3, 0> P;
    fn::Opaque<7, V3, M3, 0> Q;
    fn::Opaque<8, S, S, 0> s;
    fn::Opaque<9, V3, S, 0> w;
    fn::Opaque<10, V3, V3, 0> W;
    fn::Opaque<13, V3, V, 0> F32;
    fn::Opaque<14, V, S, 0> w2;
    fn::Opaque<15, V, V3, 0> W23;
    fn::Opaque<16, S, V3, 0> curve;
    auto all = [&](auto e) {
        k.put(e(x));
        k.put(fn::derivative<0>(e)(x));
        k.put(fn::derivative<1>(e)(x));
        k.put(fn::derivative<2>(e)(x));
    };
    all(f * g);
    all(f / g);
    all(s(f));
    all(fn::linear_combination(std::array<double, 3>{ a, 2.0, -a }, f, g, h));
    all(w(F));
    all(w(F + G));
    all(w(f * F));
    all(W(F));
    all(W(F)[1]);
    all(w2(F32));
    all(W23(F32));
    all(curve(f));
    all(s(w(W(F))));
    all(F * G);
    all(v * F);
    all(A * F);
    all((A * F)[2]);
    all(f * F);
    all(F / f);
    all(P * F);
    all(P * Q);
    all(fn::transpose(P));
    all(P[{ 1, 2 }]);
    all(P[{ 2, 0 }]);
    all(P * v);
    all(F[2]);
    // second derivatives
    auto second = [&](auto e) {
        k.put(fn::derivative<0>(fn::derivative<0>(e))(x));
        k.put(fn::derivative<1>(fn::derivative<0>(e))(x));
        k.put(fn::derivative<2>(fn::derivative<1>(e))(x));
        k.put(fn::derivative<2>(fn::derivative<2>(e))(x));
    };
    second(f * g);
    second(f / g);
    second(s(f));
    second(w(F));
    second(f * F);
    // full derivatives
    k.put(fn::derivative(f)(x));
    k.put(fn::derivative(F)(x));
    k.put(fn::derivative(F32)(x));
    k.put(fn::derivative(W(F))(x));
    // value only
    k.put(fn::determinant(P)(x));
    k.put(fn::inverse(P)(x));
    k.put(fn::dyadic(F, G)(x));
}

template <int... N>
static void powers(sink & k, double x, std::integer_sequence<int, N...>)
{
    (emit(k, x, fn::pow<N + 1>), ...);
    (k.put(fn::derivative<0>(fn::derivative<0>(fn::pow<N + 2>))(x)), ...);
}

extern "C" void library2(const double * in, double * out)
{
    sink k{ out };
    double x = in[0];
    powers(k, x, std::make_integer_sequence<int, 16>{});
    auto second = [&](auto e) { k.put(fn::derivative<0>(fn::derivative<0>(e))(x)); };
    second(fn::sin);
    second(fn::cos);
    second(fn::tan);
    second(fn::acos);
    second(fn::asin);
    second(fn::atan);
    second(fn::exp);
    second(fn::log);
    second(fn::sqrt);
    second(fn::cbrt);
    second(fn::sin(fn::pow<2>) * fn::exp);
}
