// contracts on mito::tensor forms: forms with arbitrary components on arbitrary vectors
#include <mito/tensor.h>

using namespace mito::tensor;

template <int D>
static vector_t<D> vec(const double * p)
{
    vector_t<D> v;
    for (int i = 0; i < D; i++)
        v[i] = p[i];
    return v;
}

template <int D>
static symmetric_matrix_t<D> sym(const double * p)
{
    symmetric_matrix_t<D> m;
    int k = 0;
    for (int i = 0; i < D; i++)
        for (int j = i; j < D; j++)
            m[{ i, j }] = p[k++];
    return m;
}

template <int D>
static diagonal_matrix_t<D> dia(const double * p)
{
    diagonal_matrix_t<D> m;
    for (int i = 0; i < D; i++)
        m[{ i, i }] = p[i];
    return m;
}

// in: a, b, c, x, y, z (D each), s, t
template <int D>
static void laws(const double * in, double * out)
{
    auto a = one_form(vec<D>(in), mito::tensor::identity<D>), b = one_form(vec<D>(in + D), mito::tensor::identity<D>), c = one_form(vec<D>(in + 2 * D), mito::tensor::identity<D>);
    auto x = vec<D>(in + 3 * D), y = vec<D>(in + 4 * D), z = vec<D>(in + 5 * D);
    double s = in[6 * D], t = in[6 * D + 1];
    double * o = out;
    *o++ = a(x);                            // 0
    *o++ = (a + b)(x);                      // 1
    *o++ = (a - b)(x);                      // 2
    *o++ = (-a)(x);                         // 3
    *o++ = (s * a)(x);                      // 4
    *o++ = (a * s)(x);                      // 5
    *o++ = a(x + y);                        // 6
    *o++ = a(s * x);                        // 7
    *o++ = (a * b)(x, y);                   // 8 tensor product
    *o++ = mito::tensor::tensor(a, b)(x, y);      // 9
    *o++ = mito::tensor::tensor(a, b, c)(x, y, z);// 10
    *o++ = wedge(a)(x);                     // 11
    *o++ = wedge(s, a)(x);                  // 12
    *o++ = wedge(a, s)(x);                  // 13
    *o++ = wedge(a, b)(x, y);               // 14
    *o++ = wedge(a, b, c)(x, y, z);         // 15
    *o++ = wedge(a, wedge(b, c))(x, y, z);  // 16
    *o++ = wedge(a, s * wedge(b, c) + t * wedge(a, b))(x, y, z);  // 17
    *o++ = wedge(s, wedge(a, b))(x, y);     // 18
    *o++ = wedge(wedge(a, b), s)(x, y);     // 19
    *o++ = (mito::tensor::tensor(a, b) + mito::tensor::tensor(b, c))(x, y);  // 20
    *o++ = (mito::tensor::tensor(a, b) - mito::tensor::tensor(b, c))(x, y);  // 21
    *o++ = (s * wedge(a, b) + t * wedge(b, c))(x, y);            // 22
    *o++ = (mito::tensor::tensor(a, b, c) + wedge(a, b, c))(x, y, z);  // 23
    *o++ = (-wedge(a, b, c) * s)(x, y, z);  // 24
    // partial contraction
    *o++ = mito::tensor::tensor(a, b)(x, mito::tensor::_)(y);   // 25
    *o++ = mito::tensor::tensor(a, b)(mito::tensor::_, y)(x);   // 26
    *o++ = wedge(a, b)(x, mito::tensor::_)(y);            // 27
    *o++ = wedge(a, b)(mito::tensor::_, y)(x);            // 28
    *o++ = a(mito::tensor::_)(x);                         // 29
    *o++ = wedge(a, b, c)(x, y, mito::tensor::_)(z);      // 30
    *o++ = wedge(wedge(s, a), b)(x, y);             // 31
    const auto & _ = mito::tensor::_;
    *o++ = wedge(a, b, c)(x, _, _)(y, z);           // 32
    *o++ = wedge(a, b, c)(_, y, _)(x, z);           // 33
    *o++ = wedge(a, b, c)(_, _, z)(x, y);           // 34
    *o++ = wedge(a, b, c)(x, _, z)(y);              // 35
    *o++ = wedge(a, b, c)(_, y, z)(x);              // 36
    *o++ = mito::tensor::tensor(a, b)(_, _)(x, y);  // 37
    *o++ = wedge(a, b)(_, _)(x, y);                 // 38
    *o++ = mito::tensor::tensor(a, b, c)(x, _, _)(y, z);  // 39
    *o++ = mito::tensor::tensor(a, b, c)(_, y, _)(x, z);  // 40
    *o++ = mito::tensor::tensor(a, b, c)(_, _, z)(x, y);  // 41
}

extern "C" void laws2(const double * in, double * out) { laws<2>(in, out); }
extern "C" void laws3(const double * in, double * out) { laws<3>(in, out); }

// forms built with a metric: in: a, x, metric
extern "C" void metric_sym2(const double * in, double * out) { out[0] = one_form(vec<2>(in), sym<2>(in + 4))(vec<2>(in + 2)); }
extern "C" void metric_sym3(const double * in, double * out) { out[0] = one_form(vec<3>(in), sym<3>(in + 6))(vec<3>(in + 3)); }
extern "C" void metric_dia2(const double * in, double * out) { out[0] = one_form(vec<2>(in), dia<2>(in + 4))(vec<2>(in + 2)); }
extern "C" void metric_dia3(const double * in, double * out) { out[0] = one_form(vec<3>(in), dia<3>(in + 6))(vec<3>(in + 3)); }
