// opaque differentiable functions: the operands of the contracts on the function algebra.
// value of the order-th partial derivative of component comp of function id at (x0, x1, x2);
// order is the decimal packing of the number of derivations in each variable
#pragma once
#include <cmath>
#ifdef VERIFY
extern "C" double opq(int id, int comp, int order, double x0, double x1, double x2);
#else
extern "C" double opq(int id, int comp, int order, double x0, double x1, double x2)
{
    // 2 + sin(phase), phase affine in the coordinates
    double w0 = 0.7 + 0.11 * id + 0.05 * comp, w1 = 0.4 - 0.07 * id + 0.13 * comp, w2 = 0.3 + 0.09 * id - 0.06 * comp;
    int o0 = order % 10, o1 = order / 10 % 10, o2 = order / 100 % 10, n = o0 + o1 + o2;
    double ph = 0.3 * id + 0.5 * comp + w0 * x0 + w1 * x1 + w2 * x2;
    double v = std::sin(ph + n * M_PI / 2) * std::pow(w0, o0) * std::pow(w1, o1) * std::pow(w2, o2);
    return n == 0 ? 2 + v : v;
}
#endif
