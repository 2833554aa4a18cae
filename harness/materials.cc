// contracts on mito::materials: the constitutive functions on an arbitrary deformation gradient
#include <mito/materials.h>
using namespace mito;

template <class M>
static void evaluate(const M & m, const double * f, double * out)
{
    tensor::matrix_t<3> F;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            F[{ i, j }] = f[3 * i + j];
    out[0] = m.energy(F);
    auto P = m.stress(F);
    auto C = m.tangents(F);
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) {
            out[1 + 3 * i + j] = P[{ i, j }];
            for (int k = 0; k < 3; k++)
                for (int l = 0; l < 3; l++)
                    out[10 + 27 * i + 9 * j + 3 * k + l] = C[{ i, j, k, l }];
        }
}

extern "C" void linear_elastic(const double * in, double * out)
{
    evaluate(materials::LinearElastic(in[0], in[1], in[2]), in + 3, out);
}

extern "C" void gent(const double * in, double * out)
{
    evaluate(materials::Gent(in[0], in[1], in[2], in[3]), in + 4, out);
}
