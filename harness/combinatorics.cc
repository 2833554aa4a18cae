// contracts on mito::math: permutation_sign on arrays of N distinct elements
#include <mito/math.h>
#include <array>
#define INSTANCE(N)                                                                   \
    extern "C" int perm_##N(const long * data, const long * reference)                \
    {                                                                                 \
        std::array<long, N> a, b;                                                     \
        for (int i = 0; i < N; i++) {                                                 \
            a[i] = data[i];                                                           \
            b[i] = reference[i];                                                      \
        }                                                                             \
        return mito::math::permutation_sign(a, b);                                    \
    }
INSTANCE(1)
INSTANCE(2)
INSTANCE(3)
INSTANCE(4)
INSTANCE(5)
