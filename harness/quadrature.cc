// contracts on mito::quadrature: the rules on the reference simplices, and the integral over one or two cells
#include "opaque_functions.h"
#include "fake.h"
#include <mito/quadrature.h>
using namespace mito;
namespace fn = mito::functions;
namespace geo = mito::geometry;

// out: number of points, then weight and coordinates of each point
template <class E, int r>
static void rule(double * out)
{
    auto q = quadrature::quadrature_rule<quadrature::GAUSS, E, r>();
    *out++ = q.npoints;
    for (int i = 0; i < q.npoints; i++) {
        *out++ = q.weight(i);
        auto p = q.point(i);
        for (int d = 0; d < E::order; d++)
            *out++ = p[d];
    }
}
#define RULE(name, E, r) \
    extern "C" void rule_##name##_##r(const double *, double * out) { rule<geo::E, r>(out); }
RULE(segment, reference_segment_t, 1)
RULE(segment, reference_segment_t, 2)
RULE(triangle, reference_triangle_t, 1)
RULE(triangle, reference_triangle_t, 2)
RULE(triangle, reference_triangle_t, 3)
RULE(triangle, reference_triangle_t, 4)
RULE(tetrahedron, reference_tetrahedron_t, 1)
RULE(tetrahedron, reference_tetrahedron_t, 2)
