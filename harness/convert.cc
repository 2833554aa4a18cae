// contracts on coordinate systems: placing points, change of coordinates.
// verification: the map is a ghost, the loop over its entries is cut at the iterator protocol: the entries placed here are arbitrary ones
#include "fake.h"
using namespace mito;
namespace geo = mito::geometry;
using c2 = geo::coordinates_t<2, geo::CARTESIAN>;
using c3 = geo::coordinates_t<3, geo::CARTESIAN>;
using pol = geo::coordinates_t<2, geo::POLAR>;
using sph = geo::coordinates_t<3, geo::SPHERICAL>;

template <int D>
struct point {
    fake::raw<geo::Point<D>> p;
    geo::point_t<D> & handle;
    point() : handle(*new geo::point_t<D>())
    {
        // never released
        p->_reference_count = 1000;
        handle._handle = reinterpret_cast<decltype(handle._handle)>(p.b);
    }
};

template <class C>
static C at(const double * in)
{
    tensor::vector_t<C::dim> v;
    for (int d = 0; d < C::dim; d++)
        v[d] = in[d];
    return C(v);
}

template <class C>
static void put(const C & c, double *& out)
{
    for (int d = 0; d < C::dim; d++)
        *out++ = c[d];
}

// a point of the system A at `in`, and its coordinates in the system B made of it
template <class A, class B>
static void convert(const double * in, double * out)
{
    auto & p = *new point<A::dim>();
    auto & a = *new geo::coordinate_system_t<A>();
    a.place(p.handle, at<A>(in));
    put(a.coordinates(p.handle), out);
    auto & b = *new geo::coordinate_system_t<B>(a);
    put(b.coordinates(p.handle), out);
}

// two points, and their coordinates; the origin
template <class A>
static void placed(const double * in, double * out)
{
    auto & p = *new point<A::dim>();
    auto & q = *new point<A::dim>();
    auto & a = *new geo::coordinate_system_t<A>();
    a.place(p.handle, at<A>(in));
    a.place(q.handle, at<A>(in + A::dim));
    put(a.coordinates(p.handle), out);
    put(a.coordinates(q.handle), out);
    put(a.origin(), out);
}

#define CONVERT(A, B) extern "C" void convert_##A##_##B(const double * in, double * out) { convert<A, B>(in, out); }
CONVERT(c2, pol)
CONVERT(pol, c2)
CONVERT(c3, sph)
CONVERT(sph, c3)
#define PLACED(A) extern "C" void placed_##A(const double * in, double * out) { placed<A>(in, out); }
PLACED(c2)
PLACED(c3)
PLACED(pol)
PLACED(sph)
