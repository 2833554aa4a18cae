// functions of mito::topology under contract: entry points with handles passed and returned through memory
#include <mito/topology.h>
#include <new>
using namespace mito;
using namespace mito::topology;

#define FACTORY(N)                                                                                                                     \
    extern "C" void sf_simplex_##N(SimplexFactory<N> * f, const simplex_composition_t<N> * c, unoriented_simplex_t<N> * out)           \
    {                                                                                                                                  \
        ::new (out) unoriented_simplex_t<N>(f->simplex(*c));                                                                           \
    }                                                                                                                                  \
    extern "C" void sf_find_##N(SimplexFactory<N> * f, const simplex_composition_t<N> * c, unoriented_simplex_t<N> * out)              \
    {                                                                                                                                  \
        ::new (out) unoriented_simplex_t<N>(f->findSimplex(*c));                                                                       \
    }                                                                                                                                  \
    extern "C" void sf_erase_##N(SimplexFactory<N> * f, unoriented_simplex_t<N> * s)                                                   \
    {                                                                                                                                  \
        f->erase(*s);                                                                                                                  \
    }                                                                                                                                  \
    extern "C" void of_comp_##N(OrientedSimplexFactory<N> * f, const simplex_composition_t<N> * c, simplex_t<N> * out)                 \
    {                                                                                                                                  \
        ::new (out) simplex_t<N>(f->orientedSimplex(*c));                                                                              \
    }                                                                                                                                  \
    extern "C" bool of_existscomp_##N(OrientedSimplexFactory<N> * f, const simplex_composition_t<N> * c)                               \
    {                                                                                                                                  \
        return f->existsOrientedSimplex(*c);                                                                                           \
    }                                                                                                                                  \
    extern "C" bool valid_##N(const simplex_composition_t<N> * c)                                                                      \
    {                                                                                                                                  \
        return isValid<N>(*c);                                                                                                         \
    }                                                                                                                                  \
    extern "C" void os_vertices_##N(const simplex_t<N> * s, vertex_simplex_composition_t<N> * out)                                     \
    {                                                                                                                                  \
        ::new (out) vertex_simplex_composition_t<N>((*s)->vertices());                                                                 \
    }                                                                                                                                  \
    extern "C" int us_vertices_##N(const unoriented_simplex_t<N> * u, vertex_t * out)                                                  \
    {                                                                                                                                  \
        int n = 0;                                                                                                                     \
        for (const auto & v : (*u)->vertices())                                                                                        \
            ::new (out + n++) vertex_t(v);                                                                                             \
        return n;                                                                                                                      \
    }                                                                                                                                  \
    extern "C" void os_composition_##N(const simplex_t<N> * s, simplex_composition_t<N> * out)                                         \
    {                                                                                                                                  \
        ::new (out) simplex_composition_t<N>((*s)->composition());                                                                     \
    }                                                                                                                                  \
    extern "C" void t_make_##N(Topology * t, const vertex_simplex_composition_t<N> * v, simplex_t<N> * out)                            \
    {                                                                                                                                  \
        ::new (out) simplex_t<N>(t->simplex<N>(*v));                                                                                   \
    }                                                                                                                                  \
    extern "C" bool t_existscomp_##N(Topology * t, const simplex_composition_t<N> * c)                                                 \
    {                                                                                                                                  \
        return t->exists<N>(*c);                                                                                                       \
    }                                                                                                                                  \
    extern "C" void t_comp_##N(Topology * t, const simplex_composition_t<N> * c, simplex_t<N> * out)                                   \
    {                                                                                                                                  \
        ::new (out) simplex_t<N>(t->simplex<N>(*c));                                                                                   \
    }                                                                                                                                  \
    extern "C" bool os_sanity_##N(const simplex_t<N> * s)                                                                              \
    {                                                                                                                                  \
        return (*s)->sanityCheck();                                                                                                    \
    }                                                                                                                                  \
    ORIENTED(N)

#define ORIENTED(N)                                                                                                                    \
    extern "C" void of_make_##N(OrientedSimplexFactory<N> * f, const unoriented_simplex_t<N> * u, orientation_t o, simplex_t<N> * out) \
    {                                                                                                                                  \
        ::new (out) simplex_t<N>(f->orientedSimplex(*u, o));                                                                           \
    }                                                                                                                                  \
    extern "C" void of_find_##N(OrientedSimplexFactory<N> * f, const unoriented_simplex_t<N> * u, orientation_t o, simplex_t<N> * out) \
    {                                                                                                                                  \
        ::new (out) simplex_t<N>(f->findOrientedSimplex(*u, o));                                                                       \
    }                                                                                                                                  \
    extern "C" bool of_exists_##N(OrientedSimplexFactory<N> * f, const unoriented_simplex_t<N> * u, orientation_t o)                   \
    {                                                                                                                                  \
        return f->existsOrientedSimplex(*u, o);                                                                                        \
    }                                                                                                                                  \
    extern "C" void of_erase_##N(OrientedSimplexFactory<N> * f, simplex_t<N> * s)                                                      \
    {                                                                                                                                  \
        f->erase(*s);                                                                                                                  \
    }                                                                                                                                  \
    extern "C" void t_make_uo_##N(Topology * t, const unoriented_simplex_t<N> * u, orientation_t o, simplex_t<N> * out)                \
    {                                                                                                                                  \
        ::new (out) simplex_t<N>(t->simplex<N>(*u, o));                                                                                \
    }                                                                                                                                  \
    extern "C" void t_flip_##N(Topology * t, const simplex_t<N> * s, simplex_t<N> * out)                                               \
    {                                                                                                                                  \
        ::new (out) simplex_t<N>(t->flip(*s));                                                                                         \
    }                                                                                                                                  \
    extern "C" bool t_flipped_##N(Topology * t, const simplex_t<N> * s)                                                                \
    {                                                                                                                                  \
        return t->exists_flipped(*s);                                                                                                  \
    }                                                                                                                                  \
    extern "C" void t_erase_##N(Topology * t, simplex_t<N> * s)                                                                        \
    {                                                                                                                                  \
        t->erase(*s);                                                                                                                  \
    }                                                                                                                                  \
    extern "C" void os_footprint_##N(const simplex_t<N> * s, unoriented_simplex_t<N> * out)                                            \
    {                                                                                                                                  \
        ::new (out) unoriented_simplex_t<N>((*s)->footprint());                                                                        \
    }                                                                                                                                  \
    extern "C" int os_orientation_##N(const simplex_t<N> * s) { return (*s)->orientation(); }                                          \
    extern "C" void t_freeflip_##N(const simplex_t<N> * s, simplex_t<N> * out) { ::new (out) simplex_t<N>(flip(*s)); }                 \
    extern "C" int factory_layout_##N(int i)                                                                                           \
    {                                                                                                                                  \
        OrientedSimplexFactory<N> * f = (OrientedSimplexFactory<N> *) 0x10000;                                                         \
        switch (i) {                                                                                                                   \
        case 0: return sizeof(*f);                                                                                                     \
        case 1: return (char *) &f->_simplex_factory - (char *) f;                                                                     \
        case 2: return (char *) &f->_oriented_simplices - (char *) f;                                                                  \
        case 3: return (char *) &f->_orientations - (char *) f;                                                                        \
        case 4: return (char *) &f->_simplex_factory._simplices - (char *) &f->_simplex_factory;                                       \
        case 5: return sizeof(f->_simplex_factory);                                                                                    \
        case 6: {                                                                                                                      \
            OrientedSimplex<N> * s = (OrientedSimplex<N> *) 0x10000;                                                                   \
            return (char *) &s->_footprint - (char *) s;                                                                               \
        }                                                                                                                              \
        case 7: {                                                                                                                      \
            OrientedSimplex<N> * s = (OrientedSimplex<N> *) 0x10000;                                                                   \
            return (char *) &s->_orientation - (char *) s;                                                                             \
        }                                                                                                                              \
        case 8: return sizeof(OrientedSimplex<N>);                                                                                     \
        case 9: return sizeof(Simplex<N>);                                                                                             \
        case 10: {                                                                                                                     \
            OrientedSimplex<N> * s = (OrientedSimplex<N> *) 0x10000;                                                                   \
            return (char *) &s->_reference_count - (char *) s;                                                                         \
        }                                                                                                                              \
        case 11: {                                                                                                                     \
            Simplex<N> * s = (Simplex<N> *) 0x10000;                                                                                   \
            return (char *) &s->_reference_count - (char *) s;                                                                         \
        }                                                                                                                              \
        }                                                                                                                              \
        return -1;                                                                                                                     \
    }
#define LAYOUT(N)                                                                                                                      \
    extern "C" int simplex_layout_##N(int i)                                                                                           \
    {                                                                                                                                  \
        SimplexFactory<N> * f = (SimplexFactory<N> *) 0x10000;                                                                         \
        Simplex<N> * s = (Simplex<N> *) 0x10000;                                                                                       \
        switch (i) {                                                                                                                   \
        case 0: return (char *) &f->_compositions - (char *) f;                                                                        \
        case 1: return (char *) &s->_simplices - (char *) s;                                                                           \
        }                                                                                                                              \
        return -1;                                                                                                                     \
    }
ORIENTED(0)
FACTORY(1)
FACTORY(2)
FACTORY(3)
LAYOUT(1)
LAYOUT(2)
LAYOUT(3)

extern "C" void sf_vertex(SimplexFactory<0> * f, unoriented_simplex_t<0> * out) { ::new (out) unoriented_simplex_t<0>(f->simplex()); }
extern "C" void sf_erase_0(SimplexFactory<0> * f, unoriented_simplex_t<0> * s) { f->erase(*s); }
extern "C" void of_vertex(OrientedSimplexFactory<0> * f, vertex_t * out) { ::new (out) vertex_t(f->vertex()); }
extern "C" void t_vertex(Topology * t, vertex_t * out) { ::new (out) vertex_t(t->vertex()); }
extern "C" bool t_existsv(Topology * t, const vertex_simplex_composition_t<1> * v) { return t->exists(*v); }
extern "C" void s_tail(const simplex_t<1> * s, vertex_t * out) { ::new (out) vertex_t(tail(*s)); }
extern "C" void s_head(const simplex_t<1> * s, vertex_t * out) { ::new (out) vertex_t(head(*s)); }
extern "C" bool s_connected(const simplex_t<1> * a, const simplex_t<1> * b) { return headTailConnected(*a, *b); }
extern "C" void s_flipdiag(const std::pair<simplex_t<2>, simplex_t<2>> * in, std::pair<simplex_t<2>, simplex_t<2>> * out)
{
    ::new (out) std::pair<simplex_t<2>, simplex_t<2>>(flip_diagonal(*in));
}
extern "C" int topology_layout(int i)
{
    Topology * t = (Topology *) 0x10000;
    switch (i) {
    case 0: return (char *) &t->_vertex_factory - (char *) t;
    case 1: return (char *) &t->_segment_factory - (char *) t;
    case 2: return (char *) &t->_triangle_factory - (char *) t;
    case 3: return (char *) &t->_tetrahedron_factory - (char *) t;
    case 4: return sizeof(Topology);
    }
    return -1;
}
// flipping diagonals: the helper functions of FlipDiagonal
extern "C" const void * fd_shared(const simplex_t<2> * a, const simplex_t<2> * b) { return &FlipDiagonal::_find_shared_simplex(*a, *b); }
extern "C" int fd_opposite(const simplex_t<2> * a, const simplex_t<2> * b, const unoriented_simplex_t<1> * s, vertex_t * out)
{
    int n = 0;
    for (const auto & v : FlipDiagonal::_opposite_vertices(*a, *b, *s))
        ::new (out + n++) vertex_t(v);
    return n;
}
extern "C" void fd_erase(std::set<simplex_t<1>> * s, simplex_composition_t<2> * c, simplex_t<1> * x, size_t i)
{
    FlipDiagonal::_erase_subsimplex(*s, *c, *x, i);
}
extern "C" void us_collect_2(const unoriented_simplex_t<2> * u, std::set<vertex_t> * s) { (*u)->vertices(*s); }
extern "C" void us_collect_1(const unoriented_simplex_t<1> * u, std::set<vertex_t> * s) { (*u)->vertices(*s); }
extern "C" void t_of_triangle(Topology * t, const simplex_composition_t<2> * c, simplex_t<2> * out) { ::new (out) simplex_t<2>(t->triangle(*c)); }
extern "C" void t_of_tetrahedron(Topology * t, const simplex_composition_t<3> * c, simplex_t<3> * out) { ::new (out) simplex_t<3>(t->tetrahedron(*c)); }
extern "C" void t_of_segment(Topology * t, const simplex_composition_t<1> * c, simplex_t<1> * out) { ::new (out) simplex_t<1>(t->segment(*c)); }
