// cells, nodes and coordinate systems in given states, built without the registries: the contract of
// CoordinateSystem::coordinates(point) - "the coordinates the point was placed at" - stands for the map
#pragma once
#ifdef __clang__
#pragma clang diagnostic ignored "-Winvalid-constexpr"
#endif
#include <mito/geometry.h>
#include <cstring>

namespace fake {
    using namespace mito;
    template <class T>
    struct raw {
        alignas(T) unsigned char b[sizeof(T)];
        raw() { std::memset(b, 0, sizeof(b)); }
        T & operator*() { return *reinterpret_cast<T *>(b); }
        T * operator->() { return reinterpret_cast<T *>(b); }
    };

    // a point that carries its coordinates
    template <class C>
    struct located {
        raw<geometry::Point<C::dim>> point;
        C c;
    };

    template <class C, class P>
    const C & coordinates_of(const P & p)
    {
        return reinterpret_cast<const located<C> *>(p._handle)->c;
    }

    // a node bound to a point, and the shared pointer to it
    template <int D>
    struct node {
        raw<geometry::GeometricSimplex<0, D>> simplex;
        template <class P>
        void bind(P * p)
        {
            simplex->_point._handle = reinterpret_cast<decltype(simplex->_point._handle)>(p);
        }
        void store(geometry::node_t<D> & n)
        {
            // the layout of a std::shared_ptr: pointer, control block (none)
            void * q[2] = { simplex.b, nullptr };
            static_assert(sizeof(n) == sizeof(q));
            std::memcpy(static_cast<void *>(&n), q, sizeof(q));
        }
    };

    // a cell with N + 1 nodes at given coordinates
    template <int N, class C>
    struct cell {
        static constexpr int D = C::dim;
        located<C> at[N + 1];
        node<D> nodes[N + 1];
        raw<geometry::geometric_simplex_t<N, D>> simplex;
        // the coordinates are read from an array of doubles
        cell(const double * x)
        {
            for (int i = 0; i <= N; i++) {
                tensor::vector_t<D> v;
                for (int d = 0; d < D; d++)
                    v[d] = x[D * i + d];
                at[i].c = C(v);
                nodes[i].bind(&at[i]);
                nodes[i].store(simplex->_nodes[i]);
            }
        }
        const geometry::geometric_simplex_t<N, D> & operator*() { return *simplex; }
    };
}

#define CONTRACT_COORDINATES(C)                                                                          \
    namespace mito::geometry {                                                                           \
        template <>                                                                                      \
        constexpr auto CoordinateSystem<C>::coordinates(const point_t<C::dim> & p) const -> const C &              \
        {                                                                                                \
            return fake::coordinates_of<C>(p);                                                           \
        }                                                                                                \
    }
