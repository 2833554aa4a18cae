// opaque functions as mito functions, with their opaque derivatives
#pragma once
#include <mito/functions.h>
#include "opaque.h"

namespace mito::functions {
    constexpr int p10(int n) { return n == 0 ? 1 : 10 * p10(n - 1); }

    template <class X>
    constexpr int extent()
    {
        if constexpr (requires { X::size; })
            return X::size;
        else
            return X::dim;
    }

    template <class X>
    double coord(const X & x, int i)
    {
        if constexpr (std::is_same_v<X, tensor::scalar_t>)
            return i == 0 ? x : 0.0;
        else
            return i < extent<X>() ? x[i] : 0.0;
    }

    template <int ID, class X, class Y, int ORD>
    class Opaque : public Function<X, Y> {
      public:
        using input_type = X;
        using output_type = Y;
        template <function_c H>
        constexpr auto operator()(const H & f) const
        {
            return Composition(*this, f);
        }
        auto operator[](int i) const
        requires subscriptable_c<Y>
        {
            return Subscript(*this, i);
        }
        template <tensor::tensor_c outputT = Y>
        auto operator[](const typename outputT::index_t & i) const
        {
            return Subscript(*this, i);
        }
        auto operator()(const X & x) const -> Y
        {
            if constexpr (std::is_same_v<Y, tensor::scalar_t>)
                return opq(ID, 0, ORD, coord(x, 0), coord(x, 1), coord(x, 2));
            else {
                Y y;
                int c = 0;
                for (auto & v : y)
                    v = opq(ID, c++, ORD, coord(x, 0), coord(x, 1), coord(x, 2));
                return y;
            }
        }
    };

    template <int I, int ID, class X, class Y, int ORD>
    constexpr auto derivative(const Opaque<ID, X, Y, ORD> &)
    {
        // a function of one scalar has one derivative, whatever the index it is asked for by the
        // chain rule (the convention of the library functions)
        constexpr int J = std::is_same_v<X, tensor::scalar_t> ? 0 : I;
        return Opaque<ID, X, Y, ORD + p10(J)>();
    }
}
