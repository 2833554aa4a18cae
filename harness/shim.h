#pragma once
#define HAVE_TENSOR
#define HAVE_COMPACT_PACKINGS
#include <pyre/tensor.h>
namespace pyre::tensor::traits {
  template <class T> struct transpose;
  template <int D1, int D2, class T, class P>
  struct transpose<pyre::tensor::matrix_t<D1,D2,T,P>> { using type = pyre::tensor::matrix_t<D2,D1,T,P>; };
}
