// contracts on mito::utilities: handles, pools, iterators, containers
#include <mito/utilities.h>
#include <cstddef>
namespace u = mito::utilities;

// constructions and destructions of resources, observed by the verifier
struct probe {
    probe(int);
    ~probe();
    int id;
};

template <int K>
struct payload {
    double d[K];
};
template <>
struct payload<0> {};

// a shared resource: 16 bytes (K = 0), 40 bytes (K = 3)
template <int K>
struct res final : u::Shareable {
    res(int i) : p(i) {}
    probe p;
    [[no_unique_address]] payload<K> d;
};
// an invalidatable resource
template <int K>
struct cell final : u::Invalidatable {
    cell(int i) : p(i) {}
    probe p;
    [[no_unique_address]] payload<K> d;
};

template <class T>
using alloc = u::SegmentedAllocator<T>;

// layout of the classes in the current source
#define LAYOUT(T, name)                                                                            \
    extern "C" long name##_layout(int i)                                                           \
    {                                                                                              \
        using A = alloc<T>;                                                                        \
        switch (i) {                                                                               \
            case 0: return offsetof(A, _segment_size);                                             \
            case 1: return offsetof(A, _begin);                                                    \
            case 2: return offsetof(A, _end);                                                      \
            case 3: return offsetof(A, _end_allocation);                                           \
            case 4: return offsetof(A, _n_segments);                                               \
            case 5: return offsetof(A, _n_elements);                                               \
            case 6: return offsetof(A, _available_locations);                                      \
            case 7: return offsetof(A, _start_of_segment);                                         \
            case 8: return sizeof(A);                                                              \
            case 9: return sizeof(T);                                                              \
            case 10: return offsetof(T, p);                                                        \
            case 11: return offsetof(A::iterator, _ptr);                                           \
            case 12: return offsetof(A::iterator, _segment_end);                                   \
            case 13: return offsetof(A::iterator, _segment_size);                                  \
            case 14: return offsetof(A::iterator, _end);                                           \
            case 15: return sizeof(A::iterator);                                                   \
        }                                                                                          \
        return -1;                                                                                 \
    }

// the allocator
#define ALLOC(T, name)                                                                             \
    LAYOUT(T, name)                                                                                \
    extern "C" void name##_ctor(alloc<T> * a, int n) { new (a) alloc<T>(n); }                      \
    extern "C" void name##_move(alloc<T> * a, alloc<T> * b) { new (a) alloc<T>(std::move(*b)); }   \
    extern "C" void name##_dtor(alloc<T> * a) { a->~alloc<T>(); }                                  \
    extern "C" int name##_capacity(alloc<T> * a) { return a->capacity(); }                         \
    extern "C" int name##_size(alloc<T> * a) { return a->size(); }                                 \
    extern "C" T * name##_lfp(alloc<T> * a, bool * r)                                              \
    {                                                                                              \
        auto [l, b] = a->location_for_placement();                                                 \
        *r = b;                                                                                    \
        return l;                                                                                  \
    }                                                                                              \
    extern "C" void name##_insert(alloc<T> * a, T * l) { a->insert(l); }                           \
    extern "C" void name##_erase(alloc<T> * a, T * l) { a->erase(l); }                             \
    extern "C" T * name##_at(alloc<T> * a, int i) { return &(*a)[i]; }                             \
    extern "C" const T * name##_cat(const alloc<T> * a, int i) { return &(*a)[i]; }                \
    extern "C" void name##_begin(alloc<T> * a, alloc<T>::iterator * o)                             \
    {                                                                                              \
        new (o) alloc<T>::iterator(a->begin());                                                    \
    }                                                                                              \
    extern "C" void name##_end(alloc<T> * a, alloc<T>::iterator * o)                               \
    {                                                                                              \
        new (o) alloc<T>::iterator(a->end());                                                      \
    }                                                                                              \
    extern "C" void name##_inc(alloc<T>::iterator * i) { ++*i; }                                   \
    extern "C" void name##_post(alloc<T>::iterator * i, alloc<T>::iterator * o)                    \
    {                                                                                              \
        new (o) alloc<T>::iterator((*i)++);                                                        \
    }                                                                                              \
    extern "C" T * name##_deref(alloc<T>::iterator * i) { return &**i; }                           \
    extern "C" T * name##_arrow(alloc<T>::iterator * i) { return i->operator->(); }                \
    extern "C" int name##_eq(alloc<T>::iterator * i, alloc<T>::iterator * j) { return *i == *j; }  \
    extern "C" int name##_ne(alloc<T>::iterator * i, alloc<T>::iterator * j) { return *i != *j; }

ALLOC(res<0>, r0)
ALLOC(res<3>, r3)
ALLOC(cell<0>, c0)
ALLOC(cell<3>, c3)

// the containers
template <class T>
struct container;
template <int K>
struct container<res<K>> {
    using type = u::repository_t<u::shared_ptr<res<K>>>;
};
template <int K>
struct container<cell<K>> {
    using type = u::segmented_vector_t<cell<K>>;
};
template <class T>
using cont = container<T>::type;

#define CONT(T, name)                                                                              \
    extern "C" long name##_clayout(int i)                                                          \
    {                                                                                              \
        switch (i) {                                                                               \
            case 0: return offsetof(cont<T>, _resources);                                          \
            case 1: return sizeof(cont<T>);                                                        \
            case 2: return sizeof(cont<T>::iterator);                                              \
            case 3: return offsetof(cont<T>::iterator, _segmented_iterator);                       \
        }                                                                                          \
        return -1;                                                                                 \
    }                                                                                              \
    extern "C" void name##_cctor(cont<T> * a, int n) { new (a) cont<T>(n); }                       \
    extern "C" void name##_cdtor(cont<T> * a) { a->~cont<T>(); }                                   \
    extern "C" int name##_csize(cont<T> * a) { return a->size(); }                                 \
    extern "C" int name##_ccapacity(cont<T> * a) { return a->capacity(); }                         \
    extern "C" void name##_cbegin(cont<T> * a, cont<T>::iterator * o)                              \
    {                                                                                              \
        new (o) cont<T>::iterator(a->begin());                                                     \
    }                                                                                              \
    extern "C" void name##_cend(cont<T> * a, cont<T>::iterator * o)                                \
    {                                                                                              \
        new (o) cont<T>::iterator(a->end());                                                       \
    }                                                                                              \
    extern "C" void name##_cinc(cont<T>::iterator * i) { ++*i; }                                   \
    extern "C" void name##_cpost(cont<T>::iterator * i, cont<T>::iterator * o)                     \
    {                                                                                              \
        new (o) cont<T>::iterator((*i)++);                                                         \
    }                                                                                              \
    extern "C" int name##_ceq(cont<T>::iterator * i, cont<T>::iterator * j) { return *i == *j; }   \
    extern "C" int name##_cne(cont<T>::iterator * i, cont<T>::iterator * j) { return *i != *j; }

CONT(res<0>, r0)
CONT(res<3>, r3)
CONT(cell<0>, c0)
CONT(cell<3>, c3)

#define REPO(T, name)                                                                              \
    extern "C" void name##_emplace(cont<T> * a, u::shared_ptr<T> * o)                              \
    {                                                                                              \
        new (o) u::shared_ptr<T>(a->emplace(7));                                                   \
    }                                                                                              \
    extern "C" int name##_cerase(cont<T> * a, u::shared_ptr<T> * p) { return a->erase(*p); }       \
    extern "C" void name##_cderef(cont<T>::iterator * i, u::shared_ptr<T> * o)                     \
    {                                                                                              \
        new (o) u::shared_ptr<T>(**i);                                                             \
    }                                                                                              \
    extern "C" void name##_resource(unsigned long i, u::shared_ptr<T> * o)                         \
    {                                                                                              \
        new (o) u::shared_ptr<T>(cont<T>::resource(i));                                            \
    }
REPO(res<0>, r0)
REPO(res<3>, r3)

#define VEC(T, name)                                                                               \
    extern "C" T * name##_emplace(cont<T> * a) { return &a->emplace(7); }                          \
    extern "C" int name##_cerase(cont<T> * a, T * p) { return a->erase(*p); }                      \
    extern "C" T * name##_cderef(cont<T>::iterator * i) { return &**i; }                           \
    extern "C" T * name##_arrow2(cont<T>::iterator * i) { return i->operator->(); }                \
    extern "C" T * name##_cat2(cont<T> * a, int i) { return &(*a)[i]; }                            \
    extern "C" const T * name##_ccat2(const cont<T> * a, int i) { return &(*a)[i]; }               \
    extern "C" void name##_cmove(cont<T> * a, cont<T> * b) { new (a) cont<T>(std::move(*b)); }
VEC(cell<0>, c0)
VEC(cell<3>, c3)

// handles
using H = u::shared_ptr<res<0>>;
extern "C" long h_layout(int i)
{
    switch (i) {
        case 0: return sizeof(H);
        case 1: return offsetof(H, _handle);
        case 2: return sizeof(res<0>);
        case 3: return offsetof(res<0>, _reference_count);
    }
    return -1;
}
extern "C" void h_default(H * a) { new (a) H(); }
extern "C" void h_wrap(H * a, res<0> * r) { new (a) H(r); }
extern "C" void h_copy(H * a, const H * b) { new (a) H(*b); }
extern "C" void h_move(H * a, H * b) { new (a) H(std::move(*b)); }
extern "C" void h_assign(H * a, const H * b) { *a = *b; }
extern "C" void h_massign(H * a, H * b) { *a = std::move(*b); }
extern "C" void h_dtor(H * a) { a->~H(); }
extern "C" void h_reset(H * a) { a->reset(); }
extern "C" int h_references(const H * a) { return a->references(); }
extern "C" bool h_is_nullptr(const H * a) { return a->is_nullptr(); }
extern "C" res<0> * h_arrow(const H * a) { return a->operator->(); }
extern "C" unsigned long h_id(const H * a) { return a->id(); }
extern "C" bool h_equal(const H * a, const H * b) { return *a == *b; }
extern "C" bool h_less(const H * a, const H * b) { return *a < *b; }
extern "C" bool h_valid(const H * a) { return (*a)->is_valid(); }
extern "C" void h_newres(res<0> * r) { new (r) res<0>(3); }
// passing and returning handles by value
static H pass(H h) { return h; }
extern "C" void h_value(H * a, const H * b) { new (a) H(pass(*b)); }
// swapping two handles
extern "C" void h_swap(H * a, H * b) { std::swap(*a, *b); }
