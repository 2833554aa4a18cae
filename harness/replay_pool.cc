// histories of pools, containers and handles, compared with a reference: looks for a failing history on the real code
// usage: replay_pool PROPERTY SEED HISTORIES
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <new>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <mito/utilities.h>
namespace u = mito::utilities;

static const char * prop;
static unsigned long seed;
static char trace[1 << 16];
static size_t ntrace;
static void note(const char * f, long a = 0, long b = 0)
{
    if (ntrace + 80 < sizeof trace)
        ntrace += std::snprintf(trace + ntrace, 80, f, a, b);
}
[[noreturn]] static void fail(const char * what)
{
    std::printf("FAIL %s: %s\n  seed %lu, history: %s\n", prop, what, seed, trace);
    std::fflush(stdout);
    _exit(1);
}
static void onsignal(int s)
{
    std::printf("FAIL %s: the code ends with signal %d\n  seed %lu, history: %s\n", prop, s, seed, trace);
    std::fflush(stdout);
    _exit(1);
}
#define REQUIRE(P, c, what)                                                                        \
    if (!std::strcmp(prop, P) && !(c))                                                             \
    fail(what)

// memory obtained by the pools
static bool tracking = false;
static std::map<char *, size_t> * segs;
// the blocks the pools have released (kept apart until the end of the history)
static std::set<char *> * released;
void * operator new(size_t n)
{
    char * p = (char *) std::malloc(n + 64);
    if (!p)
        std::abort();
    if (tracking) {
        tracking = false;
        (*segs)[p] = n;
        tracking = true;
        // nobody writes here
        std::memset(p + n, 0xab, 64);
    }
    return p;
}
void operator delete(void * p) noexcept
{
    if (!p)
        return;
    if (segs && segs->count((char *) p)) {
        bool t = tracking;
        tracking = false;
        std::memset(p, 0xdd, (*segs)[(char *) p]);
        segs->erase((char *) p);
        released->insert((char *) p);
        tracking = t;
        return;
    }
    if (released && released->count((char *) p))
        REQUIRE("U04", false, "memory is released a second time");
    std::free(p);
}
void operator delete(void * p, size_t) noexcept { operator delete(p); }

// the resources that are alive
static std::map<const void *, int> * life;
struct probe {
    int id;
    probe(int i) : id(i)
    {
        bool t = tracking;
        tracking = false;
        if (life->count(this))
            REQUIRE("U04", false, "a resource is constructed where another one is alive");
        (*life)[this] = i;
        tracking = t;
    }
    ~probe()
    {
        bool t = tracking;
        tracking = false;
        if (!life->count(this))
            REQUIRE("U04", false, "a resource is destroyed a second time");
        life->erase(this);
        tracking = t;
    }
};
template <int K>
struct res : u::Shareable {
    res(int i) : p(i) {}
    probe p;
    double d[K];
};
template <int K>
struct cell : u::Invalidatable {
    cell(int i) : p(i) {}
    probe p;
    double d[K];
};

static std::mt19937_64 rng;
static int rnd(int n) { return int(rng() % n); }

struct Entry {
    char * addr;
    int id;
};

// what a container must be: addresses in order of first use, the live ones, the erased ones
template <class C, class T>
struct Model {
    int N;
    std::vector<char *> order;              // slots in storage order
    std::map<char *, int> live;             // slot -> id
    std::set<char *> erased;
    std::map<char *, size_t> mine;          // my segments

    // blocks with elements
    long segments() const
    {
        long r = 0;
        for (auto & [s, n] : mine) {
            for (int i = 0; i < 64; ++i)
                REQUIRE("U02", (unsigned char) s[n + i] == 0xab, "the pool writes outside its segments");
            for (auto a : order)
                if (a >= s && a < s + n) {
                    ++r;
                    break;
                }
        }
        return r;
    }

    void placed(char * a, int id)
    {
        REQUIRE("U02", !live.count(a), "an element is placed where another one lives");
        for (auto & [b, i] : live)
            REQUIRE("U02", a + sizeof(T) <= b || b + sizeof(T) <= a, "elements overlap");
        bool in = false;
        for (auto & [s, n] : mine)
            in |= a >= s && a + sizeof(T) <= s + N * sizeof(T) && size_t(a + sizeof(T) - s) <= n;
        REQUIRE("U02", in, "an element is outside the segments of the pool");
        if (!erased.empty()) {
            REQUIRE("U02", erased.count(a), "the pool grows while locations are available");
            erased.erase(a);
        } else if (std::find(order.begin(), order.end(), a) == order.end())
            order.push_back(a);
        live[a] = id;
    }
};

template <class F>
static void during(std::map<char *, size_t> & mine, F f)
{
    segs = &mine;
    tracking = true;
    f();
    tracking = false;
    segs = nullptr;
}

static void repository_history(int len)
{
    using T = res<1>;
    using H = u::shared_ptr<T>;
    using C = u::repository_t<H>;
    int N = 1 + rnd(4);
    note("Repository(%ld) ", N);
    life->clear();
    Model<C, T> M;
    M.N = N;
    std::map<char *, size_t> & mine = M.mine;
    alignas(C) char room[sizeof(C)];
    C * c = new (room) C(N);
    {
        // handles: a table with fixed positions
        const int NH = 8;
        std::vector<H> h(NH);
        std::vector<char *> to(NH, nullptr);
        auto count = [&](char * a) {
            int n = 0;
            for (auto t : to)
                n += t == a;
            return n;
        };
        int next = 1;
        auto check = [&]() {
            for (int i = 0; i < NH; ++i) {
                REQUIRE("U01", (char *) h[i].operator->() == to[i], "a handle does not refer to its resource");
                REQUIRE("U01", h[i].is_nullptr() == (to[i] == nullptr), "a handle is null when it should not be, or the converse");
                if (to[i])
                    REQUIRE("U01", h[i].references() == count(to[i]), "the reference count is not the number of handles");
            }
            REQUIRE("U02", std::size(*c) == int(M.live.size()), "wrong size");
            REQUIRE("U02", c->capacity() == int(M.segments()) * N, "wrong capacity");
            for (auto & [a, id] : M.live) {
                REQUIRE("U02", ((T *) a)->p.id == id, "an element has changed");
                REQUIRE("U01", ((T *) a)->is_valid() == (count(a) > 0), "a resource is valid with no handle, or the converse");
                REQUIRE("U04", life->count(&((T *) a)->p), "a live resource has been destroyed");
            }
            REQUIRE("U04", life->size() == M.live.size(), "an erased resource has not been destroyed");
            // iteration
            if (!std::strcmp(prop, "U03")) {
                std::vector<char *> want, got;
                for (auto a : M.order)
                    if (M.live.count(a) && count(a) > 0)
                        want.push_back(a);
                size_t bound = want.size() + 2;
                for (auto it = c->begin(); it != c->end() && got.size() < bound; ++it)
                    got.push_back((char *) (*it).operator->());
                REQUIRE("U03", got == want, "prefix iteration does not visit the live elements in order");
                got.clear();
                for (auto it = c->begin(); !(it == c->end()) && got.size() < bound;)
                    got.push_back((char *) (*it++).operator->());
                REQUIRE("U03", got == want, "postfix iteration does not visit the live elements in order");
            }
        };
        for (int s = 0; s < len; ++s) {
            int i = rnd(NH), j = rnd(NH);
            switch (rnd(11)) {
                case 0:
                case 1:
                case 2:
                case 3: {
                    note("h%ld=emplace; ", i);
                    during(mine, [&] { H n = c->emplace(next); h[i] = n; });
                    to[i] = (char *) h[i].operator->();
                    M.placed(to[i], next++);
                    break;
                }
                case 4:
                    note("h%ld=h%ld; ", i, j);
                    h[i] = h[j];
                    to[i] = to[j];
                    break;
                case 5:
                    note("h%ld=move(h%ld); ", i, j);
                    h[i] = std::move(h[j]);
                    if (i != j) {
                        to[i] = to[j];
                        to[j] = nullptr;
                    }
                    break;
                case 6:
                    note("h%ld.reset(); ", i);
                    h[i].reset();
                    to[i] = nullptr;
                    break;
                case 7: {
                    note("copy h%ld; move; ", i);
                    H a(h[i]);
                    H b(std::move(a));
                    REQUIRE("U01", a.is_nullptr() && (char *) b.operator->() == to[i], "move construction");
                    if (to[i])
                        REQUIRE("U01", b.references() == count(to[i]) + 1, "the reference count is not the number of handles");
                    break;
                }
                case 8:
                    note("swap(h%ld,h%ld); ", i, j);
                    std::swap(h[i], h[j]);
                    std::swap(to[i], to[j]);
                    break;
                default: {
                    // erase a resource that is not used by others
                    if (to[i] && count(to[i]) != 1)
                        break;
                    note("erase(h%ld); ", i);
                    bool done = false;
                    during(mine, [&] { done = c->erase(h[i]); });
                    REQUIRE("U02", done == (to[i] != nullptr), "result of erase");
                    if (to[i]) {
                        M.erased.insert(to[i]);
                        M.live.erase(to[i]);
                    }
                    to[i] = nullptr;
                }
            }
            check();
        }
    }
    note("~Repository ");
    during(mine, [&] { c->~C(); });
    REQUIRE("U04", life->empty(), "a resource is not destroyed with its repository");
    REQUIRE("U04", mine.empty(), "memory is not released with its repository");
}

static void vector_history(int len)
{
    using T = cell<1>;
    using C = u::segmented_vector_t<T>;
    int N = 1 + rnd(4);
    note("SegmentedVector(%ld) ", N);
    life->clear();
    Model<C, T> M;
    M.N = N;
    std::map<char *, size_t> & mine = M.mine;
    alignas(C) char room[2][sizeof(C)];
    int side = 0;
    C * c = new (room[0]) C(N);
    int next = 1;
    auto check = [&]() {
        REQUIRE("U02", std::size(*c) == int(M.live.size()), "wrong size");
        REQUIRE("U02", c->capacity() == int(M.segments()) * N, "wrong capacity");
        for (auto & [a, id] : M.live) {
            REQUIRE("U02", ((T *) a)->p.id == id, "an element has changed");
            REQUIRE("U03", ((T *) a)->is_valid(), "a live element is not valid");
            REQUIRE("U04", life->count(&((T *) a)->p), "a live resource has been destroyed");
        }
        REQUIRE("U04", life->size() == M.order.size(), "a resource is destroyed or kept at the wrong time");
        if (!std::strcmp(prop, "U03")) {
            std::vector<char *> want, got;
            for (auto a : M.order)
                if (M.live.count(a))
                    want.push_back(a);
            size_t bound = want.size() + 2;
            for (auto it = c->begin(); it != c->end() && got.size() < bound; ++it)
                got.push_back((char *) &*it);
            REQUIRE("U03", got == want, "prefix iteration does not visit the live elements in order");
            got.clear();
            for (auto it = c->begin(); !(it == c->end()) && got.size() < bound;)
                got.push_back((char *) &*it++);
            REQUIRE("U03", got == want, "postfix iteration does not visit the live elements in order");
            for (size_t i = 0; i < M.order.size(); ++i) {
                REQUIRE("U03", (char *) &(*c)[int(i)] == M.order[i], "random access");
                REQUIRE("U03", (char *) &(*(const C *) c)[int(i)] == M.order[i], "random access (const)");
            }
        }
    };
    for (int s = 0; s < len; ++s) {
        switch (rnd(9)) {
            case 0:
            case 1:
            case 2:
            case 3: {
                note("emplace; ");
                char * a = nullptr;
                during(mine, [&] { a = (char *) &c->emplace(next); });
                M.placed(a, next++);
                break;
            }
            case 4: {
                if (!M.erased.empty() && rnd(3) == 0) {
                    note("erase again; ");
                    bool done = true;
                    during(mine, [&] { done = c->erase(*(T *) *M.erased.begin()); });
                    REQUIRE("U02", !done, "an element is erased a second time");
                }
                break;
            }
            case 5: {
                if (rnd(6))
                    break;
                note("move; ");
                C * o = new (room[1 - side]) C(std::move(*c));
                REQUIRE("U04", std::size(*c) == 0 && c->capacity() == 0, "a moved-from container is not empty");
                during(mine, [&] { c->~C(); });
                REQUIRE("U04", life->size() == M.order.size(), "destroying a moved-from container destroys resources");
                c = o;
                side = 1 - side;
                break;
            }
            case 6: {
                if (rnd(8))
                    break;
                note("erase all; ");
                for (auto a : M.order)
                    if (M.live.count(a)) {
                        during(mine, [&] { c->erase(*(T *) a); });
                        M.live.erase(a);
                        M.erased.insert(a);
                    }
                break;
            }
            default: {
                if (M.live.empty())
                    break;
                auto it = M.live.begin();
                std::advance(it, rnd(M.live.size()));
                char * a = it->first;
                note("erase %ld; ", it->second);
                bool done = false;
                during(mine, [&] { done = c->erase(*(T *) a); });
                REQUIRE("U02", done, "an element is not erased");
                M.live.erase(a);
                M.erased.insert(a);
            }
        }
        check();
    }
    note("~SegmentedVector ");
    during(mine, [&] { c->~C(); });
    REQUIRE("U04", life->empty(), "a resource is not destroyed with its container");
    REQUIRE("U04", mine.empty(), "memory is not released with its container");
}

int main(int n, char ** v)
{
    prop = v[1];
    unsigned long s0 = std::atol(v[2]);
    long hist = std::atol(v[3]);
    life = new std::map<const void *, int>;
    released = new std::set<char *>;
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM })
        std::signal(s, onsignal);
    for (long k = 0; k < hist; ++k) {
        seed = s0 + k;
        rng.seed(seed);
        ntrace = 0;
        trace[0] = 0;
        alarm(20);
        int len = k < 200 ? 3 + rnd(8) : 10 + rnd(40);
        if (k % 2 == 0)
            repository_history(len);
        else
            vector_history(len);
        for (auto p : *released)
            std::free(p);
        released->clear();
    }
    std::printf("%ld histories, none fails\n", hist);
    std::fflush(stdout);
    _exit(0);
}
