// C02: ring buffers; arg0 is the ring buffer
#include "common.hpp"
#include <cxxmetrics/ringbuf.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
using namespace cxxmetrics;
typedef int64_t I; typedef int32_t S; typedef double D;
X void visit_probe(int k, I v); X void visit_probe_D(int k, D v); X void visit_probe_S(int k, S v);
inline void seen(int k, I v) { visit_probe(k, v); }
inline void seen(int k, D v) { visit_probe_D(k, v); }
inline void seen(int k, S v) { visit_probe_S(k, v); }
template<int K> struct walk { template<typename It> static void go(It& it, const It& e, int k) { if (it != e) { seen(k, *it); ++it; walk<K - 1>::go(it, e, k + 1); } } };
template<> struct walk<0> { template<typename It> static void go(It&, const It&, int) { } };
#define RING(N, T) typedef internal::ringbuf<T, N> T##N; \
    X size_t rb_sizeof__##T##N(T##N*) { return sizeof(T##N); } \
    X void rb_push__##T##N(T##N* r, T v) { r->push(v); } \
    X size_t rb_size__##T##N(const T##N* r) { return r->size(); } \
    X void rb_walk__##T##N(const T##N* r) { auto it = r->begin(); const auto e = r->end(); walk<N + 1>::go(it, e, 0); } \
    X void rb_new__##T##N(T##N* r) { new (r) T##N(); } \
    X void rb_copy__##T##N(T##N* r, const T##N* o) { new (r) T##N(*o); } \
    X void rb_assign__##T##N(T##N* r, const T##N* o) { *r = *o; } \
    X void rb_range__##T##N(T##N* r, const T* a, const T* b) { new (r) T##N(a, b); }
RING(3, I)
RING(4, I)
RING(2, D)
RING(5, S)
