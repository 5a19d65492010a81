// C03: reservoirs; arg0 is the reservoir (for snapshots, arg0 is where the snapshot goes)
#include "common.hpp"
#include <cxxmetrics/snapshots.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
using namespace cxxmetrics;
typedef int64_t I; typedef int32_t S; typedef double D;
#define RES(R, K, N, T) typedef R##_reservoir<T, N> K##T##N; \
    X size_t rv_sizeof__##K##T##N(K##T##N*) { return sizeof(K##T##N); } \
    X void rv_new__##K##T##N(K##T##N* r) { new (r) K##T##N; } \
    X void rv_update__##K##T##N(K##T##N* r, const T& v) { r->update(v); } \
    X void rv_snap__##K##T##N(void* to, const K##T##N* r) { new (to) reservoir_snapshot(r->snapshot()); } \
    X void rv_copy__##K##T##N(K##T##N* r, const K##T##N* o) { new (r) K##T##N(*o); } \
    X void rv_assign__##K##T##N(K##T##N* r, const K##T##N* o) { *r = *o; }
RES(uniform, u, 3, I)
RES(uniform, u, 4, S)
RES(uniform, u, 2, D)
RES(simple, s, 3, I)
RES(simple, s, 4, S)
RES(simple, s, 2, D)
