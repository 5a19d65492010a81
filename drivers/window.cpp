// C32: a reservoir holds what it is to hold: the latest values, those within the window, the first ones
#include "common.hpp"
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include <cxxmetrics/meter.hpp>
#include <cxxmetrics/snapshots.hpp>
#include <cxxmetrics/histogram.hpp>
using namespace cxxmetrics;
typedef long long ll_t;
typedef int64_t i64;
typedef double dbl;
typedef std::chrono::steady_clock::time_point tp;
struct told { const ll_t* now; tp operator()() const noexcept { return tp(std::chrono::steady_clock::duration(*now)); } };

// the elements a window of w that holds n elements has at time t, of count elements that came in order
template<typename T> struct model {
    double sum = 0; int size = 0;
    model(int n, ll_t w, const T* v, const ll_t* at, int count, ll_t t) {
        for (int i = count > n ? count - n : 0; i < count; ++i)
            if (at[i] >= t - w) { sum += v[i]; ++size; }
    }
    double mean() const { return size ? sum / size : 0; }
};
#define B1(T) T a, ll_t t1
#define B2(T) T a, ll_t t1, T b, ll_t t2
#define B3(T) T a, ll_t t1, T b, ll_t t2, T c, ll_t t3
#define B4(T) T a, ll_t t1, T b, ll_t t2, T c, ll_t t3, T d, ll_t t4
#define V6(T) T a, T b, T c, T d, T e, T f
#define L6 a, b, c, d, e, f
#define L1 a
#define L2 a, b
#define L3 a, b, c
#define L4 a, b, c, d
#define M1 t1
#define M2 t1, t2
#define M3 t1, t2, t3
#define M4 t1, t2, t3, t4
#define MAKE(N, K, T) ll_t now = 0; sliding_window_reservoir<T, N, told> r(std::chrono::nanoseconds(w), told{&now}); \
    const T v[] = { L##K }; const ll_t at[] = { M##K }; for (int i = 0; i < K; ++i) { now = at[i]; r.update(v[i]); }
#define WINDOW(N, K, T) \
    X i64 avg_drv_size_##T##N##K(ll_t w, B##K(T), ll_t t) { MAKE(N, K, T) now = t; return r.snapshot().size(); } \
    X i64 avg_ref_size_##T##N##K(ll_t w, B##K(T), ll_t t) { const T v[] = { L##K }; const ll_t at[] = { M##K }; return model<T>(N, w, v, at, K, t).size; } \
    X dbl avg_drv_mean_##T##N##K(ll_t w, B##K(T), ll_t t) { MAKE(N, K, T) now = t; return r.snapshot().mean(); } \
    X dbl avg_ref_mean_##T##N##K(ll_t w, B##K(T), ll_t t) { const T v[] = { L##K }; const ll_t at[] = { M##K }; return model<T>(N, w, v, at, K, t).mean(); }
WINDOW(3, 1, i64) WINDOW(2, 1, dbl) WINDOW(2, 2, dbl) WINDOW(3, 3, dbl) WINDOW(2, 3, dbl) WINDOW(3, 4, dbl)

// what is left after the copy or the assignment, and that the original goes on by itself
#define COPIES(N, K, T) \
    X dbl avg_drv_copy_##T##N##K(ll_t w, B##K(T), ll_t t) { MAKE(N, K, T) now = t; sliding_window_reservoir<T, N, told> q(r); return q.snapshot().mean(); } \
    X dbl avg_ref_copy_##T##N##K(ll_t w, B##K(T), ll_t t) { const T v[] = { L##K }; const ll_t at[] = { M##K }; return model<T>(N, w, v, at, K, t).mean(); } \
    X dbl avg_drv_kept_##T##N##K(ll_t w, B##K(T), ll_t t) { MAKE(N, K, T) now = t; sliding_window_reservoir<T, N, told> q(r); q.update(a + 1); return r.snapshot().mean(); } \
    X dbl avg_ref_kept_##T##N##K(ll_t w, B##K(T), ll_t t) { const T v[] = { L##K }; const ll_t at[] = { M##K }; return model<T>(N, w, v, at, K, t).mean(); } \
    X dbl avg_drv_assign_##T##N##K(ll_t w, ll_t w2, B##K(T), ll_t t) { MAKE(N, K, T) ll_t other = 0; sliding_window_reservoir<T, N, told> q(std::chrono::nanoseconds(w2), told{&other}); q.update(a + 1); q = r; now = t; return q.snapshot().mean(); } \
    X dbl avg_ref_assign_##T##N##K(ll_t w, ll_t w2, B##K(T), ll_t t) { const T v[] = { L##K }; const ll_t at[] = { M##K }; return model<T>(N, w, v, at, K, t).mean(); }
COPIES(2, 1, dbl) COPIES(2, 2, dbl)

// the latest N
template<typename T> double latest(int n, const T* v, int count) { double s = 0; int from = count > n ? count - n : 0; for (int i = from; i < count; ++i) s += v[i]; return s / (count - from); }
#define V1(T) T a
#define V2(T) T a, T b
#define V3(T) T a, T b, T c
#define V4(T) T a, T b, T c, T d
#define KEEPS(R, N, K, T) \
    X i64 avg_drv_##R##_size_##T##N##K(V##K(T)) { R##_reservoir<T, N> r; for (T x : { L##K }) r.update(x); return r.snapshot().size(); } \
    X i64 avg_ref_##R##_size_##T##N##K(V##K(T)) { return K > N ? N : K; }
#define HOLDS(R, N, K, T) KEEPS(R, N, K, T) \
    X dbl avg_drv_##R##_mean_##T##N##K(V##K(T)) { R##_reservoir<T, N> r; for (T x : { L##K }) r.update(x); return r.snapshot().mean(); } \
    X dbl avg_ref_##R##_mean_##T##N##K(V##K(T)) { const T v[] = { L##K }; return latest<T>(N, v, K); }
HOLDS(simple, 3, 1, dbl) HOLDS(simple, 3, 2, dbl) HOLDS(simple, 3, 3, dbl) HOLDS(simple, 3, 4, dbl) HOLDS(simple, 2, 4, dbl) HOLDS(simple, 4, 3, i64)
HOLDS(uniform, 3, 1, dbl) HOLDS(uniform, 3, 2, dbl) HOLDS(uniform, 3, 3, dbl) HOLDS(uniform, 4, 4, dbl) HOLDS(uniform, 4, 3, i64)
KEEPS(uniform, 3, 4, dbl) KEEPS(uniform, 4, 6, i64) KEEPS(uniform, 2, 3, dbl) KEEPS(uniform, 2, 4, i64)
X i64 avg_drv_none_simple() { simple_reservoir<dbl, 3> r; return r.snapshot().size(); }
X i64 avg_ref_none_simple() { return 0; }
X i64 avg_drv_none_uniform() { uniform_reservoir<dbl, 3> r; return r.snapshot().size(); }
X i64 avg_ref_none_uniform() { return 0; }
X i64 avg_drv_none_window(ll_t w, ll_t t) { ll_t now = t; sliding_window_reservoir<dbl, 3, told> r(std::chrono::nanoseconds(w), told{&now}); return r.snapshot().size(); }
X i64 avg_ref_none_window(ll_t w, ll_t t) { return 0; }

// a histogram hands on what is put into it, and reads as its reservoir
#define HIST(R, N, K, T) \
    X i64 avg_drv_hist_##R##_size_##T##N##K(V##K(T)) { histogram<T, R##_reservoir<T, N>> h{R##_reservoir<T, N>()}; for (T x : { L##K }) h.update(x); return h.snapshot().size(); } \
    X i64 avg_ref_hist_##R##_size_##T##N##K(V##K(T)) { return K > N ? N : K; } \
    X i64 avg_drv_hist_##R##_count_##T##N##K(V##K(T)) { histogram<T, R##_reservoir<T, N>> h{R##_reservoir<T, N>()}; for (T x : { L##K }) h.update(x); return h.snapshot().count(); } \
    X i64 avg_ref_hist_##R##_count_##T##N##K(V##K(T)) { return K; } \
    X dbl avg_drv_hist_##R##_mean_##T##N##K(V##K(T)) { histogram<T, R##_reservoir<T, N>> h{R##_reservoir<T, N>()}; for (T x : { L##K }) h.update(x); return h.snapshot().mean(); } \
    X dbl avg_ref_hist_##R##_mean_##T##N##K(V##K(T)) { const T v[] = { L##K }; return latest<T>(N, v, K); }
HIST(simple, 3, 2, dbl) HIST(simple, 2, 3, dbl) HIST(uniform, 3, 2, dbl) HIST(uniform, 3, 3, i64)
