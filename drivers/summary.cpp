// C31: what a snapshot of a reservoir says about the values in it
#include "common.hpp"
#include <cxxmetrics/snapshots.hpp>
#include <cxxmetrics/publisher.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
typedef int64_t i64;
typedef double dbl;

// how a quantile of n values in ascending order is read
template<typename T> static inline metric_value between(const T* v, int n, long double percent)
{
    const long double pos = percent / 100 * (n + 1);
    const int i = (int)pos;
    if (i < 1) return metric_value(v[0]);
    if (i >= n) return metric_value(v[n - 1]);
    return metric_value(v[i - 1]) + metric_value((pos - i) * (long double)metric_value(v[i] - v[i - 1]));
}
template<typename T> static inline double average(const T* v, int n)
{
    double t = 0;
    for (int i = 0; i < n; ++i) t += v[i];
    return t / n;
}
#define A1(T) T a
#define A2(T) T a, T b
#define A3(T) T a, T b, T c
#define A4(T) T a, T b, T c, T d
#define I1 { if (!(a == a)) return 0; }
#define I2 { if (!(a <= b)) return 0; }
#define I3 { if (!(a <= b) || !(b <= c)) return 0; }
#define I4 { if (!(a <= b) || !(b <= c) || !(c <= d)) return 0; }
#define L1 a
#define L2 a, b
#define L3 a, b, c
#define L4 a, b, c, d
#define ONE(name, R, N, T, got, want) \
    X R avg_drv_##name##_##T##N(A##N(T)) { I##N const T v[] = { L##N }; const reservoir_snapshot s(v, N); return (R)(got); } \
    X R avg_ref_##name##_##T##N(A##N(T)) { I##N const T v[] = { L##N }; return (R)(want); }
#define QUANT(P, N, T) ONE(q##P, T, N, T, s.value<quantile(P##_p)>(), between(v, N, P##_p.percentile()))
#define QUANTS(N, T) QUANT(0, N, T) QUANT(10, N, T) QUANT(25, N, T) QUANT(40, N, T) QUANT(50, N, T) QUANT(70, N, T) QUANT(90, N, T) QUANT(99, N, T) QUANT(100, N, T)
#define ALL(N, T) QUANTS(N, T) ONE(min, T, N, T, s.min(), v[0]) ONE(max, T, N, T, s.max(), v[N - 1]) ONE(size, i64, N, T, s.size(), N) ONE(mean, dbl, N, T, s.mean(), average(v, N))
ALL(1, dbl) ALL(2, dbl) ALL(3, dbl) ALL(4, dbl)
// from a range
#define RANGE(name, R, N, T, got, want) \
    X R avg_drv_##name##_range_##T##N(A##N(T)) { I##N const T v[] = { L##N }; const T* const e = v + N; const reservoir_snapshot s(&v[0], e, N); return (R)(got); } \
    X R avg_ref_##name##_range_##T##N(A##N(T)) { I##N const T v[] = { L##N }; return (R)(want); }
#define RANGES(N, T) RANGE(q25, T, N, T, s.value<quantile(25_p)>(), between(v, N, 25)) RANGE(q70, T, N, T, s.value<quantile(70_p)>(), between(v, N, 70)) RANGE(mean, dbl, N, T, s.mean(), average(v, N)) RANGE(size, i64, N, T, s.size(), N)
RANGES(2, dbl) RANGES(3, dbl) RANGES(4, i64)

// samples are the quantiles they are said to be, rising, and no more than asked for
template<typename T> struct off {
    const T* v; int n, most; const double* weight; double& sum; int& seen; long double& last;
    void operator()(const metric_value& at, long double percent) const {
        if (seen >= most || percent <= last || percent > 100) { sum = sum + weight[4]; return; }
        sum = sum + weight[seen++ & 3] * ((double)at - (double)between(v, n, percent)); last = percent;
    }
};
#define SAMPLE(K, N, T) \
    X double avg_drv_sample##K##_##T##N(A##N(T), double p, double q, double r, double s, double t) { I##N const T v[] = { L##N }; const double w[] = { p, q, r, s, t }; \
        double sum = 0; int seen = 0; long double last = -1; const reservoir_snapshot o(v, N); o.sample(K, off<T>{v, N, K, w, sum, seen, last}); return sum; } \
    X double avg_ref_sample##K##_##T##N(A##N(T), double p, double q, double r, double s, double t) { return 0; }
#define SAMPLES(N, T) SAMPLE(0, N, T) SAMPLE(1, N, T) SAMPLE(2, N, T) SAMPLE(3, N, T) SAMPLE(7, N, T)
SAMPLES(1, dbl) SAMPLES(2, dbl) SAMPLES(3, dbl) SAMPLES(4, dbl) SAMPLES(4, i64)
ALL(1, i64) ALL(2, i64) ALL(3, i64) ALL(4, i64)

// visiting chosen quantiles: each of them once, with its value
struct seen_t {
    const double* w; double& sum; int& seen;
    void operator()(const quantile& q, metric_value&& v) const { sum = sum + w[seen++ & 3] * (double)v + w[4] * (double)q.percentile(); }
};
#define CHOSEN(NAME, N, T, WANT, ...) \
    X double avg_drv_chosen_##NAME##_##T##N(A##N(T), double p, double q, double r, double s, double t) { I##N const T v[] = { L##N }; const double w[] = { p, q, r, s, t }; \
        double sum = 0; int seen = 0; const histogram_snapshot h(reservoir_snapshot(v, N), 7); const quantile_options<__VA_ARGS__> o; o.basic_quantile_options::visit(h, seen_t{w, sum, seen}); return sum; } \
    X double avg_ref_chosen_##NAME##_##T##N(A##N(T), double p, double q, double r, double s, double t) { I##N const T v[] = { L##N }; const double w[] = { p, q, r, s, t }; double sum = 0; WANT return sum; }
#define W_(I, P) sum = sum + w[I] * (double)between(v, (int)(sizeof(v) / sizeof(v[0])), P) + w[4] * P;
CHOSEN(one, 2, dbl, W_(0, 50.0), quantile(50.0l))
CHOSEN(two, 2, dbl, W_(0, 40.0) W_(1, 90.0), quantile(40.0l), quantile(90.0l))
CHOSEN(swapped, 2, dbl, W_(0, 40.0) W_(1, 90.0), quantile(90.0l), quantile(40.0l), quantile(90.0l))
CHOSEN(three, 2, dbl, W_(0, 40.0) W_(1, 50.0) W_(2, 60.0), quantile(60.0l), quantile(40.0l), quantile(50.0l))
CHOSEN(single, 1, dbl, W_(0, 40.0) W_(1, 90.0), quantile(40.0l), quantile(90.0l))
