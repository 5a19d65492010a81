// C29: what a moving average computes; internal::ewma over a clock that shows what it is told
#include "common.hpp"
#include <cxxmetrics/ewma.hpp>
using namespace cxxmetrics;
typedef long long ll_t;
typedef std::chrono::steady_clock::time_point tp;
struct told { const ll_t* now; tp operator()() const noexcept { return tp(std::chrono::steady_clock::duration(*now)); } };
#define SEC 1000000000ll

// an average as the property describes it
template<ll_t W, ll_t I, typename V> struct model {
    static const ll_t interval = I;
    V rate = 0, pending = 0; ll_t last; bool ticked = false;
    static long double alpha() { return (double)(1 - exp((I / 1000 * -1.0l) / (W / 1000 * 2.0l))); }
    model(ll_t at) : last(at) { }
    long double folded(ll_t at) const {
        long double r = rate + alpha() * (pending - rate);
        const ll_t n = (at - last) / I;
        if (n > 1) r *= std::pow(1 - alpha(), n - 1);
        return std::isnan(r) || std::isinf(r) ? 0 : r;
    }
    V read(ll_t at) const { return at < last ? rate : !ticked ? pending : (V)folded(at); }
    void tick(ll_t at) {
        if (at < last || at - last < I) return;
        rate = ticked ? (V)folded(at) : pending;
        ticked = true; pending = 0; last = at;
    }
    void mark(ll_t at, V by) { if (at < last) return; tick(at); pending = pending + by; }
};
#define AVG(N, W, I, V) \
    typedef internal::ewma<told, time::seconds(W), time::seconds(I), V> e_##N; typedef model<W * SEC, I * SEC, V> m_##N; \
    /* nothing was marked; one mark; two marks in the first interval */ \
    X V avg_drv_fresh_##N(ll_t t0, ll_t t) { ll_t now = t0; const e_##N e(told{&now}); now = t; return e.rate(); } \
    X V avg_ref_fresh_##N(ll_t t0, ll_t t) { return 0; } \
    X V avg_drv_first_##N(ll_t t0, ll_t t1, V m1, ll_t t) { ll_t now = t0; e_##N e(told{&now}); now = t1; e.mark(m1); now = t; return const_cast<const e_##N&>(e).rate(); } \
    X V avg_ref_first_##N(ll_t t0, ll_t t1, V m1, ll_t t) { m_##N m(t0); m.mark(t1, m1); return m.read(t); } \
    X V avg_drv_firsttick_##N(ll_t t0, ll_t t1, V m1, ll_t t) { ll_t now = t0; e_##N e(told{&now}); now = t1; e.mark(m1); now = t; return e.rate(); } \
    X V avg_ref_firsttick_##N(ll_t t0, ll_t t1, V m1, ll_t t) { m_##N m(t0); m.mark(t1, m1); return m.read(t); } \
    /* any state: a rate of r from the interval that ended at t1, and p marked since */ \
    X V avg_drv_read_##N(V r, V p, ll_t t0, ll_t t1, ll_t t) { STATE(N, e_##N e(told{&now})) now = t; return const_cast<const e_##N&>(e).rate(); } \
    X V avg_ref_read_##N(V r, V p, ll_t t0, ll_t t1, ll_t t) { MODEL(N) return m.read(t); } \
    X V avg_drv_tick_##N(V r, V p, ll_t t0, ll_t t1, ll_t t) { STATE(N, e_##N e(told{&now})) now = t; return e.rate(); } \
    X V avg_ref_tick_##N(V r, V p, ll_t t0, ll_t t1, ll_t t) { MODEL(N) return m.read(t); } \
    X V avg_drv_ticked_##N(V r, V p, ll_t t0, ll_t t1, ll_t t, ll_t u) { STATE(N, e_##N e(told{&now})) now = t; e.rate(); now = u; return const_cast<const e_##N&>(e).rate(); } \
    X V avg_ref_ticked_##N(V r, V p, ll_t t0, ll_t t1, ll_t t, ll_t u) { MODEL(N) m.tick(t); return m.read(u); } \
    X V avg_drv_mark_##N(V r, V p, V q, ll_t t0, ll_t t1, ll_t t, ll_t u) { STATE(N, e_##N e(told{&now})) now = t; e.mark(q); now = u; return const_cast<const e_##N&>(e).rate(); } \
    X V avg_ref_mark_##N(V r, V p, V q, ll_t t0, ll_t t1, ll_t t, ll_t u) { MODEL(N) m.mark(t, q); return m.read(u); }
#define PRE(N) if (t1 < t0 || t1 - t0 < m_##N::interval) return 0;
#define STATE(N, E) PRE(N) ll_t now = t0; E; e.mark(r); now = t1; e.rate(); e.mark(p);
#define MODEL(N) PRE(N) m_##N m(t0); m.mark(t0, r); m.tick(t1); m.mark(t1, p);
AVG(dbl, 10, 1, double) AVG(sec, 1, 1, double) AVG(lng, 60, 5, int64_t) AVG(flt, 300, 5, float) AVG(odd, 7, 2, double) AVG(few, 2, 5, double)

// the mean of a meter: everything marked, per interval since the first mark
#include <cxxmetrics/meter.hpp>
#define MEAN(N, I, ...) \
    typedef internal::_meter_impl<told, time::seconds(I), ##__VA_ARGS__> r_##N; \
    struct rm_##N { ll_t total = 0, start = 0; \
        void mark(ll_t at, ll_t by) { if (!start) start = at; total += by; } \
        double read(ll_t at) const { if (!start) return total; const long double units = (long double)(at - start) / (I * SEC); return units == 0 ? (double)total : (double)(total / units); } }; \
    X double avg_drv_none_##N(ll_t t0, ll_t t) { ll_t now = t0; const r_##N m(told{&now}); now = t; return m.mean(); } \
    X double avg_ref_none_##N(ll_t t0, ll_t t) { return 0; } \
    X double avg_drv_one_##N(ll_t t0, ll_t t1, ll_t a, ll_t t) { ll_t now = t0; r_##N m(told{&now}); now = t1; m.mark(a); now = t; return const_cast<const r_##N&>(m).mean(); } \
    X double avg_ref_one_##N(ll_t t0, ll_t t1, ll_t a, ll_t t) { rm_##N m; m.mark(t1, a); return m.read(t); } \
    X double avg_drv_two_##N(ll_t t0, ll_t t1, ll_t t2, ll_t a, ll_t b, ll_t t) { ll_t now = t0; r_##N m(told{&now}); now = t1; m.mark(a); now = t2; m.mark(b); now = t; return const_cast<const r_##N&>(m).mean(); } \
    X double avg_ref_two_##N(ll_t t0, ll_t t1, ll_t t2, ll_t a, ll_t b, ll_t t) { rm_##N m; m.mark(t1, a); m.mark(t2, b); return m.read(t); }
MEAN(bare, 1) MEAN(windows, 5, time::minutes(1), time::minutes(5))
