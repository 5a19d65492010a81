// C24, C25: merging of snapshots, gauges
#include "common.hpp"
#include <cxxmetrics/gauge.hpp>
#include <cxxmetrics/snapshots.hpp>
using namespace cxxmetrics;
typedef cumulative_value_snapshot cs;
typedef average_value_snapshot as;
typedef metric_value mv;

// cumulative values add up
#define CUM(name, T) \
    X T drv_cum2_##name(T a, T b) { cs x{mv(a)}, y{mv(b)}; x.merge(y); return T(x.value()); }                        X T ref_cum2_##name(T a, T b) { return T(a + b); } \
    X T drv_cumo_##name(T a, T b) { cs x{mv(a)}, y{mv(b)}; x.merge(y); return T(y.value()); }                        X T ref_cumo_##name(T a, T b) { return b; } \
    X T drv_cum3_##name(T a, T b, T c) { cs x{mv(a)}, y{mv(b)}, z{mv(c)}; x.merge(y); x.merge(z); return T(x.value()); } X T ref_cum3_##name(T a, T b, T c) { return T(a + b + c); } \
    X T drv_cumm_##name(T a, T b) { cs x{mv(a)}, y{mv(b)}; x.merge(y); cs z(std::move(x)); cs w{mv(b)}; w = std::move(z); return T(w.value()); } X T ref_cumm_##name(T a, T b) { return T(a + b); }
CUM(i64, int64_t) CUM(u32, uint32_t) CUM(f64, double)

// averages weigh every sample the same (over the reals)
#define AVG(name, want, body, ...) X double avg_drv_##name(__VA_ARGS__) { body } X double avg_ref_##name(__VA_ARGS__) { return want; }
#define A2 double a, double b
#define A3 double a, double b, double c
#define A4 double a, double b, double c, double d
#define MK(v) as v##_{mv(v)};
AVG(two, (a + b) / 2, MK(a) MK(b) a_.merge(b_); return a_.value();, A2)
AVG(other, b, MK(a) MK(b) a_.merge(b_); return b_.value();, A2)
AVG(three, (a + b + c) / 3, MK(a) MK(b) MK(c) a_.merge(b_); a_.merge(c_); return a_.value();, A3)
AVG(threer, (a + b + c) / 3, MK(a) MK(b) MK(c) b_.merge(c_); a_.merge(b_); return a_.value();, A3)
AVG(four, (a + b + c + d) / 4, MK(a) MK(b) MK(c) MK(d) a_.merge(b_); c_.merge(d_); a_.merge(c_); return a_.value();, A4)
AVG(fourl, (a + b + c + d) / 4, MK(a) MK(b) MK(c) MK(d) a_.merge(b_); a_.merge(c_); a_.merge(d_); return a_.value();, A4)
AVG(moved, (a + b + c) / 3, MK(a) MK(b) MK(c) a_.merge(b_); as x(std::move(a_)); x.merge(c_); return x.value();, A3)
AVG(assigned, (a + b + c) / 3, MK(a) MK(b) MK(c) a_.merge(b_); as x{mv(c)}; x = std::move(a_); x.merge(c_); return x.value();, A3)
#define AVGI(name, T) \
    X double avg_drv_i2_##name(T a, T b) { as x{mv(a)}, y{mv(b)}; x.merge(y); return x.value(); } X double avg_ref_i2_##name(T a, T b) { return ((double)a + (double)b) / 2; } \
    X double avg_drv_i3_##name(T a, T b, T c) { as x{mv(a)}, y{mv(b)}, z{mv(c)}; x.merge(y); x.merge(z); return x.value(); } X double avg_ref_i3_##name(T a, T b, T c) { return ((double)a + (double)b + (double)c) / 3; }
AVGI(i64, int64_t) AVGI(i32, int32_t) AVGI(f32, float)

// gauges
using gauges::aggregation_sum;
using gauges::aggregation_average;
template<gauges::gauge_aggregation_type A> struct kind;
template<> struct kind<aggregation_sum> { using type = cs; };
template<> struct kind<aggregation_average> { using type = as; };
// the snapshot's own type decides what merging does
template<typename S> inline typename std::decay<S>::type* pt(S&&) { return nullptr; }
inline double merged(cs x, cs y) { x.merge(y); return x.value(); }
inline double merged(as x, as y) { x.merge(y); return x.value(); }

struct fn_t { double v; double operator()() const { return v; } };
#define GAU(name, A, want) \
    X double avg_drv_gp_##name(double a, double b) { gauge<double, A> x(a), y(b); return merged(x.snapshot(), y.snapshot()); } X double avg_ref_gp_##name(double a, double b) { return want; } \
    X double avg_drv_gr_##name(double a, double b) { gauge<double&, A> x(a), y(b); return merged(x.snapshot(), y.snapshot()); } X double avg_ref_gr_##name(double a, double b) { return want; } \
    X double avg_drv_gt_##name(double a, double b) { gauge<double*, A> x(&a), y(&b); return merged(x.snapshot(), y.snapshot()); } X double avg_ref_gt_##name(double a, double b) { return want; } \
    X double avg_drv_gf_##name(double a, double b) { gauges::functional_gauge<fn_t, A> x(fn_t{a}), y(fn_t{b}); return merged(x.snapshot(), y.snapshot()); } X double avg_ref_gf_##name(double a, double b) { return want; } \
    X double avg_drv_gs_##name(double a, double b) { gauge<std::function<double()>, A> x(fn_t{a}), y(fn_t{b}); return merged(x.snapshot(), y.snapshot()); } X double avg_ref_gs_##name(double a, double b) { return want; }
GAU(sum, aggregation_sum, a + b)
GAU(avg, aggregation_average, (a + b) / 2)
X double avg_drv_gdef(double a, double b) { gauge<double> x(a), y(b); return merged(x.snapshot(), y.snapshot()); } X double avg_ref_gdef(double a, double b) { return (a + b) / 2; }

#define GCUR(name, T) \
    X T drv_gc_set_##name(T a, T b) { gauge<T> g(a); g.set(b); return g.get(); }                                    X T ref_gc_set_##name(T a, T b) { return b; } \
    X T drv_gc_asg_##name(T a, T b) { gauge<T> g(a); gauge<T>& r = (g = b); return &r == &g ? g.get() : a; }        X T ref_gc_asg_##name(T a, T b) { return b; } \
    X T drv_gc_ini_##name(T a) { const gauge<T> g(a); return g.get(); }                                             X T ref_gc_ini_##name(T a) { return a; } \
    X T drv_gc_def_##name() { gauge<T> g; return g.get(); }                                                         X T ref_gc_def_##name() { return T(); } \
    X T drv_gc_snap_##name(T a, T b) { gauge<T> g(a); g.set(b); return T(g.snapshot().value()); }                   X T ref_gc_snap_##name(T a, T b) { return b; } \
    X T drv_gc_sum_##name(T a, T b) { gauge<T, aggregation_sum> g(a); g = b; return T(g.snapshot().value()); }      X T ref_gc_sum_##name(T a, T b) { return b; } \
    X T drv_gc_ref_##name(T a, T b) { gauge<T&> g(a); a = b; return g.get(); }                                      X T ref_gc_ref_##name(T a, T b) { return b; } \
    X T drv_gc_refs_##name(T a, T b) { const gauge<T&> g(a); a = b; return T(g.snapshot().value()); }               X T ref_gc_refs_##name(T a, T b) { return b; } \
    X T drv_gc_ptr_##name(T a, T b) { gauge<T*> g(&a); a = b; return g.get(); }                                     X T ref_gc_ptr_##name(T a, T b) { return b; } \
    X T drv_gc_ptrs_##name(T a, T b) { const gauge<T*, aggregation_sum> g(&a); a = b; return T(g.snapshot().value()); } X T ref_gc_ptrs_##name(T a, T b) { return b; } \
    X T drv_gc_fn_##name(T a, T b) { T* p = &a; gauge<std::function<T()>> g([p] { return *p; }); a = b; return g.get(); } X T ref_gc_fn_##name(T a, T b) { return b; } \
    X T drv_gc_fns_##name(T a, T b) { T* p = &a; const gauge<std::function<T()>, aggregation_sum> g([p] { return *p; }); a = b; return T(g.snapshot().value()); } X T ref_gc_fns_##name(T a, T b) { return b; } \
    X T drv_gc_ffn_##name(T a, T b) { T* p = &a; auto f = [p] { return *p; }; gauges::functional_gauge<decltype(f)> g(f); a = b; return g.get(); } X T ref_gc_ffn_##name(T a, T b) { return b; } \
    X T drv_gc_cp_##name(T a, T b) { gauge<T> g(a); gauge<T> h(g); g.set(b); return h.get(); }                      X T ref_gc_cp_##name(T a, T b) { return a; } \
    X T drv_gc_ca_##name(T a, T b) { gauge<T> g(a); gauge<T> h(b); gauge<T>& r = (h = g); g.set(b); return &r == &h ? h.get() : b; } X T ref_gc_ca_##name(T a, T b) { return a; } \
    X T drv_gc_mv_##name(T a, T b) { gauge<T> g(a); gauge<T> h(std::move(g)); gauge<T> i(b); gauge<T>& r = (i = std::move(h)); return &r == &i ? i.get() : b; } X T ref_gc_mv_##name(T a, T b) { return a; } \
    X T drv_gc_rcp_##name(T a, T b) { gauge<T&> g(a); gauge<T&> h(g); T o = b; gauge<T&> i(o); gauge<T&>& r = (i = h); a = b; return &r == &i ? i.get() : T(b + 1); } X T ref_gc_rcp_##name(T a, T b) { return b; } \
    X T drv_gc_pcp_##name(T a, T b) { gauge<T*> g(&a); gauge<T*> h(g); T o = b; gauge<T*> i(&o); i = h; a = b; o = T(b + 1); return i.get(); } X T ref_gc_pcp_##name(T a, T b) { return b; } \
    X T drv_gc_fcp_##name(T a, T b) { T* p = &a; gauge<std::function<T()>> g([p] { return *p; }); gauge<std::function<T()>> h(g); gauge<std::function<T()>> i([] { return T(3); }); i = h; a = b; return i.get(); } X T ref_gc_fcp_##name(T a, T b) { return b; } \
    X T drv_gc_fmv_##name(T a, T b) { T* p = &a; gauge<std::function<T()>> g([p] { return *p; }); gauge<std::function<T()>> h(std::move(g)); gauge<std::function<T()>> i([] { return T(3); }); i = std::move(h); a = b; return i.get(); } X T ref_gc_fmv_##name(T a, T b) { return b; }
GCUR(i64, int64_t) GCUR(i32, int32_t) GCUR(f64, double)
