// C20: publish options read back as they were set
#include "common.hpp"
#include <cxxmetrics/publisher.hpp>
using namespace cxxmetrics;

struct Q : basic_quantile_options
{
    int id;
    explicit Q(int i) : id(i) {}
    using basic_quantile_options::visit;
    void visit(const histogram_snapshot&, const quantile_visitor&) const override {}
};
static inline int qid(const histogram_publish_options& o) { return static_cast<const Q&>(*o.quantiles()).id; }

// a: the options under test, z: what the target of an assignment held before
#define WAYS(name, R, mk, other, obs, want, ...) \
    X R drv_##name##_plain(__VA_ARGS__) { auto o = mk; return obs; }                              X R ref_##name##_plain(__VA_ARGS__) { return want; } \
    X R drv_##name##_moved(__VA_ARGS__) { auto p = mk; auto o(std::move(p)); return obs; }         X R ref_##name##_moved(__VA_ARGS__) { return want; } \
    X R drv_##name##_moved2(__VA_ARGS__) { auto p = mk; auto q(std::move(p)); auto o(std::move(q)); return obs; } X R ref_##name##_moved2(__VA_ARGS__) { return want; } \
    X R drv_##name##_assigned(__VA_ARGS__) { auto p = mk; auto o = other; o = std::move(p); return obs; } X R ref_##name##_assigned(__VA_ARGS__) { return want; } \
    X const void* drv_##name##_self(__VA_ARGS__) { auto p = mk; auto o = other; return &(o = std::move(p)) == &o ? nullptr : "x"; } X const void* ref_##name##_self(__VA_ARGS__) { return nullptr; }
#define COPIES(name, R, mk, other, obs, want, ...) \
    X R drv_##name##_copied(__VA_ARGS__) { const auto p = mk; auto o(p); return obs; }              X R ref_##name##_copied(__VA_ARGS__) { return want; } \
    X R drv_##name##_source(__VA_ARGS__) { auto o = mk; auto p(o); auto q = other; q = o; return obs; } X R ref_##name##_source(__VA_ARGS__) { return want; } \
    X R drv_##name##_copyassigned(__VA_ARGS__) { const auto p = mk; auto o = other; o = p; return obs; } X R ref_##name##_copyassigned(__VA_ARGS__) { return want; }

#define SF scale_factor(f)
#define ARGS double f, bool a, bool b, bool c, double g, bool x, bool y, bool z
#define SC(o) (o.scale() ? o.scale().factor() : -1.0)
#define NOSC(o) (o.scale() ? 2 : o.scale().factor() == 1 ? 1 : 0)
typedef value_publish_options vo;
typedef meter_publish_options mo;
typedef histogram_publish_options ho;
typedef timer_publish_options to;

X double drv_sf_factor(double f) { scale_factor s(f); return s.factor(); } X double ref_sf_factor(double f) { return f; }
X bool drv_sf_on(double f) { scale_factor s(f); return s; }                X bool ref_sf_on(double f) { return true; }
X bool drv_sf_off() { scale_factor s; return s; }                          X bool ref_sf_off() { return false; }
X double drv_sf_one() { scale_factor s; return s.factor(); }               X double ref_sf_one() { return 1; }

// values
WAYS(v_scale, double, vo(SF), vo(scale_factor(g)), SC(o), f, ARGS)
WAYS(v_noscale, int, vo(), vo(scale_factor(g)), NOSC(o), 1, ARGS)
COPIES(v_scale, double, vo(SF), vo(scale_factor(g)), SC(o), f, ARGS)

// meters
#define MO mo(x, scale_factor(g))
WAYS(m0_mean, bool, mo(), MO, o.include_mean(), true, ARGS)
WAYS(m0_scale, int, mo(), MO, NOSC(o), 1, ARGS)
WAYS(m1_mean, bool, mo(SF), MO, o.include_mean(), true, ARGS)
WAYS(m1_scale, double, mo(SF), MO, SC(o), f, ARGS)
WAYS(m2_mean, bool, mo(a, SF), MO, o.include_mean(), a, ARGS)
WAYS(m2_scale, double, mo(a, SF), MO, SC(o), f, ARGS)
WAYS(m3_mean, bool, mo(a), MO, o.include_mean(), a, ARGS)
WAYS(m3_scale, int, mo(a), MO, NOSC(o), 1, ARGS)
COPIES(m2_mean, bool, mo(a, SF), MO, o.include_mean(), a, ARGS)
COPIES(m2_scale, double, mo(a, SF), MO, SC(o), f, ARGS)

// histograms
#define HO ho(x, y, scale_factor(g))
#define HALL(name, mk, count, dist, sc, want) \
    WAYS(name##_count, bool, mk, HO, o.include_count(), count, ARGS) \
    WAYS(name##_dist, bool, mk, HO, o.as_distribution(), dist, ARGS) \
    WAYS(name##_scale, double, mk, HO, sc(o), want, ARGS)
HALL(h0, ho(), true, false, NOSC, 1)
HALL(h1, ho(SF), true, false, SC, f)
HALL(h2, ho(a), a, false, NOSC, 1)
HALL(h3, ho(a, SF), a, false, SC, f)
HALL(h4, ho(a, b), a, b, NOSC, 1)
HALL(h5, ho(a, b, SF), a, b, SC, f)
#define QARGS int i, ARGS, int k
#define HQALL(name, mk, count, dist, sc, want) \
    WAYS(name##_count, bool, mk, ho(Q(k), x, y, scale_factor(g)), o.include_count(), count, QARGS) \
    WAYS(name##_dist, bool, mk, ho(Q(k), x, y, scale_factor(g)), o.as_distribution(), dist, QARGS) \
    WAYS(name##_scale, double, mk, ho(Q(k), x, y, scale_factor(g)), sc(o), want, QARGS) \
    WAYS(name##_quant, int, mk, ho(Q(k), x, y, scale_factor(g)), qid(o), i, QARGS) \
    WAYS(name##_quant0, int, mk, ho(x, y, scale_factor(g)), qid(o), i, QARGS)
HQALL(hq1, ho(Q(i)), true, false, NOSC, 1)
HQALL(hq2, ho(Q(i), a), a, false, NOSC, 1)
HQALL(hq3, ho(Q(i), a, b), a, b, NOSC, 1)
HQALL(hq4, ho(Q(i), a, b, SF), a, b, SC, f)

// timers
#define TO to(x, y, z, scale_factor(g))
#define TALL(name, mk, rates, count, mean, sc, want) \
    WAYS(name##_rates, bool, mk, TO, o.include_rates(), rates, ARGS) \
    WAYS(name##_count, bool, mk, TO, o.include_count(), count, ARGS) \
    WAYS(name##_mean, bool, mk, TO, o.include_mean(), mean, ARGS) \
    WAYS(name##_dist, bool, mk, TO, o.as_distribution(), false, ARGS) \
    WAYS(name##_scale, double, mk, TO, sc(o), want, ARGS)
TALL(t0, to(), true, true, true, NOSC, 1)
TALL(t1, to(a), a, true, true, NOSC, 1)
TALL(t2, to(a, SF), a, true, true, SC, f)
TALL(t3, to(a, b), a, b, true, NOSC, 1)
TALL(t4, to(a, b, SF), a, b, true, SC, f)
TALL(t5, to(a, b, c), a, b, c, NOSC, 1)
TALL(t6, to(a, b, c, SF), a, b, c, SC, f)
#define TQALL(name, mk, rates, count, mean, sc, want) \
    WAYS(name##_rates, bool, mk, TO, o.include_rates(), rates, QARGS) \
    WAYS(name##_count, bool, mk, TO, o.include_count(), count, QARGS) \
    WAYS(name##_mean, bool, mk, TO, o.include_mean(), mean, QARGS) \
    WAYS(name##_dist, bool, mk, TO, o.as_distribution(), false, QARGS) \
    WAYS(name##_scale, double, mk, TO, sc(o), want, QARGS) \
    WAYS(name##_quant, int, mk, to(Q(k), x, y, z, scale_factor(g)), qid(o), i, QARGS)
TQALL(tq1, to(Q(i), a), a, true, true, NOSC, 1)
TQALL(tq2, to(Q(i), a, b), a, b, true, NOSC, 1)
TQALL(tq3, to(Q(i), a, b, SF), a, b, true, SC, f)
TQALL(tq4, to(Q(i), a, b, c), a, b, c, NOSC, 1)
TQALL(tq5, to(Q(i), a, b, c, SF), a, b, c, SC, f)

// all of them
typedef publish_options po;
#define PARGS double fv, double fm, double fh, double ft, bool mm, bool hc, bool hd, bool tr, bool tc, bool tm, double g, bool x
#define POTHER po(vo(scale_factor(g)), mo(x, scale_factor(g)), ho(x, x, scale_factor(g)), to(x, x, x, scale_factor(g)))
#define V_ vo(scale_factor(fv))
#define M_ mo(mm, scale_factor(fm))
#define H_ ho(hc, hd, scale_factor(fh))
#define T_ to(tr, tc, tm, scale_factor(ft))
#define PV(name, mk, want) WAYS(name##_vscale, double, mk, POTHER, SC(o.value_options()), want, PARGS)
#define PM(name, mk) WAYS(name##_mscale, double, mk, POTHER, SC(o.meter_options()), fm, PARGS) WAYS(name##_mmean, bool, mk, POTHER, o.meter_options().include_mean(), mm, PARGS)
#define PH(name, mk) WAYS(name##_hscale, double, mk, POTHER, SC(o.histogram_options()), fh, PARGS) WAYS(name##_hcount, bool, mk, POTHER, o.histogram_options().include_count(), hc, PARGS) \
    WAYS(name##_hdist, bool, mk, POTHER, o.histogram_options().as_distribution(), hd, PARGS)
#define PT(name, mk) WAYS(name##_tscale, double, mk, POTHER, SC(o.timer_options()), ft, PARGS) WAYS(name##_trates, bool, mk, POTHER, o.timer_options().include_rates(), tr, PARGS) \
    WAYS(name##_tcount, bool, mk, POTHER, o.timer_options().include_count(), tc, PARGS) WAYS(name##_tmean, bool, mk, POTHER, o.timer_options().include_mean(), tm, PARGS)
#define PDEF(name, mk) WAYS(name##_vdef, int, mk, POTHER, NOSC(o.value_options()), 1, PARGS)
#define PDEFM(name, mk) WAYS(name##_mdef, int, mk, POTHER, NOSC(o.meter_options()) + 2 * o.meter_options().include_mean(), 3, PARGS)
#define PDEFH(name, mk) WAYS(name##_hdef, int, mk, POTHER, NOSC(o.histogram_options()) + 2 * o.histogram_options().include_count() + 4 * o.histogram_options().as_distribution(), 3, PARGS)
#define PDEFT(name, mk) WAYS(name##_tdef, int, mk, POTHER, NOSC(o.timer_options()) + 2 * o.timer_options().include_count() + 4 * o.timer_options().include_rates() + 8 * o.timer_options().include_mean(), 15, PARGS)
PV(p4, po(V_, M_, H_, T_), fv) PM(p4, po(V_, M_, H_, T_)) PH(p4, po(V_, M_, H_, T_)) PT(p4, po(V_, M_, H_, T_))
PV(p1, po(V_), fv) PDEFM(p1, po(V_)) PDEFH(p1, po(V_)) PDEFT(p1, po(V_))
PDEF(p3, po(M_, H_, T_)) PM(p3, po(M_, H_, T_)) PH(p3, po(M_, H_, T_)) PT(p3, po(M_, H_, T_))
PDEF(p2, po(H_, T_)) PDEFM(p2, po(H_, T_)) PH(p2, po(H_, T_)) PT(p2, po(H_, T_))
PDEF(pt, po(T_)) PDEFM(pt, po(T_)) PDEFH(pt, po(T_)) PT(pt, po(T_))
PDEF(p0, po()) PDEFM(p0, po()) PDEFH(p0, po()) PDEFT(p0, po())
WAYS(pq_h, int, po(ho(Q(i), a, b, SF)), po(ho(Q(k), x, y, SF)), qid(o.histogram_options()), i, QARGS)
WAYS(pq_t, int, po(to(Q(i), a, b, c, SF)), po(to(Q(k), x, y, z, SF)), qid(o.timer_options()), i, QARGS)

// who sets no quantiles is not left with those that were set before
#define LEFT(name, mk, other) \
    X bool avg_drv_##name(QARGS) { auto p = mk; auto o = other; const void* was = o.quantiles().get(); o = std::move(p); return o.quantiles().get() == was; } \
    X bool avg_ref_##name(QARGS) { return false; }
LEFT(hd0_left, ho(), ho(Q(k), x, y, scale_factor(g))) LEFT(hd2_left, ho(a, SF), ho(Q(k), x, y, scale_factor(g)))
LEFT(td0_left, to(a), to(Q(k), x, y, z, scale_factor(g))) LEFT(td2_left, to(a, b, c, SF), to(Q(k), x, y, z, scale_factor(g)))
