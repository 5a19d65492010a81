// C26: time windows and quantiles
#include "common.hpp"
#include <cxxmetrics/time.hpp>
#include <cxxmetrics/snapshots.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
typedef unsigned long long V;
typedef std::chrono::steady_clock::duration D;

// the duration of a window
#define WIN(name, unit, fn, lit, us) \
    X int64_t drv_dur_##name(V v) { return fn(v).to_duration().count(); }                        X int64_t ref_dur_##name(V v) { return D(std::chrono::unit(int64_t(v))).count(); } \
    X int64_t drv_conv_##name(V v) { D d = fn(v); return d.count(); }                            X int64_t ref_conv_##name(V v) { return D(std::chrono::unit(int64_t(v))).count(); } \
    X V drv_val_##name(V v) { return period::value(fn(v)); }                                     X V ref_val_##name(V v) { return v * us; } \
    X V drv_lit_##name(V v) { return period::value(operator"" lit(v)); }                          X V ref_lit_##name(V v) { return v * us; } \
    X int64_t drv_litd_##name(V v) { return operator"" lit(v).to_duration().count(); }            X int64_t ref_litd_##name(V v) { return D(std::chrono::unit(int64_t(v))).count(); } \
    X int64_t drv_rt_##name(V v) { return period(period::value(fn(v))).to_duration().count(); }  X int64_t ref_rt_##name(V v) { return D(std::chrono::unit(int64_t(v))).count(); } \
    X int64_t drv_mul_##name(V v, V k) { return (fn(v) * k).to_duration().count(); }             X int64_t ref_mul_##name(V v, V k) { return D(std::chrono::microseconds(int64_t(v * us * k))).count(); } \
    X int64_t drv_div_##name(V v, V k) { return (fn(v) / k).to_duration().count(); }             X int64_t ref_div_##name(V v, V k) { return D(std::chrono::microseconds(int64_t(v * us / k))).count(); } \
    X int64_t drv_add_##name(V v, V k) { return (fn(v) + period::value(time::seconds(k))).to_duration().count(); } X int64_t ref_add_##name(V v, V k) { return D(std::chrono::microseconds(int64_t(v * us + k * 1000000))).count(); } \
    X int64_t drv_sub_##name(V v, V k) { return (fn(v) - period::value(time::seconds(k))).to_duration().count(); } X int64_t ref_sub_##name(V v, V k) { return D(std::chrono::microseconds(int64_t(v * us - k * 1000000))).count(); }
WIN(us, microseconds, time::microseconds, _micro, 1ull)
WIN(ms, milliseconds, time::milliseconds, _msec, 1000ull)
WIN(s, seconds, time::seconds, _sec, 1000000ull)
WIN(min, minutes, time::minutes, _min, 60000000ull)
WIN(h, hours, time::hours, _hour, 3600000000ull)

// durations against windows
#define CMP(name, U, fn, us) \
    X bool drv_lt_##name(int64_t a, V v) { return std::chrono::U(a) < fn(v); }   X bool ref_lt_##name(int64_t a, V v) { return D(std::chrono::U(a)) < D(std::chrono::microseconds(int64_t(v * us))); } X bool alt_lt_##name(int64_t a, V v) { return std::chrono::U(a) < std::chrono::microseconds(int64_t(v * us)); } \
    X bool drv_le_##name(int64_t a, V v) { return std::chrono::U(a) <= fn(v); }  X bool ref_le_##name(int64_t a, V v) { return D(std::chrono::U(a)) <= D(std::chrono::microseconds(int64_t(v * us))); } X bool alt_le_##name(int64_t a, V v) { return std::chrono::U(a) <= std::chrono::microseconds(int64_t(v * us)); } \
    X bool drv_gt_##name(int64_t a, V v) { return std::chrono::U(a) > fn(v); }   X bool ref_gt_##name(int64_t a, V v) { return D(std::chrono::U(a)) > D(std::chrono::microseconds(int64_t(v * us))); } X bool alt_gt_##name(int64_t a, V v) { return std::chrono::U(a) > std::chrono::microseconds(int64_t(v * us)); } \
    X bool drv_ge_##name(int64_t a, V v) { return std::chrono::U(a) >= fn(v); }  X bool ref_ge_##name(int64_t a, V v) { return D(std::chrono::U(a)) >= D(std::chrono::microseconds(int64_t(v * us))); } X bool alt_ge_##name(int64_t a, V v) { return std::chrono::U(a) >= std::chrono::microseconds(int64_t(v * us)); } \
    X int64_t drv_plus_##name(int64_t a, V v) { return D(std::chrono::U(a) + fn(v)).count(); }  X int64_t ref_plus_##name(int64_t a, V v) { return (D(std::chrono::U(a)) + D(std::chrono::microseconds(int64_t(v * us)))).count(); } \
    X int64_t drv_minus_##name(int64_t a, V v) { return D(std::chrono::U(a) - fn(v)).count(); } X int64_t ref_minus_##name(int64_t a, V v) { return (D(std::chrono::U(a)) - D(std::chrono::microseconds(int64_t(v * us)))).count(); } \
    X int64_t drv_over_##name(int64_t a, V v) { return std::chrono::U(a) / fn(v); }             X int64_t ref_over_##name(int64_t a, V v) { return D(std::chrono::U(a)) / D(std::chrono::microseconds(int64_t(v * us))); } \
    X double drv_overd_##name(double a, V v) { return std::chrono::duration<double, std::chrono::U::period>(a) / fn(v); } X double ref_overd_##name(double a, V v) { return std::chrono::duration<double, std::chrono::U::period>(a) / D(std::chrono::microseconds(int64_t(v * us))); }
CMP(ns_us, nanoseconds, time::microseconds, 1ull)
CMP(s_min, seconds, time::minutes, 60000000ull)
CMP(ms_s, milliseconds, time::seconds, 1000000ull)
X int64_t drv_pluseq(int64_t a, V v) { D d(a); d += time::milliseconds(v); return d.count(); }   X int64_t ref_pluseq(int64_t a, V v) { return a + int64_t(v * 1000) * 1000; }
X int64_t drv_minuseq(int64_t a, V v) { D d(a); d -= time::milliseconds(v); return d.count(); }  X int64_t ref_minuseq(int64_t a, V v) { return a - int64_t(v * 1000) * 1000; }

// quantiles
X double drv_pf(double v) { return operator""_p((long double)v).percentile(); }                  X double ref_pf(double v) { return v; }
X double drv_pfc(double v) { return (double)(long double)operator""_p((long double)v); }          X double ref_pfc(double v) { return v; }
X double drv_pi(V v) { return operator""_p(v).percentile(); }                                    X double ref_pi(V v) { return (long double)v; }
X double drv_pq(double v) { return quantile((long double)v).percentile(); }                      X double ref_pq(double v) { return v; }
