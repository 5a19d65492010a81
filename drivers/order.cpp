// C06: ordering of metric values and of value snapshots
#include "common.hpp"
#include <cxxmetrics/metric_value.hpp>
#include <cxxmetrics/snapshots.hpp>
using cxxmetrics::metric_value;
using cxxmetrics::value_snapshot;
namespace chr = std::chrono;

// two values of the same C++ type, through the metric_value
#define OP(name, T, opn, op) \
    X bool drv_mv_##name##_##opn(T a, T b) { return metric_value(a) op metric_value(b); } \
    X bool ref_mv_##name##_##opn(T a, T b) { return a op b; } \
    X bool drv_vs_##name##_##opn(T a, T b) { return VS(T, opn, op); } \
    X bool ref_vs_##name##_##opn(T a, T b) { return a op b; }
#define VS(T, opn, op) VS_##opn(T, op)
#define VSX(T, op) (value_snapshot(metric_value(a)) op value_snapshot(metric_value(b)))
#define VS_lt(T, op) (metric_value(a) op metric_value(b))
#define VS_gt VS_lt
#define VS_le VS_lt
#define VS_ge VS_lt
#define VS_eq VSX
#define VS_ne VSX
#define OPS(name, T) OP(name, T, lt, <) OP(name, T, gt, >) OP(name, T, le, <=) OP(name, T, ge, >=) OP(name, T, eq, ==) OP(name, T, ne, !=)

OPS(i8, int8_t) OPS(u8, uint8_t) OPS(i16, int16_t) OPS(u16, uint16_t) OPS(i32, int32_t) OPS(u32, uint32_t) OPS(i64, int64_t) OPS(u64, uint64_t)
OPS(ll, long long) OPS(ull, unsigned long long) OPS(f32, float) OPS(f64, double) OPS(f80, long double)

// durations of the same type (counts are what the unit's nanoseconds can hold, so compare through the
// duration type itself)
#define DUR(name, D) DOP(name, D, lt, <) DOP(name, D, gt, >) DOP(name, D, le, <=) DOP(name, D, ge, >=) DOP(name, D, eq, ==) DOP(name, D, ne, !=)
#define DOP(name, D, opn, op) \
    X bool drv_dur_##name##_##opn(long long a, long long b) { return metric_value(D(a)) op metric_value(D(b)); } \
    X bool ref_dur_##name##_##opn(long long a, long long b) { return std::chrono::nanoseconds(D(a)) op std::chrono::nanoseconds(D(b)); }
DUR(ns, std::chrono::nanoseconds) DUR(us, std::chrono::microseconds) DUR(ms, std::chrono::milliseconds) DUR(s, std::chrono::seconds)
DUR(min, std::chrono::minutes) DUR(h, std::chrono::hours)

// integers of different widths
#define MIX(name, A, B) MOP(name, A, B, lt, <) MOP(name, A, B, gt, >) MOP(name, A, B, le, <=) MOP(name, A, B, ge, >=) MOP(name, A, B, eq, ==) MOP(name, A, B, ne, !=)
#define MOP(name, A, B, opn, op) \
    X bool drv_mix_##name##_##opn(A a, B b) { return metric_value(a) op metric_value(b); } \
    X bool ref_mix_##name##_##opn(A a, B b) { return static_cast<long long>(a) op static_cast<long long>(b); }
MIX(i32_i64, int32_t, int64_t) MIX(i64_i32, int64_t, int32_t) MIX(i8_u32, int8_t, uint32_t) MIX(u32_i8, uint32_t, int8_t)
MIX(u16_i64, uint16_t, int64_t) MIX(i64_u16, int64_t, uint16_t) MIX(i32_u32, int32_t, uint32_t) MIX(u32_i32, uint32_t, int32_t)
MIX(i16_i8, int16_t, int8_t) MIX(i8_i16, int8_t, int16_t) MIX(u8_u64s, uint8_t, int64_t)

// text
#define SOP(opn, op) \
    X bool drv_str_##opn(const std::string& a, const std::string& b) { return metric_value(a) op metric_value(b); } \
    X bool ref_str_##opn(const std::string& a, const std::string& b) { return a.compare(b) op 0; }
SOP(lt, <) SOP(gt, >) SOP(le, <=) SOP(ge, >=) SOP(eq, ==) SOP(ne, !=)

// floating point numbers of different widths, unsigned integers of the widest kind with others, durations in different units
#define ALL(name, A, B, RA, RB) XOP(name, A, B, RA, RB, lt, <) XOP(name, A, B, RA, RB, gt, >) XOP(name, A, B, RA, RB, le, <=) XOP(name, A, B, RA, RB, ge, >=) XOP(name, A, B, RA, RB, eq, ==) XOP(name, A, B, RA, RB, ne, !=)
#define XOP(name, A, B, RA, RB, opn, op) \
    X bool drv_all_##name##_##opn(A a, B b) { return metric_value(a) op metric_value(b); } \
    X bool ref_all_##name##_##opn(A a, B b) { return (RA) op (RB); }
#define FLT(name, A, B) ALL(name, A, B, static_cast<long double>(a), static_cast<long double>(b))
FLT(f32_f64, float, double) FLT(f64_f32, double, float) FLT(f32_f80, float, long double) FLT(f80_f32, long double, float) FLT(f64_f80, double, long double) FLT(f80_f64, long double, double)
// -1, 0, 1
#define SIGN(a, b) (b < 0 ? 1 : a < static_cast<unsigned long long>(b) ? -1 : a == static_cast<unsigned long long>(b) ? 0 : 1)
#define WIDE(name, T) ALL(u64_##name, uint64_t, T, SIGN(a, b), 0) ALL(name##_u64, T, uint64_t, 0, SIGN(b, a))
WIDE(i8, int8_t) WIDE(i16, int16_t) WIDE(i32, int32_t) WIDE(i64, int64_t) WIDE(u8, uint8_t) WIDE(u16, uint16_t) WIDE(u32, uint32_t)
#define UNITS(name, A, B) UOP(name, A, B, lt, <) UOP(name, A, B, gt, >) UOP(name, A, B, le, <=) UOP(name, A, B, ge, >=) UOP(name, A, B, eq, ==) UOP(name, A, B, ne, !=)
#define UOP(name, A, B, opn, op) \
    X bool drv_dur_##name##_##opn(long a, long b) { return metric_value(chr::A(a)) op metric_value(chr::B(b)); } \
    X bool ref_dur_##name##_##opn(long a, long b) { return chr::nanoseconds(chr::A(a)) op chr::nanoseconds(chr::B(b)); }
UNITS(ns_us, nanoseconds, microseconds) UNITS(us_ns, microseconds, nanoseconds) UNITS(ms_s, milliseconds, seconds) UNITS(s_ms, seconds, milliseconds)
UNITS(min_h, minutes, hours) UNITS(h_min, hours, minutes) UNITS(ns_h, nanoseconds, hours) UNITS(h_ns, hours, nanoseconds)
// durations that count in floating point: to the nanosecond
#define FDUR(name, A, B) FOP(name, A, B, lt, <) FOP(name, A, B, gt, >) FOP(name, A, B, le, <=) FOP(name, A, B, ge, >=) FOP(name, A, B, eq, ==) FOP(name, A, B, ne, !=)
#define FOP(name, A, B, opn, op) \
    X bool drv_fdur_##name##_##opn(A a, B b) { return metric_value(a) op metric_value(b); } \
    X bool ref_fdur_##name##_##opn(A a, B b) { return chr::duration_cast<chr::nanoseconds>(a) op chr::duration_cast<chr::nanoseconds>(b); }
typedef chr::duration<double> fsec;
typedef chr::duration<float, std::milli> fmsec;
FDUR(s_s, fsec, fsec) FDUR(ms_ms, fmsec, fmsec) FDUR(s_ms, fsec, fmsec) FDUR(ms_s, fmsec, fsec) FDUR(s_ns, fsec, chr::nanoseconds) FDUR(ns_s, chr::nanoseconds, fsec) FDUR(ms_h, fmsec, chr::hours) FDUR(h_ms, chr::hours, fmsec)
