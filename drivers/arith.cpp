// C08: arithmetic and conversions of metric values
#include "common.hpp"
#include <cxxmetrics/metric_value.hpp>
using cxxmetrics::metric_value;
using ns = std::chrono::nanoseconds;
typedef long long ll_t;
typedef unsigned long long ull_t;
typedef long double ld_t;

#define ARI(name, T) \
    X T drv_add_##name(T a, T b) { return metric_value(a) + metric_value(b); } \
    X T ref_add_##name(T a, T b) { return a + b; } \
    X T drv_sub_##name(T a, T b) { return metric_value(a) - metric_value(b); } \
    X T ref_sub_##name(T a, T b) { return a - b; } \
    X T drv_mul_##name(T a, T b) { return metric_value(a) * metric_value(b); } \
    X T ref_mul_##name(T a, T b) { return a * b; } \
    X T drv_pluseq_##name(T a, T b) { metric_value m(a); metric_value& r = (m += metric_value(b)); return &r == &m ? T(m) : T(42); } \
    X T ref_pluseq_##name(T a, T b) { return a + b; } \
    X T drv_minuseq_##name(T a, T b) { metric_value m(a); metric_value& r = (m -= metric_value(b)); return &r == &m ? T(m) : T(42); } \
    X T ref_minuseq_##name(T a, T b) { return a - b; } \
    X T drv_muleq_##name(T a, T b) { metric_value m(a); metric_value& r = (m *= metric_value(b)); return &r == &m ? T(m) : T(42); } \
    X T ref_muleq_##name(T a, T b) { return a * b; } \
    X T drv_neg_##name(T a) { return -metric_value(a); } \
    X T ref_neg_##name(T a) { return -a; } \
    X T drv_copy_##name(T a) { metric_value m(a); metric_value n(m); return n; } \
    X T ref_copy_##name(T a) { return a; } \
    X T drv_move_##name(T a) { metric_value m(a); metric_value n(std::move(m)); metric_value k(T(1)); k = std::move(n); return k; } \
    X T ref_move_##name(T a) { return a; }
#define NDIV(name, T, DIV) \
    X T drv_div_##name(T a, T b) { return metric_value(a) / metric_value(b); } \
    X T ref_div_##name(T a, T b) { return DIV; } \
    X T drv_diveq_##name(T a, T b) { metric_value m(a); m /= metric_value(b); return m; } \
    X T ref_diveq_##name(T a, T b) { return DIV; }
#define UNARY(name, T) \
    X T drv_inv_##name(T a) { return ~metric_value(a); } \
    X T ref_inv_##name(T a) { return ~a; }
#define SINT(name, T) ARI(name, T) NDIV(name, T, b == 0 ? T(0) : b == -1 ? T(0 - (unsigned long long)a) : T(a / b)) UNARY(name, T)
#define UINT(name, T) ARI(name, T) UNARY(name, T)
#define FLT(name, T) ARI(name, T) NDIV(name, T, b == 0 ? T(0) : a / b)
SINT(i8, int8_t) SINT(i16, int16_t) SINT(i32, int32_t) SINT(i64, int64_t)
UINT(u8, uint8_t) UINT(u16, uint16_t) UINT(u32, uint32_t) UINT(u64, uint64_t)
NDIV(u8, uint8_t, b == 0 ? 0 : a / b) NDIV(u16, uint16_t, b == 0 ? 0 : a / b) NDIV(u32, uint32_t, b == 0 ? 0 : a / b) NDIV(u64, uint64_t, b == 0 ? 0 : a / b)
FLT(f32, float) FLT(f64, double) FLT(f80, ld_t)

// an integral and a floating point operand
#define MIXF(name, I, F) \
    X F drv_mixadd_##name(I a, F b) { return metric_value(a) + metric_value(b); } \
    X F ref_mixadd_##name(I a, F b) { return F((long double)a + (long double)b); } \
    X F drv_mixaddr_##name(F a, I b) { return metric_value(a) + metric_value(b); } \
    X F ref_mixaddr_##name(F a, I b) { return F((long double)a + (long double)b); } \
    X F drv_mixsub_##name(I a, F b) { return metric_value(a) - metric_value(b); } \
    X F ref_mixsub_##name(I a, F b) { return F((long double)a - (long double)b); } \
    X F drv_mixmul_##name(I a, F b) { return metric_value(a) * metric_value(b); } \
    X F ref_mixmul_##name(I a, F b) { return F((long double)a * (long double)b); } \
    X F drv_mixdiv_##name(I a, F b) { return metric_value(a) / metric_value(b); } \
    X F ref_mixdiv_##name(I a, F b) { return b == 0 ? F(0) : F((long double)a / (long double)b); } \
    X F drv_mixdivr_##name(F a, I b) { return metric_value(a) / metric_value(b); } \
    X F ref_mixdivr_##name(F a, I b) { return b == 0 ? F(0) : F((long double)a / (long double)b); }
MIXF(i32_f64, int32_t, double) MIXF(i64_f64, int64_t, double) MIXF(u32_f64, uint32_t, double) MIXF(i64_f80, int64_t, ld_t) MIXF(u8_f32, uint8_t, float) MIXF(i64_f32, int64_t, float) MIXF(u64_f32, uint64_t, float) MIXF(u64_f64, uint64_t, double)

// integers of different widths: the wider one decides the width
#define MIXI(name, A, B, W) \
    X W drv_iadd_##name(A a, B b) { return metric_value(a) + metric_value(b); } \
    X W ref_iadd_##name(A a, B b) { return W((long long)a + (long long)b); } \
    X W drv_isub_##name(A a, B b) { return metric_value(a) - metric_value(b); } \
    X W ref_isub_##name(A a, B b) { return SUB(A, B, W); } \
    X W drv_imul_##name(A a, B b) { return metric_value(a) * metric_value(b); } \
    X W ref_imul_##name(A a, B b) { return W((long long)a * (long long)b); } \
    X W drv_idiv_##name(A a, B b) { return metric_value(a) / metric_value(b); } \
    X W ref_idiv_##name(A a, B b) { return b == 0 ? W(0) : (long long)b == -1 ? W(0 - (unsigned long long)a) : W((long long)a / (long long)b); }
#define SUB(A, B, W) W((long long)a - (long long)b)
MIXI(i32_i64, int32_t, int64_t, int64_t) MIXI(i64_i32, int64_t, int32_t, int64_t) MIXI(i8_i32, int8_t, int32_t, int32_t) MIXI(i16_i64, int16_t, int64_t, int64_t)

// durations
#define DUR(name, D) \
    X long long drv_dadd_##name(long long a, long long b) { return std::chrono::duration_cast<ns>(metric_value(D(a)) + metric_value(D(b))).count(); } \
    X long long ref_dadd_##name(long long a, long long b) { return ns(D(a) + std::chrono::duration_cast<D>(ns(D(b)))).count(); } \
    X long long drv_dsub_##name(long long a, long long b) { return std::chrono::duration_cast<ns>(metric_value(D(a)) - metric_value(D(b))).count(); } \
    X long long ref_dsub_##name(long long a, long long b) { return ns(D(a) + std::chrono::duration_cast<D>(ns(-D(b)))).count(); } \
    X long long drv_dmul_##name(long long a, int b) { return std::chrono::duration_cast<ns>(metric_value(D(a)) * metric_value(b)).count(); } \
    X long long ref_dmul_##name(long long a, int b) { return ns(D(a) * (long long)b).count(); } \
    X long long drv_ddiv_##name(long long a, int b) { return std::chrono::duration_cast<ns>(metric_value(D(a)) / metric_value(b)).count(); } \
    X long long ref_ddiv_##name(long long a, int b) { return b == 0 ? 0 : b == -1 ? ns(D(-a)).count() : ns(D(a) / (long long)b).count(); } \
    X long long drv_dneg_##name(long long a) { return std::chrono::duration_cast<ns>(-metric_value(D(a))).count(); } \
    X long long ref_dneg_##name(long long a) { return ns(-D(a)).count(); } \
    X long long drv_dcount_##name(long long a) { return (int64_t)metric_value(D(a)); } \
    X long long ref_dcount_##name(long long a) { return a; } \
    X long double drv_dcountf_##name(long long a) { return (long double)metric_value(D(a)); } \
    X long double ref_dcountf_##name(long long a) { return (long double)a; } \
    X long long drv_dns_##name(long long a) { return [&] { ns d_ = metric_value(D(a)); return d_.count(); }(); } \
    X long long ref_dns_##name(long long a) { return std::chrono::duration_cast<ns>(D(a)).count(); } \
    X long long drv_ds_##name(long long a) { return [&] { std::chrono::seconds d_ = metric_value(D(a)); return d_.count(); }(); } \
    X long long ref_ds_##name(long long a) { return std::chrono::duration_cast<std::chrono::seconds>(std::chrono::duration_cast<ns>(D(a))).count(); } \
    X long long drv_dms_##name(long long a) { return std::chrono::duration_cast<std::chrono::milliseconds>(metric_value(D(a))).count(); } \
    X long long ref_dms_##name(long long a) { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::duration_cast<ns>(D(a))).count(); } \
    X long long drv_dcopy_##name(long long a) { metric_value m{D(a)}; metric_value n(m); metric_value k(D(7)); k = std::move(n); return [&] { ns d_ = k; return d_.count(); }(); } \
    X long long ref_dcopy_##name(long long a) { return std::chrono::duration_cast<ns>(D(a)).count(); }
DUR(ns, ns) DUR(us, std::chrono::microseconds) DUR(ms, std::chrono::milliseconds) DUR(s, std::chrono::seconds)
DUR(min, std::chrono::minutes) DUR(h, std::chrono::hours)

// a number divided by a duration
#define DIVD(name, D) \
    X long long drv_ddivri_##name(int b, long long a) { return [&] { ns d_ = metric_value(b) / metric_value(D(a)); return d_.count(); }(); } \
    X long long ref_ddivri_##name(int b, long long a) { return ns(D(a == 0 ? 0 : a == -1 ? -(long long)b : (long long)b / a)).count(); } \
    X long long drv_ddivrf_##name(float b, long long a) { return [&] { ns d_ = metric_value(b) / metric_value(D(a)); return d_.count(); }(); } \
    X long long ref_ddivrf_##name(float b, long long a) { return ns(D(a == 0 ? 0 : whole(b) ? (a == -1 ? -(long long)std::round(b) : (long long)std::round(b) / a) : (long long)((long double)b / (long double)a))).count(); }

// durations and fractions
#define DURF(name, D) \
    X long long drv_dmulf_##name(long long a, float b) { return [&] { ns d_ = metric_value(D(a)) * metric_value(b); return d_.count(); }(); } \
    X long long ref_dmulf_##name(long long a, float b) { return ns(D(whole(b) ? a * (long long)std::round(b) : (long long)((long double)a * (long double)b))).count(); } \
    X long long drv_dmulfr_##name(float b, long long a) { return [&] { ns d_ = metric_value(b) * metric_value(D(a)); return d_.count(); }(); } \
    X long long ref_dmulfr_##name(float b, long long a) { return ref_dmulf_##name(a, b); } \
    X long long drv_ddivf_##name(long long a, float b) { return [&] { ns d_ = metric_value(D(a)) / metric_value(b); return d_.count(); }(); } \
    X long long ref_ddivf_##name(long long a, float b) { return ns(D(b == 0 ? 0 : whole(b) ? ((long long)std::round(b) == -1 ? -a : a / (long long)std::round(b)) : (long long)((long double)a / (long double)b))).count(); }
inline bool whole(float b) { return (long double)b == (long double)(long long)std::round(b); }
DIVD(ns, ns) DIVD(ms, std::chrono::milliseconds)
DURF(ns, ns) DURF(us, std::chrono::microseconds) DURF(ms, std::chrono::milliseconds) DURF(s, std::chrono::seconds)

// conversions of a number
#define CONV(name, T) \
    X int8_t drv_to_i8_##name(T a) { return metric_value(a); }  X int8_t ref_to_i8_##name(T a) { return static_cast<int8_t>(I(T)); } \
    X uint8_t drv_to_u8_##name(T a) { return metric_value(a); } X uint8_t ref_to_u8_##name(T a) { return static_cast<uint8_t>(I(T)); } \
    X int16_t drv_to_i16_##name(T a) { return metric_value(a); }  X int16_t ref_to_i16_##name(T a) { return static_cast<int16_t>(I(T)); } \
    X uint16_t drv_to_u16_##name(T a) { return metric_value(a); } X uint16_t ref_to_u16_##name(T a) { return static_cast<uint16_t>(I(T)); } \
    X int32_t drv_to_i32_##name(T a) { return metric_value(a); }  X int32_t ref_to_i32_##name(T a) { return static_cast<int32_t>(I(T)); } \
    X uint32_t drv_to_u32_##name(T a) { return metric_value(a); } X uint32_t ref_to_u32_##name(T a) { return static_cast<uint32_t>(I(T)); } \
    X int64_t drv_to_i64_##name(T a) { return metric_value(a); }  X int64_t ref_to_i64_##name(T a) { return static_cast<int64_t>(I(T)); } \
    X uint64_t drv_to_u64_##name(T a) { return metric_value(a); } X uint64_t ref_to_u64_##name(T a) { return static_cast<uint64_t>(I(T)); } \
    X float drv_to_f32_##name(T a) { return metric_value(a); } X float ref_to_f32_##name(T a) { return (float)(long double)a; } \
    X double drv_to_f64_##name(T a) { return metric_value(a); } X double ref_to_f64_##name(T a) { return (double)(long double)a; } \
    X long double drv_to_f80_##name(T a) { return metric_value(a); } X long double ref_to_f80_##name(T a) { return (long double)a; } \
    X long long drv_to_ns_##name(T a) { return [&] { ns d_ = metric_value(a); return d_.count(); }(); } X long long ref_to_ns_##name(T a) { return I(T); }
template<typename T> inline typename std::enable_if<std::is_integral<T>::value, long long>::type toint(T a) { return (long long)a; }
template<typename T> inline typename std::enable_if<std::is_floating_point<T>::value, long long>::type toint(T a) { return (long long)std::round(a); }
#define I(T) toint<T>(a)
CONV(i8, int8_t) CONV(u8, uint8_t) CONV(i16, int16_t) CONV(u16, uint16_t) CONV(i32, int32_t) CONV(u32, uint32_t) CONV(i64, int64_t) CONV(u64, uint64_t)
CONV(f32, float) CONV(f64, double) CONV(f80, ld_t)

// text: concatenation, and text that is no number leaves a number as it is (rule "parsed")
X int drv_scat(const std::string& a, const std::string& b, const std::string& c) { return (std::string(metric_value(a) + metric_value(b))).compare(c); }
X int ref_scat(const std::string& a, const std::string& b, const std::string& c) { std::string r(a); r += b; return r.compare(c); }
X int drv_scopy(const std::string& a, const std::string& c) { metric_value m(a); metric_value n(m); metric_value k(std::string("x")); k = std::move(n); return (std::string(k)).compare(c); }
X int ref_scopy(const std::string& a, const std::string& c) { return a.compare(c); }

#define TXT(name, T, op) \
    X T txt_##name##_l(T a, const std::string& b) { return metric_value(a) op metric_value(b); } \
    X T txt_##name##_r(T a, const std::string& b) { return metric_value(b) op metric_value(a); }
X int64_t txt_conv_i64(const std::string& b) { return metric_value(b); }
X uint32_t txt_conv_u32(const std::string& b) { return metric_value(b); }
X double txt_conv_f64(const std::string& b) { return metric_value(b); }
X long long txt_conv_ns(const std::string& b) { ns d_ = metric_value(b); return d_.count(); }
TXT(add_i64, int64_t, +) TXT(sub_i64, int64_t, -) TXT(mul_i64, int64_t, *) TXT(div_i64, int64_t, /)
TXT(add_i32, int32_t, +) TXT(add_u64, uint64_t, +) TXT(add_f64, double, +) TXT(sub_f64, double, -) TXT(mul_f64, double, *) TXT(div_f64, double, /)
#define TXD(name, op) \
    X long long txt_##name##_ms_l(long long a, const std::string& b) { return [&] { ns d_ = metric_value(std::chrono::milliseconds(a)) op metric_value(b); return d_.count(); }(); } \
    X long long txt_##name##_ms_r(long long a, const std::string& b) { return [&] { ns d_ = metric_value(b) op metric_value(std::chrono::milliseconds(a)); return d_.count(); }(); }
TXD(add, +) TXD(sub, -) TXD(mul, *) TXD(div, /)
X long long ref_txt_same(long long a) { return a; }
X long long ref_txt_neg(long long a) { return -a; }
X double ref_txt_same_f64(double a) { return a; }
X double ref_txt_neg_f64(double a) { return -a; }
X long long ref_txt_same_ms(long long a) { return ns(std::chrono::milliseconds(a)).count(); }
X long long ref_txt_neg_ms(long long a) { return ns(-std::chrono::milliseconds(a)).count(); }
