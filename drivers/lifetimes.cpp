// the life of what a metric value holds: making, copying, moving, assigning, calculating and destroying
#include "common.hpp"
#include <new>
#include <utility>
#include <cxxmetrics/metric_value.hpp>
#define X extern "C" __attribute__((visibility("default")))
using cxxmetrics::metric_value;
namespace chr = std::chrono;

extern "C" {
extern const std::size_t lt_size, lt_align;
const std::size_t lt_size = sizeof(metric_value);
const std::size_t lt_align = alignof(metric_value);
}

#define MAKE(n, ...) X void lt_make_##n(void* w, __VA_ARGS__ v) { new (w) metric_value(v); }
MAKE(bool, bool)
MAKE(char, char)
MAKE(schar, signed char)
MAKE(uchar, unsigned char)
MAKE(short, short)
MAKE(ushort, unsigned short)
MAKE(int, int)
MAKE(uint, unsigned)
MAKE(long, long)
MAKE(ulong, unsigned long)
MAKE(llong, long long)
MAKE(ullong, unsigned long long)
MAKE(float, float)
MAKE(double, double)
MAKE(ldouble, long double)
MAKE(text, const std::string&)
MAKE(ctext, const char*)
MAKE(ns, const chr::nanoseconds&)
MAKE(us, const chr::microseconds&)
MAKE(sec, const chr::seconds&)
MAKE(min, const chr::duration<int, std::ratio<60>>&)
MAKE(fsec, const chr::duration<float>&)
MAKE(dsec, const chr::duration<double>&)
MAKE(ldsec, const chr::duration<long double, std::micro>&)

X void lt_copy(void* w, const metric_value* a) { new (w) metric_value(*a); }
X void lt_move(void* w, metric_value* a) { new (w) metric_value(std::move(*a)); }
X void lt_destroy(metric_value* d) { d->~metric_value(); }
X void lt_assign(metric_value* a, metric_value* b) { *a = std::move(*b); }
X void lt_assign_self(metric_value* a) { *a = std::move(*a); }
X void lt_swap(metric_value* a, metric_value* b) { std::swap(*a, *b); }
X void lt_swap_self(metric_value* a) { std::swap(*a, *a); }
X void lt_set_int(metric_value* a, int v) { *a = metric_value(v); }
X void lt_set_text(metric_value* a, const std::string& v) { *a = metric_value(v); }
X void lt_set_copy(metric_value* a, const metric_value* b) { *a = metric_value(*b); }

#define OP(n, o) \
    X void lt_##n(void* w, const metric_value* a, const metric_value* b) { new (w) metric_value(*a o *b); } \
    X void lt_##n##_self(void* w, const metric_value* a) { new (w) metric_value(*a o *a); } \
    X void lt_##n##_to(metric_value* a, const metric_value* b) { *a o##= *b; } \
    X void lt_##n##_to_self(metric_value* a) { *a o##= *a; }
OP(add, +)
OP(sub, -)
OP(mul, *)
OP(div, /)
X void lt_neg(void* w, const metric_value* a) { new (w) metric_value(-*a); }
X void lt_inv(void* w, const metric_value* a) { new (w) metric_value(~*a); }
X bool lt_eq(const metric_value* a, const metric_value* b) { return *a == *b; }
X bool lt_ne(const metric_value* a, const metric_value* b) { return *a != *b; }
X bool lt_lt(const metric_value* a, const metric_value* b) { return *a < *b; }
X bool lt_le(const metric_value* a, const metric_value* b) { return *a <= *b; }
X bool lt_gt(const metric_value* a, const metric_value* b) { return *a > *b; }
X bool lt_ge(const metric_value* a, const metric_value* b) { return *a >= *b; }
X long lt_long(const metric_value* a) { return static_cast<int64_t>(*a); }
X long double lt_ld(const metric_value* a) { return static_cast<long double>(*a); }
X void lt_str(std::string* w, const metric_value* a) { new (w) std::string(*a); }
X long lt_nanos(const metric_value* a) { chr::nanoseconds n = *a; return n.count(); }
X std::size_t lt_hash(const metric_value* a) { return std::hash<metric_value>()(*a); }
X void lt_print(std::ostream* o, const metric_value* a) { *o << *a; }
