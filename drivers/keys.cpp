// C09: hashes and comparisons of tags and paths
#include "common.hpp"
#include <new>
#include <cxxmetrics/metric_value.hpp>
#include <cxxmetrics/metric_path.hpp>
#include <cxxmetrics/tag_collection.hpp>
using cxxmetrics::metric_value;
using cxxmetrics::metric_path;
using cxxmetrics::tag_collection;
namespace chr = std::chrono;
#ifndef X
#define X extern "C" __attribute__((visibility("default")))
#endif

static inline std::size_t hash(const metric_value& v) { return std::hash<metric_value>()(v); }

// values of different types that compare equal
#define SAME(name, T, B) \
    X std::size_t drv_hash_##name(T a) { return hash(metric_value(a)); } \
    X std::size_t ref_hash_##name(T a) { return hash(metric_value(static_cast<B>(a))); }
SAME(bool, bool, long long)
SAME(char, char, long long)
SAME(i8, int8_t, long long)
SAME(u8, uint8_t, long long)
SAME(i16, int16_t, long long)
SAME(u16, uint16_t, long long)
SAME(i32, int32_t, long long)
SAME(u32, uint32_t, long long)
SAME(i64, int64_t, long long)
SAME(u64, uint64_t, long long)
SAME(ull, unsigned long long, long long)
SAME(f32, float, long double)
SAME(f64, double, long double)
#define DUR(name, ...) \
    X std::size_t drv_hash_##name(long a) { return hash(metric_value(__VA_ARGS__(a))); } \
    X std::size_t ref_hash_##name(long a) { return hash(metric_value(chr::nanoseconds(__VA_ARGS__(a)))); }
DUR(us, chr::microseconds)
DUR(ms, chr::milliseconds)
DUR(s, chr::seconds)
DUR(min, chr::minutes)
DUR(h, chr::hours)
typedef chr::duration<double> fsec;
typedef chr::duration<float, std::milli> fmsec;
X std::size_t drv_hash_fs(double a) { return hash(metric_value(fsec(a))); }
X std::size_t ref_hash_fs(double a) { return hash(metric_value(chr::duration_cast<chr::nanoseconds>(fsec(a)))); }
X std::size_t drv_hash_fms(float a) { return hash(metric_value(fmsec(a))); }
X std::size_t ref_hash_fms(float a) { return hash(metric_value(chr::duration_cast<chr::nanoseconds>(fmsec(a)))); }
// values of different kinds that compare equal
#define CROSS(name, T, A, B) \
    X std::size_t drv_kinds_##name(T a) { return hash(metric_value(A)); } \
    X std::size_t ref_kinds_##name(T a) { return hash(metric_value(B)); }
CROSS(integer_floating, int, a, static_cast<double>(a))
CROSS(integer_text, int, a, std::to_string(a))
CROSS(integer_duration, int, a, chr::nanoseconds(a))
CROSS(floating_text, double, a, std::to_string(a))
CROSS(floating_duration, int, static_cast<double>(a), chr::nanoseconds(a))
CROSS(text_duration, int, std::to_string(a), chr::nanoseconds(a))

// values of one type
#define ONE(name, T) X std::size_t one_hash_##name(T a) { return hash(metric_value(a)); }
ONE(ll, long long)
ONE(ld, long double)
ONE(ns, chr::nanoseconds)
ONE(text, const std::string&)

// collections
X bool ky_tags_eq(const tag_collection* a, const tag_collection* b) { return *a == *b; }
X bool ky_tags_ne(const tag_collection* a, const tag_collection* b) { return *a != *b; }
X std::size_t ky_tags_hash(const tag_collection* a) { return std::hash<tag_collection>()(*a); }
X bool ky_path_eq(const metric_path* a, const metric_path* b) { return *a == *b; }
X bool ky_path_ne(const metric_path* a, const metric_path* b) { return *a != *b; }
X std::size_t ky_path_hash(const metric_path* a) { return std::hash<metric_path>()(*a); }
X void ky_path_over(void* w, const metric_path* a, const metric_path* b) { new (w) metric_path(*a / *b); }
X void ky_path_under(void* w, const metric_path* a) { new (w) metric_path("some" / *a); }
X void ky_path_text(void* w, const std::string& a) { new (w) metric_path(a); }
