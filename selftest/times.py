T = "cxxmetrics/time.hpp"
Q = "cxxmetrics/snapshots.hpp"
EDITS = [
    ("bug", "C26", T, "return minutes(v * 60);", "return minutes(v * 24);"),
    ("bug", "C26", T, "return cxxmetrics::time::hours(v);", "return cxxmetrics::time::minutes(v);"),
    ("bug", "C26", T, "return std::chrono::microseconds(value_);", "return std::chrono::milliseconds(value_ / 1000);"),
    ("bug", "C26", T, "return std::chrono::microseconds(value_);", "return std::chrono::microseconds(static_cast<unsigned>(value_));"),
    ("bug", "C26", T, "return milliseconds(v * 1000);", "return milliseconds(static_cast<int>(v) * 1000);"),
    ("bug", "C26", T, "return a <= b.to_duration(); }", "return a < b.to_duration(); }"),
    ("bug", "C26", T, "        return period(value_ / p);", "        return period(value_ * 1000 / p / 1000 * 1);") if False else ("bug", "C26", T, "        return period(value_ / p);", "        return period(value_ / p * p);"),
    ("bug", "C26", T, "{ return a - b.to_duration(); }", "{ return a + b.to_duration(); }"),
    ("bug", "C26", T, "{ return a -= b.to_duration(); }", "{ return a - b.to_duration(); }"),
    ("bug", "C26", Q, "value_((v * 100.0) / max)", "value_((v * 100) / max)"),
    ("bug", "C26", Q, "return (max / 100.0) * value_;", "return (max / 100) * value_;"),
    ("bug", "C26", Q, "return (max / 100.0) * value_;", "return (max / 100.0) * static_cast<float>(value_);"),
    ("bug", "C26", Q, "return cxxmetrics::quantile(value);\n", "return cxxmetrics::quantile((long double)(int)value);\n"),
    ("same", "C26", T, "return minutes(v * 60);", "return seconds(v * 3600);"),
    ("same", "C26", T, "return std::chrono::microseconds(value_);", "return std::chrono::duration_cast<std::chrono::steady_clock::duration>(std::chrono::microseconds(value_));"),
    ("same", "C26", T, "return a <= b.to_duration(); }", "return !(a > b.to_duration()); }"),
    ("same", "C26", T, "{ return a -= b.to_duration(); }", "{ const std::chrono::steady_clock::duration d = b; a = a - d; return a; }"),
    ("same", "C26", T, "        return period(value_ / p);", "        const auto q = value_ / p;\n        return q;"),
    ("same", "C26", Q, "return (max / 100.0) * value_;", "return value_ * max / 100.0l;"),
    ("same", "C26", Q, "value_((v * 100.0) / max)", "value_(static_cast<long double>(v) / max * 100)"),
]
