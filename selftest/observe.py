E = "cxxmetrics/ewma.hpp"
S = "cxxmetrics/snapshots.hpp"
EDITS = [
    ("bug", "C14", E, "const_cast<ewma*>(this)->tick<false>(now)", "const_cast<ewma*>(this)->tick<true>(now)"),
    ("bug", "C14", E, "const_cast<ewma*>(this)->tick<false>(now)", "const_cast<ewma*>(this)->rate()"),
    ("bug", "C14", "cxxmetrics/counter.hpp", "    std::atomic<TCount> value_;", "    mutable std::atomic<TCount> value_;", ), 
    ("bug", "C14", "cxxmetrics/histogram.hpp", "        auto c = count_.value();", "        auto c = count_.value(); const_cast<counter<uint64_t>&>(count_) = 0;"),
    ("bug", "C14", (S, "    std::vector<metric_value> values_;", "    mutable std::vector<metric_value> values_;"), (S, "    metric_value mean() const noexcept\n    {\n", "    metric_value mean() const noexcept\n    {\n        std::reverse(values_.begin(), values_.end());\n")),
    ("bug", "C14", (S, "    std::vector<metric_value> values_;", "    mutable std::vector<metric_value> values_;"), (S, "    metric_value max() const noexcept\n    {\n", "    metric_value max() const noexcept\n    {\n        if (values_.size() > 1) std::swap(values_.front(), values_.back());\n")),
    ("bug", "C14", E, "    auto now = clk_();\n    // the const_cast", "    static clock_point seen{};\n    auto now = clk_();\n    if (now == seen) return rate_.load();\n    seen = now;\n    // the const_cast"),
    ("same", "C14", E, "    // the const_cast is safe with the false template parameter\n    return const_cast<ewma*>(this)->tick<false>(now);", "    auto* self = const_cast<ewma*>(this);\n    const TValue r = self->template tick<false>(now);\n    return r;"),
    ("same", "C14", "cxxmetrics/histogram.hpp", "        auto c = count_.value();\n        return histogram_snapshot(reservoir_.snapshot(), c);", "        histogram_snapshot s(reservoir_.snapshot(), count_.value());\n        return s;"),
]
EDITS.append(("bug", "C14", S, "        metric_value total = values_[0];", "        metric_value total = values_[0]; const_cast<metric_value&>(values_[0]) = metric_value(0);"))
EDITS.append(("bug", "C14", S, "        metric_value total = values_[0];", "        metric_value total = values_[0]; auto& v = const_cast<std::vector<metric_value>&>(values_); std::sort(v.rbegin(), v.rend());"))
EDITS.append(("bug", "C14", S, "        metric_value total = values_[0];", "        metric_value total = values_[0]; auto& v = const_cast<std::vector<metric_value>&>(values_); v[0] = total * metric_value(2);"))
EDITS.append(("same", "C14", S, "        metric_value total = values_[0];", "        auto& v = const_cast<std::vector<metric_value>&>(values_); metric_value total = v[0];"))
EDITS = [e for e in EDITS if not (len(e) == 5 and "mutable std::atomic<TCount>" in e[4])]
