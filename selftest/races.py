R = "cxxmetrics/metrics_registry.hpp"
B = "cxxmetrics/ringbuf.hpp"
E = "cxxmetrics/ewma.hpp"
M = "cxxmetrics/meter.hpp"
EDITS = [
    ("bug", "C27", B, "std::array<std::atomic<TElemType>, TSize> data_;", "std::array<TElemType, TSize> data_;"),
    ("bug", "C27", (B, "    std::atomic_uint_fast64_t size_;", "    uint64_t size_;"), (B, "size_.load()", "size_"), (B, "size_.load(std::memory_order_acquire)", "size_"),
     (B, "        if (size_.compare_exchange_weak(csize, writeloc, std::memory_order_release, std::memory_order_acquire))\n            return;", "        size_ = writeloc;\n            return;")),
    ("bug", "C27", (E, "    std::atomic<clock_point> last_;", "    clock_point last_;"), (E, "while (last < at && !last_.compare_exchange_weak(last, at));", "if (last < at) last_ = at;"), (E, "last_.load()", "last_"), (E, "last_.store(c.last_)", "last_ = c.last_")),
    ("bug", "C27", (M, "    std::atomic<clock_point> start_;", "    clock_point start_;"), (M, "start_.load()", "start_"), (M, "start_.store(c.start_)", "start_ = c.start_"),
     (M, "start_.compare_exchange_strong(unset, this->now());", "start_ = this->now();")),
    ("bug", "C27", (M, "    std::atomic_int_fast64_t total_;", "    int64_t total_;"), (M, "total_.load()", "total_"), (M, "total_.store(c.total_)", "total_ = c.total_")),
    ("bug", "C27", ("cxxmetrics/histogram.hpp", "    counter<uint64_t> count_;", "    uint64_t count_ = 0;"), ("cxxmetrics/histogram.hpp", "count_.value()", "count_")),
    ("bug", "C27", R, "    std::lock_guard<std::mutex> lock(metriclock_);\n    for (auto& pair", "    for (auto& pair"),
    ("same", "C27", (B, "    auto writeloc = tail_.fetch_add(1);\n    data_[writeloc % TSize] = elem;", "    const auto at = tail_++;\n    auto writeloc = at;\n    data_[at % TSize].store(elem);")),
    ("same", "C27", (E, "    tick(now);\n    atomic_add(pending_, amount);", "    tick(now);\n    TValue was = pending_.load();\n    while (!pending_.compare_exchange_strong(was, was + amount)) { }")),
]
