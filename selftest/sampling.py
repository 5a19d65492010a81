U = "cxxmetrics/uniform_reservoir.hpp"
S = "cxxmetrics/simple_reservoir.hpp"
R = "cxxmetrics/ringbuf.hpp"
N = "cxxmetrics/snapshots.hpp"
PICK = "    std::uniform_int_distribution<std::size_t> d(0, TSize - 1);\n    elems_[d(gen_)] = value;"
SNAP = "return reservoir_snapshot(&elems_[0], std::min(count_.load(), static_cast<decltype(count_.load())>(TSize)));"
EDITS = [
    ("bug", "C03", U, "d(0, TSize - 1);", "d(0, TSize);"),
    ("bug", "C03", U, "if (c < TSize)", "if (c <= TSize)"),
    ("bug", "C03", U, SNAP, "return reservoir_snapshot(&elems_[0], count_.load());"),
    ("bug", "C03", U, SNAP, "return reservoir_snapshot(&elems_[0], TSize);"),
    ("bug", "C03", U, SNAP, "return reservoir_snapshot(&elems_[1], std::min(count_.load(), static_cast<decltype(count_.load())>(TSize)));"),
    ("bug", "C03", U, SNAP, "if (count_.load() < TSize)\n            return reservoir_snapshot(&elems_[0], count_.load());\n        return reservoir_snapshot(&elems_[0], TSize);"),
    ("bug", "C03", U, "        elems_[c] = value;\n", "        elems_[c + 1] = value;\n"),
    ("bug", "C03", U, "    count_.store(TSize);\n", "    count_.store(0);\n"),
    ("bug", "C03", U, "    count_.store(TSize);\n", "    count_.store(TSize - 1);\n"),
    ("bug", "C03", U, "count_(std::min(other.count_.load(), static_cast<decltype(count_.load())>(TSize)))", "count_(TSize)"),
    ("bug", "C03", U, "count_(std::min(other.count_.load(), static_cast<decltype(count_.load())>(TSize)))", "count_(other.count_.load() + 1)"),
    ("bug", "C03", U, "    for (std::size_t i = 0; i < count; i++)\n", "    for (std::size_t i = 1; i < count; i++)\n"),
    ("bug", "C03", U, "    for (std::size_t i = 0; i < count; i++)\n", "    for (std::size_t i = 0; i <= count; i++)\n"),
    ("bug", "C03", U, "    count_ = count;\n", "    count_ = TSize;\n"),
    ("bug", "C03", U, "    const auto count = std::min(other.count_.load(), static_cast<decltype(count_.load())>(TSize));", "    const auto count = std::max<uint64_t>(other.count_.load(), count_.load());"),
    ("bug", "C03", U, PICK, "    elems_[gen_() % (TSize + 1)] = value;"),
    ("bug", "C03", N, "for (; at < count; ++at)", "for (; at <= count; ++at)"),
    ("bug", "C03", N, "        values_.emplace_back(a[at]);\n", "        values_.emplace_back(a[0]);\n"),
    ("same", "C03", U, PICK, "    elems_[gen_() % TSize] = value;"),
    ("same", "C03", U, PICK, "    std::uniform_int_distribution<std::size_t> d(1, TSize);\n    const auto slot = d(gen_) - 1;\n    elems_[slot] = value;"),
    ("same", "C03", U, "    count_.store(TSize);\n\n" + PICK, PICK + "\n    count_.store(TSize);\n"),
    ("same", "C03", U, "    count_.store(TSize);\n", "    --count_;\n"),
    ("same", "C03", U, "    if (c < TSize)\n    {\n        elems_[c] = value;\n        return;\n    }\n", "    if (!(c >= TSize))\n    {\n        auto &slot = elems_[c];\n        slot = value;\n        return;\n    }\n"),
    ("same", "C03", U, SNAP, "const auto n = count_.load();\n        return reservoir_snapshot(elems_, n < TSize ? n : TSize);"),
    ("same", "C03", U, "    for (std::size_t i = 0; i < count; i++)\n        elems_[i] = other.elems_[i];\n\n    count_ = count;", "    count_ = count;\n    std::size_t i = count;\n    while (i-- > 0)\n        elems_[i] = other.elems_[i];\n"),
    ("same", "C03", U, "    for (std::size_t i = 0; i < count_; i++)\n", "    const std::size_t n = count_.load();\n    for (std::size_t i = 0; i != n; ++i)\n"),
    ("same", "C03", U, "    for (std::size_t i = 0; i < count; i++)\n        elems_[i] = other.elems_[i];\n", "    std::copy(other.elems_, other.elems_ + count, elems_);\n"),
    ("same", "C03", N, "    std::size_t at = 0;\n    for (; at < count; ++at)\n        values_.emplace_back(a[at]);\n", "    for (const TElem *p = a; p != a + count; ++p)\n        values_.push_back(metric_value(*p));\n"),
    ("same", "C03", N, "    values_.reserve(count);\n\n    std::size_t at = 0;\n    for (; at < count; ++at)\n        values_.emplace_back(a[at]);\n", "    values_.assign(a, a + count);\n"),
]
