C = "cxxmetrics/counter.hpp"
H = "cxxmetrics/histogram.hpp"
INCR = "    return value_ += by;"
UPD = """        ++count_;
        reservoir_.update(value);"""
SNAP = """        auto c = count_.value();
        return histogram_snapshot(reservoir_.snapshot(), c);"""
EDITS = [
    ("bug", "C01", C, INCR, "    value_ = value_ + by;\n    return value_;"),
    ("bug", "C01", C, INCR, "    value_ += by;\n    return value_.load();"),
    ("bug", "C01", C, INCR, "    return value_.fetch_add(by);"),
    ("bug", "C01", C, INCR, "    return (value_ += by) + by;"),
    ("bug", "C01", C, INCR, "    TCount v = value_;\n    value_.compare_exchange_strong(v, v + by);\n    return v + by;"),
    ("bug", "C01", C, INCR, "    TCount v = value_;\n    if (!value_.compare_exchange_strong(v, v + by))\n        value_ = v + by;\n    return v + by;"),
    ("bug", "C01", C, INCR, "    if (by == 0)\n        return value_;\n    value_.fetch_add(by / 2);\n    return value_ += by - by / 2;"),
    ("bug", "C01", C, INCR, "    if (by > 1000000)\n        by = 1000000;\n    return value_ += by;"),
    ("bug", "C01", C, INCR, "    TCount v = value_;\n    const TCount n = v + by;\n    while (!value_.compare_exchange_weak(v, n));\n    return n;"),
    ("bug", "C01", C, INCR, "    TCount v = value_;\n    int tries = 0;\n    while (!value_.compare_exchange_weak(v, v + by) && ++tries < 100);\n    return v + by;"),
    ("bug", "C01", C, "return incr(1) - 1;", "TCount was = value();\n        incr(1);\n        return was;"),
    ("bug", "C01", C, "return incr(1) - 1;", "return incr(1);"),
    ("bug", "C01", C, "        incr(-1);\n", "        incr(+1);\n"),
    ("bug", "C01", C, "        incr(-1);\n", "        value_ = value_ - 1;\n"),
    ("bug", "C01", C, "        incr(-by);\n", "        incr(-static_cast<int>(by));\n"),
    ("bug", "C01", C, "        incr(by);\n", "        incr(by);\n        if (by < 0)\n            incr(by);\n"),
    ("bug", "C01", C, "        incr(by);\n", "        if (by > 0)\n            incr(by);\n"),
    ("bug", "C01", H, UPD, "        if (value != TElem(0))\n            ++count_;\n        reservoir_.update(value);"),
    ("bug", "C01", H, UPD, "        count_ = count_.value() + 1;\n        reservoir_.update(value);"),
    # the same in other words
    ("same", "C01", C, INCR, "    return value_.fetch_add(by) + by;"),
    ("same", "C01", C, INCR, "    const TCount before = value_.fetch_add(by, std::memory_order_relaxed);\n    return before + by;"),
    ("same", "C01", C, INCR, "    TCount v = value_.load();\n    while (!value_.compare_exchange_weak(v, v + by));\n    return v + by;"),
    ("same", "C01", C, INCR, "    TCount v = value_.load(), n;\n    do\n        n = v + by;\n    while (!value_.compare_exchange_weak(v, n));\n    return n;"),
    ("same", "C01", C, INCR, "    return value_.fetch_sub(-by) + by;"),
    ("same", "C01", C, "return incr(1) - 1;", "const TCount now = incr(1);\n        return now - 1;"),
    ("same", "C01", C, "return incr(1) - 1;", "return value_.fetch_add(1);"),
    ("same", "C01", C, "        incr(-by);\n", "        value_.fetch_sub(by);\n"),
    ("same", "C01", C, "        incr(-1);\n", "        *this -= 1;\n"),
    ("same", "C01", C, "    return value_;\n", "    return value_.load(std::memory_order_relaxed);\n"),
    ("same", "C01", H, UPD, "        reservoir_.update(value);\n        count_.incr(1);"),
    ("same", "C01", H, UPD, "        count_ += 1;\n        reservoir_.update(value);"),
    ("same", "C01", H, UPD, "        (void)count_++;\n        reservoir_.update(value);"),
    ("same", "C01,C03,C04", H, SNAP, "        const uint64_t seen = count_;\n        return {reservoir_.snapshot(), seen};"),
]
