C = "cxxmetrics/counter.hpp"
E = "cxxmetrics/ewma.hpp"
M = "cxxmetrics/meter.hpp"
G = "cxxmetrics/gauge.hpp"
W = "cxxmetrics/sliding_window.hpp"
R = "cxxmetrics/ringbuf.hpp"
U = "cxxmetrics/uniform_reservoir.hpp"
EDITS = [
    ("bug", "C04", E, "    pending_(c.pending_.load()),\n", "    pending_(0),\n"),
    ("bug", "C04", E, "    last_(c.last_.load()),\n", "    last_(clk_()),\n"),
    ("bug", "C04", E, "    ticked_(c.ticked_.load())\n", "    ticked_(true)\n"),
    ("bug", "C04", E, "    pending_.store(c.pending_.load());\n", ""),
    ("bug", "C04", E, "    ticked_.store(c.ticked_.load());\n", ""),
    ("bug", "C04", E, "    last_.store(c.last_.load());\n    return *this;", "    last_.store(clk_());\n    return *this;"),
    ("bug", "C04", E, "    rate_.store(c.rate_.load());\n    pending_.store(c.pending_.load());", "    rate_.store(c.pending_.load());\n    pending_.store(c.rate_.load());"),
    ("bug", "C04", E, "    rate_.store(c.rate_.load());\n", "    if (c.ticked_.load())\n        rate_.store(c.rate_.load());\n"),
    ("bug", "C04", E, "    clk_ = c.clk_;\n", ""),
    ("bug", "C04", E, "    clk_ = c.clk_;\n", "    clk_ = c.clk_;\n    ticked_.store(false);\n"),
    ("bug", "C04", M, "        total_.store(c.total_.load());\n", ""),
    ("bug", "C04", M, "        start_.store(c.start_.load());\n", "        start_.store(this->now());\n"),
    ("bug", "C04", M, "        rates_ = c.rates_;\n        return *this;", "        return *this;"),
    ("bug", "C04", M, "            start_(c.start_.load()),\n            total_(c.total_.load())\n", "            start_(clock_point{}),\n            total_(c.total_.load())\n"),
    ("bug", "C04", M, "        _meter_impl_base<TClockGet, TInterval, TWindows...>::operator=(c);\n", ""),
    ("bug", "C04", W, "    window_ = other.window_;\n    return *this;", "    return *this;"),
    ("bug", "C04", W, "    data_ = other.data_;\n    clock_", "    clock_"),
    ("bug", "C04", W, "        window_(other.window_),\n        data_(other.data_)\n", "        window_(other.window_)\n"),
    ("bug", "C04", G, "        fn_ = std::move(mv.fn_);\n        return *this;", "        return *this;"),
    ("bug", "C04", G, "        value_ = std::move(other.value_);\n", ""),
    ("bug", "C04", R, "for (; it != other.end() && i < TSize; ++i, ++it)", "for (; it != other.end() && i < TSize - 1; ++i, ++it)"),
    ("bug", "C04", U, "    count_ = count;\n", "    if (count > count_)\n        count_ = count;\n"),
    ("bug", "C04", U, "    for (std::size_t i = 0; i < count_; i++)\n        elems_[i] = other.elems_[i];", "    for (std::size_t i = 0; i < count_; i++)\n        elems_[i] = other.elems_[0];"),
    ("same", "C04", E, "    rate_.store(c.rate_.load());\n    pending_.store(c.pending_.load());", "    const auto rate = c.rate_.load();\n    pending_ = c.pending_.load();\n    rate_ = rate;"),
    ("same", "C04", E, "    clk_ = c.clk_;\n", "    if (this == &c)\n        return *this;\n    clk_ = c.clk_;\n"),
    ("same", "C04", E, "    rate_(c.rate_.load()),\n    last_(c.last_.load()),\n    pending_(c.pending_.load()),\n    ticked_(c.ticked_.load())\n{\n\n}", "    rate_(0),\n    last_(c.last_.load()),\n    pending_(0),\n    ticked_(c.ticked_.load())\n{\n    rate_ = c.rate_.load();\n    pending_.store(c.pending_);\n}"),
    ("same", "C04", M, "        start_.store(c.start_.load());\n        total_.store(c.total_.load());\n", "        total_.exchange(c.total_);\n        start_ = c.start_.load(std::memory_order_acquire);\n"),
    ("same", "C04", W, "    data_ = other.data_;\n    clock_ = other.clock_;\n    window_ = other.window_;\n", "    window_ = other.window_;\n    data_.operator=(other.data_);\n    clock_ = other.clock_;\n"),
    ("same", "C04", G, "        value_ = std::move(other.value_);\n", "        auto v = other.value_;\n        std::swap(value_, v);\n"),
    ("same", "C04", G, "        value_ = std::move(other.value_);\n", "        if (this != &other)\n            value_ = other.value_;\n"),
]
