E = "cxxmetrics/ewma.hpp"
M = "cxxmetrics/meter.hpp"
POW = "        rate *= std::pow(1 - alpha_, intervals - 1);"
FOLD = "    auto rate = nrate + (alpha_ * (pending - nrate));"
EDITS = [
    ("bug", "C29", E, "return 1 - exp((TInterval * -1.0l) / (TWindow * 2.0l));", "return 1 - exp((TInterval * -1.0l) / (TWindow * 1.0l));"),
    ("bug", "C29", E, "return 1 - exp((TInterval * -1.0l) / (TWindow * 2.0l));", "return 2.0 / ((TWindow * 2.0l) / TInterval + 1);"),
    ("bug", "C29", E, "return 1 - exp((TInterval * -1.0l) / (TWindow * 2.0l));", "return 1 - exp((TInterval / TWindow) * -0.5l);"),
    ("bug", "C29", E, POW, "        rate *= std::pow(1 - alpha_, intervals);"),
    ("bug", "C29", E, POW, "        rate *= std::pow(alpha_, intervals - 1);"),
    ("bug", "C29", E, "    if (intervals > 1)\n", "    if (intervals > 2)\n"),
    ("bug", "C29", E, "    if (intervals > 1)\n", "    if (intervals > 1 && TWindow > TInterval)\n"),
    ("bug", "C29", E, FOLD, "    auto rate = nrate + (alpha_ * pending);"),
    ("bug", "C29", E, FOLD, "    auto rate = pending + (alpha_ * (nrate - pending));"),
    ("bug", "C29", E, FOLD, "    TValue rate = nrate + static_cast<TValue>(alpha_ * (pending - nrate));"),
    ("bug", "C29", E, "        if ((at - last) < period(TInterval))\n            return pending;", "        if ((at - last) <= period(TInterval))\n            return pending;"),
    ("bug", "C29", E, "    if (!TWrite || (at - last) < period(TInterval))\n        return rate;", "    if (!TWrite)\n        return rate;"),
    ("bug", "C29", E, "    if (!TWrite || (at - last) < period(TInterval))\n        return rate;", "    if (!TWrite || (at - last) < period(TWindow))\n        return rate;"),
    ("bug", "C29", E, "    if (at < last)\n        return nrate;", "    if (at <= last)\n        return nrate;"),
    ("bug", "C29", E, "    if (nrate == TValue{} && !ticked_.load())", "    if (nrate == TValue{})"),
    ("bug", "C29", E, "        if (!TWrite)\n            return pending;\n", "        if (!TWrite)\n            return alpha_ * pending;\n"),
    ("bug", "C29", E, "                last_ = at;", "                last_ = last;"),
    ("bug", "C29", E, "    while (last < at && !last_.compare_exchange_weak(last, at));", "    while (last < at && !last_.compare_exchange_weak(last, last + clock_diff(period(TInterval))));"),
    ("bug", "C29", E, "    tick(now);\n    atomic_add(pending_, amount);", "    atomic_add(pending_, amount);\n    tick(now);"),
    ("bug", "C29", E, "    tick(now);\n    atomic_add(pending_, amount);", "    atomic_add(pending_, amount);"),
    ("bug", "C29", E, "    if (now < last_.load())\n        return;\n", ""),
    ("bug", "C30", M, "        auto units = (since * 1.0l) / this->interval();", "        auto units = since / this->interval();"),
    ("bug", "C30", M, "        auto units = (since * 1.0l) / this->interval();", "        auto units = (since * 1.0l) / this->interval() + 1;"),
    ("bug", "C30", M, "        if (!units)\n            return (total_ * 1.0l);\n", ""),
    ("bug", "C30", M, "        if (!units)\n", "        if (units < 1)\n"),
    ("bug", "C30", M, "        if (start_.load() == clock_point{})\n        {", "        if (total_.load() == 0)\n        {\n            start_.store(clock_point{});"),
    ("bug", "C30", M, "        total_ += by;\n", "        total_ += 1;\n"),
    ("bug", "C30", M, "        total_ += by;\n", "        if (by > 0)\n            total_ += by;\n"),
    ("same", "C29", E, POW, "        rate = rate * std::pow(1 - alpha_, intervals - 1);"),
    ("same", "C29", E, "    if (intervals > 1)\n" + POW, "    const auto idle = intervals - 1;\n    if (idle > 0)\n    {\n        const auto part = std::pow(1 - alpha_, idle);\n        rate = part * rate;\n    }"),
    ("same", "C29", E, FOLD, "    auto rate = (1 - alpha_) * nrate + alpha_ * pending;"),
    ("same", "C29", E, FOLD, "    auto rate = static_cast<long double>(nrate);\n    rate += alpha_ * (pending - nrate);"),
    ("same", "C29", E, "    if (at < last)\n        return nrate;", "    const bool early = at < last;\n    if (early)\n        return nrate;"),
    ("same", "C29", E, "        if ((at - last) < period(TInterval))\n            return pending;\n\n        // use constexpr if with 17\n        if (!TWrite)\n            return pending;", "        if (!TWrite || (at - last) < period(TInterval))\n            return pending;"),
    ("same", "C29", E, "    if (std::isnan(rate) || std::isinf(rate))\n", "    if (!std::isfinite(rate))\n"),
    ("same", "C29", E, "    while (last < at && !last_.compare_exchange_weak(last, at));", "    do\n    {\n        if (!(last < at))\n            break;\n    } while (!last_.compare_exchange_weak(last, at));"),
    ("same", "C29", E, "return 1 - exp((TInterval * -1.0l) / (TWindow * 2.0l));", "return 1 - exp(-(TInterval / 2.0l) / TWindow);"),
    ("same", "C29", E, "return 1 - exp((TInterval * -1.0l) / (TWindow * 2.0l));", "return -std::expm1((TInterval * -1.0l) / (TWindow * 2.0l));"),
    ("same", "C29", E, "    auto now = clk_();\n    return tick(now);", "    return tick(clk_());"),
    ("same", "C30", M, "        if (start == clock_point{})\n            units = 1;\n        if (!units)\n            return (total_ * 1.0l);\n        return (total_ * 1.0l) / units;", "        const auto sum = static_cast<long double>(total_.load());\n        if (start == clock_point{} || units == 0)\n            return sum;\n        return sum / units;"),
    ("same", "C30", M, "            clock_point unset{};\n            start_.compare_exchange_strong(unset, this->now());", "            const auto first = this->now();\n            clock_point unset{};\n            start_.compare_exchange_strong(unset, first);"),
    ("same", "C30", M, "        total_ += by;\n", "        total_.fetch_add(by);\n"),
]
