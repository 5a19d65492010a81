E = "cxxmetrics/ewma.hpp"
CL = "    if (!pending_.compare_exchange_weak(pending, 0))\n        return rate; // someone else already either ticked or added a pending value\n"
ST = "    if (!rate_.compare_exchange_strong(nrate, static_cast<TValue>(rate)))\n    {\n        atomic_add(pending_, pending); // keep what we took for the next tick\n        return rate;\n    }\n"
EDITS = [
    ("bug", "C15", E, CL, "    pending_.store(0);\n"),
    ("bug", "C15", E, CL, "    while (!pending_.compare_exchange_weak(pending, 0));\n"),
    ("bug", "C15", E, CL, "    pending_.exchange(0);\n"),
    ("bug", "C15", E, ST, "    rate_.store(rate);\n"),
    ("bug", "C15", E, ST, "    if (!rate_.compare_exchange_strong(nrate, static_cast<TValue>(rate)))\n        return rate;\n"),
    ("bug", "C15", E, "    tick(now);\n    atomic_add(pending_, amount);", "    tick(now);\n    pending_.store(pending_.load() + amount);"),
    ("bug", "C15", E, "    tick(now);\n    atomic_add(pending_, amount);", "    if (tick(now) == TValue(-1)) return;\n    atomic_add(pending_, amount);"),
    ("bug", "C15", E, "            if (a.compare_exchange_weak(v1, v2))\n                break;", "            a.compare_exchange_weak(v1, v2);\n                break;"),
    ("bug", "C15", E, "            if (a.compare_exchange_weak(v1, v2))\n                break;", "            if (a.compare_exchange_weak(v1, v2) || a.load() == v2)\n                break;"),
    ("bug", "C15", E, "            if (!pending_.compare_exchange_weak(pending, 0))\n                return pending; // someone else ticked from under us\n", "            pending_.store(0);\n"),
    ("bug", "C15", E, "            else\n                atomic_add(pending_, pending); // keep what we took for the next tick\n\n            return pending;", "\n            return pending;"),
    ("bug", "C15", E, "    if (now < last_.load())\n        return;", "    if (now <= last_.load() + clock_diff(period(TInterval)))\n        return;"),
    ("bug", "C15", E, "    auto pending = pending_.load();\n    auto nrate = rate_.load();\n\n    if (at", "    const auto before = pending_.load();\n    auto pending = pending_.load();\n    auto nrate = rate_.load();\n\n    if (at"[:0] + "    auto pending = pending_.load();\n    auto nrate = rate_.load();\n    const bool idle = pending_.load() == 0;\n    if (idle) nrate = TValue(nrate * (1 - alpha_));\n    if (at"[:0] + "    auto pending = pending_.load();\n    auto nrate = rate_.load();\n\n    if (at"),
    ("bug", "C15", E, "    auto rate = nrate + (alpha_ * (pending - nrate));", "    auto rate = nrate + (alpha_ * (pending_.load() - nrate));"),
    ("bug", "C15", E, "        atomic_add(pending_, pending); // keep what we took for the next tick\n        return rate;", "        atomic_add(pending_, rate); // keep what we took for the next tick\n        return rate;"),
    ("same", "C15", E, "    tick(now);\n    atomic_add(pending_, amount);", "    atomic_add(pending_, (tick(now), amount));"),
    ("same", "C15", E, "            T v1 = a.load();\n            T v2 = v1 + b;\n\n            if (a.compare_exchange_weak(v1, v2))\n                break;", "            T was = a.load();\n            if (a.compare_exchange_strong(was, b + was))\n                return;"),
    ("same", "C15", E, "        while (true) {\n            T v1 = a.load();\n            T v2 = v1 + b;\n\n            if (a.compare_exchange_weak(v1, v2))\n                break;\n        }\n", "        T was = a.load();\n        while (!a.compare_exchange_weak(was, was + b)) { }\n"),
    ("same", "C15", E, "        a += b;", "        a.fetch_add(b, std::memory_order_relaxed);"),
    ("same", "C15", E, ("    auto pending = pending_.load();\n    auto nrate = rate_.load();\n\n    if (at")[:0] + "    // our clock went backwards\n    if (now < last_.load())\n        return;\n", "    const auto seen = last_.load();\n    if (!(now >= seen))\n        return;\n"),
    ("same", "C15,C29", E, "    auto intervals = (at - last) / period(TInterval);", "    const auto passed = at - last;\n    const auto intervals = passed / period(TInterval);"),
    ("same", "C15", E, "        rate *= std::pow(1 - alpha_, intervals - 1);", "        for (auto i = intervals; i > 1; --i)\n            rate += alpha_ * -rate;"),
]
EDITS = [e for e in EDITS if e[3] != e[4]]
