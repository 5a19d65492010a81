T = "cxxmetrics/timer.hpp"
H = "cxxmetrics/histogram.hpp"
DT = "        if (start_.set)\n            timer_.update(timer_.clock().now() - start_.start);"
EDITS = [
    ("bug", "C17", T, "        other.clear();\n", ""),
    ("bug", "C17", T, "            tm.clear();\n            throw;", "            throw;"),
    ("bug", "C17", T, "    if (!TIncludeExceptions)\n", "    if (TIncludeExceptions)\n"),
    ("bug", "C17", T, "        catch (...)\n        {\n            tm.clear();", "        catch (const std::exception&)\n        {\n            tm.clear();"),
    ("bug", "C17", T, DT, "        if (start_.set && !std::uncaught_exception())\n            timer_.update(timer_.clock().now() - start_.start);"),
    ("bug", "C17", T, "        void reset() noexcept { set = false; }", "        void reset() noexcept { start = {}; }"),
    ("bug", "C17", T, "            start = s;\n            set = true;\n            return", "            start = s;\n            return"),
    ("bug", "C17", T, "            start = s;\n            set = true;\n            return", "            if (!set) start = s;\n            set = true;\n            return"),
    ("bug", "C17", T, "            start_(std::move(other.start_))", "            start_(other.timer_.clock().now())"),
    ("bug", "C17", T, "            histogram_.update(duration);\n            meter_.mark();", "            histogram_.update(duration);\n            meter_.mark(duration.count());"),
    ("bug", "C17", T, "        if (duration.count()) {", "        if (duration.count() > 1) {"),
    ("bug", "C17", T, "            histogram_.update(duration);\n            meter_.mark();", "            meter_.mark();\n            if (duration.count() > 0) histogram_.update(duration);"),
    ("bug", "C17", H, "        ++count_;\n", "        if (++count_ == 0) ++count_;\n"),
    ("bug", "C17", H, "        reservoir_.update(value);", "        reservoir_.update(value); if (value < value) reservoir_.update(value);") if False else ("bug", "C17", H, "        ++count_;\n", ""),
    ("bug", "C17", "cxxmetrics/metric.hpp", "result_of<T(TArgs...)>", "result_of<T>"),
    ("bug", "C17", T, "            timer_.update(timer_.clock().now() - start_.start);", "            timer_.update(start_.start - timer_.clock().now());"),
    ("same", "C17", T, DT, "        if (!start_.set)\n            return;\n        const auto end = timer_.clock().now();\n        const auto took = end - start_.start;\n        timer_.update(took);"),
    ("same", "C17", T, "        if (duration.count()) {\n            histogram_.update(duration);\n            meter_.mark();\n        }", "        if (duration == duration.zero())\n            return;\n        meter_.mark(1);\n        histogram_.update(duration);"),
    ("same", "C17", T, "        if (duration.count()) {\n            histogram_.update(duration);\n            meter_.mark();\n        }", "        meter_.mark(1);\n        histogram_.update(duration);"),
    ("same", "C17", T, "        ++count_;\n" if False else "            start_(timer.clock().now())\n    { }", "            start_()\n    {\n        reset();\n    }"),
    ("same", "C17", H, "        ++count_;\n        reservoir_.update(value);", "        reservoir_.update(value);\n        count_ += 1;"),
    ("same", "C17", T, "            return runnable();\n        }\n        catch (...)", "            return run(runnable);\n        }\n        catch (...)") if False else
    ("same", "C17", T, "            tm.clear();\n            throw;", "            tm.clear();\n            std::rethrow_exception(std::current_exception());"),
]
