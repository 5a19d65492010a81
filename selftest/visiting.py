R = "cxxmetrics/metrics_registry.hpp"
S = "cxxmetrics/snapshots.hpp"
P = "cxxmetrics/publisher_impl.hpp"
LOOP = """    for (auto& p : metrics_)
    {
        builder.construct(loc, p.first);
        try
        {
            loc->visit(p.second->snapshot());
        }
        catch (...)
        {
            loc->~snapshot_visitor();
            throw;
        }

        loc->~snapshot_visitor();
    }
"""
PRE = """    // the stack is only released on return, so every visitor is built in the same place
    auto sz = builder.visitor_size() + sizeof(std::max_align_t);
    void* ptr = alloca(sz);

    std::align(alignof(std::max_align_t), builder.visitor_size(), ptr, sz);
    auto loc = reinterpret_cast<snapshot_visitor*>(ptr);

"""
AGG = """    auto result = itr->second->snapshot();
    for (++itr; itr != metrics_.end(); ++itr)
    {
        result.merge(itr->second->snapshot());
    }
"""
EDITS = [
    # ---- bugs
    ("bug", "C28", R, PRE + LOOP, "    for (auto& p : metrics_)\n    {\n" + PRE + LOOP.split("{\n", 1)[1]),
    ("bug", "C28", R, "        catch (...)\n        {\n            loc->~snapshot_visitor();\n            throw;\n        }\n", "        catch (...)\n        {\n            throw;\n        }\n"),
    ("bug", "C28", R, "        }\n\n        loc->~snapshot_visitor();\n    }", "        }\n    }"),
    ("bug", "C28", R, "            loc->~snapshot_visitor();\n            throw;", "            loc->~snapshot_visitor();"),
    ("bug", "C28", R, "auto sz = builder.visitor_size() + sizeof(std::max_align_t);", "std::size_t sz = sizeof(snapshot_visitor) + sizeof(std::max_align_t);"),
    ("bug", "C28", R, "return sizeof(invokable_snapshot_visitor<bound_visitor>);", "return sizeof(bound_visitor);"),
    ("bug", "C28", R, "return sizeof(invokable_snapshot_visitor<bound_visitor>);", "return sizeof(snapshot_visitor);"),
    ("bug", "C28,C19", R, "    for (auto& p : metrics_)\n    {\n        builder.construct(loc, p.first);\n", "    if (!metrics_.empty()) builder.construct(loc, metrics_.begin()->first);\n    for (auto& p : metrics_)\n    {\n"),
    ("bug", "C19", R, "builder.construct(loc, p.first);", "builder.construct(loc, metrics_.begin()->first);"),
    ("bug", "C19", R, "loc->visit(p.second->snapshot());", "loc->visit(metrics_.begin()->second->snapshot());"),
    ("bug", "C19", R, "loc->visit(p.second->snapshot());", "if (p.second.use_count() > 0) loc->visit(p.second->snapshot());"),
    ("bug", "C19", R, "    for (++itr; itr != metrics_.end(); ++itr)", "    for (; itr != metrics_.end(); ++itr)"),
    ("bug", "C19", R, "    for (++itr; itr != metrics_.end(); ++itr)\n    {", "    if (++itr != metrics_.end())\n    {"),
    ("bug", "C19", R, "result.merge(itr->second->snapshot());", "result.merge(metrics_.begin()->second->snapshot());"),
    ("bug", "C19", R, "        result.merge(itr->second->snapshot());\n", "        result.merge(itr->second->snapshot());\n        if (metrics_.size() > 64) break;\n"),
    ("bug", "C19", R, "        result.merge(itr->second->snapshot());\n", "        if (itr->second.use_count() > 1) result.merge(itr->second->snapshot());\n"),
    ("bug", "C19", R, "    visitor.visit(result);\n", "    visitor.visit(result);\n    if (metrics_.size() > 1) visitor.visit(result);\n"),
    ("bug", "C19", R, "    if (itr == metrics_.end())\n        return;\n\n    auto result", "    if (itr == metrics_.end() || metrics_.size() == 1)\n        return;\n\n    auto result"),
    ("bug", "C19", R, "    for (auto& pair : metrics_)\n        handler(pair.first, *pair.second);", "    for (auto itr = metrics_.begin(); itr != metrics_.end(); ++itr)\n    { handler(itr->first, *itr->second); if (++itr == metrics_.end()) break; }"),
    ("bug", "C19", R, "handler(pair.first, *pair.second);", "handler(metrics_.begin()->first, *pair.second);"),
    ("bug", "C19", S, "    void visit(const meter_snapshot& meter) override { visit_hnd(meter); }", "    void visit(const meter_snapshot& meter) override { visit_hnd(static_cast<const average_value_snapshot&>(meter)); }"),
    ("bug", "C19", S, "    void visit(const timer_snapshot& timer) override { visit_hnd(timer); }", "    void visit(const timer_snapshot& timer) override { snapshot_visitor::visit(timer); }"),
    ("bug", "C19", S, "    void visit(const timer_snapshot& timer) override { visit_hnd(timer); }\n", ""),
    ("bug", "C19", S, "        visit(static_cast<const histogram_snapshot&>(timer));\n        visit(static_cast<const meter_snapshot&>(timer.rate()));", "        visit(static_cast<const histogram_snapshot&>(timer));"),
    ("bug", "C19", S, "            visitor_(ss);\n", "            visitor_(ss);\n            base.snapshot_visitor::visit(ss);\n"[:0] + "            visitor_(ss); visitor_(ss);\n"),
    ("bug", "C19", R, "    std::unordered_map<tag_collection, std::shared_ptr<TMetricType>> metrics_;\n    std::mutex lock_;", "    std::unordered_map<tag_collection, std::shared_ptr<TMetricType>> metrics_;\n    std::mutex lock_;\n"[:0] + "    std::unordered_map<tag_collection, std::shared_ptr<TMetricType>> metrics_;\n    std::mutex lock_;", 0) if False else
    ("bug", "C19", R, "        this->visit_each(builder);", "        this->visit_each(builder);\n        if (type_.empty()) this->visit_each(builder);"),
    # ---- not bugs
    ("same", "C19,C28", R, LOOP, LOOP.replace("for (auto& p : metrics_)", "for (auto itr = metrics_.begin(); itr != metrics_.end(); ++itr)").replace("p.first", "itr->first").replace("p.second", "itr->second")),
    ("same", "C19,C28", R, LOOP, """    struct guard { snapshot_visitor* v; ~guard() { v->~snapshot_visitor(); } };
    for (auto& p : metrics_)
    {
        builder.construct(loc, p.first);
        guard g{loc};
        loc->visit(p.second->snapshot());
    }
"""),
    ("same", "C19,C28", R, "            loc->visit(p.second->snapshot());\n", "            auto value = p.second->snapshot();\n            loc->visit(value);\n"),
    ("same", "C19,C28", R, "            loc->visit(p.second->snapshot());\n", "            std::shared_ptr<TMetricType> m = p.second;\n            loc->visit(m->snapshot());\n"),
    ("same", "C19,C28", R, "        builder.construct(loc, p.first);\n", "        const auto& tags = p.first;\n        builder.construct(loc, tags);\n"),
    ("same", "C19,C28", R, AGG, """    auto result = itr->second->snapshot();
    ++itr;
    while (itr != metrics_.end())
    {
        const auto& metric = *itr->second;
        result.merge(metric.snapshot());
        ++itr;
    }
""".replace("const auto& metric", "auto& metric")),
    ("same", "C19,C28", R, "    auto itr = metrics_.begin();\n    if (itr == metrics_.end())\n        return;\n", "    if (metrics_.empty())\n        return;\n\n    auto itr = metrics_.begin();\n"),
    ("same", "C19,C13", R, AGG, """    auto result = itr->second->snapshot();
    while (++itr != metrics_.end())
        result.merge(itr->second->snapshot());
"""),
    ("same", "C19", R, AGG, """    auto result = itr->second->snapshot();
    for (auto other = std::next(itr); other != metrics_.end(); ++other)
    {
        auto value = other->second->snapshot();
        result.merge(value);
    }
"""),
    ("same", "C19,C13,C27", R, "    for (auto& pair : metrics_)\n        handler(pair.first, *pair.second);", "    for (auto itr = metrics_.begin(); itr != metrics_.end(); ++itr)\n    {\n        const metric_path& path = itr->first;\n        basic_registered_metric* metric = itr->second.get();\n        handler(path, *metric);\n    }"),
    ("same", "C19,C28", S, "    void visit_hnd(const TSnapshot& ss)\n    {\n        overload_caller caller(visitor_);\n        caller(*this, ss);", "    void visit_hnd(const TSnapshot& ss)\n    {\n        overload_caller{visitor_}(*this, ss);"),
    ("same", "C28,C19", R, PRE, """    const auto need = builder.visitor_size();
    std::size_t room = need + alignof(std::max_align_t);
    void* ptr = alloca(room);
    std::align(alignof(std::max_align_t), need, ptr, room);
    auto loc = static_cast<snapshot_visitor*>(ptr);

"""),
    ("same", "C28,C19", R, PRE, """    std::unique_ptr<char[]> room(new char[builder.visitor_size()]);
    auto loc = reinterpret_cast<snapshot_visitor*>(room.get());

"""),
    ("same", "C28,C19", R, PRE, """    alignas(std::max_align_t) char buffer[512];
    if (builder.visitor_size() > sizeof(buffer)) throw std::bad_alloc();
    auto loc = reinterpret_cast<snapshot_visitor*>(buffer);

"""),
]
