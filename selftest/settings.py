R = "cxxmetrics/metrics_registry.hpp"
P = "cxxmetrics/publisher_impl.hpp"
EDITS = [
    ("bug", "C20", P, "    if (!has_data_for<publish_options>(metric))\n        return registry_.publish_options();\n\n", ""),
    ("bug", "C20", P, "    if (!has_data_for<publish_options>(metric))\n", "    if (has_data_for<publish_options>(metric))\n"),
    ("bug", "C20", R, "    if (existing == nullptr)\n        return defaultopts;\n", "    if (existing == nullptr || true)\n        return defaultopts;\n"),
    ("bug", "C20", R, "    l->template get_or_create_publish_data<cxxmetrics::publish_options>() = std::move(options);", "    repo_.template get_publish_data<cxxmetrics::publish_options>() = std::move(options);"),
    ("bug", "C20", R, "        auto& ptr = pubdata_[key];", "        auto& ptr = pubdata_[type_];"),
    ("bug", "C20", R, "    if (fnd == data_.end())\n        return nullptr;", "    if (fnd == data_.end() || data_.size() > 1)\n        return nullptr;"),
    ("bug", "C20", R, "    auto l = try_get(path);\n    if (l == nullptr)\n        return;\n\n    l->template get_or", "    auto l = try_get(path);\n    if (l == nullptr || l->template try_get_publish_data<cxxmetrics::publish_options>() != nullptr)\n        return;\n\n    l->template get_or"),
    ("bug", "C20", R, "    repo_.template get_publish_data<cxxmetrics::publish_options>() = std::move(options);\n}", "    cxxmetrics::publish_options& o = repo_.template get_publish_data<cxxmetrics::publish_options>(std::move(options)); (void)o;\n}"),
    ("same", "C20,C27,C13", P, "    if (!has_data_for<publish_options>(metric))\n        return registry_.publish_options();\n", "    const bool own = has_data_for<publish_options>(metric);\n    if (!own)\n    {\n        return registry_.publish_options();\n    }\n"),
    ("same", "C20", R, "    auto existing = repo_.template get_publish_data<cxxmetrics::publish_options>();\n    if (existing == nullptr)\n        return defaultopts;\n\n    return *existing;", "    const auto* existing = repo_.template get_publish_data<cxxmetrics::publish_options>();\n    return existing ? *existing : defaultopts;"),
    ("same", "C20", R, "    if (l == nullptr)\n        return;\n\n    l->template get_or_create_publish_data<cxxmetrics::publish_options>() = std::move(options);", "    if (l != nullptr)\n    {\n        auto& own = l->template get_or_create_publish_data<cxxmetrics::publish_options>();\n        own = std::move(options);\n    }"),
    ("same", "C20,C27", R, "    auto key = typeid(TDataType).name();\n    auto& ptr = data_[key];", "    const std::string key(typeid(TDataType).name());\n    auto& ptr = data_[key];"),
    ("same", "C20,C27", R, "    auto key = typeid(TDataType).name();\n    auto fnd = data_.find(typeid(TDataType).name());\n    if (fnd == data_.end())\n        return nullptr;\n\n    return static_cast<TDataType*>(fnd->second.get());", "    auto fnd = data_.find(typeid(TDataType).name());\n    return fnd == data_.end() ? nullptr : static_cast<TDataType*>(fnd->second.get());"),
]
