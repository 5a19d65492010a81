I = "cxxmetrics/publisher_impl.hpp"
R = "cxxmetrics/metrics_registry.hpp"
HAS = "    return registry_.try_get(path) != nullptr;"
HASD = "    if (res == nullptr)\n        return false;\n\n    return has_data_for<TDataType>(*res);"
HASE = "    return metric.template try_get_publish_data<TDataType>() != nullptr;"
GETP = "    if (res == nullptr)\n        return nullptr;\n\n    return &get_data_for<TDataType>(*res, std::forward<TBuildArgs>(args)...);"
ONE = "    if (res == nullptr)\n        return;\n\n    handler(path, *res);"
GOC = """        auto key = typeid(TDataType).name();
        auto& ptr = pubdata_[key];

        if (!ptr)
            ptr = std::make_unique<TDataType>(std::forward<TConstructArgs>(args)...);

        return static_cast<TDataType&>(*ptr);"""
ROC = """    auto key = typeid(TDataType).name();
    auto& ptr = data_[key];

    if (!ptr)
        ptr = std::make_unique<TDataType>(std::forward<TConstructArgs>(args)...);

    return static_cast<TDataType&>(*ptr);"""
TRY = """        auto fnd = pubdata_.find(typeid(TDataType).name());
        if (fnd == pubdata_.end())
            return nullptr;

        return static_cast<TDataType*>(fnd->second.get());"""
GET = """    auto existing = metrics_.find(name);

    if (existing == metrics_.end())
        return nullptr;

    return existing->second.get();"""
ALL = "C35,C20,C10,C12,C13"
EDITS = [
    ("bug", "C35", I, HAS, "    return registry_.try_get(path) == nullptr;"),
    ("bug", "C35", I, HAS, "    registry_.try_get(path);\n    return true;"),
    ("bug", "C35", I, HASD, HASD.replace("has_data_for<TDataType>(*res)", "true")),
    ("bug", "C35", I, HASD, HASD.replace("return false", "return true")),
    ("bug", "C35", I, HASE, HASE.replace("!=", "==")),
    ("bug", "C35", I, "    return registry_.template get_publish_data<TDataType>(std::forward<TBuildArgs>(args)...);", "    return registry_.template get_publish_data<TDataType>(std::forward<TBuildArgs>(args)...) = TDataType(std::forward<TBuildArgs>(args)...);"),
    ("bug", "C35", I, GETP, GETP.replace("get_data_for<TDataType>(*res, ", "get_data<TDataType>(")),
    ("bug", "C35", I, GETP, "    if (res == nullptr || !has_data_for<TDataType>(*res))\n        return nullptr;\n" + GETP[GETP.index("\n    return &"):]),
    ("bug", "C35", I, ONE, ONE.replace("handler(path, *res)", "handler(metric_path(path.join(\"/\")), *res)")),
    ("bug", "C35", I, ONE, ONE + "\n    handler(path, *res);"),
    ("bug", "C35", I, ONE, "    if (res != nullptr && has_data_for<publish_options>(*res))\n        handler(path, *res);"),
    ("bug", "C35", R, GOC, GOC.replace("if (!ptr)", "if (ptr)")),
    ("bug", "C35", R, GOC, GOC.replace("        if (!ptr)\n    ", "    ")),
    ("bug", "C35,C20", R, GOC, GOC.replace("typeid(TDataType)", "typeid(basic_publish_options)")),
    ("bug", "C35", R, ROC, ROC.replace("typeid(TDataType)", "typeid(basic_publish_options)")),
    ("bug", "C35,C20", R, TRY, TRY.replace("typeid(TDataType)", "typeid(TDataType*)")),
    ("bug", "C35", R, TRY, TRY.replace("return nullptr", "return static_cast<TDataType*>(pubdata_.begin()->second.get())")),
    ("bug", "C35", R, GET, GET.replace("return nullptr", "return metrics_.empty() ? nullptr : metrics_.begin()->second.get()")),
    ("same", ALL, I, HAS, "    auto found = registry_.try_get(path);\n    return found ? true : false;"),
    ("same", ALL, I, HAS, "    if (registry_.try_get(path))\n        return true;\n    return false;"),
    ("same", ALL, I, HASD, "    return res && has_data_for<TDataType>(*res);"),
    ("same", ALL, I, HASE, "    auto data = metric.template try_get_publish_data<TDataType>();\n    return data;"),
    ("same", ALL, I, GETP, "    if (res != nullptr)\n        return &get_data_for<TDataType>(*res, std::forward<TBuildArgs>(args)...);\n    return nullptr;"),
    ("same", ALL, I, GETP, "    return res ? &get_data_for<TDataType>(*res, std::forward<TBuildArgs>(args)...) : nullptr;"),
    ("same", ALL, I, ONE, "    if (res)\n    {\n        basic_registered_metric& m = *res;\n        handler(path, m);\n    }"),
    ("same", ALL, R, GOC, """        const std::string key = typeid(TDataType).name();
        auto found = pubdata_.find(key);
        if (found == pubdata_.end())
            found = pubdata_.emplace(key, std::make_unique<TDataType>(std::forward<TConstructArgs>(args)...)).first;
        return static_cast<TDataType&>(*found->second);"""),
    ("same", ALL, R, GOC, """        std::unique_ptr<basic_publish_options>& slot = pubdata_[typeid(TDataType).name()];
        if (slot.get() == nullptr)
            slot.reset(new TDataType(std::forward<TConstructArgs>(args)...));
        return *static_cast<TDataType*>(slot.get());"""),
    ("same", ALL, R, GOC, """        auto& ptr = pubdata_[typeid(TDataType).name()];
        if (ptr == nullptr)
        {
            auto made = std::make_unique<TDataType>(std::forward<TConstructArgs>(args)...);
            ptr = std::move(made);
        }
        return static_cast<TDataType&>(*ptr);"""),
    ("same", ALL, R, ROC, """    const std::string key = typeid(TDataType).name();
    auto found = data_.find(key);
    if (found == data_.end())
        found = data_.emplace(key, std::make_unique<TDataType>(std::forward<TConstructArgs>(args)...)).first;
    return static_cast<TDataType&>(*found->second);"""),
    ("same", ALL, R, TRY, """        auto fnd = pubdata_.find(typeid(TDataType).name());
        return fnd != pubdata_.end() ? static_cast<TDataType*>(fnd->second.get()) : nullptr;"""),
    ("same", ALL, R, TRY, """        const std::string key(typeid(TDataType).name());
        if (pubdata_.count(key) == 0)
            return nullptr;
        return static_cast<TDataType*>(pubdata_.find(key)->second.get());"""),
    ("same", ALL, R, GET, """    auto existing = metrics_.find(name);
    basic_registered_metric* found = nullptr;
    if (existing != metrics_.end())
        found = existing->second.get();
    return found;"""),
    ("same", ALL, R, GET, """    if (metrics_.count(name) == 0)
        return nullptr;
    return metrics_.at(name).get();"""),
]
