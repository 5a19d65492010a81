H = "cxxmetrics/metric_value.hpp"
EDITS = [
    ("bug", "C07", H, "        if (this == &other)\n            return *this;\n\n        as<variant_data>()->~variant_data();\n", "        as<variant_data>()->~variant_data();\n"),
    ("bug", "C07", H, "            return *this;\n\n        as<variant_data>()->~variant_data();\n", "            return *this;\n\n"),
    ("bug", "C07", H, "        as<variant_data>()->~variant_data();\n        other.as<variant_data>()->move(std::addressof(v));\n", "        other.as<variant_data>()->move(std::addressof(v));\n"),
    ("bug", "C07", H, "    virtual ~variant_data() = default;", "    ~variant_data() = default;"),
    ("bug", "C07", H, "    ~variant_data_holder()\n    {\n        as<variant_data>()->~variant_data();\n    }", "    ~variant_data_holder()\n    {\n        if (as<variant_data>()->type_score() != 1)\n            as<variant_data>()->~variant_data();\n    }"),
    ("bug", "C07", H, "    ~variant_data_holder()\n    {\n        as<variant_data>()->~variant_data();\n    }", "    ~variant_data_holder()\n    {\n        delete as<variant_data>();\n    }"),
    ("bug", "C07", H, "             string_variant_data,\n             duration_variant_data<long long", "             duration_variant_data<long long"),
    ("bug", "C07", H, "    std::aligned_union<sizeof(std::max_align_t),\n             integral_variant_data<long long>,\n             float_variant_data<long double>,\n             string_variant_data,\n             duration_variant_data<long long, typename std::chrono::nanoseconds::period>\n    >::type v;",
     "    std::aligned_storage<sizeof(string_variant_data), alignof(string_variant_data)>::type v;"),
    ("bug", "C07", H, "        new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(val_);\n", "        new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(std::move(const_cast<std::string&>(val_)));\n"),
    ("bug", "C07", H, "        new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(std::move(val_));\n", "        __builtin_memcpy(into, this, sizeof(*this));\n"),
    ("bug", "C07", H, "        new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(std::move(val_));\n", "        new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(val_.c_str());\n"),
    ("bug", "C07", H, "        new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(std::move(val_));\n", "        new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(std::move(val_));\n        val_.~basic_string();\n"),
    ("bug", "C07", H, "        new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(std::move(val_));\n", "        if (!val_.empty())\n            new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(std::move(val_));\n"),
    ("bug", "C07", H, "new (reinterpret_cast<float_variant_data<T>*>(into)) float_variant_data<T>(val_);", "new (reinterpret_cast<float_variant_data<double>*>(into)) float_variant_data<double>(val_);"),
    ("bug", "C07", H, "new (reinterpret_cast<integral_variant_data<T>*>(into)) integral_variant_data<T>(val_);", "new (reinterpret_cast<integral_variant_data<int>*>(into)) integral_variant_data<int>(val_);"),
    ("bug", "C07", H, "        from.as<variant_data>()->copy(std::addressof(v));\n", "        v = from.v;\n"),
    ("bug", "C07", H, "    variant_data_holder(variant_data_holder&& from)\n    {\n        from.as<variant_data>()->move(std::addressof(v));\n", "    variant_data_holder(variant_data_holder&& from)\n    {\n        from.as<variant_data>()->move(std::addressof(v));\n        from.as<variant_data>()->~variant_data();\n"),
    ("bug", "C07", H, "    variant_data_holder(const variant_data_holder& from)\n    {\n        from.as<variant_data>()->copy(std::addressof(v));\n", "    variant_data_holder(const variant_data_holder& from)\n    {\n        const_cast<variant_data_holder&>(from).as<variant_data>()->move(std::addressof(v));\n"),
    ("bug", "C07", H, "        variant_data_holder result(as<variant_data>());\n        result.as<variant_data>()->negate();\n\n        return result;\n", "        new (const_cast<variant_data_holder*>(this)) variant_data_holder(as<variant_data>());\n        variant_data_holder result(as<variant_data>());\n        result.as<variant_data>()->negate();\n\n        return result;\n"),
    ("bug", "C07", H, "        value_ = (value_.add(other.value_));\n        return *this;\n", "        value_.~variant_data_holder();\n        new (&value_) internal::variant_data_holder(value_.add(other.value_));\n        return *this;\n"),
    ("bug", "C07", H, "        value_ = (value_.add(other.value_));\n        return *this;\n", "        auto r = value_.add(other.value_);\n        new (&value_) internal::variant_data_holder(std::move(r));\n        return *this;\n"),
    # assignments that keep it
    ("same", "C07", H, "        if (this == &other)\n            return *this;\n\n        as<variant_data>()->~variant_data();\n        other.as<variant_data>()->move(std::addressof(v));\n        return *this;\n",
     "        if (this != std::addressof(other))\n        {\n            this->~variant_data_holder();\n            new (this) variant_data_holder(std::move(other));\n        }\n        return *this;\n"),
    ("same", "C07", H, "        if (this == &other)\n            return *this;\n\n        as<variant_data>()->~variant_data();\n        other.as<variant_data>()->move(std::addressof(v));\n        return *this;\n",
     "        variant_data_holder t(std::move(other));\n        as<variant_data>()->~variant_data();\n        t.as<variant_data>()->move(std::addressof(v));\n        return *this;\n"),
    ("same", "C07", H, "new (reinterpret_cast<integral_variant_data<T>*>(into)) integral_variant_data<T>(val_);", "new (into) integral_variant_data<T>(*this);"),
    ("same", "C07", H, "        new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(val_);\n", "        new (into) string_variant_data(*this);\n"),
    ("same", "C07", H, "        new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(std::move(val_));\n", "        auto* self = this;\n        ::new (into) string_variant_data(std::move(*self));\n"),
    ("same", "C07", H, "    string_variant_data(std::string value) :\n            val_(std::move(value))\n    { }", "    string_variant_data(const std::string& value) :\n            val_(value)\n    { }\n    string_variant_data(std::string&& value) :\n            val_(std::move(value))\n    { }\n    string_variant_data(const char* value) :\n            val_(value)\n    { }"),
    ("same", "C07", H, "        variant_data_holder result(as<variant_data>());\n        result.as<variant_data>()->negate();\n\n        return result;\n", "        variant_data_holder result(*this);\n        auto& v = *result.as<variant_data>();\n        v.negate();\n        return result;\n"),
    ("same", "C07", H, "        value_ = (value_.add(other.value_));\n        return *this;\n", "        return *this = *this + other;\n"),
    ("same", "C07", H, "    variant_data_holder uc_add(const variant_data_holder& other) const\n    {\n        variant_data_holder result(as<variant_data>());\n        result.as<variant_data>()->add(*other.as<variant_data>());\n\n        return result;\n    }",
     "    template<typename F>\n    variant_data_holder with(const F& f) const\n    {\n        variant_data_holder result(as<variant_data>());\n        f(*result.as<variant_data>());\n        return result;\n    }\n\n    variant_data_holder uc_add(const variant_data_holder& other) const\n    {\n        return with([&](variant_data& d) { d.add(*other.as<variant_data>()); });\n    }"),
    ("same", "C07", H, "    metric_value(metric_value&& other) :\n            value_(std::move(other.value_))\n    { }", "    metric_value(metric_value&& other) = default;"),
    ("same", "C07", H, "    ~variant_data_holder()\n    {\n        as<variant_data>()->~variant_data();\n    }", "    void clear()\n    {\n        as<variant_data>()->~variant_data();\n    }\n\n    ~variant_data_holder()\n    {\n        clear();\n    }"),
    ("same", "C07", H, "        string_variant_data negated(other.to_string());\n        negated.negate();\n        add(negated);\n", "        {\n            string_variant_data negated(other.to_string());\n            negated.negate();\n            val_ += negated.val_;\n        }\n"),
    ("same", "C07", H, "            val_ = std::to_string(-lv);\n            return;\n", "            std::string text = std::to_string(-lv);\n            val_.swap(text);\n            return;\n"),
]
