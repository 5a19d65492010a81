V = "cxxmetrics/metric_value.hpp"
EDITS = [
    # comparisons
    ("bug", "C06", V, "        if (std::is_same<common, T>::value && std::is_unsigned<T>::value && other.to_float(nullptr) < 0)\n            return 1;\n", ""),
    ("bug", "C06", V, "return val_ < fv ? -1 : val_ == fv ? 0 : 1;", "return val_ < fv ? -1 : val_ - fv == 0 ? 0 : 1;", 2) if False else
    ("bug", "C06", V, "auto v = static_cast<common>(val_);\n        return v < lv ? -1 : v == lv ? 0 : 1;", "return static_cast<int>(static_cast<common>(val_) - lv);"),
    ("bug", "C06", V, "auto fv = static_cast<T>(other.to_float(&valid));", "auto fv = static_cast<float>(other.to_float(&valid));"),
    ("bug", "C06", V, "return result < 0 ? 1 : result > 0 ? -1 : 0;", "return -result < 0 ? -1 : result;"),
    ("bug", "C06", V, "auto v = std::chrono::duration_cast<std::chrono::nanoseconds>(dur_);", "auto v = std::chrono::duration_cast<std::chrono::microseconds>(dur_);"),
    ("bug", "C06", V, "return value_.compare(other.value_) >= 0;", "return value_.compare(other.value_) > 0;"),
    ("bug", "C06", V, "return val_.compare(other.to_string());", "return val_.compare(other.to_string().c_str());"),
    ("same", "C06,C09", V, "return val_.compare(other.to_string());", "const auto theirs = other.to_string();\n        return val_ < theirs ? -1 : theirs < val_ ? 1 : 0;"),
    ("same", "C06,C09", V, "auto v = static_cast<common>(val_);\n        return v < lv ? -1 : v == lv ? 0 : 1;", "const auto v = static_cast<common>(val_);\n        if (v == lv)\n            return 0;\n        return v > lv ? 1 : -1;"),
    ("same", "C06,C09", V, "            auto result = other.as<variant_data>()->compare(*as<variant_data>());\n            return result < 0 ? 1 : result > 0 ? -1 : 0;", "            const int r = other.as<variant_data>()->compare(*as<variant_data>());\n            return (r < 0) - (r > 0);"),
    ("same", "C06,C09", V, "        return v < n ? -1 : v == n ? 0 : 1;", "        if (v < n)\n            return -1;\n        return n < v;"),
    ("same", "C06,C09", V, "return value_.compare(other.value_) != 0;", "return !(*this == other);"),
    ("same", "C06,C09", V, "return value_.compare(other.value_) > 0;", "return other < *this;"),
    ("same", "C06,C09", V, "return value_.compare(other.value_) <= 0;", "return !(*this > other);"),
    # arithmetic
    ("bug", "C08", V, "else if (std::is_signed<T>::value && lv == -1) //", "else if (lv == -1) //"),
    ("bug", "C08", V, "        else if (lv == -1) // the smallest duration can't be divided by -1\n            negate();\n", ""),
    ("bug", "C08", V, "        if (valid && lv == fv)\n            dur_ *= lv;\n        else\n", "        if (valid)\n            dur_ *= lv;\n        else\n"),
    ("bug", "C08", V, "        else if (!valid || lv != fv)\n            dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(dur_.count() / fv));", "        else if (!valid)\n            dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(dur_.count() / fv));"),
    ("bug", "C08", V, "        if (!fv)\n            dur_ = dur_.zero();\n        else if", "        if (!lv)\n            dur_ = dur_.zero();\n        else if"),
    ("bug", "C08", V, "return (sizeof(T) * 20) + 2;", "return (sizeof(T) * 20);"),
    ("bug", "C08", V, "            return other.negate().uc_add(*this);", "            return negate().uc_add(other).negate();"),
    ("bug", "C08", V, "            return other.negate().uc_add(*this);", "            return other.uc_sub(*this);"),
    ("bug", "C08", V, "return static_cast<long long>(std::round(val_));", "return static_cast<long long>(val_);"),
    ("bug", "C08", V, "return static_cast<long long>(std::round(val_));", "return static_cast<long long>(val_ + 0.5);"),
    ("bug", "C08", V, "        if (!end || *end)\n        {\n            *valid = false;\n            return std::numeric", "        if (!end || end == val_.c_str())\n        {\n            *valid = false;\n            return std::numeric"),
    ("bug", "C08", V, "        auto res = strtoull(val_.c_str(), &end, 10);", "        auto res = strtoull(val_.c_str(), &end, 0);"),
    ("bug", "C08", V, "        if (lvalid)\n            return std::chrono::nanoseconds(lv);", "        if (lvalid)\n            return std::chrono::microseconds(lv);"),
    ("bug", "C08", V, "dur_ -= std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(n);", "dur_ -= std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(n.count()));"),
    ("bug", "C08", V, "value_ = (value_.subtract(other.value_));", "value_ = (other.value_.subtract(value_)).negate();"),
    ("same", "C08", V, "value_ = (value_.add(other.value_));\n        return *this;", "return *this = *this + other;"),
    ("same", "C08", V, "return metric_value(value_.divide(other.value_));", "metric_value result(*this);\n        result /= other;\n        return result;"),
    ("same", "C08", V, "        if (valid)\n            val_ += lv;\n        else\n        {\n            auto fv = other.to_float(&valid);\n            if (valid)\n                val_ += fv;\n        }", "        if (valid)\n        {\n            val_ = static_cast<T>(val_ + lv);\n            return;\n        }\n\n        const long double fv = other.to_float(&valid);\n        if (!valid)\n            return;\n        val_ = static_cast<T>(val_ + fv);"),
    ("same", "C08", V, "        if (valid)\n            val_ -= lv;\n        else\n        {\n            auto fv = other.to_float(&valid);\n            if (valid)\n                val_ -= fv;\n        }", "        if (!valid)\n        {\n            auto fv = other.to_float(&valid);\n            if (valid)\n                val_ -= fv;\n            return;\n        }\n        val_ -= lv;"),
    ("same", "C08", V, "            if (!fv)\n                val_ = 0;\n            else\n                val_ /= fv;\n        }\n    }\n\n    void divide_into", "            val_ = fv == 0 ? T(0) : static_cast<T>(val_ / fv);\n        }\n    }\n\n    void divide_into", 1),
    ("same", "C08", V, "                val_ = static_cast<T>(~static_cast<unsigned long long>(val_) + 1);", "                val_ = static_cast<T>(0 - static_cast<unsigned long long>(val_));"),
    ("same", "C08", V, "        if (valid && lv == fv)\n            dur_ *= lv;\n        else\n            dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(dur_.count() * fv));", "        const bool whole = valid && fv == lv;\n        if (!whole)\n        {\n            dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(fv * dur_.count()));\n            return;\n        }\n\n        dur_ = dur_ * lv;"),
    ("same", "C08", V, "        char* end = nullptr;\n        auto res = strtold(val_.c_str(), &end);\n        if (!end || *end)\n        {\n            *valid = false;\n            return std::numeric_limits<long double>::quiet_NaN();\n        }\n        *valid = true;\n        return res;", "        char* end = nullptr;\n        const auto res = strtold(val_.c_str(), &end);\n        *valid = end && !*end;\n        return *valid ? res : std::numeric_limits<long double>::quiet_NaN();"),
    ("same", "C08,C06,C07", V, "        if (!val_.length())\n        {\n            *valid = false;\n            return 0;\n        }", "        if (val_.empty())\n        {\n            *valid = false;\n            return 0;\n        }"),
    ("same", "C08,C06,C07,C09", V, "    variant_data_holder uc_add(const variant_data_holder& other) const\n    {\n        variant_data_holder result(as<variant_data>());\n        result.as<variant_data>()->add(*other.as<variant_data>());\n\n        return result;", "    variant_data_holder uc_add(const variant_data_holder& other) const\n    {\n        variant_data_holder result(*this);\n        auto& data = *result.as<variant_data>();\n        data.add(*other.as<variant_data>());\n        return result;"),
    ("same", "C08,C06,C07,C09", V, "    variant_data_holder add(const variant_data_holder& other) const\n    {\n        if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())\n", "    bool narrower(const variant_data_holder& other) const\n    {\n        return as<variant_data>()->type_score() < other.as<variant_data>()->type_score();\n    }\n\n    variant_data_holder add(const variant_data_holder& other) const\n    {\n        if (narrower(other))\n"),
]
