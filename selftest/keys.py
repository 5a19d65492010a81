T = "cxxmetrics/tag_collection.hpp"
P = "cxxmetrics/metric_path.hpp"
V = "cxxmetrics/metric_value.hpp"
SUM = "            result += (h(p.first) * 397) ^ v(p.second);\n"
LOOP = """    for (const auto& p : tags_)
    {
        auto f = other.tags_.find(p.first);
        if (f == other.tags_.end() || f->second != p.second)
            return false;
    }

    return true;
"""
PEQ = """    if (paths_.size() != other.paths_.size())
        return false;

    for (std::size_t i = 0; i < paths_.size(); ++i)
    {
        if (paths_[i] != other.paths_[i])
            return false;
    }

    return true;
"""
TEQ = """    if (tags_.size() != other.tags_.size())
        return false;

""" + LOOP
PH = """            for (const auto& str : path)
                result = (result * 397) ^ h(str);
"""
EDITS = [
    ("bug", "C09", T, SUM, "            result = (result * 397) ^ (h(p.first) * 397) ^ v(p.second);\n"),
    ("bug", "C09", T, SUM, "            result = (result << 1) + ((h(p.first) * 397) ^ v(p.second));\n"),
    ("bug", "C09", T, SUM, "            result += (h(p.first) * 397) ^ v(p.second) ^ (result >> 7);\n"),
    ("bug", "C09", T, SUM, "            result += h(p.first) * 397 + reinterpret_cast<std::size_t>(&p.second);\n"),
    ("bug", "C09", T, SUM, "            result += std::hash<const void*>()(p.first.data()) ^ v(p.second);\n"),
    ("bug", "C09", T, SUM, "            if (result & 1)\n                result += (h(p.first) * 397) ^ v(p.second);\n            else\n                result ^= (h(p.first) * 397) ^ v(p.second);\n"),
    ("bug", "C09", T, "        std::size_t result = 0;\n", "        std::size_t result = 0;\n        std::size_t n = 0;\n", ) if False else
    ("bug", "C09", T, SUM, "            if (result == 0)\n                result = (h(p.first) * 397) ^ v(p.second);\n            else\n                result += h(p.first);\n"),
    ("bug", "C09", T, SUM, "        {\n            result += (h(p.first) * 397) ^ v(p.second);\n            if (result > (std::size_t(1) << 63))\n                break;\n        }\n"),
    ("bug", "C09", T, "            return false;\n    }\n\n    return true;", "            return false;\n        return true;\n    }\n\n    return true;"),
    ("bug", "C09", T, "    if (tags_.size() != other.tags_.size())\n        return false;\n\n", ""),
    ("bug", "C09", T, "    if (tags_.size() != other.tags_.size())\n        return false;\n\n", "    if (tags_.size() > other.tags_.size())\n        return false;\n\n"),
    ("bug", "C09", T, "f == other.tags_.end() || f->second != p.second", "f != other.tags_.end() && f->second != p.second"),
    ("bug", "C09", T, "f == other.tags_.end() || f->second != p.second", "f == other.tags_.end()"),
    ("bug", "C09", T, "f == other.tags_.end() || f->second != p.second", "f == other.tags_.end() || p.second != p.second"),
    ("bug", "C09", T, "return !operator==(other);", "return !operator==(other) && tags_.size() != other.tags_.size();"),
    ("bug", "C09", P, "        if (paths_[i] != other.paths_[i])\n", "        if (paths_[0] != other.paths_[0])\n"),
    ("bug", "C09", P, "    for (std::size_t i = 0; i < paths_.size(); ++i)\n    {\n        if (p", "    for (std::size_t i = 1; i < paths_.size(); ++i)\n    {\n        if (p"),
    ("bug", "C09", P, "    if (paths_.size() != other.paths_.size())\n        return false;\n", "    if (paths_.size() > other.paths_.size())\n        return false;\n"),
    ("bug", "C09", P, "    if (paths_.size() != other.paths_.size())\n        return false;\n", "    if (paths_.size() != other.paths_.size())\n        return join(\"/\") == other.join(\"/\");\n"),
    ("bug", "C09", P, PH, "            for (const auto& str : path)\n                result = (result * 397) ^ reinterpret_cast<std::size_t>(str.c_str());\n"),
    ("bug", "C09", P, PH, "            for (const auto& str : path)\n                result = (result * 397) ^ h(str) ^ str.capacity();\n"),
    ("bug", "C09", V, "std::hash<std::chrono::nanoseconds>()(std::chrono::duration_cast<std::chrono::nanoseconds>(dur_))", "std::hash<TRep>()(dur_.count())"),
    ("bug", "C09", V, "        return std::hash<T>()(val_);\n", "        return std::hash<T>()(val_) * sizeof(T);\n"),
    ("bug", "C09", V, "        return std::hash<T>()(val_);\n", "        return std::hash<typename std::make_unsigned<typename std::conditional<std::is_same<T, bool>::value, char, T>::type>::type>()(val_);\n"),
    ("bug", "C09", V, "        return std::hash<std::string>()(val_);\n", "        return std::hash<const char*>()(val_.c_str());\n"),
    # edits that keep it
    ("same", "C09", T, SUM, "            result ^= (h(p.first) * 31) + v(p.second);\n"),
    ("same", "C09", T, SUM, "        {\n            auto k = h(p.first);\n            k *= 397;\n            k ^= v(p.second);\n            k ^= k >> 13;\n            result += k;\n        }\n"),
    ("same", "C09", T, SUM + "\n        return result;\n", SUM + "\n        return result * 31 + 7;\n"),
    ("same", "C09", T, "        for (const auto& p : collection)\n" + SUM, "        for (auto it = collection.begin(); it != collection.end(); ++it)\n            result += (h(it->first) * 397) ^ v(it->second);\n"),
    ("same", "C09", T, "        for (const auto& p : collection)\n" + SUM, "        auto one = [&](const std::string& key, const cxxmetrics::metric_value& value) { return (h(key) * 397) ^ v(value); };\n        for (const auto& p : collection)\n            result += one(p.first, p.second);\n"),
    ("same", "C09", T, "        for (const auto& p : collection)\n" + SUM + "\n        return result;\n", "        return std::accumulate(collection.begin(), collection.end(), result, [&](std::size_t r, const auto& p) { return r + ((h(p.first) * 397) ^ v(p.second)); });\n", 0, "#include <unordered_map>\n", "#include <unordered_map>\n#include <numeric>\n") if False else
    ("same", "C09", T, SUM, "        {\n            if (p.first.empty())\n                continue;\n            result += (h(p.first) * 397) ^ v(p.second);\n        }\n"),
    ("same", "C09", T, TEQ, "    return tags_ == other.tags_;\n"),
    ("same", "C09", T, LOOP, """    for (auto it = other.tags_.begin(); it != other.tags_.end(); ++it)
    {
        const auto f = tags_.find(it->first);
        if (f == tags_.end())
            return false;
        if (!(f->second == it->second))
            return false;
    }

    return true;
"""),
    ("same", "C09", T, LOOP, """    for (const auto& p : tags_)
    {
        if (!other.tags_.count(p.first))
            return false;
        if (other.tags_.at(p.first) != p.second)
            return false;
    }

    return true;
"""),
    ("same", "C09", T, LOOP, """    bool result = true;
    for (const auto& p : tags_)
    {
        auto f = other.tags_.find(p.first);
        if (f == other.tags_.end() || f->second != p.second)
        {
            result = false;
            break;
        }
    }

    return result;
"""),
    ("same", "C09", T, LOOP, """    return std::all_of(tags_.begin(), tags_.end(), [&](const auto& p) {
        auto f = other.tags_.find(p.first);
        return f != other.tags_.end() && f->second == p.second;
    });
"""),
    ("same", "C09", P, PEQ, "    return paths_ == other.paths_;\n"),
    ("same", "C09", P, PEQ, "    return paths_.size() == other.paths_.size() && std::equal(paths_.begin(), paths_.end(), other.paths_.begin());\n"),
    ("same", "C09", P, PEQ, """    if (paths_.size() != other.paths_.size())
        return false;

    auto o = other.paths_.begin();
    for (auto it = paths_.begin(); it != paths_.end(); ++it, ++o)
    {
        if (!(*it == *o))
            return false;
    }

    return true;
"""),
    ("same", "C09", P, PEQ, """    const auto count = paths_.size();
    if (count != other.paths_.size())
        return false;

    std::size_t i = 0;
    while (i < count && paths_[i] == other.paths_[i])
        ++i;

    return i == count;
"""),
    ("same", "C09", P, PH, "            for (const auto& str : path)\n            {\n                result *= 397;\n                result ^= h(str);\n            }\n"),
    ("same", "C09", V, "        return std::hash<std::string>()(val_);\n", "        std::hash<std::string> h;\n        return h(to_string());\n"),
    ("same", "C09", P, "        if (paths_[i] != other.paths_[i])\n", "        const auto mine = paths_[i];\n        auto theirs = other.paths_[i];\n        if (mine != theirs)\n"),
]
