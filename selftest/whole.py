"""C22: all the tags, all of the name"""
F = "cxxmetrics_prometheus/snapshot_writer.hpp"
T = "cxxmetrics/tag_collection.hpp"
L = "    for (++tag; tag != tags.end(); ++tag)\n    {\n        into << \",\";\n        format_tag_name(into, tag->first) << \"=\\\"\";\n        format_tag_value(into, tag->second) << \"\\\"\";\n    }\n"
H = "    auto tag = tags.begin();\n    if (tag == tags.end())\n        return into;\n\n    format_tag_name(into, tag->first);\n    into << \"=\\\"\";\n    format_tag_value(into, tag->second) << \"\\\"\";\n"
N = "    format_name_element(into, *elem);\n    for (++elem; elem != path.end(); ++elem)\n    {\n        into << ':';\n        format_name_element(into, *elem);\n    }\n"
S = "inline std::ostream& format_tags(std::ostream& into, const cxxmetrics::tag_collection& tags)\n{\n"
EDITS = [
    ("bug", "C22", T, "        return tags_.begin();", "        return tags_.end();"),
    ("bug", "C22", F, "        format_tag_value(into, tag->second) << \"\\\"\";\n    }", "        into << \"\\\"\";\n    }"),
    ("bug", "C22", F, "        format_tag_name(into, tag->first) << \"=\\\"\";\n        format_tag_value(into, tag->second)", "        format_tag_name(into, tags.begin()->first) << \"=\\\"\";\n        format_tag_value(into, tag->second)"),
    ("bug", "C22", F, L, L.replace("        into << \",\"", "        if (tag->first == \"quantile\")\n            continue;\n        into << \",\"")),
    ("bug", "C22", F, L, L.replace("        into << \",\"", "        if (tag->first == \"quantile\")\n            break;\n        into << \",\"")),
    ("bug", "C22", F, L, ""),
    ("bug", "C22", F, L, L.replace("        into << \",\"", "        if (++tag == tags.end())\n            break;\n        into << \",\"")),
    ("bug", "C22", F, "    if (tag == tags.end())\n        return into;\n", "    if (tag == tags.end() || tag->first.empty())\n        return into;\n"),
    ("bug", "C22", F, N, "    format_name_element(into, *elem);\n"),
    ("bug", "C22", F, N, N.replace("        into << ':'", "        if (elem->empty())\n            continue;\n        into << ':'")),
    ("bug", "C22", F, N, N.replace("        into << ':'", "        if (elem->empty())\n            break;\n        into << ':'")),
    ("bug", "C22", F, "    format_name_element(into, *elem);\n    for", "    for"),
    ("same", "C21,C22", F, H + L, "    bool first = true;\n    for (const auto& tag : tags)\n    {\n        if (!first)\n            into << \",\";\n        first = false;\n        format_tag_name(into, tag.first) << \"=\\\"\";\n        format_tag_value(into, tag.second) << \"\\\"\";\n    }\n"),
    ("same", "C21,C22", F, H + L, "    const char* sep = \"\";\n    for (auto tag = tags.begin(); tag != tags.end(); ++tag)\n    {\n        into << sep;\n        sep = \",\";\n        format_tag_name(into, tag->first) << \"=\\\"\";\n        format_tag_value(into, tag->second) << \"\\\"\";\n    }\n"),
    ("same", "C21,C22", F, H + L, "    auto tag = tags.begin();\n    if (tag == tags.end())\n        return into;\n    while (true)\n    {\n        format_tag_name(into, tag->first) << \"=\\\"\";\n        format_tag_value(into, tag->second) << \"\\\"\";\n        if (++tag == tags.end())\n            break;\n        into << \",\";\n    }\n"),
    ("same", "C21,C22", F, H + L, "    auto tag = tags.begin();\n    const auto end = tags.end();\n    if (tag != end)\n    {\n        do\n        {\n            if (tag != tags.begin())\n                into << \",\";\n            format_tag_name(into, tag->first) << \"=\\\"\";\n            format_tag_value(into, tag->second) << \"\\\"\";\n        } while (++tag != end);\n    }\n"),
    ("same", "C21,C22", F, S + H + L, "template<typename TPair>\nstd::ostream& format_tag(std::ostream& into, const TPair& tag)\n{\n    format_tag_name(into, tag.first) << \"=\\\"\";\n    return format_tag_value(into, tag.second) << \"\\\"\";\n}\n\n" + S + "    auto tag = tags.begin();\n    if (tag == tags.end())\n        return into;\n\n    format_tag(into, *tag);\n    for (++tag; tag != tags.end(); ++tag)\n        format_tag(into << \",\", *tag);\n"),
    ("same", "C21,C22", F, H + L, "    bool first = true;\n    for (const auto& tag : tags)\n    {\n        const std::string text = tag.second;\n        const auto& key = tag.first;\n        if (first)\n            first = false;\n        else\n            into << \",\";\n        format_tag_name(into, key) << \"=\\\"\";\n        format_tag_value(into, text) << \"\\\"\";\n    }\n"),
    ("same", "C21,C22", F, "        format_tag_value(into, tag->second) << \"\\\"\";\n    }", "        const std::string text = tag->second;\n        format_tag_value(into, text) << \"\\\"\";\n    }"),
    ("same", "C21,C22", F, N, "    while (true)\n    {\n        format_name_element(into, *elem);\n        if (++elem == path.end())\n            break;\n        into << ':';\n    }\n"),
    ("same", "C21,C22", F, N, "    format_name_element(into, *elem);\n    while (++elem != path.end())\n        format_name_element(into << ':', *elem);\n"),
    ("same", "C21,C22", F, N, "    bool first = true;\n    for (const auto& part : path)\n    {\n        if (!first)\n            into << ':';\n        first = false;\n        format_name_element(into, part);\n    }\n"),
    ("same", "C21,C22", F, N, "    format_name_element(into, *elem);\n    for (++elem; elem != path.end(); ++elem)\n    {\n        const std::string& part = *elem;\n        into << ':';\n        format_name_element(into, part);\n    }\n"),
    ("same", "C22", F, N, "    format_name_element(into, *elem);\n    std::for_each(std::next(elem), path.end(), [&into](const std::string& part) {\n        into << ':';\n        format_name_element(into, part);\n    });\n"),
]
EDITS += [
    ("bug", "C21", F, H + L, "    for (auto tag = tags.begin(); tag != tags.end(); ++tag)\n    {\n        if (tag == tags.begin())\n            into << \",\";\n        format_tag_name(into, tag->first) << \"=\\\"\";\n        format_tag_value(into, tag->second) << \"\\\"\";\n    }\n"),
    ("bug", "C21", F, H + L, "    bool first = true;\n    for (const auto& tag : tags)\n    {\n        if (first)\n            first = tag.first.empty();\n        else\n            into << \",\";\n        format_tag_name(into, tag.first) << \"=\\\"\";\n        format_tag_value(into, tag.second) << \"\\\"\";\n    }\n"),
    ("bug", "C21", F, H + L, "    bool first = false;\n    for (const auto& tag : tags)\n    {\n        if (first)\n            first = false;\n        else\n            into << \",\";\n        format_tag_name(into, tag.first) << \"=\\\"\";\n        format_tag_value(into, tag.second) << \"\\\"\";\n    }\n    into << '-';\n"),
    ("same", "C21,C22", F, H + L, "    for (auto tag = tags.begin(); tag != tags.end(); ++tag)\n    {\n        if (tag != tags.begin())\n            into << \",\";\n        format_tag_name(into, tag->first) << \"=\\\"\";\n        format_tag_value(into, tag->second) << \"\\\"\";\n    }\n"),
    ("same", "C21,C22", F, H + L, "    std::size_t n = 0;\n    for (const auto& tag : tags)\n    {\n        if (n++ > 0)\n            into << \",\";\n        format_tag_name(into, tag.first) << \"=\\\"\";\n        format_tag_value(into, tag.second) << \"\\\"\";\n    }\n"),
    ("same", "C21,C22", F, N, "    for (auto it = path.begin(); it != path.end(); ++it)\n    {\n        if (it != path.begin())\n            into << ':';\n        format_name_element(into, *it);\n    }\n"),
]
