L = "cxxmetrics/internal/atomic_lifo.hpp"
PUSH = """                while (true)
                {
                    next.aba = h.aba + 1;
                    list_node_traits<node>::set_next_of(*next.nodev, h.nodev);
                    if (head_.compare_exchange_weak(h, next, std::memory_order_release, std::memory_order_relaxed)) {
                        break;
                    }
                }
"""
POP = """                while (h.nodev)
                {
                    next.aba = h.aba + 1;
                    next.nodev = list_node_traits<node>::next_of(*h.nodev);
                    if (head_.compare_exchange_weak(h, next, std::memory_order_acq_rel, std::memory_order_acquire)) {
                        break;
                    }
                }
"""
PCAS = "head_.compare_exchange_weak(h, next, std::memory_order_release, std::memory_order_relaxed)"
SET = "                    list_node_traits<node>::set_next_of(*next.nodev, h.nodev);\n"
EDITS = [
    ("bug", "C18", (L, SET, ""), (L, "                while (true)\n", SET + "                while (true)\n")),
    ("bug", "C18", L, PCAS, PCAS.replace("std::memory_order_release", "std::memory_order_relaxed")),
    ("bug", "C18", L, "                auto h = head_.load(std::memory_order_acquire);", "                auto h = head_.load(std::memory_order_relaxed);"),
    ("bug", "C18", L, "std::memory_order_acq_rel, std::memory_order_acquire", "std::memory_order_acq_rel, std::memory_order_relaxed"),
    ("bug", "C18", L, "next.aba = h.aba + 1;", "next.aba = h.aba;"),
    ("bug", "C18", L, PUSH, PUSH.replace("                    next.aba = h.aba + 1;\n", "")),
    ("bug", "C18", L, POP, POP.replace("                    next.aba = h.aba + 1;\n", "")),
    ("bug", "C18", L, POP, POP.replace("next.nodev = list_node_traits<node>::next_of(*h.nodev);", "").replace("                while (h", "                if (h.nodev) next.nodev = list_node_traits<node>::next_of(*h.nodev);\n                while (h")),
    ("bug", "C18", L, "return pointer_type(h.nodev, alloc_);", "return pointer_type(next.nodev, alloc_);"),
    ("bug", "C18", L, PUSH, "                list_node_traits<node>::set_next_of(*next.nodev, h.nodev);\n                next.aba = h.aba + 1;\n                head_.store(next);\n"),
    ("bug", "C18", L, PUSH, PUSH.replace("                        break;", "                        list_node_traits<node>::set_next_of(*next.nodev, h.nodev); break;")),
    ("bug", "C18", L, PUSH, PUSH.replace("while (true)", "for (int tries = 0; tries < 64; ++tries)")),
    ("bug", "C18", L, "next.aba = h.aba + 1;\n                    list", "next.aba = h.aba - 1;\n                    list"),
    ("same", "C18", L, PUSH, """                do
                {
                    list_node_traits<node>::set_next_of(*n, h.nodev);
                    next.aba = 1 + h.aba;
                } while (!head_.compare_exchange_strong(h, next));
"""),
    ("same", "C18", L, PUSH, """                for (;;)
                {
                    auto was = h;
                    next.aba = was.aba + 1;
                    list_node_traits<node>::set_next_of(*n, was.nodev);
                    if (head_.compare_exchange_weak(was, next, std::memory_order_acq_rel, std::memory_order_relaxed))
                        return;
                    h = head_.load(std::memory_order_relaxed);
                }
"""),
    ("same", "C18", L, POP, """                while (true)
                {
                    if (!h.nodev)
                        return pointer_type(nullptr, alloc_);
                    next.nodev = list_node_traits<node>::next_of(*h.nodev);
                    next.aba = h.aba + 1;
                    if (head_.compare_exchange_strong(h, next))
                        return pointer_type(h.nodev, alloc_);
                }
"""),
    ("same", "C18", L, POP, POP.replace("next.aba = h.aba + 1;", "next.aba = h.aba;")),
    ("same", "C18", (L, "next.aba = h.aba + 1;\n                    next.nodev = list_node_traits<node>::next_of(*h.nodev);", "next = after(h);"), (L, "            allocator_type alloc_;\n            std", "            static head_t after(const head_t& h)\n            {\n                head_t r(list_node_traits<node>::next_of(*h.nodev));\n                r.aba = h.aba + 1;\n                return r;\n            }\n            allocator_type alloc_;\n            std")),
]
