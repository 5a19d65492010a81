// C18: the lock-free list; arg0 is the list
#include "common.hpp"
#include <cxxmetrics/internal/atomic_lifo.hpp>
using cxxmetrics::internal::atomic_lifo;
typedef atomic_lifo<int64_t> lst;
struct own_node
{
    int64_t v; own_node* n;
    own_node* next() const { return n; }
    void set_next(own_node* x) { n = x; }
};
typedef atomic_lifo<own_node, std::allocator<own_node>, true> lsto;
#define LIFO(N, T) \
    X void li_push_##N(T* l, T::pointer_type* p) { l->push(std::move(*p)); } \
    X void li_pop_##N(T* l, void* o) { new (o) T::pointer_type(l->pop()); } \
    X void li_move_##N(T* l, void* o) { new (o) T(std::move(*l)); } \
    X void li_destroy_##N(T* l) { l->~T(); }
LIFO(int, lst)
LIFO(own, lsto)
X void li_emplace_int(lst* l, int64_t v) { l->emplace(v); }
X void li_value_int(lst* l, int64_t v) { l->push(v); }
