"""Observations do not change what they observe."""
import re

from . import core, policies
from .classes import FLAGS, Classes
from .effects import accesses, resolve
from .races import params, readonly
from .registry import prop


LOOK = re.compile(r"::(operator\[\]|at|begin|end|cbegin|cend|data|front|back|find|get|operator->|operator\*|rbegin|rend)(\(|$)")
READS = re.compile(r"^(void |bool |[\w:<>,*& ]* )?std::(copy|find|find_if|accumulate|equal|for_each|count|distance|all_of|any_of|none_of|lower_bound|upper_bound|min_element|max_element|is_sorted|advance|next|prev)\b|operator(==|!=|-|<)")


def through(f, root, args, depth=0):
    """whether memory with this root belongs to the observed object: it, or what it points to"""
    if root in args:
        return True
    if root[0] == "load" and depth < 8:
        return any(through(f, a.root, args, depth + 1) for a in resolve(f, f.byid[root[1]].ops[0]))
    if root[0] == "call" and depth < 8:
        i = f.byid[root[1]]
        if LOOK.search(name_of(i)) and i.ops:
            return any(through(f, a.root, args, depth + 1) for a in resolve(f, i.ops[0]))
    if root[0] == "phi" and depth < 8:
        return any(through(f, a.root, args, depth + 1) for v, _ in f.byid[root[1]].get("phi") for a in resolve(f, v) if a.root != root)
    return False


def name_of(i):
    return re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", i.callee or "")))))


def changes(mod, cls, f, args, seen, tally):
    """[(inst, what)] of what a function may change of the objects its arguments (roots) name"""
    key = (f.name, frozenset(args))
    if key in seen:
        return []
    seen.add(key)
    out = []
    views = set()
    guards = any(i.is_call() and (i.callee_raw or "") == "__cxa_guard_acquire" for i in f.insts())
    for a in accesses(f):
        tally["accesses"] = tally.get("accesses", 0) + 1
        if not a.writes:
            continue
        for x in a.addrs:
            if through(f, x.root, args):
                out.append((a.i, "writes"))
                break
            if x.root[0] == "global" and not guards:
                out.append((a.i, "writes the static object %s" % x.root[1]))
                break
    for i in f.insts():
        if not i.is_call() or i.blk not in f.live():
            continue
        raw, name = i.callee_raw or "", i.callee or ""
        if not raw:
            hit = {k for k, o in enumerate(i.ops) if o.get("k") in ("v", "a", "go", "g") for x in resolve(f, o) if through(f, x.root, args)}
            for _, g in (cls.cands(i) or []) if hit else []:
                if g in mod.fns:
                    tally["virtual targets"] = tally.get("virtual targets", 0) + 1
                    out += changes(mod, cls, mod.fns[g], {("arg", k) for k in hit}, seen, tally)
            continue
        if raw.startswith(("llvm.", "__atomic_", "__cxa_")) or raw.endswith("_probe"):
            continue
        ps = params(name)
        hit = {}
        if views and not READS.search(name) and not name.startswith("std::reverse_iterator"):
            if any(x.root in views for o in i.ops if o.get("k") in ("v", "a") for x in resolve(f, o)):
                out.append((i, "hands changeable elements of it to %s, which may change" % name[:90]))
        for k, o in enumerate(i.ops):
            if o.get("k") in ("v", "a", "go", "g"):
                for x in resolve(f, o):
                    if through(f, x.root, args):
                        hit[k] = o
        if not hit:
            continue
        tally["calls"] = tally.get("calls", 0) + 1
        g = mod.fns.get(raw)
        if g is not None and g.follow:
            for j, w in changes(mod, cls, g, {("arg", k) for k in hit}, seen, tally):
                out.append((j, w))
            continue
        for k in hit:
            o = i.ops[k]
            v = o["k"] == "v" and f.byid[o["i"]].ty not in ("ptr",) and not str(f.byid[o["i"]].ty).endswith("*")
            if v:
                continue
            if LOOK.search(name_of(i)):
                # a view handed back through memory of the caller
                if k == 1 and len(i.ops) == 2 and not re.search(r"const_reverse_iterator|const$", name):
                    views |= {x.root for x in resolve(f, i.ops[0]) if x.root[0] == "alloca"}
                continue
            q = k - (len(i.ops) - len(ps))
            if readonly(name, ps, k, i) and 0 <= q < len(ps) and re.match(r"__gnu_cxx::__normal_iterator<(?!.* const\*,)", ps[q]) and not READS.search(name):
                out.append((i, "hands changeable elements of it to %s, which may change" % name[:90]))
                break
            if not readonly(name, ps, k, i):
                out.append((i, "hands it to %s, which may change it," % name[:90]))
                break
    return out


@prop("C14", technique="interprocedural effect analysis (compiler IR)", level="sound-analysis",
      explains="every const observation of every kind of metric, reservoir, snapshot, metric value, tag collection, path and kind of publish options, with the functions it reaches",
      rule="no instruction reachable from the observation writes memory of the observed object, memory it points to, or a static object, and library functions get it only as something constant",
      assumptions=["const member functions of the standard library do not change what later calls return", "user supplied gauge functions are outside"])
def c14(c):
    mod = core.normalise("observe.cpp", "A", policies.A, flags=FLAGS, prefix="ob_")
    cls = Classes(mod)
    n, tally = 0, {}
    for name in sorted(x for x in mod.fns if x.startswith("ob_")):
        f = mod.fns[name]
        n += 1
        bad = changes(mod, cls, f, {("arg", 0)}, set(), tally)
        for i, w in bad[:3]:
            c.bad("changed:" + name, i.where(), "%s %s the object it observes" % (name[3:].replace("__", ": "), w) if "static" not in w else "%s %s" % (name[3:], w))
        if not bad:
            c.ok("unchanged:" + name)
    c.expect(n, 70, "observations")
    c.count("memory accesses", tally.get("accesses", 0))
    c.expect(tally.get("virtual targets", 0), 20, "virtual functions that get the object")
    c.count("calls with the object", tally.get("calls", 0))
