"""Data races: which lock guards what in the registry, and what operations of one metric touch at once."""
import re

from . import core, policies
from .effects import accesses, resolve
from .reg import KN, MAPS, MUTATE, load, nm
from .registry import prop
from .snapshots import ptr

WRITERS = MUTATE | {"emplace", "insert", "try_emplace", "operator[]", "emplace_hint", "emplace_back", "push_back", "rehash", "reserve"}
CONSTM = re.compile(r"\) const(?: &)?$")


def locks_of(r, p, held, base):
    """the locks held that belong to the same object as base"""
    out = set()
    for l in held:
        q = r.cell(p, l)
        if q and sameobj(q[2], base):
            out.add(q[:2])
    return out


def sameobj(a, b):
    if a == b:
        return True
    if a[0] == "ld" and b[0] == "ld":
        return ptr(a[1])[2] == ptr(b[1])[2] and sameobj(ptr(a[1])[1], ptr(b[1])[1])
    return False


def registry_races(c):
    r = load()
    uses = {}       # container cell -> [(function, where, writes, locks)]
    fields = 0
    shared = {}
    for f in sorted(r.roots):
        if not r.mod.fns[f].follow or not (r.interesting(f) or f in r.drivers) or "~" in r.mod.fns[f].dem:
            continue
        for p in r.paths(f):
            for e, held in r.walk(p)[0]:
                if e.kind == "call" and MAPS.match(e.name) and e.args:
                    q = r.cell(p, e.args[0])
                    if q and q[0] in "RE":
                        m = e.short.split("::")[-1]
                        if m.startswith("~") or m == e.short.split("::")[-2]:
                            continue
                        uses.setdefault(q[:2], []).append((f, e.where(), m in WRITERS, locks_of(r, p, held, q[2])))
                        continue
                # following the links of a container, and changing its elements
                addr, wr = None, False
                if e.kind in ("load", "store", "rmw", "cas") and e.addr is not None:
                    addr, wr = ptr(e.addr), e.kind != "load"
                elif e.kind in ("copy", "set") and e.addr is not None:
                    addr, wr = ptr(e.addr), True
                elif e.kind == "call" and e.args and not (e.x and e.x.get("pure")) and e.short.split("::")[-1] in ("operator=", "reset", "swap", "release"):
                    addr, wr = ptr(e.args[0]), True
                if addr is None:
                    continue
                o = r.obj(p, addr)
                if o and o[0] in "EMO":
                    if wr:
                        fields += 1
                        if o[0] == "E" and locks_of(r, p, held, r.cell(p, addr)[2]):
                            continue
                        shared.setdefault(f, (e.where(), o[0]))
                    continue
                n = r.node(p, addr)
                if n is not None and (addr[2] == 0 or wr):
                    q = r.cell(p, n[0])
                    if q and q[0] in "RE":
                        uses.setdefault(q[:2], []).append((f, e.where(), wr, locks_of(r, p, held, q[2])))
                        continue
    for f, (w, k) in sorted(shared.items()):
        c.bad("unguarded-write:" + f, w, "%s changes %s that other threads may hold a reference to, with nothing that keeps them from reading it meanwhile" % (nm(r, f), KN[k]))
    for cell, us in sorted(uses.items(), key=repr):
        if not any(w for _, _, w, _ in us):
            continue
        tally = {}
        for u in us:
            for l in u[3]:
                tally[l] = tally.get(l, 0) + 1
        guard = max(tally, key=lambda l: (tally[l], repr(l))) if tally else None
        good = True
        for f, w, wr, ls in us:
            if guard not in ls:
                good = False
                c.bad("unguarded:%s" % f, w, "%s %s the container at offset %s of %s without %s" % (
                    nm(r, f), "changes" if wr else "reads", cell[1], KN[cell[0]], "the lock that guards it elsewhere (offset %s)" % guard[1] if guard else "any lock of that object"))
        if good:
            c.ok("guarded:%s+%s" % cell, "%d uses, %d changes, all under the lock at offset %s" % (len(us), sum(u[2] for u in us), guard[1]))
    c.expect(len(uses), 4, "shared containers")
    c.expect(sum(len(u) for u in uses.values()), 60, "uses of shared containers")


def touches(f, root=("arg", 0)):
    """[(inst, writes, atomic, offset, size, variable)] of what a function does to the object"""
    out = []
    for a in accesses(f):
        for x in a.addrs:
            if x.root == root:
                out.append((a.i, a.writes, a.atomic, x.off, a.size or 1, bool(x.vars)))
    for i in f.insts():
        if not i.is_call() or i.blk not in f.live():
            continue
        raw, name = i.callee_raw or "", i.callee or ""
        if raw.startswith(("llvm.", "__atomic_")):
            continue
        if not raw:
            continue      # virtual calls of the object: what they reach is looked at on its own
        ps = params(name)
        for k, o in enumerate(i.ops):
            if o.get("k") not in ("v", "a", "go"):
                continue
            for x in resolve(f, o):
                if x.root == root:
                    out.append((i, not readonly(name, ps, k, i), False, x.off, 1, bool(x.vars)))
    return out


def params(name):
    """the parameter types of a demangled function"""
    d, out, cur = 0, [], ""
    j = name.rfind(")")
    if j < 0:
        return []
    k, depth = j, 0
    while k >= 0:
        if name[k] == ")":
            depth += 1
        elif name[k] == "(":
            depth -= 1
            if not depth:
                break
        k -= 1
    for ch in name[k + 1:j]:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and not d:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def readonly(name, ps, k, i):
    """whether a function takes an argument as something constant"""
    n = len(i.ops)
    member = n > len(ps)
    if i.get("aro") and k < len(i.get("aro")) and i.get("aro")[k]:
        return True
    if member and k == n - len(ps) - 1:
        return bool(CONSTM.search(name))
    q = k - (n - len(ps))
    if 0 <= q < len(ps):
        return ps[q].endswith(("const&", "const*")) or not ps[q].endswith(("&", "*"))
    return False


def overlap(a, b):
    if a[5] or b[5]:
        return None
    return a[3] < b[3] + b[4] and b[3] < a[3] + a[4]


def metric_races(c):
    mod = core.normalise("race.cpp", "A", policies.A, prefix="cc_,ob_")
    cls = {}
    for n, f in mod.fns.items():
        if n.startswith(("cc_", "ob_")):
            cls.setdefault(n[3:].split("__")[0], {})[n] = f
    pairs = shared = 0
    for k, fs in sorted(cls.items()):
        ts = {n: touches(f) for n, f in fs.items()}
        # virtual calls on the object reach overriders with no state of their own beyond what the direct calls reach
        bad = {}
        names = sorted(fs)
        for x, a in enumerate(names):
            for b in names[x:]:
                for s in ts[a]:
                    for t in ts[b]:
                        if not (s[1] or t[1]):
                            continue
                        if s[5] or t[5]:
                            # an element of an array: the same array, when the constant parts are the same
                            if not arr(s, t):
                                continue
                        elif not overlap(s, t):
                            continue
                        pairs += 1
                        if s[2] and t[2]:
                            shared += 1
                            continue
                        w = "+".join(sorted({a.split("__")[1], b.split("__")[1]}))
                        bad.setdefault((w, ty(s) if not s[2] else ty(t)), (s if not s[2] else t, a, b))
        for (w, t), (s, a, b) in sorted(bad.items()):
            c.bad("race:%s:%s:%s" % (k, w, t), s[0].where(), "%s and %s of one %s touch the same memory (offset %d), one of them changing it, and not both atomically" % (a[3:].split("__")[1], b[3:].split("__")[1], k, s[3]))
        if not bad:
            c.ok("no race:" + k, "%d operations against each other" % len(fs))
    c.expect(len(cls), 13, "kinds of metrics")
    c.expect(shared, 100, "pairs of atomic accesses")
    c.stats["pairs of accesses"] = pairs


def arr(s, t):
    """whether an indexed access may meet another: indexed accesses of one array, or a constant place inside it"""
    if s[5] and t[5]:
        return s[3] == t[3]
    v, k = (s, t) if s[5] else (t, s)
    return k[3] == v[3]


def ty(s):
    i = s[0]
    if i.is_call():
        return "call:" + (i.callee or "").split("<")[0].split("(")[0].split(" ")[-1]
    v = i.ops[0] if i.op == "store" else None
    return str(i.get("vty") or i.get("ty") or "")[:20] + ":%s" % s[4]


@prop("C27", technique="lockset analysis of the registry and pairwise access-conflict analysis of metric operations over compiler IR", level="sound-analysis",
      explains="every use of every container of the registry and its entries, on all paths of all operations, with the locks of the same object held there; every memory access of every operation of every kind of metric and reservoir, against every access of every other operation of the same object",
      rule="each shared container has one lock of its own object that is held at every use; objects other threads can hold references to are not changed outside a lock; two operations on one object do not touch overlapping memory, one writing, unless both accesses are atomic",
      assumptions=["objects are constructed, destroyed, copied and assigned by one thread", "const member functions of the standard library only read", "user supplied functions and clocks are themselves safe to call concurrently"])
def c27(c):
    registry_races(c)
    metric_races(c)
