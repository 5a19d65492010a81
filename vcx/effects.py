"""Effects of normalised functions: where an address points, what is written, what dominates what."""
import re

PUREPTR = ("bitcast", "addrspacecast", "freeze")


class Addr:
    __slots__ = ("root", "off", "vars")

    def __init__(self, root, off, vars_):
        self.root, self.off, self.vars = root, off, vars_

    def __repr__(self):
        return "%s+%s%s" % (self.root, self.off, "".join("+%s*[%s]" % (s, r) for _, s, r in self.vars))

    def cell(self):
        return (self.root, self.off) if not self.vars else None


def resolve(fn, v, seen=None):
    """the addresses a pointer value can have: list of Addr (through phi and select, several)"""
    seen = seen or set()
    k = v["k"]
    if k == "a":
        return [Addr(("arg", v["i"]), 0, [])]
    if k == "g":
        return [Addr(("global", v["n"]), 0, [])]
    if k == "go":
        return [Addr(a.root, a.off + v["o"], a.vars) for a in resolve(fn, v["b"], seen)]
    if k == "n":
        return [Addr(("null",), 0, [])]
    if k != "v":
        return [Addr(("other", k), 0, [])]
    i = fn.byid[v["i"]]
    if i.op == "getelementptr" and "base" in i.d:
        out = []
        for a in resolve(fn, i.d["base"], seen):
            vs = [(x["v"], x["s"], x.get("rng")) for x in i.d["idx"]]
            out.append(Addr(a.root, a.off + i.d["off"], a.vars + vs))
        return out
    if i.op in PUREPTR:
        return resolve(fn, i.ops[0], seen)
    if i.op in ("phi", "select"):
        if i.id in seen:
            return []
        seen = seen | {i.id}
        vals = [p[0] for p in i.d["phi"]] if i.op == "phi" else i.ops[1:]
        out = []
        for x in vals:
            out += resolve(fn, x, seen)
        # a phi that walks through memory is a root of its own
        if any(a.vars or True for a in out) and i.op == "phi" and fn.in_cycle(i.blk) and _selfref(fn, i):
            return [Addr(("phi", i.id), 0, [])]
        return out or [Addr(("phi", i.id), 0, [])]
    if i.op == "alloca":
        return [Addr(("alloca", i.id), 0, [])]
    if i.op == "load":
        return [Addr(("load", i.id), 0, [])]
    if i.is_call():
        return [Addr(("call", i.id), 0, [])]
    return [Addr((i.op, i.id), 0, [])]


def _selfref(fn, phi):
    work, seen = [p[0] for p in phi.d["phi"]], set()
    while work:
        v = work.pop()
        if v["k"] != "v" or v["i"] in seen:
            continue
        if v["i"] == phi.id:
            return True
        seen.add(v["i"])
        i = fn.byid[v["i"]]
        if i.op == "getelementptr" and "base" in i.d:
            work.append(i.d["base"])
        elif i.op == "phi":
            work += [p[0] for p in i.d["phi"]]
        elif i.op == "select":
            work += i.ops[1:]
    return False


ORD = {"unordered": 0, "monotonic": 1, "acquire": 2, "release": 2, "acq_rel": 3, "seq_cst": 4}


def acquires(o):
    return o in ("acquire", "acq_rel", "seq_cst")


def releases(o):
    return o in ("release", "acq_rel", "seq_cst")


class Access:
    """a memory access"""
    __slots__ = ("i", "kind", "addrs", "size", "ord", "ford", "val")

    def __init__(self, i, kind, addrs, size, ord_=None, val=None, ford=None):
        self.i, self.kind, self.addrs, self.size, self.ord, self.val, self.ford = i, kind, addrs, size, ord_, val, ford

    @property
    def atomic(self):
        return self.ord is not None

    @property
    def writes(self):
        return self.kind in ("store", "rmw", "cas", "copyto", "set")

    def on(self, root):
        return any(a.root == root for a in self.addrs)

    def __repr__(self):
        return "%s %s%s %s" % (self.kind, self.addrs, " " + self.ord if self.ord else "", self.i.where())


MO = {0: "monotonic", 1: "acquire", 2: "acquire", 3: "release", 4: "acq_rel", 5: "seq_cst"}


def const(v):
    if v["k"] == "c":
        return int(v["v"])
    return None


def accesses(fn):
    out = []
    for i in fn.insts():
        if i.blk not in fn.live():
            continue
        if i.op == "load":
            out.append(Access(i, "load", resolve(fn, i.ops[0]), i.get("size"), i.get("ord")))
        elif i.op == "store":
            out.append(Access(i, "store", resolve(fn, i.ops[1]), i.get("size"), i.get("ord"), i.ops[0]))
        elif i.op == "atomicrmw":
            out.append(Access(i, "rmw", resolve(fn, i.ops[0]), i.get("size"), i.get("ord"), i.ops[1]))
        elif i.op == "cmpxchg":
            out.append(Access(i, "cas", resolve(fn, i.ops[0]), i.get("size"), i.get("ord"), i.ops[2], i.get("ford")))
        elif i.is_call():
            r = i.callee_raw or ""
            if r.startswith(("llvm.memcpy", "llvm.memmove")):
                n = const(i.ops[2])
                out.append(Access(i, "copyto", resolve(fn, i.ops[0]), n, None, None))
                out.append(Access(i, "copyfrom", resolve(fn, i.ops[1]), n, None, None))
            elif r.startswith("llvm.memset"):
                out.append(Access(i, "set", resolve(fn, i.ops[0]), const(i.ops[2]), None, i.ops[1]))
            elif r == "__atomic_load":
                out.append(Access(i, "load", resolve(fn, i.ops[1]), const(i.ops[0]), MO.get(const(i.ops[3]), "monotonic")))
            elif r == "__atomic_store":
                out.append(Access(i, "store", resolve(fn, i.ops[1]), const(i.ops[0]), MO.get(const(i.ops[3]), "monotonic"), i.ops[2]))
            elif r.startswith("__atomic_load_"):
                out.append(Access(i, "load", resolve(fn, i.ops[0]), int(r[14:]), MO.get(const(i.ops[1]), "monotonic")))
            elif r.startswith("__atomic_store_"):
                out.append(Access(i, "store", resolve(fn, i.ops[0]), int(r[15:]), MO.get(const(i.ops[2]), "monotonic"), i.ops[1]))
            elif r.startswith("__atomic_compare_exchange"):
                out.append(Access(i, "cas", resolve(fn, i.ops[1 if r == "__atomic_compare_exchange" else 0]), None, "seq_cst"))
            elif r.startswith("__atomic_exchange"):
                out.append(Access(i, "rmw", resolve(fn, i.ops[1 if r == "__atomic_exchange" else 0]), None, "seq_cst"))
    return out


def deps(fn, v, through_loads=True, stop=()):
    """ids of the instructions a value depends on (data flow; through memory only for local variables)"""
    out = set()
    args = set()
    work = [v]
    while work:
        x = work.pop()
        if x["k"] == "a":
            args.add(x["i"])
            continue
        if x["k"] in ("ce", "ca"):
            work += x["ops"]
            continue
        if x["k"] == "go":
            work.append(x["b"])
            continue
        if x["k"] != "v" or x["i"] in out:
            continue
        out.add(x["i"])
        i = fn.byid[x["i"]]
        if i.id in stop:
            continue
        if i.op == "phi":
            work += [p[0] for p in i.d["phi"]]
        elif i.op == "getelementptr":
            work.append(i.d["base"])
            work += [z["v"] for z in i.d["idx"]]
        elif i.op == "load":
            work += i.ops
            if through_loads:
                for a in resolve(fn, i.ops[0]):
                    if a.root[0] == "alloca":
                        for w in fn.insts():
                            if w.op == "store" and any(b.root == a.root for b in resolve(fn, w.ops[1])):
                                work.append(w.ops[0])
                            elif w.is_call() and (w.callee_raw or "").startswith(("llvm.memcpy", "llvm.memmove")) and any(b.root == a.root for b in resolve(fn, w.ops[0])):
                                work.append(w.ops[1])
                                for b in resolve(fn, w.ops[1]):
                                    if b.root[0] == "load":
                                        work.append({"k": "v", "i": b.root[1]})
                            elif w.is_call() and not (w.callee_raw or "").startswith("llvm.") and any(b.root == a.root for o in w.ops if o["k"] in "vago" for b in resolve(fn, o)):
                                out.add(w.id)
                                work += [o for o in w.ops if o["k"] != "md"]
        else:
            work += [o for o in i.ops if o["k"] not in ("md", "b")]
    return out, args


def cas_success_edges(fn, cas):
    """edges (from, to) taken only when the exchange succeeded, and those taken only when it failed"""
    succ, fail = [], []
    ok = {}     # value id -> truth meaning success
    if cas.op == "cmpxchg":
        for i in fn.insts():
            if i.op == "extractvalue" and i.ops[0].get("i") == cas.id and i.ops[0]["k"] == "v" and i.get("ix") == [1]:
                ok[i.id] = True
    else:
        ok[cas.id] = True
    ch = True
    while ch:
        ch = False
        for i in fn.insts():
            if i.id in ok:
                continue
            if i.op == "xor" and any(o["k"] == "v" and o["i"] in ok for o in i.ops) and any(const(o) in (1, -1) for o in i.ops if o["k"] == "c"):
                src = next(o["i"] for o in i.ops if o["k"] == "v")
                ok[i.id] = not ok[src]
                ch = True
            if i.op in ("zext", "trunc", "freeze") and i.ops[0]["k"] == "v" and i.ops[0]["i"] in ok:
                ok[i.id] = ok[i.ops[0]["i"]]
                ch = True
            if i.op == "icmp" and i.ops[0]["k"] == "v" and i.ops[0]["i"] in ok and i.ops[1]["k"] == "c":
                z = const(i.ops[1]) == 0
                eq = i.get("pred") == "eq"
                ok[i.id] = ok[i.ops[0]["i"]] if (z != eq) else not ok[i.ops[0]["i"]]
                ch = True
    for b, blk in enumerate(fn.blocks):
        t = blk[-1] if blk else None
        if t is not None and t.op == "br" and t.get("cond") and t.get("cond")["k"] == "v" and t.get("cond")["i"] in ok:
            tr = ok[t.get("cond")["i"]]
            s = t.get("succ")
            (succ if tr else fail).append((b, s[0]))
            (fail if tr else succ).append((b, s[1]))
    return succ, fail


def path_counts(fn, inst_weight, edge_weight=None, cap=3, kinds=("ret",), start=None):
    """minimum and maximum number of weighted events on the paths from entry to each exit.

    inst_weight(inst) -> int, edge_weight(b, s) -> int.  Returns {exit inst id: (min, max)} with max capped."""
    edge_weight = edge_weight or (lambda b, s: 0)
    INF = 10 ** 6
    lo = {0: 0} if start is None else {start: 0}
    hi = dict(lo)
    wb = [sum(inst_weight(i) for i in b) for b in fn.blocks]
    changed = True
    n = 0
    while changed and n < 5000:
        changed = False
        n += 1
        for b in sorted(fn.live()):
            if b not in lo:
                continue
            for s in fn.succ[b]:
                # an unwinding call has not had its effect
                w = wb[b] + edge_weight(b, s)
                t = fn.blocks[b][-1]
                if t.op == "invoke" and s == t.get("unw") and s != t.get("norm"):
                    w -= inst_weight(t)
                l, h = lo[b] + w, min(cap, hi[b] + w)
                if s not in lo or l < lo[s]:
                    lo[s] = l
                    changed = True
                if s not in hi or h > hi[s]:
                    hi[s] = h
                    changed = True
    out = {}
    for b, blk in enumerate(fn.blocks):
        if b in lo and blk and blk[-1].op in kinds:
            out[blk[-1].id] = (lo[b] + wb[b], min(cap, hi[b] + wb[b]))
    return out


def members(mod, cls_re):
    """[(class, member, offset, size)] of the repository classes whose name matches"""
    r = re.compile(cls_re)
    out = []
    for t in mod.types:
        if r.search(t["name"]):
            for m in t["m"]:
                out.append((t["name"], m["n"], m["o"], m["s"]))
    return out
