"""Checks of the operations on atomic cells: counts, pending sums, windows."""
from . import core
from .effects import accesses, cas_success_edges, const, deps, path_counts
from .policies import A, S
from .registry import prop


def strip(fn, v):
    """the value behind casts that keep its bits"""
    while v["k"] == "v":
        i = fn.byid[v["i"]]
        if i.op in ("bitcast", "freeze", "ptrtoint", "inttoptr"):
            v = i.ops[0]
        else:
            break
    return v


def same(a, b):
    if a["k"] != b["k"]:
        return False
    k = a["k"]
    if k in ("v", "a"):
        return a["i"] == b["i"]
    if k == "c":
        return a["v"] == b["v"]
    return a == b


def linear(fn, v, w, depth=0):
    """(constant, {leaf: factor}) of an integer value modulo 2^w"""
    v = strip(fn, v)
    c = const(v)
    if c is not None:
        return c % (1 << w), {}
    if v["k"] == "v" and depth < 20:
        i = fn.byid[v["i"]]
        if i.op in ("add", "sub"):
            a, b = linear(fn, i.ops[0], w, depth + 1), linear(fn, i.ops[1], w, depth + 1)
            s = 1 if i.op == "add" else -1
            r = dict(a[1])
            for k, x in b[1].items():
                r[k] = (r.get(k, 0) + s * x) % (1 << w)
            return (a[0] + s * b[0]) % (1 << w), {k: x for k, x in r.items() if x}
        if i.op in ("mul", "shl") and const(i.ops[1]) is not None:
            a = linear(fn, i.ops[0], w, depth + 1)
            f = const(i.ops[1]) if i.op == "mul" else 1 << const(i.ops[1])
            return a[0] * f % (1 << w), {k: x * f % (1 << w) for k, x in a[1].items()}
        if i.op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fpext", "fptrunc"):
            a = linear(fn, i.ops[0], w, depth + 1)
            if not a[0] and len(a[1]) == 1 and list(a[1].values()) == [1]:
                return a
        return 0, {("v", i.id): 1}
    if v["k"] == "a":
        return 0, {("arg", v["i"]): 1}
    return 0, {(v["k"], str(v.get("n", v.get("v")))): 1}


def delta(fn, acc):
    """what a read-modify-write adds to its cell: linear form, or None when it is not an addition"""
    w = 64
    i = acc.i
    if acc.kind == "rmw":
        op = i.get("rmw")
        if op in ("add", "fadd"):
            return linear(fn, i.ops[1], w)
        if op in ("sub", "fsub"):
            c, r = linear(fn, i.ops[1], w)
            return -c % (1 << w), {k: -x % (1 << w) for k, x in r.items()}
        return None
    if acc.kind == "cas" and i.op == "cmpxchg":
        exp, new = strip(fn, i.ops[1]), strip(fn, i.ops[2])
        if new["k"] == "v":
            n = fn.byid[new["i"]]
            if n.op in ("fadd",):
                for a, b in ((0, 1), (1, 0)):
                    if same(strip(fn, n.ops[a]), exp):
                        return linear(fn, n.ops[b], w)
                return None
        ce, le = linear(fn, exp, w)
        cn, ln = linear(fn, new, w)
        r = dict(ln)
        for k, x in le.items():
            r[k] = (r.get(k, 0) - x) % (1 << w)
        if any(k in le for k, x in r.items() if x):
            return None
        return (cn - ce) % (1 << w), {k: x for k, x in r.items() if x}
    return None


def show_delta(d):
    if d is None:
        return "no addition"
    t = ["%s%s" % ("" if x == 1 else "-" if x == 2 ** 64 - 1 else "%d*" % x, "%s%s" % k) for k, x in d[1].items()]
    if d[0] or not t:
        t.append(str(d[0] if d[0] < 2 ** 63 else d[0] - 2 ** 64))
    return "+".join(t)


def cell_accesses(fn, cell):
    return [a for a in accesses(fn) if any(x.root == cell[0] and not x.vars and x.off == cell[1] for x in a.addrs)]


def exactly_once(c, key, fn, cell, want, what, ret=False, bits=64):
    """every path adds `want` to the cell in one indivisible step, and writes it in no other way"""
    acc = cell_accesses(fn, cell)
    mods = [a for a in acc if a.kind in ("rmw", "cas")]
    bad = False
    weight, edges = {}, {}
    feeding = set()
    for a in mods:
        d = norm(delta(fn, a), bits)
        if d != want:
            c.bad(key, a.i.where(), "%s: the step adds %s, not %s" % (what, show_delta(d), show_delta(want)))
            bad = True
        if a.kind == "cas":
            feeding |= deps(fn, a.i.ops[1])[0] if a.i.op == "cmpxchg" else set()
            s, _ = cas_success_edges(fn, a.i)
            for e in s:
                edges[e] = edges.get(e, 0) + 1
            if not s:
                c.bad(key, a.i.where(), "%s: it is not tested whether the exchange took place" % what)
                bad = True
        else:
            weight[a.i.id] = 1
    for a in acc:
        if a.kind in ("store", "copyto", "set"):
            c.bad(key, a.i.where(), "%s: the cell is written other than by an indivisible addition" % what)
            bad = True
        if a.kind == "load" and not a.atomic:
            c.bad(key, a.i.where(), "%s: the cell is read other than atomically" % what)
            bad = True
    if not mods and not bad:
        c.bad(key, core.origin(fn), "%s: the count is not changed" % what)
        return
    cnt = path_counts(fn, lambda i: weight.get(i.id, 0), lambda b, s: edges.get((b, s), 0))
    for e, (lo, hi) in cnt.items():
        if lo != 1 or hi != 1:
            c.bad(key, fn.byid[e].where(), "%s: paths to this exit change the count %s times" % (what, lo if lo == hi else "%d to %d" % (lo, hi)))
            bad = True
    if not cnt:
        c.bad(key, core.origin(fn), "%s: does not return" % what)
        bad = True
    if ret:
        for i in fn.insts():
            if i.op == "ret" and i.ops:
                ds, _ = deps(fn, i.ops[0])
                for a in acc:
                    if a.kind == "load" and a.i.id in ds and a.i.id not in feeding:
                        c.bad(key, a.i.where(), "%s: the returned value is read in a step of its own" % what)
                        bad = True
    if not bad:
        c.ok(key, "%s: one %s adding %s" % (what, "/".join(sorted({a.kind for a in mods})), show_delta(want)))


ONE, MONE = (1, {}), (2 ** 64 - 1, {})


def norm(d, bits):
    if d is None:
        return None
    m = (1 << bits) - 1
    return (d[0] & m, {k: x & m for k, x in d[1].items()})


@prop("C01", level="proof", technique="value-flow normal forms and effect analysis over compiler IR",
      rule="sequential: drv_X has the normal form of ref_X; effects: on every path from entry to return of each counting operation the "
           "count's cell is changed by exactly one atomic read-modify-write (or successful exchange) adding the requested amount, is "
           "written in no other way, and a returned value does not come from a separate read",
      explains="all operators of counter (five integral types), histogram::update and meter::mark; the count cells are those the "
               "public readers load",
      assumptions=["std::atomic is implemented correctly"])
def c01(c):
    m = core.normalise("counter.cpp", "S", S)
    n = core.spec_pairs(c, m, nan=False)
    c.expect(n, 75, "counter results compared")
    m = core.normalise("counter.cpp", "A", A, prefix="rmw_,rd_")
    k = 0
    for f in sorted(m.roots("rmw_"), key=lambda f: f.name):
        op, rd = f.name[4:].split("_")[0], m.fns.get("rd_" + f.name[4:].split("_")[-1])
        if rd is None:
            raise core.AnalysisError("no reader for " + f.name)
        loads = [a for a in accesses(rd) if a.kind == "load" and a.on(("arg", 0))]
        cells = sorted({x.cell() for a in loads for x in a.addrs if x.cell() and x.root == ("arg", 0)})
        bits = (loads[0].size or 8) * 8 if loads else 64
        if op == "mark":
            # the total: the cell the mean is computed from whose change depends on the marked amount
            cells = [x for x in cells if any(w.writes and any(("arg", 1) == z for z in [("arg", y) for y in deps(f, w.val)[1]])
                                             for w in cell_accesses(f, x) if w.val is not None)]
        if len(cells) != 1:
            if op == "mark" and not cells:
                c.bad(f.name[4:], core.origin(f), "marking does not change what the mean is computed from")
                continue
            raise core.AnalysisError("%s: the count is not one cell: %s" % (rd.name, cells))
        k += 1
        for a in loads:
            if not a.atomic:
                c.bad(f.name[4:] + ":read", a.i.where(), "the count is read other than atomically")
        want = {"incr": (0, {("arg", 1): 1}), "pre": ONE, "post": ONE, "dec": MONE, "pluseq": (0, {("arg", 1): 1}),
                "minuseq": (0, {("arg", 1): 2 ** 64 - 1}), "hist": ONE, "mark": (0, {("arg", 1): 1}), "mark1": ONE}[op]
        exactly_once(c, f.name[4:], f, cells[0], norm(want, bits), f.name[4:], op in ("incr", "post"), bits)
    c.expect(k, 21, "counting operations")

