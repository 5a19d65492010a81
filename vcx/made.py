"""What a metric that is registered for the first time is made of, existing metrics taken over, and refusals (C34).

A path of the registry's operation is followed up to the call that asks the entry for the metric of a tag set, and from
there into the builder it hands to the entry (whose virtual function is found in the table the path stored), with the
memory of that moment.
"""
import re

from . import core, flow, reg, trace
from .facts import Facts
from .flow import isC
from .reg import callseq, copies, emptyslot, ptr, vcall, writer
from .registry import prop

MAKERS = ("std::make_shared", "std::allocate_shared", "std::make_unique")
BUILT = ("built",)


def before(t, n):
    """the stores a tracer had made when it reached its n-th event"""
    tag = "e%d" % (n + 1)
    for k, s in enumerate(t.stores):
        if s[0] == "havoc" and s[2] == tag:
            return list(t.stores[:k])
    return None


class View:
    """memory at a moment of a path"""

    def __init__(self, t, stores):
        self.t, self.stores = t, stores

    def load(self, a, size, ty):
        save, self.t.stores = self.t.stores, self.stores
        try:
            return self.t.load(a, size, ty)
        finally:
            self.t.stores = save


def goon(r, p, n, fn, argmap):
    """the paths of a function entered at the n-th event of a path"""
    t0 = p.t
    stores = before(t0, n)
    if stores is None:
        raise core.AnalysisError("cannot tell what memory holds when %s is called" % fn)

    class Cont(trace.Tracer):
        WRITES = trace.Tracer.WRITES + [(re.compile(r"^operator new"), ())]

        def __init__(self, f, world, am=None, **kw):
            super().__init__(f, world, am, **kw)
            if kw.get("parent") is None:
                self.stores = list(stores)
                self.ev = list(p.ev[:n + 1])
                self.ver = dict(t0.ver)
                self.ncall = [1000]
    try:
        return [q for q in trace.paths(r.mod.fns[fn], r.mod, cls=Cont, argmap=argmap, world=p.w.copy(), stable=True) if not Facts(q.w).infeasible()]
    except (flow.Unsupported, flow.TooBig) as e:
        raise core.AnalysisError("%s: %s" % (fn, e))


def slots(r, e):
    """(position of the builder in the arguments, slot) for the virtual calls entries make on what they are given"""
    out = set()
    for _, g in r.cands(e.i):
        role = r.roots.get(g)
        if not role:
            continue
        this = next(iter(role))
        for p in r.paths(g):
            for _, b in callseq(p):
                ind = (b.x or {}).get("ind")
                if not ind or ind[0] != "ld":
                    continue
                a = ptr(ind[1])
                v = a[1]
                if v[0] == "ld" and not a[3]:
                    o = ptr(v[1])
                    if o[1][0] == "arg" and o[1][1] > this and o[2] == 0:
                        out.add((o[1][1], a[2] // 8))
    return out


def builders(r, p, n, e):
    """the function of the builder an entry may call, with the builder's address"""
    stores = before(p.t, n)
    if stores is None:
        raise core.AnalysisError("cannot tell what memory holds when an entry is asked")
    view = View(p.t, stores)
    out = []
    for k, s in slots(r, e):
        b = ptr(e.args[k])
        v = view.load(b, 8, "ptr")
        v = ptr(v)
        if v[1][0] == "g" and v[1][1].startswith("_ZTV"):
            fns = r.vt.get(v[1][1][4:])
            if fns and s < len(fns) and fns[s]:
                out.append((fns[s], b))
    return out


def built(r, p, n, e, f):
    bs = builders(r, p, n, e)
    if len(bs) != 1:
        raise core.AnalysisError("%s: cannot tell which builder the entry is given (%d found)" % (f, len(bs)))
    fn, b = bs[0]
    if fn not in r.mod.fns:
        raise core.AnalysisError("%s: the builder has no body" % f)
    d = r.mod.fns[fn]
    am = {}
    for k, a in enumerate(d.args):
        am[k] = BUILT if isinstance(a, dict) and a.get("sret") else b
    if BUILT not in am.values() and len(d.args) == 2:
        am = {0: BUILT, 1: b}
    return fn, goon(r, p, n, fn, am)


def made(q, n):
    """where a builder makes a metric: (event index, what it is made of) or None"""
    for k in range(n + 1, len(q.ev)):
        e = q.ev[k]
        if e.kind == "call" and e.short in MAKERS:
            return k, list(e.args[1 if e.short != "std::allocate_shared" else 2:])
    return None


def fed(q, stores, a, src, depth=0):
    """whether the object at an address has the value of another"""
    a, src = ptr(a), ptr(src)
    if a == src:
        return True
    if a[1][0] != "alloca" or depth > 4:
        return False
    for e in q.ev:
        if e.kind == "call" and len(e.args) > 1 and ptr(e.args[0]) == a and not (e.x or {}).get("pure") and "~" not in e.name:
            if any(fed(q, stores, x, src, depth + 1) for x in e.args[1:]):
                return True
    for s in stores:
        if s[0] == "copy":
            if s[1][1] == a[1] and s[2] != "zero" and s[2][1] == src[1]:
                return True
        elif s[0] != "havoc" and s[0][1] == a[1] and mentions(s[2], src):
            return True
    return False


def puts(q, e, obj, src):
    """an event of a construction in place that takes something of the object it is made of (how it is put together is C04's)"""
    if e.kind in ("load", "rmw", "cas"):
        return e.addr is not None and e.addr[1] == src
    if e.kind in ("store", "copy"):
        return e.addr[1] == obj and mentions(e.val, src)
    return e.kind == "call" and bool(e.args) and ptr(e.args[0])[1] == obj and any(mentions(ptr(x), src) or fed(q, q.t.stores, x, src) for x in e.args[1:])


def mentions(t, src):
    if t == src or t == src[1]:
        return True
    return isinstance(t, tuple) and any(mentions(x, src) for x in t)


def tests(c, r, f, want):
    """rule: an entry's builder makes the metric of what was asked for"""
    seen = 0
    inplace = []
    for p in r.paths(f):
        reg.othertags(c, r, p, f, ("arg", 3))
        for n, e, k in reg.asks(r, p):
            fn, qs = built(r, p, n, e, f)
            for q in qs:
                m = made(q, n)
                if q.kind != "ret" and (m or q.kind != "back"):
                    continue
                if m is None:
                    nw = [x for x in q.ev[n + 1:] if x.kind == "call" and x.short.startswith("operator new")]
                    if not nw:
                        raise core.AnalysisError("%s: cannot tell how the metric is made" % f)
                    obj = nw[-1].res
                    for x in nw:
                        if any(y.kind in ("store", "copy") and y.addr[1] == x.res for y in q.ev):
                            obj = x.res
                    args = None
                else:
                    args = m[1]
                seen += 1
                st = (before(q.t, m[0]) if m else None) or list(q.t.stores)
                view = View(q.t, st)
                where = q.ev[m[0]].where() if m else e.where()
                src = ("arg", 4)
                if want is not None:
                    ty, size, val = want
                    if args is not None:
                        got = [view.load(ptr(a), size, ty) for a in args]
                        c.require(len(args) == 1 and got[0] == val, "starts:" + f, where, "a counter asked for without an initial value does not start at zero but at %s" % (", ".join(map(flow.show, got)) or "its own default"),
                                  detail="starts at zero")
                    else:
                        z = [y for y in q.ev if y.kind == "store" and y.addr[1] == obj and y.val == val and y.size == size]
                        c.require(bool(z), "starts:" + f, where, "a counter asked for without an initial value does not start at zero")
                    continue
                if args is None:
                    # constructed here: the pieces are put in place along several paths
                    inplace.append((where, any(puts(q, y, obj, src) for y in q.ev[n + 1:])))
                    continue
                ok = len(args) == 1 and (fed(q, st, args[0], src) or mentions(args[0], src))
                c.require(ok, "made of:" + f, where, "a new metric is not made of what was given for it but of %s" % (", ".join(map(flow.show, args or [])) or "nothing"), detail="made of what was given")
    if inplace:
        c.require(any(ok for _, ok in inplace), "made of:" + f, inplace[0][0], "a new metric is not made of what was given for it", detail="made of what was given")
    if not seen:
        raise core.AnalysisError("%s: no path on which a metric is made" % f)
    return seen


def setbool(t, cell, v):
    """a term with the value of a local flag put in"""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("ld",) and ptr(t[1]) == cell:
        return ("c", v, {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}.get(t[3], 8))
    return tuple(setbool(x, cell, v) for x in t)


def truth(t):
    """the value of a constant condition"""
    if isC(t):
        return t[1] & 1 if t[2] == 1 else t[1]
    if t[0] == "cmp" and t[1] == "i":
        a, b = truth(t[3]), truth(t[4])
        if a is not None and b is not None:
            w = next((x[2] for x in (t[3], t[4]) if isC(x)), 64)
            if t[2][0] == "s":
                a, b = (x - (1 << w) if x >> (w - 1) else x for x in (a, b))
            return int({"ne": a != b, "eq": a == b, "gt": a > b, "lt": a < b, "ge": a >= b, "le": a <= b}[t[2][-2:]])
    if t[0] == "op" and t[1] in ("zext", "trunc", "sext", "freeze"):
        return truth(t[3])
    if t[0] == "op" and t[1] == "and" and len(t) == 5:
        a, b = truth(t[3]), truth(t[4])
        return a & b if a is not None and b is not None else None
    if t[0] == "op" and t[1] == "xor" and len(t) == 5:
        a, b = truth(t[3]), truth(t[4])
        return a ^ b if a is not None and b is not None else None
    return None


def cells(t, out):
    if isinstance(t, tuple):
        if t[:1] == ("ld",) and ptr(t[1])[1][0] == "alloca":
            out.add((ptr(t[1]), t[2], t[3]))
            return
        for x in t:
            cells(x, out)


def source(q, a, upto):
    """where a smart pointer got its value, through locals"""
    cur, n = ptr(a), upto
    while n > 0:
        n -= 1
        e = q.ev[n]
        if e.kind != "call":
            continue
        cp = copies(e)
        if cp and cp[0] == cur:
            cur = cp[1]
    return cur


def cellsof(t):
    out = set()
    cells(t, out)
    return out


def put(t, vals):
    for cell, v in vals.items():
        t = setbool(t, cell, v)
    return t


def told(ret, v0, vals):
    """the answer of a path when the flags have given values"""
    return int(v0) if v0 is not None else truth(put(ret, vals))


def consistent(w, vals):
    """whether what a path found may hold when the flags have given values"""
    def has(t):
        return any(x[0] in vals for x in cellsof(t))
    for t, (slo, shi, ulo, uhi) in w.iv.items():
        if has(t):
            v = truth(put(t, vals))
            if v is not None and not (ulo <= v <= uhi):
                return False
    for t, no in w.ne.items():
        if has(t):
            v = truth(put(t, vals))
            if v is not None and v in no:
                return False
    for t, yes in w.bool.items():
        if has(t):
            x = t[1] if t[:1] == ("bool",) else t
            v = truth(put(x, vals))
            if v is not None and bool(v) != bool(yes):
                return False
    return True


def nothing(p, a):
    """whether a path found that the smart pointer at an address holds nothing"""
    if emptyslot(p, a) is True:
        return True
    return any(k[0] == "bool" and k[1][:1] == ("pc",) and k[1][1] in ("operator==", "operator!=") and v is (k[1][1] == "operator==") and {ptr(x) for x in k[1][2:4]} <= {ptr(a), ptr(flow.NULL)}
               and ptr(k[1][2]) == a for k, v in p.w.bool.items())


def compares(t, holds):
    """whether a term is a question to the metric given or the one handed out"""
    if not isinstance(t, tuple):
        return False
    if t[:1] == ("pc",) and t[1].startswith("operator") and any(ptr(x) in holds for x in t[2:] if isinstance(x, tuple)):
        return True
    return any(compares(x, holds) for x in t)


def existing(c, r, f):
    """rules for taking over an existing metric"""
    m = ("arg", 3)
    taken = null = 0
    for p in r.paths(f):
        holds = {ptr(m)}
        for _, e in callseq(p):
            cp = copies(e)
            if cp and cp[1] in holds:
                holds.add(cp[0])
        empty = {emptyslot(p, a) for a in holds}
        ch = reg.asks(r, p)
        reg.othertags(c, r, p, f, ("arg", 2))
        makes = [e for _, e in callseq(p) if e.short.split("::")[-1] in ("emplace", "try_emplace", "insert", "operator[]") and reg.MAPS.match(e.name) and (r.obj(p, e.args[0]) or "?")[0] == "R"]
        if True in empty:
            null += 1
            c.require(not ch and not makes, "null:" + f, (ch[0][1] if ch else makes[0] if makes else p.ev[-1]).where(), "there is no metric to register, and an entry is made or asked all the same")
            if p.kind == "ret":
                c.require(truth(p.ret) == 0, "null:" + f, p.ev[-1].where(), "there is no metric to register, and the answer is not false")
            continue
        if False not in empty:
            for _, e in callseq(p):
                if vcall(r, e) and any(within(x, h) for x in e.args for h in holds) and r.kindname(e.i.d["cls"][4:]) == "M":
                    c.bad("null:" + f, e.where(), "the metric is used without having found that there is one")
                    break
        for n, e, k in ch:
            if p.kind != "ret":
                continue
            given = {ptr(e.args[0])}
            for _, x in callseq(p):
                cp = copies(x)
                if cp and cp[1] in given:
                    given.add(cp[0])
            if any(nothing(p, a) for a in given):
                continue  # an entry always has a metric to hand out
            given |= holds
            taken += 1
            fn, qs = built(r, p, n, e, f)
            flags = set()
            cells((p.ret, tuple(p.w.iv), tuple(p.w.ne), tuple(p.w.bool), tuple(p.w.rel)), flags)
            v0 = truth(p.ret)
            if v0 is None:
                v0 = p.w.bool.get(("bool", p.ret))
            first = {}
            st = before(p.t, n)
            for cell, size, ty in flags:
                v = View(p.t, st).load(cell, size, ty)
                if isC(v):
                    first[cell] = v[1]
            if consistent(p.w, first):
                a = told(p.ret, v0, first)
                if a is None and not (set(x[0] for x in cellsof(p.ret)) - set(first)) and not compares(p.ret, given):
                    raise core.AnalysisError("%s: cannot tell what the answer depends on" % f)
                c.require(a == 0, "answer:" + f, e.where(), "the answer is not false when the entry has a metric for the tags already" if not compares(p.ret, given) else
                          "the answer is true when the entry has the very metric already, though nothing was taken over", detail="false when not taken over")
            for q in qs:
                if q.kind != "ret":
                    continue
                src = source(q, ("ptr", BUILT, 0, ()), len(q.ev))
                c.require(src == ptr(m), "taken:" + f, q.ev[-1].where() if q.ev[-1].i is not None else e.where(), "what is put into the entry is not the metric that was given but %s" % flow.show(src), detail="the metric given")
                then = {}
                for cell, size, ty in flags:
                    if cell in first:
                        v = View(q.t, q.t.stores).load(cell, size, ty)
                        if isC(v):
                            then[cell] = v[1]
                if consistent(p.w, then):
                    b = told(p.ret, v0, then)
                    if b is None and compares(p.ret, given):
                        continue
                    c.require(b == 1, "answer:" + f, e.where(), "the answer is not true when the metric was taken over", detail="true when taken over")
    c.require(null > 0, "null:" + f, f, "it is not looked whether there is a metric to register")
    if not taken:
        raise core.AnalysisError("%s: no path asks an entry" % f)
    return taken


def within(t, s):
    return t == s or isinstance(t, tuple) and any(within(x, s) for x in t)


def wholes(c, r):
    """a metric constructed over a reservoir has what was in it"""
    fs = sorted(f for f in r.drivers if f.startswith("hs_"))
    for f in fs:
        ps = r.paths(f)
        ok = any(puts(p, e, ("arg", 0), ("arg", 1)) for p in ps for e in p.ev)
        c.require(ok, "holds:" + f, f, "a metric made over a reservoir has nothing of the reservoir", detail="the reservoir's parts are put into the metric")
    return len(fs)


def refusals(c, r):
    """what a refusal reports"""
    off = {}
    for f in ("mm_existing", "mm_desired"):
        for p in r.paths(f):
            if p.kind != "ret":
                continue
            got = set()
            for _, e in callseq(p):
                for a in e.args:
                    a = ptr(a)
                    if a[1] == ("arg", 1):
                        got.add(a[2])
            if len(got) != 1:
                raise core.AnalysisError("%s: cannot tell what is reported" % f)
            off[f] = got.pop()
    if len(off) != 2:
        raise core.AnalysisError("the reports of a mismatch are not understood")
    N = reg.Names(r)
    tys = {}
    for f in r.drivers:
        if f.startswith("ty_"):
            for p in r.paths(f):
                tys[f[3:]] = N.of(f, p, ("arg", 0), len(p.ev))
    seen = 0
    for f in sorted(r.drivers):
        if not f.startswith(("in_", "in0_", "ix_")):
            continue
        want = tys.get(f.split("_")[1])
        if want is None:
            raise core.AnalysisError("%s: the requested type has no name that is understood" % f)
        for p in r.paths(f):
            for n, e in callseq(p):
                if e.name != "__cxa_throw" or "metric_type_mismatch" not in str(ptr(e.args[1])):
                    continue
                x = ptr(e.args[0])
                ex = N.of(f, p, ("ptr", x[1], x[2] + off["mm_existing"], ()), n)
                de = N.of(f, p, ("ptr", x[1], x[2] + off["mm_desired"], ()), n)
                if ex is None or de is None:
                    raise core.AnalysisError("%s: cannot tell what the refusal reports" % f)
                seen += 1
                c.require(ex[0] == "E", "existing:" + f, e.where(), "the refusal does not report the type of the registered metric as the existing one", detail="type of the entry")
                c.require(de == want, "desired:" + f, e.where(), "the refusal does not report the type that was asked for as the desired one", detail="type asked for")
    return seen


@prop("C34", technique="interprocedural path-sensitive provenance analysis of the arguments of a metric's construction, through the builder handed to the entry", level="sound-analysis",
      explains="for every way to ask a registry for a metric, each path up to the entry is continued into the builder it hands over, with the memory of that moment: what the metric is constructed from must be the object the caller gave "
               "(the constant zero for a counter without initial value); for existing metrics the object put into the entry, the answer with and without the builder having run, and the null test; for refusals the provenance of both type names",
      rule="the construction's argument is the caller's; the answer's flag is false before and true after the builder runs; null is refused before any use; the refusal's names are the entry's and the requested type's",
      assumptions=["std::make_shared constructs the object from the arguments it is given"])
def c34(c):
    r = reg.load("made.cpp", "in_,in0_,ix_,mm_,ty_,hs_")
    n = 0
    for f in sorted(r.drivers):
        if f.startswith("in_"):
            n += tests(c, r, f, None)
        elif f.startswith("in0_"):
            w = 32 if f.endswith("i") else 64
            n += tests(c, r, f, ("i%d" % w, w // 8, ("c", 0, w)))
    c.stats["constructions followed into the builder"] = n
    k = sum(existing(c, r, f) for f in sorted(r.drivers) if f.startswith("ix_"))
    c.stats["registrations of existing metrics"] = k
    m = refusals(c, r)
    c.stats["refusals"] = m
    h = wholes(c, r)
    c.expect(h, 4, "metrics over reservoirs")
    c.expect(n, 10, "constructions")
    c.expect(k, 2, "registrations of existing metrics")
    c.expect(m, 8, "refusals")
