"""Snapshots: order and bounds of the values of a reservoir snapshot, merging."""
import re

from . import core, flow, trace
from .facts import Facts
from .flow import C, isC
from .policies import AV
from .registry import prop

VEC = re.compile(r"std::vector<.*>::")
METHOD = re.compile(r"::(~?\w+|operator(?:\[\]|=|\+=))$")


def method(e):
    """the method name of a call of a member of a library container"""
    s = e.short
    return s.split("::")[-1]


def isvec(e):
    return e.kind == "call" and e.short.startswith("std::vector::")


def targs(name):
    """the template arguments of a function name"""
    k = name.find("<")
    if k < 0:
        return []
    d, out, cur = 0, [], ""
    while k < len(name):
        ch = name[k]
        if ch in "<({":
            d += 1
            if d == 1:
                k += 1
                continue
        elif ch in ">)}" and name[k - 1] != "-":
            d -= 1
            if d == 0:
                break
        if ch == "," and d == 1:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
        k += 1
    return out + [cur.strip()]


def ptr(t):
    return t if t[0] == "ptr" else ("ptr", t, 0, ())


def rootvec(t, elem=None):
    """(vector, index term parts) a pointer or iterator into a vector refers to: (vector ptr, base, offset, variables)"""
    p = ptr(t)
    b = p[1]
    if b[0] != "pc" or b[1] not in ("begin", "cbegin", "data", "operator[]", "front", "back", "end", "cend", "at", "rbegin", "rend"):
        return None
    return ptr(b[2]), b, p[2], p[3]


def elem_index(t, esize):
    """the index of the element a pointer into a vector refers to, as a term"""
    r = rootvec(t)
    if r is None:
        return None
    v, b, off, vs = r
    ver = b[-1]
    size = ("pc", "size", b[2], ver)
    if b[1] in ("begin", "cbegin", "data", "front"):
        base = C(0, 64)
    elif b[1] in ("operator[]", "at"):
        base = b[3]
    elif b[1] == "back":
        base = ("lin", 64, (1 << 64) - 1, ((size, 1),))
    elif b[1] in ("end", "cend"):
        base = size
    else:
        return None
    k, rest = divmod(off, esize)
    c, lin = (base[1], {}) if isC(base) else (base[2], dict(base[3])) if base[0] == "lin" else (0, {base: 1})
    c += k
    for x, s in vs:
        if s % esize:
            return None
        lin[x] = lin.get(x, 0) + s // esize
    m = (1 << 64) - 1
    lin = {x: s & m for x, s in lin.items() if s & m}
    if not lin:
        return C(c & m, 64), size, rest
    if (c & m) == 0 and len(lin) == 1 and list(lin.values()) == [1]:
        return next(iter(lin)), size, rest
    return ("lin", 64, c & m, tuple(sorted(lin.items(), key=repr))), size, rest


def whole_range(a, b):
    """both ends of one container at one version: the container"""
    a, b = ptr(a), ptr(b)
    if a[2] or a[3] or b[2] or b[3] or a[1][0] != "pc" or b[1][0] != "pc":
        return None
    if a[1][1] in ("begin", "cbegin") and b[1][1] in ("end", "cend") and a[1][2:] == b[1][2:]:
        return ptr(a[1][2])
    return None


class Order:
    """typestate of the vectors of a function: sorted, unsorted, ('runs', size term of the first run)"""
    KEEP = {"reserve", "shrink_to_fit", "pop_back", "erase", "clear", "~vector", "size", "empty", "begin", "end", "cbegin", "cend",
            "data", "operator[]", "at", "front", "back", "capacity", "max_size", "get_allocator", "rbegin", "rend"}

    def __init__(self, c, mod, fn, allpaths):
        self.c, self.mod, self.fn = c, mod, fn
        self.all = list(allpaths)
        self.sizes = {}        # vector: the terms that are its size at this point
        self.back = {}
        for p in allpaths:
            if p.kind == "back":
                self.back.setdefault(p.ret, []).append(p)
        self.why = {}

    def start(self, v):
        # a snapshot handed in is sorted; so is one in raw storage only after it has been constructed
        return "sorted"

    def get(self, st, v):
        if v not in st:
            st[v] = self.start(v)
        return st[v]

    def less(self, e):
        """the comparison a sort was given is that of the values"""
        ta = targs(e.name)
        cmp_ = [t for t in ta if not re.search(r"iterator|\*$|metric_value$", t)]
        if not cmp_:
            return True
        t = cmp_[-1]
        if re.match(r"std::less<|__gnu_cxx::__ops::_Iter_less", t):
            return True
        if re.match(r"std::greater", t):
            return False
        if len(e.args) >= 3 and e.args[-1][0] == "fn" and e.args[-1][1] in self.mod.fns:
            return self.lessfn(self.mod.fns[e.args[-1][1]])
        # the call operator of a function object of the repository
        fs = [g for g in self.mod.fns.values() if g.dem.startswith(t + "::operator()(")]
        if not fs:
            raise core.AnalysisError("cannot tell the order that %s sorts by" % e.name)
        return all(self.lessfn(g) for g in fs)

    def lessfn(self, g):
        off = len(g.args) - 2
        for p in trace.paths(g, self.mod):
            cl = [e for e in p.ev if e.kind == "call" and "metric_value::operator" in e.short]
            if len(cl) != 1 or p.kind != "ret":
                return False
            e = cl[0]
            a, b = ptr(("arg", off)), ptr(("arg", off + 1))
            want = (a, b) if e.short.endswith("operator<") else (b, a) if e.short.endswith("operator>") else None
            if want is None or (ptr(e.args[0]), ptr(e.args[1])) != want:
                return False
        return True

    def run(self, evs, st):
        for e in evs:
            if e.kind == "loop":
                self.loop(e, st)
                continue
            if e.kind != "call":
                continue
            if isvec(e):
                m = method(e)
                if m == "size":
                    self.sizes.setdefault(ptr(e.args[0]), set()).add(e.res)
                self.vec(e, st)
                if not (e.x and e.x.get("pure")) and m not in ("reserve", "shrink_to_fit"):
                    self.sizes.pop(ptr(e.args[0]) if e.args else None, None)
                    if m == "swap":
                        self.sizes.pop(ptr(e.args[1]), None)
                continue
            s = e.short
            if s in ("std::sort", "std::stable_sort"):
                v = whole_range(e.args[0], e.args[1])
                if v is not None and self.less(e):
                    st[v] = "sorted"
                else:
                    r = rootvec(e.args[0])
                    if r is not None:
                        self.unsorted(st, r[0], e, "%s is not given the whole range in ascending order" % s)
                continue
            if s == "std::inplace_merge":
                r = rootvec(e.args[0])
                whole = whole_range(e.args[0], e.args[2])
                if whole is not None and self.less(type("E", (), {"args": e.args[:2] + e.args[3:], "name": e.name})):
                    x = st.get(whole)
                    mid = elem_index(e.args[1], self.esize)
                    if isinstance(x, tuple) and mid is not None and mid[0] in x[1]:
                        st[whole] = "sorted"
                        continue
                if r is not None:
                    self.unsorted(st, r[0], e, "what is merged are not two sorted runs")
                continue
            if s in ("std::swap", "std::iter_swap", "std::reverse", "std::rotate", "std::random_shuffle", "std::shuffle", "std::nth_element", "std::partial_sort",
                     "std::sort_heap", "std::make_heap", "std::copy", "std::transform", "std::fill", "std::generate", "std::for_each", "std::unique", "std::merge", "std::move", "std::copy_n", "std::copy_if"):
                for a in e.args:
                    r = rootvec(a)
                    if r is not None and s not in ("std::unique",) and (s not in ("std::copy", "std::merge", "std::transform", "std::for_each", "std::copy_n", "std::copy_if") or a is e.args[-1]):
                        self.unsorted(st, r[0], e, "%s changes the order" % s)
                    v = ptr(a)
                    if a is e.args[-1] and v in st and s in ("std::copy", "std::merge", "std::transform", "std::copy_n", "std::copy_if"):
                        self.unsorted(st, v, e, "%s appends" % s)
                continue
            # writes through a pointer into a vector
            w = None
            for rx, pos in trace.Tracer.WRITES:
                if rx.search(e.name) and not re.search(r"\) const$", e.name):
                    w = pos
                    break
            if w:
                for k in w:
                    r = rootvec(e.args[k])
                    if r is not None and "::~" not in e.name:
                        self.unsorted(st, r[0], e, "an element is overwritten")
        return st

    def unsorted(self, st, v, e, why):
        st[v] = "unsorted"
        self.why[v] = (e, why)

    def vec(self, e, st):
        m = method(e)
        v = ptr(e.args[0]) if e.args else None
        if m == "vector" and "::vector(" in e.name:
            if len(e.args) == 1:
                st[v] = "sorted"
                return
            if re.search(r"::vector\(std::vector<.*(&&|const&)", e.name):
                st[v] = self.get(st, ptr(e.args[1]))
                return
            if len(e.args) >= 3:
                u = whole_range(e.args[1], e.args[2])
                if u is not None:
                    st[v] = self.get(st, u)
                    return
            self.unsorted(st, v, e, "constructed from unordered elements")
            return
        if m == "operator=":
            if "initializer_list" in e.name:
                self.unsorted(st, v, e, "assigned unordered elements")
            else:
                st[v] = self.get(st, ptr(e.args[1]))
            return
        if m == "swap":
            u = ptr(e.args[1])
            st[v], st[u] = self.get(st, u), self.get(st, v)
            return
        if m in self.KEEP or e.x and e.x.get("pure"):
            return
        if m in ("insert", "emplace") and len(e.args) >= 3:
            # insertion at the position found by a binary search keeps the order
            at = ptr(e.args[-2]) if m == "insert" else None
            if at is not None and at[1][0] in ("pc", "res") and self.bound(at[1], v, e.args[-1]):
                return
            if m == "insert" and self.get(st, v) == "sorted":
                u = whole_range(e.args[-2], e.args[-1])
                pos = elem_index(e.args[-3], self.esize) if len(e.args) >= 4 else None
                if u is not None and pos is not None and pos[0] == pos[1] and self.get(st, u) == "sorted":
                    st[v] = ("runs", {pos[1]} | self.sizes.get(v, set()))
                    return
        self.unsorted(st, v, e, "%s adds elements out of order" % m)

    def bound(self, t, v, val):
        for e in self.cur:
            if e.kind == "call" and e.res == t and e.short in ("std::upper_bound", "std::lower_bound"):
                return whole_range(e.args[0], e.args[1]) == v and ptr(e.args[2]) == ptr(val)
        return False

    def loop(self, e, st):
        """what one iteration does to vectors that are sorted when it starts, any number of times"""
        h = e.x["h"]
        before, sizes = dict(st), {v: set(x) for v, x in self.sizes.items()}
        for p in self.back.get(h, []):
            k = max((n for n, x in enumerate(p.ev) if x.kind == "loop" and x.x["h"] == h and x.x["fn"] == e.x["fn"]), default=None)
            if k is None:
                continue
            cur, self.cur = self.cur, p.ev
            s0 = {v: "sorted" for v in st}
            s1 = self.run(p.ev[k + 1:], dict(s0))
            self.cur = cur
            for v, x in s1.items():
                if x != "sorted":
                    st[v] = "unsorted"
        L = None
        for v in [v for v, x in st.items() if x == "unsorted" and before.get(v, self.start(v)) == "sorted"]:
            L = L or Loop(self.all, h, e.x["fn"])
            if self.appends(L, v, before, st):
                st[v] = ("runs", sizes.get(v, set()))

    def appends(self, L, v, before, st):
        """the loop appends the elements of another sorted vector, in their order, and does nothing else to v"""
        us, got = set(), []
        for q, body in L.bodies:
            if Facts(q.w).infeasible():
                continue
            on = [x for x in body if x.kind == "call" and not (x.x and x.x.get("pure")) and any(rootvec(a) and rootvec(a)[0] == v or ptr(a) == v for a in x.args)]
            on = [x for x in on if not (isvec(x) and method(x) in ("reserve", "size", "begin", "end", "cbegin", "cend"))]
            if len(on) != 1 or not isvec(on[0]) or method(on[0]) not in ("emplace_back", "push_back") or ptr(on[0].args[0]) != v:
                return False
            got.append(on[0].args[1])
            us.add(rootvec_iv(on[0].args[1], L.iv))
        if len(us) != 1 or None in us or v in us:
            return False
        U = us.pop()
        f, _ = L.over(U, self.esize)
        return f is not None and not L.down and all(f(a) for a in got) and before.get(U, self.start(U)) == "sorted" and st.get(U, "sorted") == "sorted"

    def path(self, p, esize):
        self.esize = esize
        self.cur = p.ev
        return self.run(p.ev, {})


def layout(mod, cls):
    for t in mod.types:
        if t["name"] == cls:
            return t
    raise core.AnalysisError("no layout for " + cls)


def values_at(mod):
    t = layout(mod, "cxxmetrics::reservoir_snapshot")
    v = [x for x in t["m"] if x.get("t", "").startswith("vector<")]
    if len(v) != 1:
        raise core.AnalysisError("reservoir_snapshot does not keep its values in one vector")
    return v[0]["o"], layout(mod, "cxxmetrics::metric_value")["size"]


OBS = re.compile(r"^cxxmetrics::metric_value::|^cxxmetrics::metric_value cxxmetrics::operator|^cxxmetrics::operator|^probe_")


class Prog:
    """the operations on metric values along a path, as arithmetic on what the objects held at the start"""

    def __init__(self, names=None):
        self.o = {}
        self.res = {}
        self.leafname = names or (lambda p: p)

    def field(self, t):
        return flow.infield(self.term(t))

    def term(self, t):
        if not isinstance(t, tuple):
            return t
        if t in self.res:
            return ("k", self.res[t])
        if t and t[0] == "ld":
            return ("ldc",) + t[1:4]
        return tuple(self.term(x) for x in t)

    def obj(self, p):
        p = ptr(p)
        if p not in self.o:
            self.o[p] = flow.infield(("obj", self.leafname(p)))
        return self.o[p]

    def arg(self, e, k, ctor=False):
        a = e.args[k]
        return a

    def do(self, e):
        n = e.short
        if not n.startswith("cxxmetrics::") or "metric_value" not in e.name:
            return False
        p = flow.FIELD
        m = n.split("::")[-1]
        A = e.args
        if m == "metric_value":
            if re.search(r"metric_value\((cxxmetrics::metric_value)( const&|&&)\)", e.name):
                self.o[ptr(A[0])] = self.obj(A[1])
            elif re.search(r"metric_value\(std::", e.name) and "chrono" not in e.name:
                return False
            else:
                self.o[ptr(A[0])] = self.field(A[1]) if A[1][0] != "ptr" else flow.infield(self.term(A[1]))
            return True
        if m == "~metric_value":
            self.o.pop(ptr(A[0]), None)
            return True
        if m in ("operator+", "operator-", "operator*", "operator/") and len(A) == 3:
            a, b = self.obj(A[1]), self.obj(A[2])
            self.o[ptr(A[0])] = {"+": (a + b), "-": (a - b), "*": a * b, "/": a * pow(b, -1, p) if b else 0}[m[-1]] % p
            return True
        if m == "operator-" and len(A) == 2:
            self.o[ptr(A[0])] = -self.obj(A[1]) % p
            return True
        if m in ("operator+=", "operator-=", "operator*=", "operator/="):
            a, b = self.obj(A[0]), self.obj(A[1])
            self.o[ptr(A[0])] = {"+": a + b, "-": a - b, "*": a * b, "/": a * pow(b, -1, p) if b else 0}[m[-2]] % p
            return True
        if m == "operator=":
            self.o[ptr(A[0])] = self.obj(A[1])
            return True
        if m.startswith("operator ") or re.search(r"metric_value::operator (long double|double|float|.*int.*|long|unsigned.*|short)\(\)", e.name):
            self.res[e.res] = self.obj(A[0])
            return True
        return False


@prop("C05", level="proof", technique="typestate (sortedness) and difference-bound index analysis over compiler IR",
      rule="typestate: on every path out of every constructor, assignment and merge of the snapshot types the vector of values is in state sorted "
           "(std::sort of the whole range in ascending order after the last insertion, or taken over whole from a snapshot); bounds: every element access of an "
           "observer has an index that the branch facts of its path bound by the size; minimum and maximum are the first and last element, quantiles "
           "and samples are weighted means of two neighbouring elements",
      explains="every path (loops: one generic iteration, what it changes unknown) of the constructors, assignments, merges and observers of the snapshot "
               "classes",
      assumptions=["std::vector and std::sort are implemented correctly", "snapshots handed in as operands are sorted (induction over how snapshots come about)",
                   "metric values in one snapshot are of one kind, so that they are totally ordered"])
def c05(c):
    mod = core.normalise("reservoir.cpp", "A", AV, prefix="mk_,as_,mg_,ob_")
    off, esize = values_at(mod)
    n = m = k = 0
    for f in mod.roots(("mk_", "as_", "mg_")):
        if f.name == "mg_met":
            continue
        n += 1
        ps = list(trace.paths(f, mod, stable=True))
        o = Order(c, mod, f, ps)
        V = ("ptr", ("arg", 0), off, ())
        for p in ps:
            if p.kind != "ret":
                continue
            m += 1
            st = o.path(p, esize)
            s = o.get(st, V)
            if f.name.startswith("mk_") and V not in st:
                c.bad(f.name[3:], core.origin(f), "the values are not constructed")
            elif s != "sorted":
                e, why = o.why.get(V, (None, ""))
                c.bad(f.name[3:], e.where() if e else core.origin(f), "the values may be out of order on a path to the end: " + why, "path: " + p.facts())
            else:
                c.ok(f.name[3:], "sorted at the end of path [%s]" % p.facts())
    c.expect(n, 12, "ways a snapshot comes about")
    c.expect(m, 13, "paths to their ends")
    n = m = 0
    for f in mod.roots("ob_"):
        n += 1
        V = ("ptr", ("arg", 0 if f.name in ("ob_sample", "ob_size", "ob_count") else 1), off, ())
        ps = list(trace.paths(f, mod, stable=True))
        ups = countups(ps)
        for p in ps:
            F = Facts(p.w, invariants(p, ups))
            if F.infeasible():
                continue
            prog = Prog(lambda q: elemname(q, esize))
            made = []
            for e in p.ev:
                touched = []
                if e.kind == "call" and not isvec(e):
                    touched = [a for a in e.args if isinstance(a, tuple) and a and a[0] in ("ptr", "pc")]
                elif e.kind in ("load", "store"):
                    touched = [e.addr]
                elif isvec(e) and method(e) in ("operator[]", "front", "back", "at"):
                    touched = [e.res]
                for t in touched:
                    r = rootvec(t)
                    if r is None or r[0] != V:
                        continue
                    if e.kind == "call" and not isvec(e) and not OBS.search(e.name):
                        raise core.AnalysisError("%s: an element is handed to %s" % (f.name, e.name))
                    x = elem_index(t, esize)
                    if x is None:
                        raise core.AnalysisError("%s: cannot tell the element %s" % (f.name, flow.show(t)))
                    k += 1
                    key = "%s:%s" % (f.name[3:], "front" if isC(x[0]) else "index")
                    if F.lt(x[0], x[1]):
                        c.ok(key, "index %s below the size" % flow.show(x[0])[:80])
                    else:
                        c.bad(key, e.where(), "the element %s is read although nothing bounds it by the number of values" % flow.show(x[0])[:200], "path: " + p.facts())
                if e.kind == "call":
                    if prog.do(e):
                        pass
                    elif e.short == "probe_sample":
                        made.append((e, prog.obj(e.args[0])))
            if p.kind == "ret" and f.name != "ob_sample" and not f.name.startswith(("ob_size", "ob_count", "ob_mean")):
                made.append((None, prog.obj(("arg", 0))))
            for e, val in made:
                m += 1
                where = e.where() if e else core.origin(f)
                els = sorted({x for x in (elem_index(q, esize) for q in elems(p, V)) if x is not None}, key=repr)
                size = ("pc", "size", ("arg", V[1][1]) if V[2] == 0 else V, 0)
                empty = F.le(size, C(0, 64))
                if f.name in ("ob_min", "ob_max"):
                    want = C(0, 64) if f.name == "ob_min" else ("lin", 64, (1 << 64) - 1, ((size, 1),))
                    good = empty or any(F.eq(i, want) and val == flow.infield(("obj", ("elem", i))) for i, s, _ in els)
                    c.require(good, f.name[3:], where, "the %s is not the %s element" % (("minimum", "first") if f.name == "ob_min" else ("maximum", "last")), "path: " + p.facts(),
                              "value of path [%s]" % p.facts())
                elif f.name.startswith("ob_q") or f.name == "ob_sample":
                    good = empty or any(val == flow.infield(("obj", ("elem", i))) for i, s, _ in els)
                    if not good:
                        good = between(prog, p, val, els, F) is not None
                    c.require(good, f.name[3:], where, "the value lies not between neighbouring elements", "path: " + p.facts(), "value of path [%s]" % p.facts()[:150])
    c.expect(n, 11, "observers")
    c.expect(k, 20, "element accesses bounded")
    c.expect(m, 12, "observed values")


def elemname(q, esize):
    x = elem_index(q, esize)
    return ("elem", x[0]) if x is not None and not x[2] else q


def elems(p, V):
    out = set()
    for e in p.ev:
        for t in list(e.args or []) + [e.res, e.addr]:
            if isinstance(t, tuple) and t and t[0] in ("ptr", "pc"):
                r = rootvec(t)
                if r is not None and r[0] == V:
                    out.add(t)
    return out


def between(prog, p, val, els, F):
    """val is lo + w (hi - lo) for neighbours lo, hi and a weight w = x - trunc(x)"""
    P = flow.FIELD
    for i, s, _ in els:
        for j, s2, _ in els:
            if i == j or not (F.le(i, j) and F.eq(plus(i, 1), j)):
                continue
            lo, hi = flow.infield(("obj", ("elem", i))), flow.infield(("obj", ("elem", j)))
            d = (hi - lo) % P
            if not d:
                continue
            w = (val - lo) * pow(d, -1, P) % P
            for t in truncs(p):
                x, n = flow.infield(prog.term(t[3])), flow.infield(prog.term(t))
                if w == (x - n) % P:
                    return (i, t[3], lo, d, val)
    return None


class NotNumber(Exception):
    pass


def number(t, size, n):
    """the value of a term for a container of n elements"""
    if isC(t):
        return flow.sgn(t[1], t[2])
    if t == size:
        return n
    if t[0] == "f":
        return float(t[1])
    if t[0] == "rnd":
        return number(t[2], size, n)
    if t[0] == "lin":
        v = (t[2] + sum(k * number(x, size, n) for x, k in t[3])) % (1 << t[1])
        return flow.sgn(v, t[1])
    if t[0] == "op":
        o = t[1]
        if o in ("sitofp", "uitofp", "zext", "sext"):
            v = number(t[3], size, n)
            w = flow.width(t[4])
            return v % (1 << w) if w and o in ("uitofp", "zext") else v
        if o == "trunc":
            return flow.sgn(number(t[3], size, n) % (1 << flow.width(t[2])), flow.width(t[2]))
        if o in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = number(t[3], size, n), number(t[4], size, n)
            if o == "fdiv" and not b:
                raise NotNumber()
            return a + b if o == "fadd" else a - b if o == "fsub" else a * b if o == "fmul" else a / b
        if o == "fneg":
            return -number(t[3], size, n)
        if o in ("fptosi", "fptoui"):
            return int(number(t[3], size, n))
    raise NotNumber()


POSITIONS = {"ob_q1": 0.01, "ob_q50": 0.5, "ob_q99": 0.999}


def any_size(c):
    """what holds of a snapshot of any number of values: where quantiles and samples are read, what the loop of the mean computes"""
    mod = core.normalise("reservoir.cpp", "A", AV, prefix="mk_,as_,mg_,ob_")
    off, esize = values_at(mod)
    P = flow.FIELD
    nq = ns = nm = 0
    for f in mod.roots("ob_"):
        V = ("ptr", ("arg", 0 if f.name == "ob_sample" else 1), off, ())
        size = ("pc", "size", ("arg", V[1][1]) if V[2] == 0 else V, 0)
        ps = list(trace.paths(f, mod, stable=True))
        for p in ps:
            F = Facts(p.w)
            if F.infeasible():
                continue
            prog = Prog(lambda q: elemname(q, esize))
            made = []
            for e in p.ev:
                if e.kind != "call" or prog.do(e):
                    continue
                if e.short == "probe_sample" and f.name == "ob_sample":
                    made.append((e, prog.obj(e.args[0])))
            if p.kind == "ret" and f.name in POSITIONS:
                made.append((None, prog.obj(("arg", 0))))
            els = sorted({x for x in (elem_index(q, esize) for q in elems(p, V)) if x is not None}, key=repr)
            for e, val in made:
                b = between(prog, p, val, els, F)
                if b is None:
                    continue
                i, x, lo, d, _ = b
                where = e.where() if e else core.origin(f)
                key = "%s:any" % f.name[3:]
                pos = flow.infield(prog.term(x))
                if flow.infield(("op", "uitofp", "float", prog.term(plus(i, 1)), "i64")) not in [flow.infield(("op", "uitofp", "float", prog.term(t), "i64")) for t in truncs(p)]:
                    c.bad(key, where, "the neighbours are not those around the position of the quantile", "path: " + p.facts()[:300])
                    continue
                if e is None:
                    try:
                        off_ = next((n for n in (5, 100, 1000, 70000, 1 << 33, 1 << 40) if abs(number(x, size, n) - POSITIONS[f.name] * (n + 1)) > 1e-6 * (n + 1)), None)
                    except NotNumber:
                        continue
                    nq += 1
                    c.require(off_ is None, key, where, "of %s values the quantile is not read at p(n+1)" % off_, "position: " + flow.show(x)[:300], "position of path [%s]" % p.facts()[:150])
                else:
                    ns += 1
                    n1 = (flow.infield(("op", "uitofp", "float", prog.term(size), "i64")) + 1) % P
                    said = flow.infield(prog.term(e.args[1]))
                    c.require(said * n1 % P == 100 * pos % P, key, where, "the sample is not the quantile it is said to be", "path: " + p.facts()[:300], "sample of path [%s]" % p.facts()[:150])
        if f.name == "ob_mean":
            nm += mean_of_any(c, f, ps, V, esize)
    c.count("quantile positions for any size", nq)
    c.count("samples for any size", ns)
    c.count("iterations of the mean", nm)


def mean_of_any(c, f, ps, V, esize):
    """the loop of the mean, if it goes through the values by their index: after i values it holds their mean, or their sum"""
    P = flow.FIELD
    backs = [p for p in ps if p.kind == "back" and not Facts(p.w).infeasible()]
    hs = {p.ret for p in backs}
    if len(hs) != 1:
        return 0
    h = hs.pop()
    n = 0

    def start(p):
        k = next((k for k, e in enumerate(p.ev) if e.kind == "loop" and e.x["h"] == h), None)
        return k

    def run(evs):
        prog = Prog(lambda q: elemname(q, esize))
        for e in evs:
            if e.kind == "call":
                prog.do(e)
        return prog

    modes = set()
    for p in backs:
        k = start(p)
        if k is None:
            return 0
        ivs = [(init, t) for key, (init, t) in p.ev[k].x["iv"].items() if init is not None and isC(init) and init[1] in (0, 1) and p.x.get(key) == plus(t, 1)]
        read = {x[0] for x in (elem_index(q, esize) for q in (t for e in p.ev[k:] for t in list(e.args or []) + [e.res] if isinstance(t, tuple) and t and t[0] in ("ptr", "pc") and rootvec(t) and rootvec(t)[0] == V)) if x is not None}
        use = [(i, t) for i, t in ivs if t in read]
        if len(use) != 1 or len(read) != 1:
            return 0
        init, t = use[0]
        first = init[1]
        entry, body = run(p.ev[:k]), run(p.ev[k + 1:])
        elem = flow.infield(("obj", ("elem", t)))
        I = flow.infield(("op", "uitofp", "float", t, "i64"))
        changed = [a for a, v in body.o.items() if v != flow.infield(("obj", body.leafname(a))) and a in entry.o]
        if len(changed) != 1:
            return 0
        a = changed[0]
        old, new = flow.infield(("obj", body.leafname(a))), body.o[a]
        begin = entry.o[a]
        zero, v0 = 0, flow.infield(("obj", ("elem", C(0, 64))))
        mean = new * (I + 1) % P == (old * I + elem) % P and (first == 0 or begin == v0)
        total = new == (old + elem) % P and begin == (v0 if first else zero)
        n += 1
        modes.add("mean" if mean else "sum" if total else None)
        c.require(mean or total, "mean:any", body_where(p, k, f), "an iteration makes of the mean of the values so far and the next value neither the mean nor the sum of them", "", "an iteration keeps the mean")
    if None in modes or len(modes) != 1:
        return n
    mode = modes.pop()
    for p in ps:
        k = start(p)
        if p.kind != "ret" or k is None or Facts(p.w).infeasible():
            continue
        after = run(p.ev[k + 1:])
        got = after.obj(("arg", 0))
        cnt = flow.infield(("op", "uitofp", "float", ("pc", "size", ("arg", V[1][1]) if V[2] == 0 else V, 0), "i64"))
        want = old if mode == "mean" else old * pow(cnt, -1, P) % P
        c.require(got == want, "mean:result", core.origin(f), "what is returned is not what the loop has summed up", "path: " + p.facts()[:300], "result of path [%s]" % p.facts()[:150])
        F = Facts(p.w)
        sizes = [x for x in list(F.nodes) if x[0] == "pc" and x[1] == "size" and ptr(x[2]) == V]
        c.require(any(F.le(x, t) for x in sizes), "mean:all", core.origin(f), "the loop may end before the last value", "path: " + p.facts()[:300], "all values of path [%s]" % p.facts()[:150])
    return n


def body_where(p, k, f):
    return next((e.where() for e in p.ev[k + 1:] if e.kind == "call" and "metric_value" in e.name), core.origin(f))


def plus(t, k):
    m = (1 << 64) - 1
    if isC(t):
        return C((t[1] + k) & m, 64)
    if t[0] == "lin":
        c = (t[2] + k) & m
        if c == 0 and len(t[3]) == 1 and t[3][0][1] == 1:
            return t[3][0][0]
        return ("lin", 64, c, t[3])
    return ("lin", 64, k & m, ((t, 1),))


def truncs(p):
    out = set()

    def go(t):
        if isinstance(t, tuple):
            if len(t) > 3 and t[0] == "op" and t[1] in ("fptoui", "fptosi"):
                out.add(t)
            for x in t:
                go(x)
    for e in p.ev:
        for t in (e.args or []):
            go(t)
    return out


# ---------------------------------------------------------------- merging
def chain(t, ivs, depth=0):
    """the pointers a pointer was reached through, outermost last"""
    p = ptr(t)
    out = [p]
    b = p[1]
    if depth < 8:
        if b[0] == "pc" and len(b) > 2:
            out += chain(b[2], ivs, depth + 1)
        elif b[0] == "iv" and b in ivs:
            out += chain(ivs[b], ivs, depth + 1)
        elif b[0] == "ld":
            out += chain(b[1], ivs, depth + 1)
    return out


def inits(p):
    return {t: i for e in p.ev if e.kind == "loop" for i, t in e.x["iv"].values() if i is not None}


def rootarg(t, ivs):
    return chain(t, ivs)[-1][1]


def at_end(w, it, U):
    """whether the path knows that an iterator is the end of a container (True, False, None)"""
    for a, v in w.bool.items():
        if a[0] == "peq":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if ptr(x) == ptr(it) and ptr(y)[1][0] == "pc" and ptr(y)[1][1] in ("end", "cend") and ptr(ptr(y)[1][2]) == U and not ptr(y)[2]:
                    return v
    return None


def unequal(w, a, b):
    """the path knows a != b (an index that starts at 0, counts by one and goes on while it is not b stays below b)"""
    return any(set(k[1:3]) == {a, b} and "eq" not in s for k, s in w.rel.items() if k[0] in ("u", "s"))


def countups(ps):
    """loop (function, head): [(t, init, n)] of counters that go up by one and only as long as they are not n"""
    out, seen = {}, {}
    for p in ps:
        if p.kind != "back":
            continue
        k = max((k for k, e in enumerate(p.ev) if e.kind == "loop" and e.x["h"] == p.ret), default=None)
        if k is None:
            continue
        e = p.ev[k]
        got = set()
        for key, (init, t) in e.x["iv"].items():
            if init is None or not isC(init) or (p.x or {}).get(key) != plus(t, 1):
                continue
            for r, s in p.w.rel.items():
                if r[0] in ("u", "s") and t in r[1:3] and "eq" not in s:
                    got.add((t, init, r[1] if r[2] == t else r[2]))
        h = (e.x["fn"], p.ret)
        out[h] = got if h not in seen else out[h] & got
        seen[h] = True
    return out


def invariants(p, ups):
    """what the loops a path goes through keep true: counter <= limit"""
    F, ex = Facts(p.w), []
    for e in p.ev:
        if e.kind == "loop":
            for t, init, n in ups.get((e.x["fn"], e.x["h"]), ()):
                if n[0] == "pc" and F.le(init, n):
                    ex.append((t, n, 0))
    return ex


class Loop:
    """a loop of a function: what its iterations do and how it is left"""

    def __init__(self, allpaths, h, fname):
        self.h = h
        self.down = False
        self.bodies = []       # (path, events of the iteration)
        self.exits = []
        for p in allpaths:
            ks = [n for n, x in enumerate(p.ev) if x.kind == "loop" and x.x["h"] == h and x.x["fn"] == fname]
            if not ks:
                continue
            if p.kind == "back" and p.ret == h:
                self.bodies.append((p, p.ev[ks[-1] + 1:]))
            elif not (p.kind == "back" and self.inside(p, ks[-1])):
                self.exits.append((p, ks[-1]))
        self.iv = next(x.x["iv"] for p in allpaths for x in p.ev if x.kind == "loop" and x.x["h"] == h and x.x["fn"] == fname)

    def inside(self, p, k):
        # an inner loop's back edge
        return any(x.kind == "loop" and x.x["h"] == p.ret for x in p.ev[k + 1:]) and p.ret in trace.loops(p.t.fn).get(self.h, ())

    def over(self, U, esize=None):
        """the loop visits every element of the container once: the function from an iteration's path to the pointers that denote its element, or (None, why)"""
        why = "no variable of the loop runs over the whole container"
        for k, (init, t) in self.iv.items():
            if init is None:
                continue
            step = [p.x.get(k) for p, _ in self.bodies]
            if not step:
                continue
            # index
            self.down = False
            if isC(init) and init[1] == 0 and all(s == plus(t, 1) for s in step):
                size = None
                ok = True
                for p, _ in self.bodies:
                    F = Facts(p.w)
                    if F.infeasible():
                        continue
                    size = next((n for n in F.nodes if n[0] == "pc" and n[1] == "size" and ptr(n[2]) == U and (F.lt(t, n) or unequal(p.w, t, n))), None)
                    ok &= size is not None
                if not ok:
                    continue
                for p, _ in self.exits:
                    F = Facts(p.w)
                    if not F.infeasible() and not any(n[0] == "pc" and n[1] == "size" and ptr(n[2]) == U and F.le(n, t) for n in list(F.nodes)):
                        return None, "the loop may be left early: " + p.facts()
                return (lambda q, t=t: (lambda x: x is not None and x[0] == t)(elem_index(q, esize) if rootvec(q) and rootvec(q)[0] == U else None)), ""
            # descending index
            self.down = True
            if init[0] == "pc" and init[1] == "size" and ptr(init[2]) == U and all(s == plus(t, -1) for s in step):
                for p, _ in self.exits:
                    F = Facts(p.w)
                    if not F.infeasible() and not F.le(t, C(0, 64)):
                        return None, "the loop may be left early: " + p.facts()
                return (lambda q, t=t: (lambda x: x is not None and x[0] == plus(t, -1))(elem_index(q, esize) if rootvec(q) and rootvec(q)[0] == U else None)), ""
            # iterator
            self.down = False
            i = ptr(init)
            if i[1][0] == "pc" and i[1][1] in ("begin", "cbegin") and ptr(i[1][2]) == U and not i[2] and not i[3]:
                nexts = [self.isnext(s, t, esize) for s in step]
                if not all(nexts):
                    why = "an iteration does not go on to the next element"
                    continue
                bad = [p for p, _ in self.bodies if at_end(p.w, t, U) is not False]
                if bad:
                    continue
                for p, _ in self.exits:
                    if at_end(p.w, t, U) is not True:
                        return None, "the loop may be left early: " + p.facts()
                return (lambda q, t=t: ptr(q)[1] == t or ptr(q) == ptr(t)), ""
        return None, why

    @staticmethod
    def isnext(s, t, esize):
        p = ptr(s)
        if p[1] == t:
            return p[2] == esize and not p[3]
        b = p[1]
        if b[0] == "ld" and ptr(b[1]) == ptr(t) and p[2] == 0:
            return True
        return b[0] in ("pc", "res") and b[0] == "pc" and "increment" in str(b[1]) and ptr(b[2]) == ptr(t)


def contents(c, key, ps, p, V, W, esize):
    """what the vectors hold at the end of a path, as counts of the whole vectors at the start; 'why' when unknown"""
    st = {V: {V: 1}, W: {W: 1}}
    loops_done = set()

    def get(v):
        return st.setdefault(v, {v: 1} if v[1][0] != "alloca" else {})

    def addall(v, u):
        a, b = get(v), get(u)
        if isinstance(a, str) or isinstance(b, str):
            st[v] = a if isinstance(a, str) else b
            return
        n = dict(a)
        for k, x in b.items():
            n[k] = n.get(k, 0) + x
        st[v] = n

    def seq(evs, inloop=None, out=None):
        for e in evs:
            if e.kind == "loop" and e.x["h"] not in loops_done:
                L = Loop(ps, e.x["h"], e.x["fn"])
                apps = []
                for q, body in L.bodies:
                    o = []
                    seq(body, True, o)
                    apps.append(o)
                dests = {d for o in apps for d, _, _ in o}
                for d in dests:
                    srcs = {}
                    for o in apps:
                        for dd, s, ee in o:
                            if dd == d:
                                srcs.setdefault(id(o), []).append((s, ee))
                    fail = None
                    us = {rootvec_iv(s, L.iv) for l in srcs.values() for s, _ in l}
                    if len(us) != 1 or None in us or len(srcs) != len(apps) or any(len(l) != 1 for l in srcs.values()):
                        fail = "not every iteration adds one element"
                    else:
                        U = us.pop()
                        f, why = L.over(U, esize)
                        if f is None:
                            fail = why
                        elif not all(f(l[0][0]) for l in srcs.values()):
                            fail = "an iteration does not add the element it is at"
                    if fail:
                        st[d] = fail
                    else:
                        addall(d, U)
                continue
            if e.kind != "call":
                continue
            if isvec(e):
                m = method(e)
                v = ptr(e.args[0])
                if m in ("emplace_back", "push_back"):
                    if out is not None:
                        out.append((v, e.args[1], e))
                    else:
                        st[v] = "a single element is added"
                elif m in ("insert", "emplace"):
                    u = whole_range(e.args[-2], e.args[-1]) if len(e.args) >= 4 else None
                    if u is not None and out is None:
                        addall(v, u)
                    elif out is not None:
                        out.append((v, e.args[-1], e))
                    else:
                        st[v] = "part of a range is inserted"
                elif m == "vector":
                    if len(e.args) == 1:
                        st[v] = {}
                    elif re.search(r"::vector\(std::vector", e.name):
                        u = ptr(e.args[1])
                        st[v] = get(u)
                        if "&&" in e.name:
                            st[u] = {}
                    else:
                        u = whole_range(e.args[1], e.args[2]) if len(e.args) >= 3 else None
                        st[v] = get(u) if u is not None else "constructed otherwise"
                elif m == "operator=":
                    u = ptr(e.args[1])
                    st[v] = get(u)
                    if "&&" in e.name:
                        st[u] = {}
                elif m == "swap":
                    u = ptr(e.args[1])
                    st[v], st[u] = get(u), get(v)
                elif m in ("clear", "erase", "pop_back", "resize", "assign"):
                    st[v] = {} if m == "clear" else "%s changes the number of values" % m
            elif e.short in ("std::merge", "std::copy"):
                d = ptr(e.args[-1])
                for k in range(0, len(e.args) - 1, 2):
                    u = whole_range(e.args[k], e.args[k + 1])
                    if u is None:
                        st[d] = "part of a range is copied"
                    else:
                        addall(d, u)
            elif e.short in ("std::unique", "std::remove", "std::remove_if"):
                st[V] = "%s drops values" % e.short
    seq(p.ev)
    return st


def rootvec_iv(q, ivs):
    r = rootvec(q)
    if r is not None:
        return r[0]
    b = ptr(q)[1]
    for init, t in ivs.values():
        if t == b and init is not None:
            r = rootvec(init)
            return r[0] if r else None
    return None


def member(mod, cls, pred, what):
    t = layout(mod, "cxxmetrics::" + cls)
    v = [x for x in t["m"] if pred(x)]
    if len(v) != 1:
        raise core.AnalysisError("%s: no single member that holds %s" % (cls, what))
    return v[0]["o"]


def stores_to(p, cell, size=8):
    return [e for e in p.ev if e.kind == "store" and e.addr == cell]


def final_field(p, prog, cell):
    s = stores_to(p, cell)
    if not s:
        return flow.infield(("ldc", cell, 8, "i64"))
    v = s[-1].val
    while v[0] == "op" and v[1] in ("fptoui", "fptosi"):
        v = v[3]
    return prog.field(v)


class WProg(Prog):
    def __init__(self, w, names=None):
        super().__init__(names)
        self.w = w

    def term(self, t):
        if isinstance(t, tuple) and t and t[0] == "ld" and flow.width(t[3] or "?"):
            v = self.w.value(t, flow.width(t[3]))
            if v is not None:
                return C(v, flow.width(t[3]))
        return super().term(t)

    def cell(self, a):
        for t in list(self.w.iv):
            if t[0] == "ld" and t[1] == a:
                v = self.w.value(t, 64)
                if v is not None:
                    return v
        return flow.infield(("ldc", a, 8, "i64"))


def untouched(c, key, p, n):
    ivs = inits(p)
    R = ("arg", n)
    for e in p.ev:
        bad = None
        if e.kind in ("store", "set", "copy", "rmw", "cas") and rootarg(e.addr, ivs) == R:
            bad = "is written"
        if e.kind == "call" and not (e.x and e.x.get("pure")) and e.args:
            for k, a in enumerate(e.args):
                if isinstance(a, tuple) and a and a[0] in ("ptr", "arg", "pc", "iv", "ld") and rootarg(a, ivs) == R:
                    if isvec(e) and k == 0 and method(e) not in ("size",) or e.short.startswith("std::unordered_map") and k == 0:
                        bad = "is changed by %s" % e.short
                    for rx, pos in trace.Tracer.WRITES:
                        if rx.search(e.name) and not e.name.endswith("const"):
                            if k in pos and "operator " not in e.short and not (e.short.endswith(("operator-", "operator+")) and k > 0):
                                bad = "is changed by %s" % e.short
                            break
        if bad:
            c.bad(key + ":source", e.where(), "the other side %s" % bad, "path: " + p.facts())
            return
    c.ok(key + ":source", "the other side is only read on path [%s]" % p.facts()[:120])


def meter_rules(c, mod, key, f, ps, base):
    mean = base + offset_of(mod, "meter_snapshot", "metric_value")
    samples = base + offset_of(mod, "average_value_snapshot", None)
    rates = base + member(mod, "meter_snapshot", lambda x: "map<" in x.get("t", ""), "the rates")
    A = [("ptr", ("arg", k), mean, ()) for k in (0, 1)]
    Sx = [("ptr", ("arg", k), samples, ()) for k in (0, 1)]
    R = [("ptr", ("arg", k), rates, ()) for k in (0, 1)]
    P = flow.FIELD
    seen = found = 0

    def weighted(prog, a, b):
        s0, s1 = prog.cell(Sx[0]), prog.cell(Sx[1])
        t = (s0 + s1) % P
        return (a * s0 + b * s1) * pow(t, -1, P) % P if t else None
    for p in ps:
        if p.kind != "ret":
            continue
        F = Facts(p.w)
        if F.infeasible():
            continue
        prog = WProg(p.w)
        a0, b0 = prog.obj(A[0]), prog.obj(A[1])
        for e in p.ev:
            if e.kind == "call":
                prog.do(e)
        seen += 1
        want = weighted(prog, a0, b0)
        c.require(want is None or prog.obj(A[0]) == want, key + ":mean", core.origin(f), "the mean is not the mean of both sides weighted by their samples", "path: " + p.facts())
        c.require(final_field(p, prog, Sx[0]) == (prog.cell(Sx[0]) + prog.cell(Sx[1])) % P, key + ":samples", core.origin(f),
                  "the number of samples does not become the sum of both", "path: " + p.facts())
        ok = False
        why = "no loop over the rates"
        for e in p.ev:
            if e.kind != "loop":
                continue
            L = Loop(ps, e.x["h"], e.x["fn"])
            for side in (0, 1):
                g, w = L.over(R[side])
                if g is None:
                    if any(i is not None and ptr(i)[1][0] == "pc" and ptr(ptr(i)[1][2]) == R[side] for i, _ in L.iv.values()):
                        why = w
                    continue
                ok = True
                for q, body in L.bodies:
                    found += rate_body(c, key, f, q, body, side, g, R, Sx, weighted, A)
        c.require(ok, key + ":rates", core.origin(f), "not every rate is merged: " + why, "path: " + p.facts())
    c.expect(seen, 1, key + " paths")
    if not found:
        c.bad(key + ":rates", core.origin(f), "no rate is ever merged")


def rate_body(c, key, f, q, body, side, g, R, Sx, weighted, A):
    if Facts(q.w).infeasible():
        return 0
    before = [e for e in q.ev if e not in body and e.kind == "store" and e.addr in Sx]
    if before:
        c.bad(key + ":rates", before[0].where(), "the numbers of samples change before the rates are merged")
        return 0
    prog = WProg(q.w)
    start = {}
    for e in body:
        if e.kind == "call":
            for a in e.args:
                if isinstance(a, tuple) and a and a[0] in ("ptr", "iv", "pc") and ptr(a)[1][0] != "alloca":
                    start.setdefault(ptr(a), prog.obj(a) if ptr(a) not in prog.o else prog.o[ptr(a)])
            prog.do(e)
        if e.kind == "store" and e.addr[1] == ("arg", 0) and e.addr in Sx:
            c.bad(key + ":rates", e.where(), "the number of samples changes while the rates are merged")
            return 0
    changed = [a for a, v in start.items() if prog.o.get(a, v) != v]
    here = lambda a: g(a)   # noqa: E731
    look = None
    for e in body:
        if e.kind == "call" and e.x and e.x.get("pure") and method(e) in ("find", "at", "operator[]") and ptr(e.args[0]) == R[1 - side]:
            look = e
            if not here(e.args[1]):
                c.bad(key + ":rates", e.where(), "the rate looked up is not that of the same window")
                return 0
    known = None
    if look is not None and method(look) == "find":
        known = at_end(q.w, look.res, R[1 - side])
        n = counted(q.w, R[1 - side])
        if known is None and n is not None:
            known = n == 0
        if known is True and n == 1:
            return 0        # cannot happen
    if look is None or known is True:
        cnt = [e for e in body if e.kind == "call" and method(e) == "count" and ptr(e.args[0]) == R[1 - side]]
        if look is None and not cnt:
            c.bad(key + ":rates", core.origin(f), "an iteration does not look for the window on the other side", "path: " + q.facts())
            return 0
        c.require(not changed, key + ":rates", core.origin(f), "a rate that only one side has is changed", "path: " + q.facts(), "window of one side only")
        return 0
    if method(look) == "find" and known is None:
        c.bad(key + ":rates", look.where(), "what was not found is used", "path: " + q.facts())
        return 0
    mine = [a for a in start if (here(a) if side == 0 else ptr(a)[1] == look.res)]
    other = [a for a in start if (ptr(a)[1] == look.res if side == 0 else here(a))]
    good = False
    for a in mine:
        for b in other:
            v = prog.o.get(a, start[a])
            w = weighted(prog, start[a], start[b])
            if a in changed and w is not None and v == w and set(changed) == {a}:
                good = True
    c.require(good, key + ":rates", core.origin(f), "a rate does not become the mean of both sides weighted by their samples", "path: " + q.facts(), "window of both sides")
    return 1


def counted(w, U):
    """what the path knows about count() of a key: 0, 1 or None"""
    for t in set(w.iv) | set(w.ne):
        if t[0] == "pc" and t[1] == "count" and ptr(t[2]) == U:
            v = w.value(t, 64)
            if v == 0:
                return 0
            iv = w.iv.get(t)
            if 0 in w.ne.get(t, ()) or iv and iv[2] > 0:
                return 1
    for a, v in w.bool.items():
        if a[0] == "bool" and a[1][0] == "pc" and a[1][1] == "count" and ptr(a[1][2]) == U:
            return 1 if v else 0
    return None


def offset_of(mod, cls, typ):
    """offset of the member of a class or its bases that has a type (None: an integer of the class itself)"""
    t = layout(mod, "cxxmetrics::" + cls)
    for x in t["m"]:
        if typ is None and x["n"] != "<base>" and x["s"] == 8 and "map" not in x.get("t", ""):
            return x["o"]
        if typ is not None and x.get("t") == typ and x["n"] != "<base>":
            return x["o"]
    for x in t["m"]:
        if x["n"] == "<base>":
            try:
                return x["o"] + offset_of(mod, x["t"], typ)
            except core.AnalysisError:
                pass
    raise core.AnalysisError("%s: no member for %s" % (cls, typ))


def hist_rules(c, mod, key, f, ps, base):
    off, esize = values_at(mod)
    cnt = base + member(mod, "histogram_snapshot", lambda x: x["n"] != "<base>" and x["s"] == 8, "the count")
    V, W = ("ptr", ("arg", 0), base + off, ()), ("ptr", ("arg", 1), base + off, ())
    N = [("ptr", ("arg", k), cnt, ()) for k in (0, 1)]
    n = 0
    for p in ps:
        if p.kind != "ret" or Facts(p.w).infeasible():
            continue
        n += 1
        prog = WProg(p.w)
        c.require(final_field(p, prog, N[0]) == (prog.cell(N[0]) + prog.cell(N[1])) % flow.FIELD, key + ":count", core.origin(f),
                  "the count does not become the sum of both", "path: " + p.facts())
        st = contents(c, key, ps, p, V, W, esize)
        # a side the path knows to be empty does not count
        F = Facts(p.w)
        have = st[V]
        if isinstance(have, dict):
            have = {k: x for k, x in have.items() if not F.le(("pc", "size", k[1] if k[2] == 0 else k, 0), C(0, 64))}
            want = {k: 1 for k in (V, W) if not F.le(("pc", "size", k[1] if k[2] == 0 else k, 0), C(0, 64))}
        c.require(isinstance(have, dict) and have == want, key + ":values", core.origin(f), "the values do not become those of both sides: " +
                  (have if isinstance(have, str) else ", ".join("%d times those of %s" % (x, flow.show(k)) for k, x in have.items()) or "none"), "path: " + p.facts())
    c.expect(n, 1, key + " paths")


@prop("C24", level="proof", technique="value-flow normal forms over the rationals and container-content dataflow over compiler IR",
      rule="cumulative and average merges: the result equals, as a rational function of the values and sample counts of both sides, the sum or the weighted "
           "mean, and weights accumulate over any sequence of merges; histograms: the count is the sum and the vector holds every value of both sides once; "
           "meters: every window both sides have gets the weighted mean with the sample counts before the merge, others are unchanged; timers: both parts; "
           "nothing reachable from the other side is written",
      explains="all merge functions of the snapshot classes, on every path (loops: one generic iteration that must do the same for each element, and proof that it visits each)",
      assumptions=["rounding of floating point operations is disregarded", "windows only the other side has are not part of the result (documented limitation)",
                   "the containers are implemented correctly"])
def c24(c):
    m = core.normalise("snap.cpp", "S", flow_policy(), prefix="drv_,ref_,avg_")
    n = core.spec_pairs(c, m, nan=False, prefix="cum")
    n += core.spec_pairs(c, m, nan=False, prefix="i", real=True) + core.spec_pairs(c, m, nan=False, prefix=("two", "three", "four", "moved", "assigned"), real=True)
    c.expect(n, 8, "merge sequences compared")
    mod = core.normalise("reservoir.cpp", "A", AV, prefix="mg_")
    tm = member(mod, "timer_snapshot", lambda x: x.get("t") == "meter_snapshot", "the rates")
    for name, parts in (("hist", "h"), ("met", "m"), ("tim", "hm")):
        f = mod.fns.get("mg_" + name)
        if f is None:
            raise core.AnalysisError("mg_" + name)
        ps = list(trace.paths(f, mod, stable=True))
        if "h" in parts:
            hist_rules(c, mod, name, f, ps, 0)
        if "m" in parts:
            meter_rules(c, mod, name, f, ps, tm if name == "tim" else 0)
        for p in ps:
            if not Facts(p.w).infeasible():
                untouched(c, name, p, 1)


def flow_policy():
    from .policies import S
    return S
