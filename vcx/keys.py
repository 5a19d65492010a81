"""Hashes and comparisons of tags and paths."""
import re
from . import core, flow, policies, trace
from .facts import Facts
from .flow import isC
from .registry import prop
from .values import SPEC_RULE
from .snapshots import ptr

KEYS = [
    r"opaque ^cxxmetrics::metric_value::operator(==|!=)\(",
    r"opaque ^std::hash<cxxmetrics::metric_value>::operator\(\)",
] + policies.A + [
    r"inline (^|.* )std::(all_of|any_of|none_of|accumulate|for_each|find_if|find_if_not|equal|__equal4|__find_if|__find_if_not|__equal_aux|__equal_aux1)<",
    r"inline ^std::__equal<",
    r"inline std::__equal<.*>::equal",
    r"inline (^|.* )__gnu_cxx::__ops::",
]
ADDRS = ("begin", "end", "cbegin", "cend", "data", "c_str", "front", "back", "operator[]", "at", "find", "get", "operator->", "operator*", "_M_get")
SIZES = ("size", "length", "empty", "count")


class Tr(trace.Tracer):
    fixed = {}          # loop variables that are constant

    def run(self):
        r = super().run()
        if r[0] == "ret" and r[1] is not None and self.fn.d["ret"] == "i1" and not isC(r[1]) and self.fn.name.startswith("ky_"):
            r = ("ret", flow.C(1 if self.truth(r[1]) else 0, 1))
        return r

    def enter(self, h, prev, body):
        super().enter(h, prev, body)
        for (fn, hh, k), v in self.fixed.items():
            if (fn, hh) == (self.fn.name, h):
                self.env[k] = v

    def special(self, i, name, args):
        m = re.match(r"cxxmetrics::metric_value::operator(==|!=)\(", name)
        if m and len(args) == 2:
            t = ("pc", "operator" + m.group(1), args[0], args[1])
        elif re.match(r"std::hash<cxxmetrics::metric_value>::operator\(\)", name):
            t = ("pc", "hash", args[-1])
        elif re.match(r"std::(__str_hash_base|hash<std::(__cxx11::)?(basic_)?string.*>)::operator\(\)", name):
            t = ("pc", "hash", args[-1])
        elif re.match(r"std::_Hash_impl::hash|std::_Hash_bytes", name) and len(args) == 3:
            t = ("pc", "bytes") + tuple(args)
        else:
            return None
        self.ev.append(trace.Ev("call", i, name=name, args=args, res=t, x={"pure": True}))
        return t


def paths(fn, mod):
    """the paths of a function; loop variables that keep a constant value are that constant"""
    fixed = {}
    while True:
        cls = type("Tr1", (Tr,), {"fixed": fixed})
        ps = list(trace.paths(fn, mod, exc=False, cls=cls))
        new = {}
        for p in ps:
            for e in p.ev:
                if e.kind != "loop":
                    continue
                back = [q for q in ps if q.kind == "back" and q.ret == e.x["h"] and q.x and any(x.kind == "loop" and x.x["h"] == e.x["h"] and x.x["fn"] == e.x["fn"] for x in q.ev)]
                for k, (i, t) in e.x["iv"].items():
                    if isC(i) and back and all(k in q.x and q.x[k] in (i, t) for q in back):
                        new[e.x["fn"], e.x["h"], k] = i
        if set(new) <= set(fixed):
            return ps
        fixed.update(new)


def clean(t):
    """a term without the versions of containers nothing changes"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "pc" and t[1] in ADDRS + SIZES + ("operator==", "operator!=", "compare") and isinstance(t[-1], int):
        t = t[:-1]
    if t and t[0] == "ptr" and t[2] == 0 and not t[3]:
        return clean(t[1])
    if t and t[0] == "ld" and len(t) == 5:
        t = t[:4] + (0,)
    return tuple(clean(x) for x in t)


def walk(t, pred, out):
    if isinstance(t, tuple):
        if t and pred(t):
            out.append(t)
        for x in t:
            walk(x, pred, out)
    return out


class Loop:
    """what a loop runs over: arg (container), key() of the element"""
    def __init__(self, e, ps):
        self.e, self.h, self.fn = e, e.x["h"], e.x["fn"]
        self.iv = e.x["iv"]
        self.over = {}      # id: ("iter"|"index", arg)
        self.bodies = [p for p in ps if p.kind == "back" and p.ret == self.h and p.x is not None and any(q.kind == "loop" and q.x["h"] == self.h and q.x["fn"] == self.fn for q in p.ev)]
        for k, (init, t) in self.iv.items():
            i = clean(init)
            if not self.bodies:
                continue
            steps = [clean(p.x.get(k)) for p in self.bodies]
            if i[0] == "pc" and i[1] in ("begin", "cbegin") and i[2][0] == "arg":
                if all(self.next(s, t) for s in steps):
                    self.over[k] = ("iter", i[2][1])
            elif isC(i) and i[1] == 0 and all(s[0] == "lin" and s[2] == 1 and s[3] == ((t, 1),) for s in steps):
                self.over[k] = ("index", None)

    @staticmethod
    def next(s, t):
        if s[0] == "ptr" and s[1] == t and s[2] == 32 and not s[3]:
            return True
        if s[0] == "ld" and clean(s[1]) == t:
            return True
        return s[0] == "pc" and "operator++" in str(s[1])

    def element(self, a):
        """(container, loop variable, offset) of an address in the element, None if it is not one"""
        a = clean(a)
        off = 0
        if a[0] == "ptr" and not a[3]:
            a, off = a[1], a[2]
        if a[0] == "iv":
            for k, (i, t) in self.iv.items():
                if t == a and self.over.get(k, ("",))[0] == "iter":
                    return self.over[k][1], t, off
        if a[0] == "pc" and a[1] in ("operator[]", "at") and a[2][0] == "arg" and off == 0:
            for k, (i, t) in self.iv.items():
                if t == a[3] and self.over.get(k, ("",))[0] == "index":
                    return a[2][1], t, 0
        return None

    def ends(self, p, reached=True):
        """containers whose end the loop has reached on a path (or is known not to have reached)"""
        out = set()
        for key, v in p.w.bool.items():
            if key[0] != "peq" or bool(v) != reached:
                continue
            a, b = clean(key[1]), clean(key[2])
            for x, y in ((a, b), (b, a)):
                if y[0] == "pc" and y[1] in ("end", "cend") and y[2][0] == "arg":
                    el = self.element(x)
                    if el and el[0] == y[2][1] and el[2] == 0:
                        out.add(el[0])
        f = None
        for k, (i, t) in self.iv.items():
            if self.over.get(k, ("",))[0] != "index":
                continue
            f = f or Facts(p.w)
            for s in sizes(p):
                if f.le(s, t) if reached else f.lt(t, s):
                    out.add(s[2][1])
        return out

    def together(self, p):
        """both containers were walked over side by side: True when they ended together, False when only one has ended"""
        a, b = self.ends(p), self.ends(p, False)
        if not self.bodies or not any(e.kind == "loop" and e.x["h"] == self.h and e.x["fn"] == self.fn for e in p.ev):
            return None
        return True if len(a) == 2 else False if len(a) == len(b) == 1 and a != b else None


def sizes(p):
    """terms of sizes of the containers a path has looked at"""
    return sorted({e.res for e in p.ev if e.kind == "call" and e.res and e.res[0] == "pc" and e.res[1] in ("size", "length") and e.res[2][0] == "arg"}, key=str)


def samesize(p):
    s = sizes(p)
    f = Facts(p.w)
    d = {a[2][1] for a in s for b in s if a[2] != b[2] and f.eq(a, b)}
    n = [1 for a in s for b in s if a[2] != b[2] and (f.lt(a, b) or f.lt(b, a))]
    rel = [r for k, r in p.w.rel.items() if k[0] in "us" and k[1] in s and k[2] in s and k[1][2] != k[2][2]]
    if any("eq" not in r for r in rel):
        n.append(1)
    return len(d) == 2, bool(n)


def known(p, t):
    """what a path knows of a truth value: True, False or None"""
    for key, v in p.w.bool.items():
        if key[0] == "bool" and key[1] == t:
            return bool(v)
    v = p.w.value(t, 1) if isinstance(t, tuple) else None
    if v is not None:
        return bool(v)
    iv = p.w.iv.get(t)
    if iv and (iv[2] > 0 or 0 in p.w.ne.get(t, ())):
        return True
    if 0 in p.w.ne.get(t, ()):
        return True
    return None


def copied(p, t, depth=0):
    """what a local copy was made of"""
    t = clean(t)
    if t[0] in ("alloca",) and depth < 4:
        src = [e.args[1] for e in p.ev if e.kind == "call" and e.args and clean(e.args[0]) == t and len(e.args) >= 2 and re.search(r"(basic_string::basic_string|metric_value::metric_value)$", e.short)]
        if len(src) == 1:
            return copied(p, src[0], depth + 1)
    return t


def compared(p, upto=None):
    """[(a, b, equal or not, event)] of the comparisons of elements whose outcome a path knows"""
    out = []
    for e in p.ev:
        if e.kind != "call" or not e.res or e.res[0] != "pc":
            continue
        op = e.res[1]
        if op in ("operator==", "operator!="):
            v = known(p, e.res)
            if v is not None:
                out.append((copied(p, e.res[2]), copied(p, e.res[3]), v == (op == "operator=="), e))
    for e in p.ev:
        if e.kind == "call" and e.short.endswith("::compare") and len(e.args) == 2 and e.res:
            v = p.w.value(e.res, 32)
            if v is not None or p.w.ne.get(e.res) or e.res in p.w.iv:
                out.append((copied(p, e.args[0]), copied(p, e.args[1]), v == 0, e))
    return out


def found(p):
    """{container: [(key address, found or not, iterator)]}"""
    out = []
    for key, v in p.w.bool.items():
        if key[0] != "peq":
            continue
        a, b = clean(key[1]), clean(key[2])
        for x, y in ((a, b), (b, a)):
            if x[0] == "pc" and x[1] == "find" and y[0] == "pc" and y[1] in ("end", "cend") and x[2] == y[2]:
                out.append((x[2], x[3], not v, x))
    for e in p.ev:
        if e.kind == "call" and e.res and e.res[0] == "pc" and e.res[1] == "count":
            v = known(p, e.res)
            if v is not None:
                out.append((clean(e.res[2]), clean(e.res[3]), v, None))
        if e.kind == "call" and e.res and e.res[0] == "pc" and e.res[1] == "at" and "unordered_map" in e.name:
            out.append((clean(e.res[2]), clean(e.res[3]), True, None))
    return out


class Equality:
    """a comparison of two containers"""
    def __init__(self, c, mod, name, what, negated, keyed):
        self.c, self.what, self.neg, self.keyed = c, what, negated, keyed
        self.f = mod.fns[name]
        self.name = name
        self.ps = paths(self.f, mod)
        self.loops = {}
        for p in self.ps:
            for e in p.ev:
                if e.kind == "loop":
                    self.loops.setdefault((e.x["fn"], e.x["h"]), Loop(e, self.ps))

    def matches(self, L, p):
        """containers X so that, on this way through the loop's body, X's element has its equal in the other container"""
        out = set()
        cmp_ = [(a, b) for a, b, v, e in compared(p) if v]
        cmp_ += [(b, a) for a, b in cmp_]
        if self.keyed:
            for cont, key, yes, it in found(p):
                el = L.element(key)
                if not yes or el is None or cont[0] != "arg" or cont[1] == el[0] or el[2] != self.koff:
                    continue
                for a, b in cmp_:
                    x = L.element(a)
                    if x and x[:2] == el[:2] and x[2] == self.voff and self.other(b, cont, key, it):
                        out.add(el[0])
        else:
            for a, b in cmp_:
                x, y = L.element(a), L.element(b)
                if x and y and x[0] != y[0] and x[2] == y[2] == 0 and (x[1] == y[1] or x[1][0] == y[1][0] == "iv"):
                    out |= {x[0], y[0]}
        return out

    def other(self, b, cont, key, it):
        off = 0
        if b[0] == "ptr" and not b[3]:
            b, off = b[1], b[2]
        if b[0] != "pc" or clean(b[2]) != cont or clean(b[3]) != key:
            return False
        return b[1] == "find" and off == self.voff or b[1] == "at" and off == 0

    koff, voff = 16, 48

    def differ(self, p):
        """the path knows a difference"""
        if samesize(p)[1]:
            return True
        for L in self.loops.values():
            if not self.keyed and L.together(p) is False:
                return True
            if self.keyed:
                for cont, key, yes, it in found(p):
                    el = L.element(key)
                    if el and el[2] == self.koff and not yes:
                        return True
            for a, b, v, e in compared(p):
                if v:
                    continue
                x, y = L.element(a), L.element(b)
                if not self.keyed and x and y and x[0] != y[0]:
                    return True
                if self.keyed:
                    for cont, key, yes, it in found(p):
                        for q, z in ((x, b), (y, a)):
                            if q and q[2] == self.voff and self.other(z, cont, key, it):
                                return True
        for a, b, v, e in compared(p):
            if not v and {a, b} == {("arg", 0), ("arg", 1)}:
                return True
        return False

    def equal(self, p):
        """None if the path knows the containers to be equal, else what it does not know"""
        for a, b, v, e in compared(p):
            if v and {a, b} == {("arg", 0), ("arg", 1)}:
                return None
        if not samesize(p)[0] and (self.keyed or not any(L.together(p) for L in self.loops.values())):
            return "without comparing the numbers of elements"
        why = "without comparing all elements"
        for L in self.loops.values():
            if not any(e.kind == "loop" and e.x["h"] == L.h and e.x["fn"] == L.fn for e in p.ev):
                continue
            ends = L.ends(p)
            if not ends or not L.bodies:
                continue
            per = [self.matches(L, q) for q in L.bodies]
            both = set.intersection(*per) if per else set()
            if both & ends or both and not self.keyed and ends:
                return None
            why = "though an element was not found equal to the other's"
        if self.empty(p):
            return None
        return why

    def empty(self, p):
        f = Facts(p.w)
        return any(f.le(s, flow.C(0, 64)) for s in sizes(p))

    def foreign(self, p):
        """functions whose meaning is not known here"""
        for q in [p] + [b for L in self.loops.values() for b in L.bodies]:
            for e in q.ev:
                if e.kind == "call" and not (e.x or {}).get("pure") and not e.short.endswith("::compare") and not re.search(r"~|operator (delete|new)", e.short):
                    self.unknown = self.unknown or "%s calls %s at %s, whose meaning is not known" % (self.name, e.short, e.where())

    def texts(self, p):
        """local texts were compared and found equal, and no element was"""
        cs = [(root(a), root(b)) for a, b, v, e in compared(p) if v]
        return bool(cs) and all(a[0] == b[0] == "alloca" for a, b in cs)

    def facts(self, p):
        """what a path knows of sizes, and that indices that only rise below a size do not pass it"""
        extra = []
        for L in self.loops.values():
            for k, (i, t) in L.iv.items():
                if L.over.get(k, ("",))[0] != "index" or not L.bodies:
                    continue
                for s in sizes(p):
                    if all(Facts(q.w).lt(t, s) for q in L.bodies):
                        extra.append((t, s, 0))
        return Facts(p.w, extra)

    def run(self):
        c = self.c
        rets = [p for p in self.ps if p.kind == "ret"]
        if not rets:
            raise core.AnalysisError("%s never returns" % self.name)
        yes = 0
        self.unknown, broken = None, False
        for p in rets:
            f = self.facts(p)
            if f.infeasible():
                continue
            where = next((e.where() for e in reversed(p.ev) if e.i is not None), core.origin(self.f))
            r, neg = p.ret, self.neg
            while r[0] == "not":
                r, neg = r[1], not neg
            if r[0] == "pc" and r[1] in ("operator==", "operator!=") and {clean(r[2]), clean(r[3])} == {("arg", 0), ("arg", 1)}:
                yes += 1
                c.require((r[1] == "operator!=") == neg, "%s:whole" % self.name, where, "%s gives the opposite" % self.what)
                continue
            v = known(p, r) if not isC(r) else bool(r[1])
            if v is None:
                raise core.AnalysisError("%s: cannot tell the result (%s)" % (self.name, flow.show(p.ret)[:200]))
            if v != neg:
                yes += 1
                why = self.equal(p)
                if why and self.texts(p):
                    why = "by comparing texts made of their elements"
                elif why and not samesize(p)[1]:
                    self.foreign(p)
                if why and self.unknown and not self.texts(p):
                    continue
                broken |= why is not None
                c.require(why is None, "%s:equal" % self.name, where, "%s takes two for equal %s" % (self.what, why))
            else:
                diff = self.differ(p)
                if not diff:
                    self.foreign(p)
                    if self.unknown:
                        continue
                c.require(diff, "%s:different" % self.name, where, "%s takes two for different without having found a difference" % self.what)
        if self.unknown and not broken:
            raise core.AnalysisError(self.unknown)
        if not yes:
            c.bad("%s:never" % self.name, core.origin(self.f), "%s never takes two for equal" % self.what)
        return len(rets)


class Dep:
    """what a term depends on: the contents of the element, the order of the elements, addresses"""
    def __init__(self, L, p, acc):
        self.L, self.p, self.acc = L, p, acc

    def of(self, t, out=None):
        out = set() if out is None else out
        if not isinstance(t, tuple) or not t:
            return out
        if t[0] in ("c", "f", "undef", "g", "fn"):
            return out
        if t[0] == "iv":
            if t in self.acc:
                out.add("acc")
            elif self.L is not None and self.L.element(t):
                out.add("address")
            else:
                out.add("order")
            return out
        if t[0] == "arg":
            out.add("address")
            return out
        if t[0] == "alloca":
            out.add("address")
            return out
        if t[0] == "ptr":
            out.add("address")
            return out
        if t[0] == "ld":
            self.pointee(t[1], out)
            return out
        if t[0] in ("res", "at", "after"):
            k = t[1]
            e = self.p.ev[k] if isinstance(k, int) and k < len(self.p.ev) else None
            if e is None or e.kind != "call":
                out.add("unknown")
                return out
            if re.search(r"::(capacity|bucket\w*|load_factor|max_size|get_allocator)$", e.short):
                out.add("address")
            for a in e.args:
                self.argument(a, out, k)
            return out
        if t[0] == "pc":
            if t[1] in ("capacity", "bucket_count", "max_size", "bucket", "load_factor"):
                out.add("address")
                return out
            if t[1] in ADDRS:
                out.add("address")
                return out
            if t[1] in SIZES and clean(t[2])[0] == "arg":
                return out
            for a in t[2:]:
                self.argument(a, out, len(self.p.ev))
            return out
        if t[0] == "op":
            for a in t[3:]:
                self.of(a, out)
            return out
        if t[0] == "lin":
            for a, k in t[3]:
                self.of(a, out)
            return out
        for a in t[1:]:
            self.of(a, out)
        return out

    def pointee(self, a, out):
        a = clean(a)
        if self.L is not None and self.L.element(a):
            el = self.L.element(a)
            # the links of the container
            out.add("elem" if el[2] >= 8 or el[1][0] != "iv" or a[0] != "iv" else "order")
            return
        r = a
        while r[0] == "ptr":
            r = r[1]
        if r[0] == "alloca":
            self.argument(a, out, len(self.p.ev))
            return
        if r[0] == "pc" and r[1] in ADDRS:
            self.argument(r[2], out, len(self.p.ev))
            return
        if r[0] == "ld":
            self.pointee(r[1], out)
            return
        out.add("unknown")

    def argument(self, a, out, upto, depth=0):
        """of what a function is given: pointers stand for what they point to"""
        if not isinstance(a, tuple):
            return
        a = clean(a)
        if self.L is not None and self.L.element(a):
            out.add("elem")
            return
        r = a
        while r[0] == "ptr":
            r = r[1]
        if r[0] == "alloca":
            if depth > 4:
                return
            for k, e in enumerate(self.p.ev[:upto]):
                if e.kind == "call" and any(root(x) == r for x in e.args[:1]):
                    for x in e.args[1:]:
                        if root(x) != r:
                            self.argument(x, out, k, depth + 1)
            return
        if r[0] == "arg":
            return
        if r[0] == "pc" and r[1] in ADDRS:
            self.argument(r[2], out, upto, depth)
            return
        if r[0] in ("g", "fn"):
            return
        if r[0] == "ld" and a[0] != "iv":
            self.pointee(r[1], out)
            return
        self.of(a, out)


def root(t):
    t = clean(t)
    while t[0] == "ptr":
        t = t[1]
    return t


def conditions(p):
    out = []
    for key in p.w.bool:
        if key[0] in ("bool",):
            out.append(key[1])
    for key in p.w.iv:
        out.append(key)
    for key in p.w.ne:
        out.append(key)
    for key in p.w.rel:
        out += list(key[1:])
    return out


def combined(t, acc):
    """(operation, the other parts) of a term that combines the accumulator with something, None if it is something else"""
    if t == acc:
        return "none", []
    if t[0] == "lin":
        parts = [x for x, k in t[3]]
        ks = [k for x, k in t[3] if x == acc]
        if ks == [1] and acc in parts:
            return "add", [x for x in parts if x != acc]
        return None
    if t[0] == "op" and t[1] in ("xor", "and", "or", "mul"):
        parts = []

        def flat(x):
            if x[0] == "op" and x[1] == t[1]:
                flat(x[3])
                flat(x[4])
            else:
                parts.append(x)
        flat(t)
        if parts.count(acc) == 1:
            return t[1], [x for x in parts if x != acc]
    return None


def hashing(c, mod, name, what, ordered):
    f = mod.fns[name]
    ps = paths(f, mod)
    loops = {}
    for p in ps:
        for e in p.ev:
            if e.kind == "loop":
                loops.setdefault((e.x["fn"], e.x["h"]), Loop(e, ps))
    n = 0
    ops = {}
    used = False
    for L in loops.values():
        elems = [k for k, v in L.over.items()]
        conts = {v[1] for v in L.over.values() if v[0] == "iter"}
        if not L.over:
            raise core.AnalysisError("%s: cannot tell what the loop runs over" % name)
        accs = {t for k, (i, t) in L.iv.items() if k not in L.over}
        for p in L.bodies:
            where = next((e.where() for e in reversed(p.ev) if e.i is not None), core.origin(f))
            d = Dep(L, p, accs)
            for cnd in conditions(p):
                if cnd[0] == "iv" and L.element(cnd) is not None or cnd[0] == "ptr":
                    continue
                w = d.of(cnd)
                if isindex(L, cnd):
                    continue
                n += 1
                if not ordered:
                    c.require(not w & {"acc", "order"}, "%s:condition" % name, where, "%s depends on the order of the elements" % what)
                c.require("address" not in w, "%s:condition:address" % name, where, "%s depends on where things are in memory" % what)
            for k, (i, t) in L.iv.items():
                if k in L.over or i == flow.UNDEF:
                    continue
                new = p.x[k]
                n += 1
                w = d.of(new)
                if "unknown" in w:
                    raise core.AnalysisError("%s: cannot tell what the hash is made of (%s)" % (name, flow.show(new)[:200]))
                c.require("address" not in w, "%s:address" % name, where, "%s depends on where things are in memory" % what)
                used |= "elem" in w
                if ordered:
                    continue
                cmb = combined(new, t)
                if cmb is None:
                    if "acc" in w or "elem" in w or "order" in w:
                        c.bad("%s:order" % name, where, "%s depends on the order of the elements" % what)
                    continue
                ws = set()
                for x in cmb[1]:
                    d.of(x, ws)
                if ws & {"acc", "order"}:
                    c.bad("%s:order" % name, where, "%s depends on the order of the elements" % what)
                    continue
                if cmb[0] != "none":
                    ops.setdefault((L.fn, L.h, k), set()).add(cmb[0])
                c.ok("%s:order" % name)
        for p in ps:
            # leaving the loop early
            if p.kind == "ret" and any(e.kind == "loop" and e.x["h"] == L.h and e.x["fn"] == L.fn for e in p.ev):
                if not L.ends(p) and not ordered:
                    c.bad("%s:early" % name, next((e.where() for e in reversed(p.ev) if e.i is not None), core.origin(f)), "%s leaves out elements in the order they come" % what)
    for k, s in ops.items():
        c.require(len(s) == 1, "%s:mixed" % name, core.origin(f), "%s combines elements in different ways, so that it depends on their order" % what)
    accs = {t for L in loops.values() for k, (i, t) in L.iv.items() if k not in L.over}
    rets = [p for p in ps if p.kind == "ret"]
    for p in rets:
        d = Dep(None, p, accs)
        w = d.of(p.ret)
        n += 1
        if "unknown" in w:
            raise core.AnalysisError("%s: cannot tell what the hash is made of (%s)" % (name, flow.show(p.ret)[:200]))
        c.require("address" not in w, "%s:result:address" % name, core.origin(f), "%s depends on where things are in memory" % what)
        if not ordered:
            c.require("order" not in w, "%s:result:order" % name, core.origin(f), "%s depends on the order of the elements" % what)
    if not rets:
        raise core.AnalysisError("%s never returns" % name)
    return n


def isindex(L, t):
    for k, (i, x) in L.iv.items():
        if t == x and k in L.over:
            return True
    return False


def deps_of_value(c, mod):
    """the hash of a value is made of the value alone"""
    n = 0
    for name, f in sorted(mod.fns.items()):
        if not name.startswith("one_hash_"):
            continue
        n += 1
        bad = []
        for w, (o,) in flow.cases([f], nan=False, mod=mod):
            t = o.ret
            for x in walk(t, lambda y: y[0] in ("alloca", "g", "fn", "chars"), []):
                bad.append((w, x))
            if not isC(t) and not walk((t, tuple(o.trace)), lambda y: y == ("arg", 0), []):
                bad.append((w, t))
        c.require(not bad, "value:" + name[9:], core.origin(f), "the hash of a value depends on something else than the value (%s)" % (flow.show(bad[0][1])[:200] if bad else ""))
    return n


@prop("C09", technique="value-flow normal forms (compiler IR) for values; dataflow over loops for tags and paths", level="sound-analysis",
      explains="hashes of metric values of each type against those of equal values of other types; comparison and hash of tag collections and of metric paths: every path of each function, the loops by one generic iteration",
      rule=SPEC_RULE + "; a comparison gives true only where numbers of elements are equal and every element was found with an equal value in the other collection (paths: at the same place), and false only where a difference was found; the hash of tags combines a function of each element's contents alone with one commutative operation; no hash depends on where things are in memory",
      assumptions=["std::hash gives equal texts and equal floating point numbers equal hashes", "values are compared as C06 says, floating point values are not NaN"])
def c09(c):
    m = core.normalise("keys.cpp", "S", policies.S, prefix="drv_,ref_,one_")
    n = core.spec_pairs(c, m, nan=False, prefix="hash_")
    c.expect(n, 15, "hashes of values compared")
    for name in sorted(x for x in m.fns if x.startswith("drv_kinds_")):
        k = name[10:]
        kinds(c, m, k)
    n = deps_of_value(c, m)
    c.expect(n, 4, "hashes of values")
    mod = core.normalise("keys.cpp", "A", KEYS, prefix="ky_")
    n = Equality(c, mod, "ky_tags_eq", "comparing tags", False, True).run()
    n += Equality(c, mod, "ky_tags_ne", "comparing tags", True, True).run()
    n += Equality(c, mod, "ky_path_eq", "comparing paths", False, False).run()
    n += Equality(c, mod, "ky_path_ne", "comparing paths", True, False).run()
    c.expect(n, 4, "ways through comparisons")
    n = hashing(c, mod, "ky_tags_hash", "the hash of tags", False)
    n += hashing(c, mod, "ky_path_hash", "the hash of a path", True)
    c.expect(n, 2, "values that make up hashes")


def kinds(c, m, k):
    d, r = m.fns["drv_kinds_" + k], m.fns["ref_kinds_" + k]
    a, b = k.split("_")
    try:
        same = all(x.ret == y.ret for w, (x, y) in flow.cases([d, r], nan=False, mod=m))
    except flow.TooBig as e:
        raise core.AnalysisError("%s: %s" % (k, e))
    c.require(same, "kinds:%s:%s" % (a, b), core.origin(d), "a value that is %s and one that is %s compare equal and have different hashes" % (a, b))
