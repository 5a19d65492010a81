"""Abstract interpretation of what code writes to a stream (and appends to local strings).

The abstract value of a stream or string is a relation over the states of an automaton (exposition.py): what was
written so far leads from which state to which.  A loop is a fixpoint, told apart into its first iteration and the
later ones.  A function that writes is summarised for the assumptions that matter to its callers: whether a string
or container it is given is empty, and whether a string begins with a digit.
"""
import itertools
import re

from . import core, flow, trace
from .flow import isC, sgn
from .snapshots import ptr

STREAM = re.compile(r"^(std::ostream|std::basic_ostream<char, std::char_traits<char> ?>)&$")
STRING = re.compile(r"^(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>|std::string)(?: const)?(&|&&)?$")
CT = {"isalnum": str.isalnum, "isalpha": str.isalpha, "isdigit": str.isdigit, "isspace": str.isspace, "isupper": str.isupper, "islower": str.islower,
      "isxdigit": lambda c: c in "0123456789abcdefABCDEF", "isprint": str.isprintable, "ispunct": lambda c: c.isprintable() and not c.isalnum() and c != " "}
ACCESS = re.compile(r"^cxxmetrics::(?:\w+_publish_options|publish_options|scale_factor)::(\w+)\(|^cxxmetrics::(?:\w+_snapshot|quantile)::(count|percentile|begin|end|\w+)\(")


def params(name):
    """the types of the parameters of a demangled function"""
    k = name.rfind(")")
    if k < 0:
        return []
    d = 0
    j = k
    while j >= 0:
        if name[j] in ")>":
            d += 1
        elif name[j] in "(<":
            d -= 1
            if d == 0:
                break
        j -= 1
    out, cur, d = [], "", 0
    for ch in name[j + 1:k]:
        if ch in "(<":
            d += 1
        elif ch in ")>":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_strip = {}


def strip(t):
    """a term without the versions of containers and memory: what is formatted does not change meanwhile"""
    if not isinstance(t, tuple):
        return t
    r = _strip.get(t)
    if r is None:
        if t and t[0] == "pc" and isinstance(t[-1], int):
            r = tuple(strip(x) for x in t[:-1])
        elif t and t[0] == "ld":
            r = ("ld", strip(ptr(t[1])), t[2], t[3])
        elif t and t[0] == "ptr" and not t[2] and not t[3]:
            r = strip(t[1])
        else:
            r = tuple(strip(x) for x in t)
        _strip[t] = r
    return r


def subst(t, sub):
    if not sub or not isinstance(t, tuple):
        return t
    if t in sub:
        return sub[t]
    r = tuple(subst(x, sub) for x in t)
    if r == t:
        return t
    if r and r[0] == "ptr" and isinstance(r[1], tuple) and r[1] and r[1][0] == "ptr":
        b = r[1]
        r = ("ptr", b[1], b[2] + r[2], tuple(b[3]) + tuple(r[3]))
    if r and r[0] == "ptr" and not r[2] and not r[3]:
        r = r[1]
    return r


def at(t, off):
    q = ptr(t)
    return ("ptr", q[1], q[2] + off, q[3])


def held(stores, a):
    """what a local was filled with: the terms stored or copied from, transitively"""
    out, todo = [], [ptr(a)[1]] if isinstance(a, tuple) else []
    while todo:
        b = todo.pop()
        if b[0] != "alloca" or b in out:
            continue
        out.append(b)
        for s in reversed(stores):
            if s[0] == "copy" and isinstance(s[2], tuple):
                if ptr(s[1])[1] == b:
                    todo.append(ptr(s[2])[1])
                    out.append(ptr(s[2])[1]) if todo[-1][0] != "alloca" else None
                    break
            elif isinstance(s[0], tuple) and ptr(s[0])[1] == b:
                v = s[2]
                out.append(v)
                while isinstance(v, tuple) and v and v[0] == "ld":
                    v = ptr(v[1])[1]
                todo.append(v) if isinstance(v, tuple) and v else None
                break
    return tuple(out)


class Tracer(trace.Tracer):
    """options and snapshots are asked without side effects; writing to a stream changes only the stream"""

    def special(self, i, name, args):
        raw = i.callee_raw
        m = ACCESS.match(name)
        if m and i.ty != "void":
            t = ("pc", m.group(0)[:-1]) + tuple(args) + (0,)
            self.ev.append(trace.Ev("call", i, name=name, args=args, res=t, x={"pure": True, "held": held(self.stores, args[0]) if args else ()}))
            return t
        f = self.mod.fns.get(i.callee_raw) if self.mod is not None else None
        if not (f is not None and f.follow) and self.harmless(i, name):
            res = ("res", len(self.ev))
            self.ncall[0] += 1
            self.ev.append(trace.Ev("call", i, name=name, args=args, res=res, x={"quiet": True}))
            return res
        return None

    def harmless(self, i, name):
        if ACCESS.match(name) and i.ty != "void" or "quantile_options" in (i.d.get("cls") or ""):
            return True
        ps = params(name)
        return any(STREAM.match(p) for p in ps) and all(STREAM.match(p) or not p.endswith(("&", "*")) or re.search(r"const[&*]$", p) for p in ps) \
            or name.startswith(("std::ostream::", "std::basic_ostream<")) or re.match(r"^(std::basic_ostream<char, std::char_traits<char> ?>& )?std::operator<<", name)

    def step(self, i):
        # a choice between values is followed like one between paths
        if i.op == "select" and i.ops[0]["k"] == "v":
            self.env[i.id] = self.val(i.ops[1 if self.truth(self.val(i.ops[0])) else 2])
            return None
        return super().step(i)

    def call(self, i):
        mem = Memory(self) if i.d.get("cls") else None
        n = len(self.ev)
        r = super().call(i)
        if mem is not None and len(self.ev) > n and self.ev[n].kind == "call":
            self.ev[n].x = dict(self.ev[n].x or {}, mem=mem, cls=i.d["cls"])
        return r


class Memory:
    """what a path has done so far"""

    def __init__(self, t):
        self.stores, self.ver, self.clob, self.ncall, self.ev = list(t.stores), dict(t.ver), list(t.clob), list(t.ncall), list(t.ev)
        self.w = t.w
        self.counter = t.counter[0]

    def load(self, mod, a, size=8, ty="ptr"):
        t = Tracer(next(iter(mod.fns.values())), self.w.copy(), mod=mod)
        t.stores = self.stores
        return t.load(a, size, ty)


_unique = [0]


def within(mod, fn, mem, argmap, w=None, limit=20000):
    """the paths of a function that is called when a path has come to some point, including what the path did before"""
    _unique[0] += 1000

    class T(Tracer):
        def __init__(self, f, world, argmap=None, **kw):
            super().__init__(f, world, argmap, **kw)
            if kw.get("parent") is None:
                self.stores, self.ev, self.ver, self.clob, self.ncall = list(mem.stores), list(mem.ev), dict(mem.ver), list(mem.clob), list(mem.ncall)
                self.counter = [_unique[0]]
                self.inst = (_unique[0],)
    u = _unique[0]
    w = (w or mem.w).copy()
    w.marks = {n: m for n, m in w.marks.items() if n < len(mem.ev)}
    out = list(trace.paths(mod.fns[fn], mod, cls=T, stable=True, argmap=argmap, world=w, limit=limit))
    _unique[0] = max(u, _unique[0]) + 1000
    return out


def slots(mod, mem, obj):
    """the functions in the vtable of an object in a path's memory"""
    r = ptr(obj)
    v = ptr(mem.load(mod, ("ptr", r[1], r[2], r[3])))
    if v[1][0] != "g" or v[2] != 16 or v[3]:
        return None
    d = mod.globals.get(v[1][1])
    if d is None or not isinstance(d.get("init"), list):
        return None
    return [x.get("n") if x.get("k") == "fn" else None for x in d["init"][0]][2:]



class Env:
    """what is assumed while a path is judged: the iteration, and how strings begin"""

    def __init__(self, atoms, sub):
        self.atoms, self.sub = atoms, sub
        self.chars = {}

    def norm(self, t):
        t = strip(t)
        if self.sub:
            t = subst(t, self.sub)
            t = strip(t)
        return t

    def atom(self, s):
        return self.atoms.get(s)

    # -- characters
    def ck(self, t):
        """key of the character a normalised load denotes"""
        if t[0] != "ld" or t[2] != 1:
            return None
        a = ptr(t[1])
        b = a[1]
        if b[0] == "pc" and not a[3]:
            s = b[2] if len(b) > 2 else None
            if b[1] in ("operator[]", "at") and b[3] == ("c", 0, 64) and a[2] == 0 or b[1] in ("begin", "cbegin", "data", "c_str", "front") and a[2] == 0:
                return ("first", s)
        return ("some", t)

    def width(self, t):
        if isC(t):
            return t[2]
        if t[0] == "ld":
            return 8 * t[2]
        if t[0] == "lin":
            return t[1]
        if t[0] == "op":
            return flow.width(t[2]) if isinstance(t[2], str) else None
        return None

    def ev(self, t):
        """unsigned interval of a normalised term, or None"""
        if isC(t):
            return (t[1], t[1])
        if t == flow.NULL:
            return (0, 0)
        k = t[0]
        if k == "ld":
            c = self.ck(t)
            if c is not None and c in self.chars:
                v = self.chars[c]
                return (v, v)
            return (0, (1 << (8 * t[2])) - 1) if isinstance(t[2], int) and t[2] < 8 else None
        if k == "pc":
            if t[1] in ("size", "length"):
                a = self.atom(t[2])
                return (0, 0) if a == "E" else (1, 1 << 62) if a else (0, 1 << 62)
            if t[1] == "empty":
                a = self.atom(t[2])
                return (1, 1) if a == "E" else (0, 0) if a else None
            if t[1] in CT:
                v = self.ev(t[2])
                if v is not None and v[0] == v[1]:
                    c = v[0] if v[0] < 128 else None
                    return (1, (1 << 31) - 1) if c is not None and CT[t[1]](chr(c)) else (0, 0)
            if t[1] in ("operator==", "operator!=") and len(t) >= 4:
                r = self.same(t[2], t[3])
                return None if r is None else (int(r == (t[1] == "operator==")),) * 2
            return None
        if k == "lin":
            s = t[2]
            for x, m in t[3]:
                v = self.ev(x)
                if v is None or v[0] != v[1]:
                    if len(t[3]) == 1 and m == 1 and v is not None and v[1] + sgn(t[2], t[1]) < (1 << t[1]) and v[0] + sgn(t[2], t[1]) >= 0:
                        return (v[0] + sgn(t[2], t[1]), v[1] + sgn(t[2], t[1]))
                    return None
                s += v[0] * m
            s &= (1 << t[1]) - 1
            return (s, s)
        if k == "not":
            v = self.ev(t[1])
            return None if v is None or v[0] != v[1] else (1 - (v[0] & 1),) * 2
        if k == "cmp":
            _, kind, pred, a, b, w = t
            if kind != "i":
                return None
            o = self.order(a, b, w, pred[0] == "s")
            if o is None:
                return None
            p = pred if pred in ("eq", "ne") else pred[1:]
            rs = {x in flow.RELS[p] for x in o}
            return (int(rs.pop()),) * 2 if len(rs) == 1 else None
        if k == "op":
            o = t[1]
            w = flow.width(t[2]) if isinstance(t[2], str) else None
            if o in ("zext", "freeze", "bitcast"):
                return self.ev(t[3])
            if o == "select":
                c = self.ev(t[3])
                return None if c is None or c[0] != c[1] else self.ev(t[4] if c[0] & 1 else t[5])
            vs = [self.ev(x) for x in t[3:] if isinstance(x, tuple)]
            if w is None or any(v is None or v[0] != v[1] for v in vs) or not vs:
                return None
            v = [x[0] for x in vs]
            if o == "sext":
                n = flow.width(t[4]) if len(t) > 4 and isinstance(t[4], str) else self.width(t[3])
                if n is None:
                    return None
                r = sgn(v[0], n)
            elif o == "trunc":
                r = v[0]
            elif o in ("and", "or", "xor", "add", "sub", "mul", "shl", "lshr") and len(v) == 2:
                r = {"and": v[0] & v[1], "or": v[0] | v[1], "xor": v[0] ^ v[1], "add": v[0] + v[1], "sub": v[0] - v[1], "mul": v[0] * v[1],
                     "shl": v[0] << min(v[1], 64), "lshr": v[0] >> min(v[1], 64)}[o]
            else:
                return None
            r &= (1 << w) - 1
            return (r, r)
        return None

    def order(self, a, b, w, signed):
        """possible outcomes of a comparison"""
        if a == b:
            return {"eq"}
        x, y = self.ev(a), self.ev(b)
        if x is None or y is None:
            r = self.same(a, b) if not signed else None
            return None if r is None else {"eq"} if r else {"lt", "gt"}
        if signed and w:
            h = 1 << (w - 1)
            if x[0] == x[1]:
                x = (sgn(x[0], w),) * 2
            if y[0] == y[1]:
                y = (sgn(y[0], w),) * 2
            if x[1] >= h or y[1] >= h:
                return None
        out = set()
        if x[0] < y[1]:
            out.add("lt")
        if x[1] > y[0]:
            out.add("gt")
        if x[0] <= y[1] and y[0] <= x[1]:
            out.add("eq")
        return out

    def same(self, a, b):
        """whether two pointers are equal, if known"""
        if a == b:
            return True
        p, q = ptr(a), ptr(b)
        if p[1] == q[1] and p[3] == q[3]:
            return p[2] == q[2]
        for x, y in ((p, q), (q, p)):
            if x[1][0] == y[1][0] == "pc" and len(x[1]) > 2 and len(y[1]) > 2 and x[1][1] in ("begin", "cbegin") and y[1][1] in ("end", "cend") and x[1][2] == y[1][2]:
                a = self.atom(x[1][2])
                if a and not x[3] and not y[3] and not y[2]:
                    if a == "E":
                        return x[2] == 0
                    if x[2] == 0:
                        return False
        return None

    # -- facts
    def facts(self, w):
        """[(keys of the characters it is about, whether it can hold given self.chars)]"""
        out = []
        for t, b in w.iv.items():
            n = self.norm(t)
            out.append((self.keys(n), lambda n=n, b=b: self.inside(n, b)))
        for t, ex in w.ne.items():
            if ex:
                n = self.norm(t)
                out.append((self.keys(n), lambda n=n, ex=ex: not (lambda v: v is not None and v[0] == v[1] and v[0] in {e & ((1 << (self.width(n) or 64)) - 1) for e in ex})(self.ev(n))))
        for key, s in w.rel.items():
            if key[0] not in ("s", "u"):
                continue
            a, b = self.norm(key[1]), self.norm(key[2])
            out.append((self.keys(a) | self.keys(b), lambda a=a, b=b, k=key[0], s=s: self.rel(a, b, k, s)))
        for key, val in w.bool.items():
            if key[0] == "peq":
                a, b = self.norm(key[1]), self.norm(key[2])
                out.append((frozenset(), lambda a=a, b=b, val=val: self.same(a, b) in (None, bool(val))))
            elif key[0] == "bool":
                n = self.norm(key[1])
                out.append((self.keys(n), lambda n=n, val=val: (lambda v: v is None or v[0] != v[1] or bool(v[0] & 1) == bool(val))(self.ev(n))))
        return out

    def rel(self, a, b, k, s):
        o = self.order(a, b, self.width(a) or self.width(b), k == "s")
        return o is None or bool(o & set(s))

    def inside(self, n, b):
        v = self.ev(n)
        if v is None:
            return True
        slo, shi, ulo, uhi = b
        if v[1] < ulo or v[0] > uhi:
            return False
        w = self.width(n)
        if v[0] == v[1] and w:
            x = sgn(v[0], w)
            return slo <= x <= shi
        return True

    def keys(self, t):
        out = set()

        def go(x):
            if not isinstance(x, tuple):
                return
            if x and x[0] == "ld":
                c = self.ck(x)
                if c is not None:
                    out.add(c)
                    return
            for y in x:
                go(y)
        go(t)
        return frozenset(out)

    def first(self, s):
        a = self.atom(s)
        if a == "E":
            return {0}
        if a == "D":
            return set(range(48, 58))
        if a == "N":
            return set(range(256)) - set(range(48, 58))
        return set(range(256))

    def feasible(self, w):
        """None if the facts contradict each other, else {character: values it may have}"""
        fs = self.facts(w)
        doms = {}
        for ks, one in fs:
            if not ks and not one():
                return None
        for k in {k for ks, _ in fs for k in ks}:
            doms[k] = set(self.first(k[1])) if k[0] == "first" else set(range(256))
        for k in doms:
            mine = [one for ks, one in fs if ks == {k}]
            ok = set()
            for v in doms[k]:
                self.chars = {k: v}
                if all(one() for one in mine):
                    ok.add(v)
            self.chars = {}
            if not ok:
                return None
            doms[k] = ok
        return doms

    def values(self, t, doms):
        """the values a character term may have"""
        n = self.norm(t)
        ks = self.keys(n)
        if len(ks) == 1:
            k, = ks
            out = set()
            for v in doms.get(k, self.first(k[1]) if k[0] == "first" else range(256)):
                self.chars = {k: v}
                r = self.ev(n)
                if r is None or r[0] != r[1]:
                    self.chars = {}
                    return None
                out.add(r[0] & 255)
            self.chars = {}
            return out
        r = self.ev(n)
        if r is not None and r[0] == r[1]:
            return {r[0] & 255}
        return None


class Emit:
    def __init__(self, mod, automaton, number=None, paths=None):
        """number(p, k, addr): whether the metric value at an address is a number whatever happens"""
        self.mod = mod
        self.X = automaton
        self.number = number
        self._p, self._s, self._keys = {} if paths is None else paths, {}, {}
        self.sites = set()
        self.why = {}
        self.derefs = {}
        self._in = {}

    # ------------------------------------------------------------ paths
    def paths(self, fn):
        if fn not in self._p:
            self._p[fn] = list(trace.paths(self.mod.fns[fn], self.mod, cls=Tracer, stable=True))
        return self._p[fn]

    def text(self, t):
        """the literal a pointer refers to"""
        p = ptr(t)
        if p[1][0] != "g" or p[3]:
            return None
        d = self.mod.globals.get(p[1][1])
        if d is None or not d.get("const"):
            return None
        i = d.get("init")
        if isinstance(i, dict) and "hex" in i:
            b = bytes.fromhex(i["hex"])
        elif isinstance(i, dict) and "zero" in i:
            b = bytes(d["size"])
        else:
            return None
        return b[p[2]:]

    def cstr(self, t):
        b = self.text(t)
        return None if b is None or 0 not in b else b[:b.index(0)]

    # ------------------------------------------------------------ strings functions are given
    def subjects(self, fn):
        """arguments whose emptiness or first character matters to a function"""
        if fn not in self._keys:
            self._keys[fn] = set()       # recursion
            out = set()

            def mark(t):
                t = ptr(strip(t))
                if t[1][0] == "arg" and not t[3]:
                    out.add((t[1][1], t[2]))
            for p in self.paths(fn):
                ts = list(p.w.iv) + list(p.w.ne) + [x for k in list(p.w.rel) + list(p.w.bool) for x in k[1:] if isinstance(x, tuple)]
                for e in p.ev:
                    if e.kind == "loop":
                        ts += [v[0] for v in e.x["iv"].values() if v[0] is not None]
                    elif e.kind == "call" and self.writer(e):
                        raw = e.i.callee_raw
                        for k, off in self.subjects(raw):
                            if k < len(e.args):
                                mark(at(e.args[k], off))

                def go(x):
                    if not isinstance(x, tuple):
                        return
                    if x and x[0] == "pc" and len(x) > 2 and isinstance(x[2], tuple):
                        mark(x[2])
                    for y in x:
                        go(y)
                for t in ts:
                    go(t)
            self._keys[fn] = out
        return self._keys[fn]

    def writer(self, e):
        """whether a call is to a function of the repository that writes to a stream"""
        raw = e.i.callee_raw if e.i is not None else None
        f = self.mod.fns.get(raw) if raw else None
        return f is not None and not f.follow and any(STREAM.match(x) for x in params(e.name)) and not e.name.startswith("cxxmetrics::operator<<")

    # ------------------------------------------------------------ summaries
    def summary(self, fn, atoms, consts=()):
        """consts: arguments that are literals or constants"""
        key = (fn, tuple(sorted(atoms.items())), tuple(sorted(consts)))
        if key not in self._s:
            self._s[key] = self.X.NONE
            for _ in range(20):
                rel = self.solve(fn, self.paths(fn), {strip(at(("arg", k), off)): a for (k, off), a in atoms.items()}, {("arg", k) for k, p in enumerate(params(self.mod.fns[fn].dem)) if STREAM.match(p)}, consts=dict(consts))
                if rel == self._s[key]:
                    break
                self._s[key] = rel
        return self._s[key]

    def solve(self, fn, paths, atoms, streams, start=0, strings=None, consts=None):
        """the relation between the states before and after a function"""
        F, L = {}, {}
        later = {}
        for p in paths:
            if p.kind != "back":
                continue
            for e in p.ev[start:]:
                if e.kind == "loop" and e.x["h"] == p.ret and e.x["fn"] == fn:
                    for k, (init, t) in e.x["iv"].items():
                        new = p.x.get(k) if p.x else None
                        vs = later.setdefault((fn, p.ret), {}).setdefault(t, set())
                        # a way on which it stays as it is, and that cannot be taken at first, makes no difference
                        if new is not None and strip(new) == strip(t) and init is not None and isC(init) and Env(atoms, {**(consts or {}), strip(t): strip(init)}).feasible(p.w) is None:
                            continue
                        vs.add(new)
        const = {}
        for h, d in later.items():
            const[h] = {strip(t): strip(next(iter(vs))) for t, vs in d.items() if len(vs) == 1 and None not in vs and (isC(next(iter(vs))) or ptr(next(iter(vs)))[1][0] == "g")}
        last = self.X.NONE
        while True:
            before = (dict(F), dict(L), last)
            ret = self.X.NONE
            for p in paths:
                r = self.walk(p, start, dict(strings or {}, out=self.X.ID), Env(atoms, dict(consts or {})), streams, F, L, const)
                if p.kind in ("ret",):
                    for s in r:
                        ret = self.X.join(ret, s["out"])
            last = ret
            if (F, L, ret) == before:
                return ret

    def again(self, p, e, env):
        """whether a path takes what a walk got to after its first element for the first element"""
        for key, v in p.w.bool.items():
            if v and key[0] == "peq":
                a, b = strip(key[1]), strip(key[2])
                for k, (init, t) in e.x["iv"].items():
                    i, t = strip(init) if init is not None else None, strip(t)
                    if i is not None and i[0] == "pc" and i[1].split("::")[-1] in ("begin", "cbegin") and (a, b) in ((i, t), (t, i)) and self.onward(e.x["fn"], e.x["h"], k, t):
                        return True
        for k, (init, t) in e.x["iv"].items():
            # a count from nought is not nought later (it does not wrap around before memory is full)
            if init is not None and isC(strip(init)) and strip(init)[1] == 0 and self.counts(e.x["fn"], e.x["h"], k, strip(t)):
                if any(strip(x) == strip(t) and b[2:] == [0, 0] for x, b in p.w.iv.items()):
                    return True
        return False

    def counts(self, fn, h, k, t):
        ss = [strip(q.x.get(k)) if q.x and q.x.get(k) is not None else None for q in self.paths(fn) if q.kind == "back" and q.ret == h]
        return bool(ss) and all(s and s[0] == "lin" and s[1] == 64 and s[2] == 1 and s[3] == ((t, 1),) for s in ss)

    def onward(self, fn, h, k, t):
        """whether each way round a loop goes on to what follows"""
        n = 0
        for q in self.paths(fn):
            if q.kind == "back" and q.ret == h:
                s = strip(q.x.get(k)) if q.x and q.x.get(k) is not None else None
                if s is None or not (s[0] == "ld" and ptr(s[1])[1] == t and not ptr(s[1])[2] or s[0] == "ptr" and s[1] == t and s[2] > 0 and not s[3]):
                    return False
                n += 1
        return n > 0

    def walk(self, p, k, state, env, streams, F, L, const):
        doms = None
        state = dict(state)
        n = len(p.ev)
        while k < n:
            e = p.ev[k]
            if e.kind == "loop":
                h = (e.x["fn"], e.x["h"])
                at = h + tuple(p.w.log[:p.w.marks.get(k, 0)])
                first = dict(env.sub)
                first.update({strip(t): env.norm(init) for init, t in e.x["iv"].values() if init is not None})
                rest = {t: v for t, v in env.sub.items() if t not in {strip(t) for _, t in e.x["iv"].values()}}
                rest.update(const.get(h, {}))
                e1 = Env(env.atoms, first)
                if env.feasible(p.w) is None and not e.x["iv"]:
                    return []
                # states that get to the loop, if the facts allow that
                self.merge(F, at, state)
                out = []
                if e1.feasible(p.w) is not None:
                    out += self.walk(p, k + 1, F[at], e1, streams, F, L, const)
                if at in L:
                    e2 = Env(env.atoms, rest)
                    if e2.feasible(p.w) is not None and not self.again(p, e, env):
                        out += self.walk(p, k + 1, L[at], e2, streams, F, L, const)
                return out
            if doms is None:
                doms = env.feasible(p.w)
                if doms is None:
                    return []
            self.event(p, k, e, state, env, doms, streams)
            k += 1
        if doms is None and env.feasible(p.w) is None:
            return []
        if p.kind == "back":
            n, fn = next((n, e.x["fn"]) for n, e in reversed(list(enumerate(p.ev))) if e.kind == "loop" and e.x["h"] == p.ret)
            self.merge(L, (fn, p.ret) + tuple(p.w.log[:p.w.marks.get(n, 0)]), state)
            return []
        return [state]

    def merge(self, D, h, state):
        if h not in D:
            D[h] = dict(state)
            return
        d = D[h]
        for s in set(d) | set(state):
            d[s] = self.X.join(d.get(s, self.X.ANY), state.get(s, self.X.ANY))

    # ------------------------------------------------------------ events
    def isstream(self, t, p, streams):
        t = strip(t)
        for _ in range(100):
            if t in streams:
                return True
            if t[0] != "res":
                return False
            e = p.ev[t[1]]
            if not e.args:
                return False
            ok = re.search(r"operator<<|^std::(basic_)?ostream", e.name) or self.writer(e)
            if not ok:
                return False
            if self.writer(e):
                k = next(k for k, x in enumerate(params(e.name)) if STREAM.match(x))
                t = strip(e.args[k])
            else:
                t = strip(e.args[0])
        return False

    def put(self, state, sink, rel, e):
        old = state[sink]
        state[sink] = self.X.then(old, rel)

    def event(self, p, k, e, state, env, doms, streams):
        if e.kind == "load" or e.kind == "store":
            self.deref(p, e, env)
            return
        if e.kind != "call":
            return
        name, short = e.name, e.short
        if e.x and e.x.get("cls"):
            return self.virtual(p, k, e, state, env, streams)
        st = [n for n, a in enumerate(e.args) if isinstance(a, tuple) and self.isstream(a, p, streams)]
        if not st:
            if any(STREAM.match(x) for x in params(name)) or name.startswith(("std::ostream::", "std::basic_ostream<")):
                raise core.AnalysisError("%s writes to a stream that is not known (%s)" % (name[:100], e.where()))
            return self.strings(p, k, e, state, env, doms)
        rel = self.written(p, k, e, state, env, doms, st)
        if rel is None:
            raise core.AnalysisError("cannot tell what %s writes (%s)" % (name[:120], e.where()))
        self.sites.add(e.where())
        self.emitted(p, e, state, env, rel)

    def emitted(self, p, e, state, env, rel):
        old = state["out"]
        state["out"] = new = self.X.then(old, rel)
        for q in range(self.X.n):
            if self.X.dead in new[q] and self.X.dead not in old[q]:
                self.why.setdefault((q, id(p)), (e, env, [x for x in old[q] if self.X.dead in rel[x]]))

    def handlers(self, p, k, e):
        """the functions a virtual call may make of the objects it is given, traced from here: [[path]]"""
        key = (id(p), k)
        if key not in self._in:
            out = []
            for a in e.args[1:]:
                if not isinstance(a, tuple) or ptr(a)[1][0] != "alloca":
                    continue
                fns = slots(self.mod, e.x["mem"], a)
                for f in fns or []:
                    if f is None or f not in self.mod.fns or "::~" in self.mod.fns[f].dem:
                        continue
                    n = len(params(self.mod.fns[f].dem))
                    amap = {0: a}
                    amap.update({m: ("arg", 1000 * (k + 1) + m) for m in range(1, n + 1)})
                    out.append((f, within(self.mod, f, e.x["mem"], amap, p.w)))
            self._in[key] = out
        return self._in[key]

    def virtual(self, p, k, e, state, env, streams):
        rel = self.X.NONE
        for f, ps in self.handlers(p, k, e):
            r = self.solve(f, ps, env.atoms, streams, len(e.x["mem"].ev), {s: v for s, v in state.items() if s != "out"})
            rel = self.X.join(rel, r)
        if rel != self.X.NONE:
            self.emitted(p, e, state, env, self.X.star(rel))

    def deref(self, p, e, env):
        a = ptr(strip(e.addr))
        b = a[1]
        if b[0] == "pc" and b[1] in ("begin", "cbegin", "front") and len(b) > 2 and env.atom(b[2]) == "E":
            self.derefs.setdefault(strip(b[2]), e)

    def written(self, p, k, e, state, env, doms, st):
        """the relation of what a call writes to the stream; None if unknown"""
        name, short = e.name, e.short
        ps = params(name)
        if self.writer(e):
            return self.called(p, e, env)
        m = short.split("::")[-1]
        if re.search(r"(^| )cxxmetrics::operator<<", name) and "metric_value" in name:
            return self.X.NUM if self.number and self.number(p, k, e.args[1]) else self.X.ANY
        if short in ("std::operator<<",) or name.startswith(("std::ostream::operator<<", "std::basic_ostream<char, std::char_traits<char>>::operator<<", "std::basic_ostream<char, std::char_traits<char> >::operator<<")):
            ty = ps[-1]
            v = e.args[1]
            if re.match(r"^(signed |unsigned )?char$", ty):
                vs = env.values(v, doms)
                return self.X.charset(vs if vs is not None else range(256))
            if re.match(r"^(signed |unsigned )?char const\*$", ty):
                b = self.cstr(env.norm(v))
                if b is None:
                    b = self.choice(env.norm(v), env)
                    if b is None:
                        return self.X.ANY
                    return b
                return self.X.literal(b)
            if STRING.match(ty):
                return self.content(v, state)
            if re.match(r"^(unsigned )?(short|int|long|long long|bool)$", ty):
                return self.X.DIGITS
            if ty in ("float", "double", "long double"):
                return self.X.NUM
            if "std::_Set" in ty:
                return self.X.ID
            if ty.startswith("std::ostream& (*)") or ty.startswith("std::basic_ostream<char, std::char_traits<char> >& (*)"):
                g = ptr(v)[1]
                nm = self.mod.dem(g[1]) if hasattr(self.mod, "dem") and g[0] == "fn" else str(g)
                if "endl" in nm:
                    return self.X.literal(b"\n")
                if "flush" in nm:
                    return self.X.ID
                return None
            return None
        if m == "put":
            vs = env.values(e.args[1], doms)
            return self.X.charset(vs if vs is not None else range(256))
        if m == "write" and len(e.args) == 3:
            b, n = self.text(env.norm(e.args[1])), env.norm(e.args[2])
            if b is not None and isC(n) and n[1] <= len(b):
                return self.X.literal(b[:n[1]])
            s = env.norm(e.args[1])
            if s[0] == "pc" and s[1] in ("data", "c_str"):
                return self.content(s[2], state)
            return self.X.ANY
        if m in ("flush", "precision", "width", "fill", "setf", "unsetf", "flags", "imbue", "good", "fail", "tellp", "rdbuf", "operator bool", "operator!"):
            return self.X.ID
        if name.startswith(("std::ios_base::", "std::basic_ios<")):
            return self.X.ID
        return None

    def choice(self, t, env):
        """a pointer that is one of several literals"""
        if t[0] == "op" and t[1] == "select":
            out = self.X.NONE
            for x in t[4:6]:
                b = self.cstr(x)
                r = self.X.literal(b) if b is not None else self.choice(x, env)
                if r is None:
                    return None
                out = self.X.join(out, r)
            return out
        return None

    def content(self, v, state):
        r = ptr(strip(v))
        if r[1][0] == "alloca" and not r[2] and r[1] in state:
            return state[r[1]]
        return self.X.ANY

    def called(self, p, e, env):
        raw = e.i.callee_raw
        ks = sorted(k for k in self.subjects(raw) if k[0] < len(e.args))
        consts = []
        for n, a in enumerate(e.args):
            if isinstance(a, tuple):
                v = env.norm(a)
                if isC(v) or self.cstr(v) is not None:
                    consts.append((("arg", n), v))
        opts = []
        for k in ks:
            s = env.norm(at(e.args[k[0]], k[1]))
            a = env.atom(s)
            if a:
                opts.append([a])
                continue
            ok = []
            for x in ("E", "D", "N"):
                t = Env(dict(env.atoms), env.sub)
                t.atoms[s] = x
                if t.feasible(p.w) is not None:
                    ok.append(x)
            opts.append(ok or ["E", "D", "N"])
        out = self.X.NONE
        for combo in itertools.product(*opts):
            out = self.X.join(out, self.summary(raw, dict(zip(ks, combo)), consts))
        return out

    # ------------------------------------------------------------ local strings
    def strings(self, p, k, e, state, env, doms):
        if not e.args or not isinstance(e.args[0], tuple):
            return
        for a in e.args:
            # an element of an empty container may not be looked at
            if isinstance(a, tuple):
                b = ptr(strip(a))[1]
                if b[0] == "pc" and len(b) > 2 and b[1] in ("begin", "cbegin", "front") and env.atom(b[2]) == "E" and not e.short.endswith(("next", "prev", "begin", "end")):
                    self.derefs.setdefault(strip(b[2]), e)
        r = ptr(strip(e.args[0]))
        if r[1][0] != "alloca" or r[2] or r[3]:
            return
        x = r[1]
        name, m = e.name, e.short.split("::")[-1]
        ps = params(name)
        if e.x and e.x.get("pure"):
            return

        def value(n, ty):
            v = e.args[n]
            if "char const*" in ty:
                b = self.cstr(env.norm(v))
                return self.X.literal(b) if b is not None else self.X.ANY
            if re.match(r"^(signed |unsigned )?char$", ty):
                vs = env.values(v, doms)
                return self.X.charset(vs if vs is not None else range(256))
            if STRING.match(ty) or "basic_string" in ty:
                return self.content(v, state)
            return self.X.ANY
        if re.match(r"^std::__cxx11::basic_string<char.*>::", name):
            if m == "basic_string":
                ts = [t for t in ps if "allocator" not in t or "basic_string" in t]
                state[x] = self.X.ID if not ts else value(1, ts[0]) if len(ts) == 1 else self.X.ANY
            elif m in ("operator+=", "append", "push_back") and len(ps) == 1:
                state[x] = self.X.then(state.get(x, self.X.ANY), value(1, ps[0]))
            elif m in ("operator=", "assign") and len(ps) == 1:
                state[x] = value(1, ps[0])
            elif m == "clear":
                state[x] = self.X.ID
            elif m in ("reserve", "shrink_to_fit"):
                pass
            elif m == "~basic_string":
                state.pop(x, None)
            else:
                state[x] = self.X.ANY
            return
        if re.search(r"(^| )std::(__cxx11::)?to_string\(", name):
            state[x] = self.X.NUM
            return
        if re.search(r"(^| )std::operator\+ ?<", name) and len(ps) == 2:
            state[x] = self.X.then(value(1, ps[0]), value(2, ps[1]))
            return
        if x in state:
            state[x] = self.X.ANY
