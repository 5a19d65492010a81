"""Value-flow normal forms.

The loop free normalised IR of a function is turned into a decision diagram over comparisons, with value
terms (and the stores and the opaque calls on the way) at its leaves.  Two functions are equal when in
every consistent assignment of the comparisons their leaves are the same term.
"""
import math
import re
import sys

sys.setrecursionlimit(100000)


PARSE = re.compile(r"(?:^|_)(strto(?:ll|ull|l|ul|d|f|ld))$")


class Unsupported(Exception):
    pass


class TooBig(Exception):
    pass


def mask(v, w):
    return v & ((1 << w) - 1)


def sgn(v, w):
    v = mask(v, w)
    return v - (1 << w) if v >> (w - 1) else v


def C(v, w):
    return ("c", mask(v, w), w)


def isC(t):
    return t[0] == "c"


NULL = ("null",)
UNDEF = ("undef",)

SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
RELS = {"eq": {"eq"}, "ne": {"lt", "gt"}, "lt": {"lt"}, "gt": {"gt"}, "le": {"lt", "eq"}, "ge": {"gt", "eq"}}
FREL = {"oeq": {"eq"}, "ogt": {"gt"}, "oge": {"gt", "eq"}, "olt": {"lt"}, "ole": {"lt", "eq"},
        "one": {"lt", "gt"}, "ord": {"lt", "eq", "gt"}, "uno": {"un"}, "ueq": {"eq", "un"},
        "ugt": {"gt", "un"}, "uge": {"gt", "eq", "un"}, "ult": {"lt", "un"}, "ule": {"lt", "eq", "un"},
        "une": {"lt", "gt", "un"}, "true": {"lt", "gt", "eq", "un"}, "false": set()}
MIRROR = {"lt": "gt", "gt": "lt", "eq": "eq", "un": "un"}


def width(ty):
    if ty.startswith("i") and ty[1:].isdigit():
        return int(ty[1:])
    return None


class World:
    """facts about comparisons, with forking on undecided ones"""

    def __init__(self, nan=True, spans=False):
        self.nan = nan
        self.spans = spans  # differences of 64 bit integers do not overflow, results are finite
        self.iv = {}      # term -> [slo, shi, ulo, uhi]
        self.ne = {}      # term -> set of excluded constants
        self.rel = {}     # (kind, a, b) -> set of outcomes
        self.bool = {}    # term -> bool
        self.log = []     # human readable facts
        self.marks = {}   # number of an event -> facts known when it was first reached

    def copy(self):
        w = World(self.nan, self.spans)
        w.iv = {k: list(v) for k, v in self.iv.items()}
        w.ne = {k: set(v) for k, v in self.ne.items()}
        w.rel = {k: set(v) for k, v in self.rel.items()}
        w.bool = dict(self.bool)
        w.log = list(self.log)
        w.marks = dict(self.marks)
        return w

    def value(self, t, w):
        """constant the term is known to equal, or None"""
        if isC(t):
            return t[1]
        v = self.iv.get(t)
        if v:
            if v[0] == v[1]:
                return mask(v[0], w)
            if v[2] == v[3]:
                return v[2]
        return None


class Stop(Exception):
    """the callee does not return"""

    def __init__(self, r):
        self.r = r


class Fork(Exception):
    def __init__(self, key, alts):
        self.key = key
        self.alts = alts   # list of functions world->None applied to copies


def cat(x, y):
    """one text after the other: the parts in a row"""
    parts = []
    for t in (x, y):
        for q in t[1:] if t[0] == "cat" else (t,):
            if q == ("lit", b""):
                continue
            if q[0] == "lit" and parts and parts[-1][0] == "lit":
                parts[-1] = ("lit", parts[-1][1] + q[1])
            else:
                parts.append(q)
    return ("lit", b"") if not parts else parts[0] if len(parts) == 1 else ("cat",) + tuple(parts)


class Evaluator:
    """evaluates one function in a world; raises Fork when a comparison is undecided"""

    def __init__(self, fn, world, argmap=None, opaque_pure=(), maxvisit=40, mod=None, parent=None, exact=()):
        self.fn = fn
        self.w = world
        self.argmap = argmap or {}
        self.env = {}
        self.mod = mod
        self.opaque_pure = opaque_pure
        self.exact = exact          # [(compiled regex, handler)]
        self.maxvisit = maxvisit
        self.inst = ()
        if parent is not None:
            self.rootfn = parent.rootfn
            self.stores, self.trace, self.strs, self.counter = parent.stores, parent.trace, parent.strs, parent.counter
            self.counter[0] += 1
            self.inst = (self.counter[0],)
            self.depth = parent.depth + 1
            if self.depth > 30:
                raise Unsupported("recursion in " + fn.name)
        else:
            self.rootfn = fn
            self.stores = []      # (addr, size, term) in order, ('copy', dst, src, n)
            self.trace = []
            self.strs = {}
            self.counter = [0]
            self.depth = 0

    # ---------------------------------------------------------------- values
    def val(self, v, ty=None):
        k = v["k"]
        if k == "a":
            return self.argmap.get(v["i"], ("arg", v["i"]))
        if k == "v":
            if v["i"] not in self.env:
                raise Unsupported("use of unevaluated %%%d" % v["i"])
            return self.env[v["i"]]
        if k == "c":
            if v.get("zero"):
                return ("zero",)
            return C(int(v["v"]), v["w"])
        if k == "f":
            return ("f", v["v"])
        if k == "n":
            return NULL
        if k == "u":
            return UNDEF
        if k == "g":
            return ("ptr", ("g", v["n"]), 0, ())
        if k == "fn":
            return ("fn", v["n"])
        if k == "go":
            b = self.val(v["b"])
            return self.gep(b, v["o"], [])
        if k == "ca":
            return ("agg",) + tuple(self.val(o) for o in v["ops"])
        if k == "ce":
            return ("op", v["op"], "") + tuple(self.val(o) for o in v["ops"])
        raise Unsupported("value kind " + k)

    def asptr(self, t):
        if t[0] == "ptr":
            return t
        return ("ptr", t, 0, ())

    def gep(self, base, off, idx):
        b = self.asptr(base)
        vs = {}
        for t, s in b[3]:
            vs[t] = vs.get(t, 0) + s
        off += b[2]
        for t, s in idx:
            # index terms are 64 bit values
            if isC(t):
                off += sgn(t[1], t[2]) * s
                continue
            if t[0] == "lin" and t[1] == 64:
                off += sgn(t[2], 64) * s
                for tt, cc in t[3]:
                    vs[tt] = vs.get(tt, 0) + sgn(cc, 64) * s
                continue
            kv = self.w.value(t, 64)
            if kv is not None:
                off += sgn(kv, 64) * s
                continue
            vs[t] = vs.get(t, 0) + s
        return ("ptr", b[1], off, tuple(sorted(((t, s) for t, s in vs.items() if s), key=repr)))

    # ---------------------------------------------------------------- memory
    @staticmethod
    def rootkind(r):
        return r[0]

    def disjoint(self, a, asz, b, bsz):
        if a[1] != b[1]:
            ra, rb = a[1], b[1]
            # distinct arguments, allocas, globals, new results are different objects; pointers that were
            # loaded are taken to be different from arguments (the drivers pass distinct objects)
            return True
        if a[3] != b[3]:
            return False
        return a[2] + asz <= b[2] or b[2] + bsz <= a[2]

    def load(self, addr, size, ty):
        a = self.asptr(addr)
        for n in range(len(self.stores) - 1, -1, -1):
            s = self.stores[n]
            if s[0] == "havoc":
                if (a[1][0] == "alloca" or len(s) > 3) and not s[1](a[1]):
                    continue
                if a[1][0] == "g" and self.constg(a[1][1]):
                    continue
                return ("ld", a, size, ty, s[2])
            if s[0] == "copy":
                _, dst, src, cnt = s
                if self.disjoint(a, size, dst, cnt if cnt is not None else 1 << 60):
                    continue
                if cnt is not None and a[3] == dst[3] and dst[2] <= a[2] and a[2] + size <= dst[2] + cnt:
                    if src == "zero":
                        return self.zero(ty)
                    na = ("ptr", src[1], src[2] + a[2] - dst[2], src[3])
                    # the value the source had at that time
                    save = self.stores
                    self.stores = save[:n]
                    r = self.load(na, size, ty)
                    self.stores = save
                    return r
                return ("ld", a, size, ty, n + 1)
            sa, ssz, st, sty = s
            if self.disjoint(a, size, sa, ssz):
                continue
            if sa == a and ssz == size:
                if sty == ty:
                    return st
                return self.cast("bitcast", st, sty, ty)
            if a[3] == sa[3] and width(ty):
                r = self.partial(a, size, sa, ssz, st, n)
                if r is not None:
                    return r
            return ("ld", a, size, ty, n + 1)
        if a[1][0] == "alloca":
            return UNDEF
        if a[1][0] == "g" and ty == "ptr" and not a[3]:
            g = self.gload(a[1][1], a[2])
            if g is not None:
                return g
        if a[1][0] == "parseend" and a[2] == 0 and not a[3]:
            return ("op", "endchar", ty, a[1][1], a[1][2])
        if a[1][0] == "chars" and not a[3]:
            return ("op", "char", ty, a[1][1], C(a[2], 64))
        return ("ld", a, size, ty, 0)

    def partial(self, a, size, sa, ssz, st, n):
        """a constant piece of a constant, or a constant made of pieces"""
        if sa[2] <= a[2] and a[2] + size <= sa[2] + ssz:
            if isC(st):
                return C((st[1] >> (8 * (a[2] - sa[2]))) & ((1 << (8 * size)) - 1), 8 * size)
            return None
        if size in (2, 4, 8):
            save = self.stores
            self.stores = save[:n + 1]
            h = size // 2
            lo = self.load(("ptr", a[1], a[2], a[3]), h, "i%d" % (8 * h))
            hi = self.load(("ptr", a[1], a[2] + h, a[3]), h, "i%d" % (8 * h))
            self.stores = save
            if isC(lo) and isC(hi):
                return C(lo[1] | hi[1] << (8 * h), 8 * size)
        return None

    def constg(self, name):
        g = self.mod.globals.get(name) if self.mod else None
        return bool(g and g.get("const"))

    def gload(self, name, off):
        """pointer held by a constant global (virtual function table)"""
        g = self.mod.globals.get(name) if self.mod else None
        if not g or not g.get("const") or not isinstance(g.get("init"), list):
            return None
        t = g["init"]
        if len(t) != 1 and not isinstance(t[0], list):
            return None
        if off % 8:
            return None
        n = off // 8
        for tab in t:
            if not isinstance(tab, list):
                return None
            if n < len(tab):
                e = tab[n]
                if isinstance(e, dict) and e.get("k") == "fn":
                    return ("fn", e["n"])
                return None
            n -= len(tab)
        return None

    # ---------------------------------------------------------------- text
    BS = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::"

    def strval(self, p):
        p = self.asptr(p)
        return self.strs.get(p, ("str0", p))

    def strcall(self, name, i, args):
        """the library's strings as an algebra of text values; None when the call is something else"""
        BS = self.BS
        m0 = PARSE.search(name)
        if name.startswith(BS):
            m = name[len(BS):]
            SELF = BS[:-2]
            if m.startswith("~basic_string") or m.startswith("reserve"):
                return ()
            p = self.asptr(args[0])
            if m.startswith("basic_string("):
                a = m[len("basic_string("):]
                if a == ")":
                    self.strs[p] = ("lit", b"")
                    return ()
                if a.startswith(SELF + " const&)") or a.startswith(SELF + "&&)"):
                    v = self.strval(args[1])
                    self.strs[p] = v
                    if "&&)" in a:
                        self.strs[self.asptr(args[1])] = ("moved",)
                    return ()
            if m.startswith("basic_string") and ("(char const*, std::allocator<char> const&)" in m):
                self.strs[p] = self.cstr(args[1])
                return ()
            if m.startswith("basic_string(char const*, unsigned long, std::allocator<char> const&)") and isC(args[2]):
                v = self.firstof(args[1], args[2][1])
                if v is not None:
                    self.strs[p] = v
                    return ()
            if m in ("operator=(%s const&)" % SELF, "operator=(%s&&)" % SELF):
                self.strs[p] = self.strval(args[1])
                if m.endswith("&&)"):
                    self.strs[self.asptr(args[1])] = ("moved",)
                return p
            if m == "operator=(char const*)":
                self.strs[p] = self.cstr(args[1])
                return p
            if m in ("operator+=(%s const&)" % SELF, "append(%s const&)" % SELF):
                self.strs[p] = cat(self.strval(p), self.strval(args[1]))
                return p
            if m in ("operator+=(char const*)", "append(char const*)"):
                self.strs[p] = cat(self.strval(p), self.cstr(args[1]))
                return p
            if m in ("clear()",):
                self.strs[p] = ("lit", b"")
                return ()
            if m in ("swap(%s&)" % SELF,):
                q = self.asptr(args[1])
                self.strs[p], self.strs[q] = self.strval(q), self.strval(p)
                return ()
            if m in ("operator+=(char)", "push_back(char)") and isC(args[1]):
                self.strs[p] = cat(self.strval(p), ("lit", bytes([args[1][1] & 255])))
                return p
            if m == "compare(%s const&) const" % SELF:
                return self.strcmp(self.strval(p), self.strval(args[1]))
            if m == "compare(char const*) const":
                return self.strcmp(self.strval(p), self.cstr(args[1]))
            if m in ("length() const", "size() const"):
                return self.strlength(self.strval(p))
            if m == "empty() const":
                v = self.strval(p)
                w = all(self.icmp("eq", self.strlength(q), C(0, 64), 64) for q in (v[1:] if v[0] == "cat" else (v,)))
                return C(1 if w else 0, 1)
            if m.startswith(("operator[](unsigned long)", "at(unsigned long)")):
                return self.gep(("chars", self.strval(p)), 0, [(args[1], 1)])
            if m.startswith("front()"):
                return ("chars", self.strval(p))
            if m in ("c_str() const", "data() const", "c_str()", "data()"):
                return ("chars", self.strval(p))
            return None
        if m0 is not None:
            kind = m0.group(1)
            v = self.cstr(args[0])
            v = v[1] if v[0] == "upto0" else v
            end = self.asptr(args[1])
            if args[1] != NULL:
                self.stores.append((end, 8, ("ptr", ("parseend", kind, v), 0, ()), "ptr"))
            base = args[2] if len(args) > 2 else C(10, 32)
            return ("op", kind, i.ty, v, base)
        if name.startswith("std::__cxx11::to_string(") or name.startswith("std::to_string("):
            self.strs[self.asptr(args[0])] = ("op", name, "str", args[1])
            return ()
        m0 = re.match(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> std::operator\+<char, std::char_traits<char>, std::allocator<char>>\((.*)", name)
        if m0 is not None:
            first, _, second = m0.group(1).partition(", ") if m0.group(1).startswith("char const*") else m0.group(1).partition(", std::allocator<char>>")
            x = self.cstr(args[1]) if m0.group(1).startswith("char const*") else self.strval(args[1])
            y = self.cstr(args[2]) if m0.group(1).rstrip(")").endswith("char const*") else self.strval(args[2])
            if re.search(r"(^|, )char[),]", m0.group(1)):
                return None
            self.strs[self.asptr(args[0])] = cat(x, y)
            return ()
        m0 = re.match(r"bool std::operator(==|!=|<=?|>=?)<char, std::char_traits<char>, std::allocator<char>>\((.*)", name)
        if m0 is not None:
            first, _, second = m0.group(2).partition(", std::allocator<char>> const&")
            x = self.strval(args[0]) if "basic_string" in first and not m0.group(2).startswith("char const*") else self.cstr(args[0])
            y = self.cstr(args[1]) if m0.group(2).rstrip(")").endswith("char const*") else self.strval(args[1])
            return C(1 if self.srel(x, y, {"==": {"eq"}, "!=": {"lt", "gt"}, "<": {"lt"}, "<=": {"lt", "eq"}, ">": {"gt"}, ">=": {"gt", "eq"}}[m0.group(1)]) else 0, 1)
        return None

    def strcmp(self, x, y):
        """the three-way comparison of two texts (only its sign has a meaning)"""
        return C(-1, 32) if self.srel(x, y, {"lt"}) else C(0, 32) if self.srel(x, y, {"eq"}) else C(1, 32)

    def srel(self, x, y, want):
        """decides whether the texts are in one of the relations"""
        if x == y:
            return "eq" in want
        if x[0] == y[0] == "lit":
            return ("lt" if x[1] < y[1] else "gt" if x[1] > y[1] else "eq") in want
        if repr(x) > repr(y):
            x, y, want = y, x, {MIRROR[r] for r in want}
        key = ("str", x, y)
        cur = self.w.rel.setdefault(key, {"lt", "eq", "gt"})
        if cur <= want:
            return True
        if not cur & want:
            return False

        def setr(w_, s):
            w_.rel[key] = set(s)
            return True
        raise Fork(key, [(lambda w_: setr(w_, cur & want), "%s %s %s" % (show(x), "|".join(sorted(cur & want)), show(y))),
                         (lambda w_: setr(w_, cur - want), "%s %s %s" % (show(x), "|".join(sorted(cur - want)), show(y)))])

    def strlength(self, v):
        if v[0] == "lit":
            return C(len(v[1]), 64)
        return ("op", "length", "i64", v)

    def firstof(self, p, n):
        """the text made of the first n characters at p, when they are known"""
        if p[0] == "chars":
            return ("lit", p[1][1][:n]) if p[1][0] == "lit" and n <= len(p[1][1]) else None
        p = self.asptr(p)
        if p[1][0] == "g" and self.mod is not None and not p[3]:
            s = self.mod.string(p[1][1], p[2])
            if s is not None and n <= len(s):
                return ("lit", s[:n])
        return None

    def cstr(self, p):
        if p[0] == "chars":
            return p[1] if p[1][0] == "lit" and b"\0" not in p[1][1] else ("upto0", p[1])
        p = self.asptr(p)
        if p[1][0] == "g" and self.mod is not None and not p[3]:
            s = self.mod.string(p[1][1], p[2])
            if s is not None:
                return ("lit", s.split(b"\0")[0])
        return ("cstr", p)

    def zero(self, ty):
        w = width(ty)
        if w:
            return C(0, w)
        if ty in ("float", "double", "x86_fp80"):
            return ("f", "0")
        return NULL

    # ---------------------------------------------------------------- arithmetic
    def lin(self, t, w):
        if isC(t):
            return t[1], {}
        if t[0] == "lin" and t[1] == w:
            return t[2], dict(t[3])
        return 0, {t: 1}

    def mklin(self, w, c, vs):
        c = mask(c, w)
        vs = {t: mask(k, w) for t, k in vs.items() if mask(k, w)}
        if not vs:
            return C(c, w)
        if c == 0 and len(vs) == 1:
            (t, k), = vs.items()
            if k == 1:
                return t
        return ("lin", w, c, tuple(sorted(vs.items(), key=repr)))

    def binop(self, op, ty, a, b):
        w = width(ty)
        if w and w > 1 and op in ("add", "sub"):
            ca, va = self.lin(a, w)
            cb, vb = self.lin(b, w)
            k = 1 if op == "add" else -1
            for t, n in vb.items():
                va[t] = va.get(t, 0) + k * n
            return self.mklin(w, ca + k * cb, va)
        if w and w > 1 and op in ("mul", "shl") and (isC(b) or (op == "mul" and isC(a))):
            if isC(a) and op == "mul" and not isC(b):
                a, b = b, a
            k = b[1] if op == "mul" else (1 << b[1] if b[1] < w else 0)
            ca, va = self.lin(a, w)
            return self.mklin(w, ca * k, {t: n * k for t, n in va.items()})
        if w and isC(a) and isC(b):
            x, y = a[1], b[1]
            try:
                if op == "and":
                    return C(x & y, w)
                if op == "or":
                    return C(x | y, w)
                if op == "xor":
                    return C(x ^ y, w)
                if op == "udiv":
                    return C(x // y, w)
                if op == "urem":
                    return C(x % y, w)
                if op == "lshr":
                    return C(x >> y, w)
                if op == "ashr":
                    return C(sgn(x, w) >> y, w)
                if op == "sdiv":
                    sx, sy = sgn(x, w), sgn(y, w)
                    q = abs(sx) // abs(sy)
                    return C(q if (sx < 0) == (sy < 0) else -q, w)
                if op == "srem":
                    sx, sy = sgn(x, w), sgn(y, w)
                    r = abs(sx) % abs(sy)
                    return C(-r if sx < 0 else r, w)
            except ZeroDivisionError:
                return UNDEF
        if w == 1 and op in ("xor", "and", "or"):
            if op == "xor" and isC(b):
                return self.bnot(a) if b[1] else a
            if op == "xor" and isC(a):
                return self.bnot(b) if a[1] else b
            # decide both
            x, y = self.truth(a), None
            if op == "and" and not x:
                return C(0, 1)
            if op == "or" and x:
                return C(1, 1)
            y = self.truth(b)
            return C((x and y) if op == "and" else (x or y) if op == "or" else x != y, 1)
        if w and w > 1 and op == "xor":
            # ~x == -x - 1
            for x, y in ((a, b), (b, a)):
                if isC(y) and y[1] == mask(-1, w):
                    c, v = self.lin(x, w)
                    return self.mklin(w, -c - 1, {t: -k for t, k in v.items()})
        if w and w > 1 and op in ("and", "or") and isC(b) and b[1] == 0:
            return C(0, w) if op == "and" else a
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return self.rnd(ty, self.fbinop(op, a, b))
        if op in ("and", "or", "xor", "mul", "smax", "smin", "umax", "umin"):
            a, b = sorted((a, b), key=repr)
        return ("op", op, ty, a, b)

    # Floating point terms are exact: a term carries the precision its operands need, and a rounding is only
    # part of the normal form when the result is narrower than that.  So a sum of doubles is the same term
    # whether it is computed as double or as long double, but a detour through a narrower type is visible.
    PREC = {"half": 11, "float": 24, "double": 53, "x86_fp80": 64, "fp128": 113}

    def prec(self, t):
        k = t[0]
        if k == "arg":
            return self.PREC.get(self.argty(t[1]), 64)
        if k == "f":
            return 0
        if k == "ld":
            return self.PREC.get(t[3], 64)
        if k == "op":
            if t[1] == "rnd":
                return self.PREC[t[2]]
            if t[1] in ("sitofp", "uitofp"):
                w = width(t[4]) or 64
                return 24 if w <= 16 else 53 if w <= 32 else 64
            if t[1] in ("fadd", "fmul", "fdiv", "frem", "fneg"):
                return max(self.prec(x) for x in t[3:])
            return self.PREC.get(t[2], 64)
        return 64

    def argty(self, n):
        f = self.rootfn
        return f.args[n]["ty"] if n < len(f.args) else "?"

    def rnd(self, ty, t):
        if self.prec(t) <= self.PREC.get(ty, 64):
            return t
        if t[0] == "op" and t[1] == "rnd" and self.PREC[t[2]] > self.PREC[ty]:
            t = t[3]      # double rounding is not distinguished
        if t[0] == "op" and t[1] == "fneg":
            return ("op", "fneg", "float", self.rnd(ty, t[3]))
        return ("op", "rnd", ty, t)

    def fbinop(self, op, a, b):
        if op == "fsub":
            op, b = "fadd", self.fneg(b, "float")
        if op in ("fmul", "fdiv"):
            # the sign is pulled out
            neg = False
            if a[0] == "op" and a[1] == "fneg":
                a, neg = a[3], not neg
            if b[0] == "op" and b[1] == "fneg":
                b, neg = b[3], not neg
            if neg:
                return self.fneg(self.fbinop(op, a, b), "float")
        if op in ("fadd", "fmul"):
            a, b = sorted((a, b), key=repr)
        return ("op", op, "float", a, b)

    def fneg(self, a, ty):
        if a[0] == "op" and a[1] == "fneg":
            return a[3]
        if a[0] == "f":
            return ("f", a[1][1:] if a[1].startswith("-") else "-" + a[1])
        if a[0] == "op" and a[1] == "sitofp" and a[3][0] == "lin" and False:
            pass
        return ("op", "fneg", "float", a)

    def bnot(self, t):
        return ("not", t) if t[0] != "not" else t[1]

    def cast(self, op, a, fty, tty):
        if fty == tty:
            return a
        if op == "fpext":
            return a
        if op == "fptrunc":
            return self.rnd(tty, a)
        w = width(tty)
        fw = width(fty)
        if op in ("bitcast",) and fw and fw == w:
            return a
        if a == UNDEF:
            return UNDEF
        if op == "bitcast" and fty == "ptr" and w == 64:
            op = "ptrtoint"      # a pointer kept in memory and read back as a number, and the other way round
        if op == "bitcast" and tty == "ptr" and fw == 64:
            op = "inttoptr"
        if op == "inttoptr" and isC(a) and a[1] == 0:
            return NULL
        if op == "inttoptr" and fw == 64:
            vs = dict(a[3]) if a[0] == "lin" else {a: 1}
            roots = [t for t in vs if t[0] == "op" and t[1] == "ptrtoint" and vs[t] == 1]
            if len(roots) == 1:
                vs.pop(roots[0])
                return self.gep(roots[0][3], sgn(a[2], 64) if a[0] == "lin" else 0, sorted(((t, sgn(k, 64)) for t, k in vs.items()), key=repr))
        if op == "ptrtoint" and a in (NULL, ("ptr", NULL, 0, ())):
            return C(0, w)
        if op == "ptrtoint" and w == 64:
            b = self.asptr(a)
            vs = {("op", "ptrtoint", tty, ("ptr", b[1], 0, ()), fty): 1}
            for t, k in b[3]:
                vs[t] = vs.get(t, 0) + k
            return self.mklin(w, b[2], vs)
        if op in ("fptosi", "fptoui") and w:
            r = a[1].split(".")[0] if a[0] == "op" else None
            if r == "trunc" and op_float(a) or r == "floor" and nonneg(a[3]) or r == "ceil" and nonneg(self.fneg(a[3], "float")):
                a = a[3]
            k = constant(a)
            if k is not None and -(1 << w - 1) <= int(k) < (1 << (w - 1 if op == "fptosi" else w)):
                return C(int(k), w)
        if w and fw and isC(a):
            if op == "sext":
                return C(sgn(a[1], fw), w)
            return C(a[1], w)
        if op in ("sitofp", "uitofp", "fptosi", "fptoui"):
            if op.endswith("fp"):
                return self.rnd(tty, ("op", op, "float", a, fty))
            return ("op", op, tty, a, "float")
        if op == "trunc" and a[0] == "op" and a[1] in ("sdiv", "srem") and w:
            # the quotient of sign extended numbers does not need the wider type (the one that overflows is
            # undefined in the narrow type)
            n = [self.narrow(x, w) for x in a[3:5]]
            if None not in n:
                return self.binop(a[1], tty, n[0], n[1])
        if op == "trunc" and a[0] == "op" and a[1] in ("udiv", "urem") and w:
            n = [self.narrow(x, w, "zext") for x in a[3:5]]
            if None not in n:
                return self.binop(a[1], tty, n[0], n[1])
        if op == "trunc" and a[0] == "op" and a[1] in ("zext", "sext"):
            iw = width(a[4])
            if iw == w:
                return a[3]
        if op == "trunc" and a[0] == "lin":
            return self.mklin(w, a[2], {self.cast("trunc", t, fty, tty): k for t, k in a[3]})
        if op in ("zext", "sext") and fw == 1:
            v = self.truth(a)
            return C((1 if op == "zext" else -1) if v else 0, w)
        return ("op", op, tty, a, fty)

    @staticmethod
    def narrow(t, w, ext="sext"):
        if isC(t):
            v = sgn(t[1], t[2]) if ext == "sext" else t[1]
            return C(v, w) if (sgn(mask(v, w), w) if ext == "sext" else mask(v, w)) == v else None
        if t[0] == "op" and t[1] == ext and width(t[4]) == w:
            return t[3]
        return None

    # ---------------------------------------------------------------- comparisons
    def icmp(self, pred, a, b, w):
        """decides the comparison in the world or forks"""
        W = self.w
        if a == b:
            return pred in ("eq", "sle", "sge", "ule", "uge")
        if w is None:      # pointers
            return self.pcmp(pred, a, b)
        a, b = self.unsignedext(a), self.unsignedext(b)
        if a == b:
            return pred in ("eq", "sle", "sge", "ule", "uge")
        va, vb = W.value(a, w), W.value(b, w)
        if va is not None and not isC(a):
            a = C(va, w)
        if vb is not None and not isC(b):
            b = C(vb, w)
        if isC(a) and isC(b):
            x, y = a[1], b[1]
            if pred[0] == "s":
                x, y = sgn(x, w), sgn(y, w)
            p = pred.lstrip("su") if pred not in ("eq", "ne") else pred
            p = pred if pred in ("eq", "ne") else pred[1:]
            return {"eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y}[p]
        if isC(a):
            return self.icmp(SWAP[pred], b, a, w)
        if pred in ("ne", "sge", "uge", "sgt", "ugt"):
            inv = {"ne": "eq", "sge": "slt", "uge": "ult", "sgt": "sle", "ugt": "ule"}[pred]
            return not self.icmp(inv, a, b, w)
        if W.spans and w == 64 and pred in ("eq", "slt", "sle", "sgt", "sge") and (not isC(b) or a[0] == "lin"):
            p_, a_, b_ = self.span(pred, a, b, w)
            if (p_, a_, b_) != (pred, a, b):
                return self.icmp(p_, a_, b_, w)
        if W.spans and w == 64 and pred in ("ult", "ule") and isC(b) and a[0] == "lin":
            if sgn(b[1], w) >= 0:
                return self.icmp("sge", a, C(0, w), w) and self.icmp("s" + pred[1:], a, b, w)
            return self.icmp("sge", a, C(0, w), w) or self.icmp("s" + pred[1:], a, b, w)
        if isC(b):
            return self.icmp_const(pred, a, b, w)
        # lin-lin equality over a common difference
        if pred == "eq":
            ca, va_ = self.lin(a, w)
            cb, vb_ = self.lin(b, w)
            for t, n in vb_.items():
                va_[t] = va_.get(t, 0) - n
            d = self.mklin(w, ca - cb, va_)
            if isC(d):
                return d[1] == 0
        if repr(a) > repr(b):
            return self.icmp(SWAP[pred], b, a, w)
        if pred in ("ne", "sge", "uge", "sgt", "ugt"):
            inv = {"ne": "eq", "sge": "slt", "uge": "ult", "sgt": "sle", "ugt": "ule"}[pred]
            return not self.icmp(inv, a, b, w)
        kinds = {"s": "s", "u": "u", "e": None}[pred[0]]
        ks, ku = ("s", a, b), ("u", a, b)
        ss = W.rel.setdefault(ks, {"lt", "eq", "gt"})
        su = W.rel.setdefault(ku, {"lt", "eq", "gt"})
        want = RELS[pred if pred == "eq" else pred[1:]]
        cur = su if kinds == "u" else ss
        if cur <= want:
            return True
        if not (cur & want):
            return False
        key = ks if kinds != "u" else ku
        oth = ku if kinds != "u" else ks

        def setrel(w_, s):
            w_.rel[key] = set(s)
            if s == {"eq"}:
                w_.rel[oth] = {"eq"}
            elif "eq" not in s:
                w_.rel[oth].discard("eq")
                if not w_.rel[oth]:
                    return False
            return True
        alts = []
        for part, tr in ((cur & want, True), (cur - want, False)):
            alts.append((frozenset(part), tr))
        raise Fork((pred, a, b), [(lambda w_, p=part: setrel(w_, set(p)), "%s %s %s is %s" % (show(a), pred, show(b), tr)) for part, tr in alts])

    def unsignedext(self, t):
        """the sign extension of what is known not to be negative is its zero extension"""
        if t[0] == "op" and t[1] == "sext" and t[3] in self.w.iv and self.w.iv[t[3]][0] >= 0:
            return t[:1] + ("zext",) + t[2:]
        return t

    def icmp_const(self, pred, a, b, w):
        W = self.w
        if a[0] == "op" and a[1] == "sext" and width(a[4]) and pred in ("eq", "slt", "sle"):
            iw, c = width(a[4]), sgn(b[1], w)
            if not -(1 << (iw - 1)) <= c < 1 << (iw - 1):
                return pred != "eq" and c > 0
            return self.icmp(pred, a[3], C(c, iw), iw)
        if a[0] in ("cmp", "not") and pred == "eq":
            return self.truth(a) == bool(b[1] & 1)
        if a[0] == "lin" and len(a[3]) == 1 and a[3][0][1] == 1 and pred == "eq":
            return self.icmp("eq", a[3][0][0], C(b[1] - a[2], w), w)
        if a[0] == "lin" and pred == "eq" and a[2]:
            return self.icmp("eq", self.mklin(w, 0, dict(a[3])), C(b[1] - a[2], w), w)
        if a[0] == "op" and a[1] == "zext" and width(a[4]):
            iw = width(a[4])
            c = b[1] if pred in ("eq", "ult", "ule") else sgn(b[1], w)
            hi = (1 << iw) - 1
            if pred == "eq":
                return False if c > hi else self.icmp("eq", a[3], C(c, iw), iw)
            if c < 0:
                return False
            if c > hi:
                return True
            return self.icmp({"slt": "ult", "sle": "ule"}.get(pred, pred), a[3], C(c, iw), iw)
        # difference of two compared for equality with zero
        if pred == "eq" and b[1] == 0 and a[0] == "lin" and a[2] == 0 and len(a[3]) == 2 and not W.spans:
            (t1, k1), (t2, k2) = a[3]
            if mask(k1 + k2, w) == 0 and k1 in (1, mask(-1, w)):
                return self.icmp("eq", t1, t2, w)
        iv = W.iv.setdefault(a, [-(1 << (w - 1)), (1 << (w - 1)) - 1, 0, (1 << w) - 1])
        ne = W.ne.setdefault(a, set())
        c = b[1]
        sc = sgn(c, w)
        if pred == "eq":
            if c in ne or not (iv[0] <= sc <= iv[1]) or not (iv[2] <= c <= iv[3]):
                return False
            opts = [(lambda w_: self.setiv(w_, a, sc, sc, c, c, w), "%s == %s" % (show(a), sc)),
                    (lambda w_: self.addne(w_, a, c, w), "%s != %s" % (show(a), sc))]
        elif pred in ("slt", "sle"):
            hi = sc - 1 if pred == "slt" else sc
            if iv[1] <= hi:
                return True
            if iv[0] > hi:
                return False
            opts = [(lambda w_: self.setiv(w_, a, None, hi, None, None, w), "%s <= %s" % (show(a), hi)),
                    (lambda w_: self.setiv(w_, a, hi + 1, None, None, None, w), "%s > %s" % (show(a), hi))]
        else:
            hi = c - 1 if pred == "ult" else c
            if iv[3] <= hi:
                return True
            if iv[2] > hi:
                return False
            opts = [(lambda w_: self.setiv(w_, a, None, None, None, hi, w), "%s <=u %s" % (show(a), hi)),
                    (lambda w_: self.setiv(w_, a, None, None, hi + 1, None, w), "%s >u %s" % (show(a), hi))]
        raise Fork((pred, a, b), opts)

    @staticmethod
    def setiv(w_, a, slo, shi, ulo, uhi, w):
        iv = w_.iv[a]
        if slo is not None:
            iv[0] = max(iv[0], slo)
        if shi is not None:
            iv[1] = min(iv[1], shi)
        if ulo is not None:
            iv[2] = max(iv[2], ulo)
        if uhi is not None:
            iv[3] = min(iv[3], uhi)
        half = 1 << (w - 1)
        for _ in range(3):
            # tighten one by the other
            if iv[0] >= 0:
                iv[2] = max(iv[2], iv[0])
                iv[3] = min(iv[3], iv[1])
            if iv[1] < 0:
                iv[2] = max(iv[2], iv[0] + 2 * half)
                iv[3] = min(iv[3], iv[1] + 2 * half)
            if iv[3] < half:
                iv[0] = max(iv[0], iv[2])
                iv[1] = min(iv[1], iv[3])
            if iv[2] >= half:
                iv[0] = max(iv[0], iv[2] - 2 * half)
                iv[1] = min(iv[1], iv[3] - 2 * half)
            ch = True
            while ch:
                ch = False
                if iv[0] <= iv[1] and mask(iv[0], w) in w_.ne[a]:
                    iv[0] += 1
                    ch = True
                if iv[0] <= iv[1] and mask(iv[1], w) in w_.ne[a]:
                    iv[1] -= 1
                    ch = True
                if iv[2] <= iv[3] and iv[2] in w_.ne[a]:
                    iv[2] += 1
                    ch = True
                if iv[2] <= iv[3] and iv[3] in w_.ne[a]:
                    iv[3] -= 1
                    ch = True
        return iv[0] <= iv[1] and iv[2] <= iv[3]

    @staticmethod
    def addne(w_, a, c, w):
        w_.ne[a].add(c)
        return Evaluator.setiv(w_, a, None, None, None, None, w)

    def pcmp(self, pred, a, b):
        null = ("ptr", NULL, 0, ())
        a_, b_ = (NULL if a in (NULL, null) else self.asptr(a)), (NULL if b in (NULL, null) else self.asptr(b))
        if a_ == b_:
            return pred in ("eq", "ule", "uge", "sle", "sge")
        if pred in ("eq", "ne"):
            x, y = sorted((a_, b_), key=repr)
            res = None
            if x != NULL and y != NULL and x[1] == y[1] and not x[3] and not y[3]:
                res = False
            for p, q in ((x, y), (y, x)):
                if p == NULL and q != NULL and q[1][0] in ("alloca", "g", "parseend", "chars"):
                    res = False
                if res is None and p != NULL and q != NULL and p[1][0] == "alloca" and p[1] != q[1]:
                    # nobody else can name an object whose address is in nobody's hands
                    got = set()
                    self.collect_allocas(q, got)
                    if q[1][0] in ("alloca", "g") or p[1] not in got and p[1] not in self.escaped():
                        res = False
            if res is None:
                res = self.decide(("peq", x, y))
            return res if pred == "eq" else not res
        return self.decide(("pcmp", pred, a_, b_))

    def span(self, pred, a, b, w):
        """compares by the sign of the difference: (pred, difference, constant) with a difference in its standard form"""
        va, vb = self.lin(a, w), self.lin(b, w)
        t = dict(va[1])
        for x, n in vb[1].items():
            t[x] = t.get(x, 0) + -n
        c = sgn(mask(vb[0] - va[0], w), w)
        t = {x: n for x, n in t.items() if mask(n, w)}
        if not t:
            return pred, C(0, w), C(c, w)
        if sgn(mask(t[min(t, key=repr)], w), w) < 0:
            t = {x: -n for x, n in t.items()}
            c, pred = -c, SWAP[pred]
        return pred, self.mklin(w, 0, t), C(c, w)

    def fcmp(self, pred, a, b):
        want = FREL[pred]
        if self.w.spans:
            for x, y, r in ((a, b, "lt"), (b, a, "gt")):
                if y[0] == "f" and str(y[1]) in ("+Inf", "-Inf") and x[0] != "f":
                    return (r if str(y[1]) == "+Inf" else MIRROR[r]) in want
        if repr(a) > repr(b):
            a, b = b, a
            want = {MIRROR[x] for x in want}
        ka, kb = constant(a), constant(b)
        if ka is not None and kb is not None:
            return ("lt" if ka < kb else "gt" if ka > kb else "eq") in want
        if a == b:
            cur = {"eq"} if not self.w.nan else {"eq", "un"}
            cur = self.w.rel.setdefault(("f", a, b), cur)
        else:
            cur = self.w.rel.setdefault(("f", a, b), {"lt", "eq", "gt", "un"} if self.w.nan else {"lt", "eq", "gt"})
        if cur <= want:
            return True
        if not cur & want:
            return False
        key = ("f", a, b)

        def setr(w_, s):
            w_.rel[key] = set(s)
            return True
        raise Fork((pred, a, b), [(lambda w_: setr(w_, cur & want), "%s %s %s" % (show(a), "|".join(sorted(cur & want)), show(b))),
                                  (lambda w_: setr(w_, cur - want), "%s %s %s" % (show(a), "|".join(sorted(cur - want)), show(b)))])

    def decide(self, atom):
        b = self.w.bool
        if atom in b:
            return b[atom]

        def setb(w_, v):
            w_.bool[atom] = v
            return True
        raise Fork(atom, [(lambda w_: setb(w_, True), "%s" % show(atom)), (lambda w_: setb(w_, False), "not %s" % show(atom))])

    def truth(self, t):
        if isC(t):
            return bool(t[1])
        if t[0] == "not":
            return not self.truth(t[1])
        if t[0] == "cmp":
            _, k, pred, a, b, w = t
            return self.icmp(pred, a, b, w) if k == "i" else self.fcmp(pred, a, b)
        if t == UNDEF:
            raise Unsupported("branch on undef")
        return self.decide(("bool", t))

    # ---------------------------------------------------------------- run
    def run(self):
        fn = self.fn
        blk, prev = 0, None
        visits = {}
        while True:
            visits[blk] = visits.get(blk, 0) + 1
            if visits[blk] > self.maxvisit:
                raise Unsupported("loop in %s" % fn.name)
            b = fn.blocks[blk]
            # phis in parallel
            newv = {}
            n = 0
            for i in b:
                if i.op != "phi":
                    break
                for v, p in i.get("phi"):
                    if p == prev:
                        newv[i.id] = self.val(v)
                        break
                n += 1
            self.env.update(newv)
            nxt = None
            for i in b[n:]:
                r = self.step(i)
                if r is not None:
                    nxt = r
                    break
            if nxt is None:
                raise Unsupported("fell off block")
            if nxt[0] == "goto":
                prev, blk = blk, nxt[1]
                continue
            return nxt

    def term(self, i):
        return self.val(i)

    def step(self, i):
        op = i.op
        env = self.env
        d = i.d
        if op == "br":
            if d.get("cond"):
                c = self.truth(self.val(d["cond"]))
                return ("goto", d["succ"][0 if c else 1])
            return ("goto", d["succ"][0])
        if op == "switch":
            v = self.val(d["cond"])
            w = d["cases"] and None
            # width of the switch operand
            ww = self.swidth(d["cond"])
            for c, t in d["cases"]:
                if self.icmp("eq", v, C(int(c), ww), ww):
                    return ("goto", t)
            return ("goto", d["def"])
        if op == "ret":
            return ("ret", self.val(i.ops[0]) if i.ops else None)
        if op == "unreachable":
            return ("unreachable",)
        if op == "resume":
            return ("resume",)
        if op == "alloca":
            env[i.id] = ("ptr", ("alloca", i.fn.name, i.id) + self.inst, 0, ())
            return None
        if op == "load":
            env[i.id] = self.load(self.val(i.ops[0]), d["size"], i.ty)
            return None
        if op == "store":
            self.stores.append((self.asptr(self.val(i.ops[1])), d["size"], self.val(i.ops[0]), d["vty"]))
            return None
        if op == "getelementptr":
            if "base" not in d:
                raise Unsupported("gep")
            idx = []
            for x in d["idx"]:
                idx.append((self.val(x["v"]), x["s"]))
            env[i.id] = self.gep(self.val(d["base"]), d["off"], idx)
            return None
        if op == "icmp":
            a, b = self.val(i.ops[0]), self.val(i.ops[1])
            w = self.owidth(i)
            env[i.id] = ("cmp", "i", d["pred"], a, b, w) if not (isC(a) and isC(b)) else C(self.icmp(d["pred"], a, b, w), 1)
            return None
        if op == "fcmp":
            env[i.id] = ("cmp", "f", d["pred"], self.val(i.ops[0]), self.val(i.ops[1]), 0)
            return None
        if op == "select":
            env[i.id] = self.val(i.ops[1]) if self.truth(self.val(i.ops[0])) else self.val(i.ops[2])
            return None
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            env[i.id] = self.binop(op, i.ty, self.val(i.ops[0]), self.val(i.ops[1]))
            return None
        if op == "fneg":
            env[i.id] = self.fneg(self.val(i.ops[0]), i.ty)
            return None
        if op in ("trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"):
            env[i.id] = self.cast(op, self.val(i.ops[0]), self.tyof(i.ops[0]), i.ty)
            return None
        if op == "freeze":
            env[i.id] = self.val(i.ops[0])
            return None
        if op == "extractvalue":
            t = self.val(i.ops[0])
            for x in d["ix"]:
                if t[0] == "agg":
                    t = t[1 + x]
                else:
                    t = ("ext", t, x)
            env[i.id] = t
            return None
        if op == "insertvalue":
            t = self.val(i.ops[0])
            v = self.val(i.ops[1])
            if len(d["ix"]) != 1:
                raise Unsupported("nested insertvalue")
            x = d["ix"][0]
            l = list(t[1:]) if t[0] == "agg" else []
            while len(l) <= x:
                l.append(UNDEF if t in (UNDEF, ("zero",)) or t[0] == "agg" else ("ext", t, len(l)))
            l[x] = v
            env[i.id] = ("agg",) + tuple(l)
            return None
        if op == "landingpad":
            env[i.id] = ("landingpad",)
            return None
        if op == "fence":
            return None
        if op in ("call", "invoke"):
            return self.call(i)
        raise Unsupported("instruction " + op)

    def swidth(self, v):
        ty = self.tyof(v)
        return width(ty)

    def tyof(self, v):
        if v["k"] == "v":
            return self.fn.byid[v["i"]].ty
        if v["k"] == "a":
            return self.fn.args[v["i"]]["ty"]
        if v["k"] == "c":
            return "i%d" % v["w"]
        return "?"

    def owidth(self, i):
        for o in i.ops:
            t = self.tyof(o)
            if t != "?":
                return width(t)
        return None

    def call(self, i):
        d = i.d
        name = i.callee
        raw = i.callee_raw
        nxt = ("goto", d["norm"]) if i.op == "invoke" else None
        args = [self.val(a) if a["k"] != "md" else UNDEF for a in i.ops]
        if raw and raw.startswith("llvm."):
            if raw.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.invariant", "llvm.experimental", "llvm.stacksave", "llvm.stackrestore")):
                self.env[i.id] = UNDEF
                return nxt
            if raw.startswith(("llvm.memcpy", "llvm.memmove")):
                n = args[2]
                if isC(n):
                    self.stores.append(("copy", self.asptr(args[0]), self.asptr(args[1]), n[1]))
                    return nxt
                self.trace.append(("memcpy", args[0], args[1], args[2]))
                return nxt
            if raw.startswith("llvm.memset"):
                if isC(args[2]) and args[1] == C(0, 8):
                    self.stores.append(("copy", self.asptr(args[0]), "zero", args[2][1]))
                    return nxt
                self.trace.append(("memset", args[0], args[1], args[2]))
                return nxt
            if raw.startswith("llvm.fmuladd"):
                t = self.binop("fadd", i.ty, self.binop("fmul", i.ty, args[0], args[1]), args[2])
                self.env[i.id] = t
                return nxt
            base = raw.split(".")[1]
            if base in ("smax", "smin", "umax", "umin"):
                w = width(i.ty)
                if w:
                    less = self.icmp("slt" if base[0] == "s" else "ult", args[0], args[1], w)
                    self.env[i.id] = (args[1] if less else args[0]) if base.endswith("max") else (args[0] if less else args[1])
                    return nxt
            if base == "abs":
                w = width(i.ty)
                neg = self.icmp("slt", args[0], C(0, w), w)
                self.env[i.id] = self.binop("sub", i.ty, C(0, w), args[0]) if neg else args[0]
                return nxt
            if base in ("trap", "ubsantrap"):
                return ("unreachable",)
            self.env[i.id] = ("op", ".".join(raw.split(".")[1:]), i.ty) + tuple(args)
            return nxt
        if name is None:
            tgt = self.val(d["callee"])
            if tgt[0] == "fn":
                raw = tgt[1]
                f = self.mod.fns.get(raw) if self.mod else None
                if f is None:
                    name = raw
                else:
                    name = f.dem
            else:
                name = "<indirect>"
                args = [tgt] + args
        if name.startswith(("std::allocator<", "std::__new_allocator<", "std::__allocator")) and "allocate(" not in name:
            self.env[i.id] = UNDEF
            return nxt
        if raw in ("_Znwm", "_Znam"):
            self.counter[0] += 1
            self.env[i.id] = ("ptr", ("alloca", "heap", self.counter[0]), 0, ())
            return nxt
        if raw and raw.startswith(("_ZdlPv", "_ZdaPv")) and (args[0] == NULL or args[0][0] == "ptr" and args[0][1][0] == "alloca"):
            return nxt
        if raw in ("__atomic_store", "__atomic_load") and isC(args[0]):
            # a value too wide for an instruction: the library copies it as a whole
            src, dst = (args[1], args[2])
            if raw == "__atomic_store":
                src, dst = args[2], args[1]
            self.stores.append(("copy", self.asptr(dst), self.asptr(src), args[0][1]))
            return nxt
        if raw == "__atomic_exchange" and isC(args[0]):
            self.stores.append(("copy", self.asptr(args[3]), self.asptr(args[1]), args[0][1]))
            self.stores.append(("copy", self.asptr(args[1]), self.asptr(args[2]), args[0][1]))
            return nxt
        h = self.strcall(name, i, args)
        if h is not None:
            if h != ():
                self.env[i.id] = h
            return nxt
        for rx, fn_ in self.exact:
            if rx.search(name):
                r = fn_(self, i, name, args)
                if r is not None:
                    self.env[i.id] = r
                    return nxt
        if self.mod is not None and raw in self.mod.fns and self.mod.fns[raw].follow:
            sub = Evaluator(self.mod.fns[raw], self.w, {n: a for n, a in enumerate(args)}, self.opaque_pure, self.maxvisit, self.mod, self, self.exact)
            r = sub.run()
            if r[0] != "ret":
                raise Stop(r)
            if r[1] is not None:
                self.env[i.id] = r[1]
            return nxt
        if raw in ("pow", "powf", "powl", "exp", "expf", "expl", "exp2l", "expm1l", "expm1", "expm1f", "log", "logl", "logf", "log1p", "log1pl", "sqrt", "sqrtf", "sqrtl", "fmodl"):
            self.env[i.id] = ("op", raw, i.ty) + tuple(args)
            return nxt
        for p in self.opaque_pure:
            if p in name:
                self.env[i.id] = ("op", name, i.ty) + tuple(args)
                return nxt
        k = len(self.trace)
        # what the memory behind pointer arguments holds is part of the event
        self.trace.append((name,) + tuple(args) + tuple(self.pointee(a) for a in args))
        self.env[i.id] = ("res", name, k)
        esc = self.escaped()
        self.stores.append(("havoc", lambda r, e=frozenset(esc): r in e, k + 1))
        return nxt

    def escaped(self):
        out = set()
        for ev in self.trace:
            for t in ev[1:]:
                self.collect_allocas(t, out)
        for s in self.stores:
            if s[0] in ("havoc", "copy"):
                continue
            if s[0][1][0] != "alloca":
                self.collect_allocas(s[2], out)
        return out

    def collect_allocas(self, t, out):
        if isinstance(t, tuple):
            if t and t[0] == "alloca":
                out.add(t)
                return
            for x in t:
                self.collect_allocas(x, out)

    def pointee(self, a):
        """the current contents of a local object passed to an opaque call"""
        if a[0] == "ptr" and a[1][0] == "alloca":
            m = self.contents(a[1])
            return ("obj", tuple(sorted(m.items(), key=repr)))
        return ()

    def contents(self, root):
        m = {}
        for s in self.stores:
            if s[0] == "havoc":
                if s[1](root):
                    m = {"after": s[2]}
            elif s[0] == "copy":
                if s[1][1] == root:
                    m[("copy", s[1][2], s[3])] = s[2]
            elif s[0][1] == root:
                m[(s[0][2], s[0][3])] = s[2]
        return m

    def final_memory(self):
        m = {}
        for s in self.stores:
            if s[0] == "havoc":
                continue
            if s[0] == "copy":
                dst = s[1]
                if dst[1][0] == "alloca":
                    continue
                src = s[2]
                for k in [k for k in m if k[0][1] == dst[1] and k[0][3] == dst[3] and dst[2] <= k[0][2] < dst[2] + s[3]]:
                    del m[k]
                # split in 8 byte pieces so that the way of copying does not matter
                o = 0
                while o < s[3]:
                    n = 8 if s[3] - o >= 8 else 4 if s[3] - o >= 4 else 1
                    if src == "zero":
                        v = ("zeros",)
                    else:
                        v = self.load_before(s, ("ptr", src[1], src[2] + o, src[3]), n)
                    m[(("ptr", dst[1], dst[2] + o, dst[3]), n)] = v
                    o += n
                continue
            a = s[0]
            if a[1][0] == "alloca":
                continue
            for k in [k for k in m if k[0][1] == a[1] and k[0][3] == a[3] and not (k[0][2] + k[1] <= a[2] or a[2] + s[1] <= k[0][2])]:
                del m[k]
            m[(a, s[1])] = s[2]
        out = {}
        for (a, n), v in m.items():
            v = untype(v)
            if v == ("ld", a, n, 0):
                continue      # unchanged
            out[(a, n)] = v
        return out

    def load_before(self, s, addr, n):
        k = next(j for j, x in enumerate(self.stores) if x is s)
        save = self.stores
        self.stores = save[:k]
        r = self.load(addr, n, "i%d" % (8 * n))
        self.stores = save
        return r


def untype(t):
    if t and t[0] == "ld":
        return ("ld", t[1], t[2], t[4])
    if isC(t) and t[1] == 0 or t == NULL or t == ("f", "0"):
        return ("zeros",)
    return t


def subst(t, w):
    """replaces terms known to be constant in the world"""
    if not isinstance(t, tuple):
        return t
    if t and isinstance(t[0], str) and t in w.iv:
        iv = w.iv[t]
        if iv[0] == iv[1]:
            return ("k", iv[0])
        if iv[2] == iv[3]:
            return ("k", iv[2])
    if t and t[0] == "c":
        return ("k", sgn(t[1], t[2]))
    # terms known to be equal: use the smaller one
    return tuple(subst(x, w) if isinstance(x, tuple) else x for x in t)


def rename(t, names):
    """local objects named in the order of their appearance"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "alloca":
        if t not in names:
            names[t] = ("local", len(names))
        return names[t]
    return tuple(rename(x, names) if isinstance(x, tuple) else x for x in t)


def eqclass(t, w):
    m = {}
    for (k, a, b), s in w.rel.items():
        if k in ("s", "u") and s == {"eq"}:
            m[b] = a
    if not m:
        return t

    def go(x):
        if not isinstance(x, tuple):
            return x
        n = 0
        while x in m and n < 10:
            x = m[x]
            n += 1
        return tuple(go(y) for y in x)
    return go(t)


def show(t, depth=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if k == "arg":
        return "arg%d" % t[1]
    if k == "c":
        return str(sgn(t[1], t[2]))
    if k in ("f", "k"):
        return str(t[1])
    if k == "ptr":
        s = show(t[1])
        for x, n in t[3]:
            s += "+%s*%s" % (n, show(x))
        return "&%s%s" % (s, "+%d" % t[2] if t[2] else "")
    if k == "ld":
        return "[%s]" % show(t[1])[1:]
    if k == "lin":
        s = " + ".join(("%s" % show(x) if c == 1 else "%s*%s" % (sgn(c, t[1]), show(x))) for x, c in t[3])
        return "(%s%s)" % (s, " + %s" % sgn(t[2], t[1]) if t[2] else "")
    if k == "op":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[3:]))
    if k == "res":
        if len(t) == 2:
            return "result#%d" % t[1]
        return "result#%d of %s" % (t[2], t[1].split("(")[0][-60:])
    if k == "g":
        return "@" + t[1]
    if k == "cmp":
        return "(%s %s %s)" % (show(t[3]), t[2], show(t[4]))
    return "%s(%s)" % (k, ", ".join(show(x) for x in t[1:]))


class Outcome:
    def __init__(self, kind, ret, mem, trace):
        self.kind, self.ret, self.mem, self.trace = kind, ret, mem, trace

    def key(self, w, ignore_mem=None):
        def n(t):
            return subst(eqclass(untype(t), w) if t is not None else None, w) if t is not None else None
        mem = []
        for (a, sz), v in self.mem.items():
            if ignore_mem and ignore_mem(a):
                continue
            mem.append((subst(a, w), sz, n(v)))
        names = {}
        trace = tuple(rename(subst(eqclass(e, w), w), names) for e in self.trace)
        ret = rename(n(self.ret), names) if self.ret is not None else None
        mem = tuple(sorted((rename(m, names) for m in mem), key=repr))
        return (self.kind, ret, mem, trace)

    def show(self):
        s = "%s %s" % (self.kind, show(self.ret) if self.ret is not None else "")
        for (a, sz), v in sorted(self.mem.items(), key=repr):
            s += "; %s := %s" % (show(a), show(v))
        for e in self.trace:
            s += "; call %s(%s)" % (e[0].split("(")[0], ", ".join(show(x) for x in e[1:] if x != ()))
        return s


def evaluate(fn, world, boolret=True, **kw):
    ev = Evaluator(fn, world, **kw)
    try:
        r = ev.run()
    except Stop as st:
        r = st.r
    ret = r[1] if len(r) > 1 else None
    if ret is not None and ret[0] in ("cmp", "not"):
        ret = C(ev.truth(ret), 1)
    if ret is not None and fn.d["ret"] == "i1" and not isC(ret):
        ret = C(ev.truth(ret), 1)
    # stored comparisons
    return Outcome(r[0], ret, ev.final_memory(), ev.trace)


def cases(fns, worldfilter=None, nan=True, limit=20000, spans=False, **kw):
    """enumerates the consistent assignments of the comparisons the functions make; yields (world, outcomes)"""
    n = 0
    stack = [World(nan, spans)]
    while stack:
        w = stack.pop()
        try:
            outs = []
            for f in fns:
                outs.append(evaluate(f, w, **kw))
        except Fork as fk:
            for ap, txt in reversed(fk.alts):
                w2 = w.copy()
                if ap(w2):
                    w2.log.append(txt)
                    stack.append(w2)
            continue
        n += 1
        if n > limit:
            raise TooBig("more than %d cases" % limit)
        yield w, outs


def equal(f, g, nan=True, ignore_mem=None, **kw):
    kw.setdefault("mod", None)
    """None when f and g have the same normal form, otherwise a description of a case in which they differ;
    also returns the number of cases"""
    n = 0
    for w, (a, b) in cases([f, g], nan=nan, **kw):
        n += 1
        if a.kind == "unreachable" or b.kind == "unreachable":
            # undefined in the specification as well as in the code, or in the specification: don't care
            if b.kind == "unreachable":
                continue
        if a.key(w, ignore_mem) != b.key(w, ignore_mem):
            return {"case": "; ".join(w.log) or "always", "code": a.show(), "spec": b.show()}, n
    return None, n


# ---------------------------------------------------------------- equality over the real numbers
FIELD = (1 << 127) - 1
FOLDED = {"exp": math.exp, "expm1": math.expm1, "log": math.log, "log1p": math.log1p, "sqrt": math.sqrt}


SNAP = 2 ** -50


def rational(s):
    """a floating point constant of the program; one that is the rounding of a simple fraction stands for the fraction,
    any other of ordinary size for its nearest decimal (so that the last digits of a folded exp do not matter)"""
    from fractions import Fraction
    x = Fraction(s)
    y = x.limit_denominator(10000)
    if x == y or abs(x - y) <= (max(abs(x), 1) if SNAP > 2 ** -40 else abs(x)) * Fraction(SNAP):
        return y
    return Fraction(round(x * 10 ** 13), 10 ** 13) if Fraction(1, 10 ** 5) < abs(x) < 10 ** 5 else x


def constant(t):
    """the value of a calculation from constants, as a fraction; None for anything else"""
    from fractions import Fraction
    if t[0] == "f":
        try:
            return Fraction(t[1])
        except ValueError:
            return None
    if t[0] == "op":
        r = t[1].split(".")[0]
        if r in ("floor", "ceil", "trunc", "fabs") and op_float(t):
            a = constant(t[3])
            return a if a is None else {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "fabs": abs}[r](a) + Fraction(0)
        if t[1] in ("sitofp", "uitofp") and isC(t[3]):
            return Fraction(sgn(t[3][1], t[3][2]) if t[1] == "sitofp" else t[3][1])
        if t[1] in ("rnd", "fneg"):
            a = constant(t[3])
            return a if a is None or t[1] == "rnd" else -a
        if t[1] in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = constant(t[3]), constant(t[4])
            if a is None or b is None or t[1] == "fdiv" and not b:
                return None
            return a + b if t[1] == "fadd" else a - b if t[1] == "fsub" else a * b if t[1] == "fmul" else a / b
    return None


def op_float(t):
    return not re.match(r"i\d+$", str(t[2]))


def nonneg(t):
    """a calculation that gives no negative number"""
    v = constant(t)
    if v is not None:
        return v >= 0
    if t[0] != "op":
        return False
    if t[1] == "uitofp":
        return True
    if t[1] in ("rnd", "fpext", "fptrunc"):
        return nonneg(t[3])
    return t[1] in ("fadd", "fmul", "fdiv") and nonneg(t[3]) and nonneg(t[4])


def integral(t):
    """a calculation that gives a whole number"""
    v = constant(t)
    if v is not None:
        return rational(v).denominator == 1
    if t[0] != "op":
        return False
    if t[1] in ("sitofp", "uitofp"):
        return True
    if t[1].split(".")[0] in ("round", "floor", "ceil", "rint", "nearbyint", "trunc") and op_float(t):
        return True
    if t[1] in ("rnd", "fneg"):
        return integral(t[3])
    if t[1] in ("fadd", "fsub", "fmul"):
        if t[1] == "fmul" and any(constant(x) is not None and rational(constant(x)) == 0 for x in t[3:5]):
            return True
        return integral(t[3]) and integral(t[4])
    return False


def infield(t):
    """the value of a floating point term when every leaf is a fixed pseudo random element of a large prime field;
    rounding and conversions between formats are the identity.  Terms that denote the same rational function have the
    same value, terms that do not differ unless the leaves hit one of the few roots of their difference."""
    import hashlib
    p = FIELD
    k = t[0]
    if k == "f":
        try:
            r = rational(t[1])
        except (ValueError, OverflowError):
            return int.from_bytes(hashlib.sha256(repr(t).encode()).digest(), "big") % p
        return r.numerator * pow(r.denominator, -1, p) % p
    if k in ("c", "k"):
        v = sgn(t[1], t[2]) if k == "c" else t[1]
        return v % p
    if k == "zeros":
        return 0
    if k == "lin":
        return (sgn(t[2], t[1]) + sum(sgn(c, t[1]) * infield(x) for x, c in t[3])) % p
    if k == "op":
        o = t[1]
        v = constant(t)
        if v is not None:
            v = rational(v)
            return v.numerator * pow(v.denominator, -1, p) % p
        if o in ("rnd", "sitofp", "uitofp", "fpext", "fptrunc", "sext", "zext"):
            return infield(t[3])
        if o == "fneg":
            return -infield(t[3]) % p
        if o in ("fadd", "fmul", "fdiv", "fsub", "mul"):
            a, b = infield(t[3]), infield(t[4])
            if o == "fadd":
                return (a + b) % p
            if o == "fsub":
                return (a - b) % p
            if o in ("fmul", "mul"):
                return a * b % p
            return a * pow(b, -1, p) % p if b else int.from_bytes(hashlib.sha256(repr(("div0", a)).encode()).digest(), "big") % p
        if (o in ("fptosi", "fptoui") or o.split(".")[0] in ("round", "floor", "ceil", "rint", "nearbyint", "trunc") and op_float(t)) and integral(t[3]):
            return infield(t[3])
        if o.rstrip("lf") in FOLDED and t[3][0] == "f":
            try:
                return infield(("f", repr(FOLDED[o.rstrip("lf")](float(t[3][1])))))
            except (ValueError, OverflowError):
                pass
        t = ("op", o, t[2]) + tuple(("v", infield(x)) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[3:])
    return int.from_bytes(hashlib.sha256(repr(t).encode()).digest(), "big") % p


def equal_real(f, g, nan=False, snap=2 ** -50, **kw):
    """like equal, for the returned floating point value only and over the real numbers"""
    global SNAP
    SNAP = snap
    n = 0
    kw.setdefault("mod", None)
    for w, (a, b) in cases([f, g], nan=nan, **kw):
        n += 1
        if b.kind == "unreachable":
            continue
        if a.kind != b.kind or (a.ret is not None and infield(eqclass(a.ret, w)) != infield(eqclass(b.ret, w))):
            return {"case": "; ".join(w.log) or "always", "code": a.show(), "spec": b.show()}, n
    return None, n
