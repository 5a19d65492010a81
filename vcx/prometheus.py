"""The text publisher: C21 (well formed output), C22 (options), C23 (labels of windows)"""
import re

from . import core, emit, flow, policies, trace, wholly
from . import exposition as X
from .emit import Env, params, strip
from .flow import isC
from .registry import prop
from .snapshots import ptr

OS = r"(std::ostream|std::basic_ostream<char, std::char_traits<char> ?>)&"
P = [
    r"opaque ^cxxmetrics::(value|meter|histogram|timer)_publish_options::[a-z_]+\(",
    r"opaque ^cxxmetrics::publish_options::[a-z_]+_options\(",
    r"opaque ^cxxmetrics::quantile::[a-z_]+\(",
    r"opaque ^cxxmetrics::metric_path::join",
    r"opaque (^| )cxxmetrics::operator<<",
    r"opaque ^cxxmetrics::metrics_publisher<.*>::effective_options",
    r"inline ^cxxmetrics_prometheus::prometheus_publisher<",
    r"inline cxxmetrics_prometheus::[^']*" + OS + r"[^']*(metric_value|publish_options)[^']*$",
    r"opaque cxxmetrics_prometheus::[^']*" + OS + r"[^']*$",
    r"opaque cxxmetrics_prometheus::[^'(]*\([^']*metric_value[^']*$",
] + policies.R
WRITERS = {"pw_counter": "value", "pw_gauge": "value", "pw_meter": "meter", "pw_histogram": "histogram", "pw_timer": "timer"}
# loops over constant tables
UNROLL = ["--extra=function(loop-simplify,lcssa,loop(loop-unroll-full),sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,gvn,dse,adce,simplifycfg,loop-simplify)", "--unroll-threshold=20000"]
_mod = None


def load():
    global _mod
    if _mod is None:
        _mod = core.normalise("prometheus.cpp", "A", P, prefix="pw_", flags=["-fvisibility=hidden", "-fwhole-program-vtables", "-flto", "-funroll-loops"], tool=UNROLL)
        # questions about values are looked into
        for f in _mod.fns.values():
            ps = params(f.dem)
            if "cxxmetrics_prometheus::" in f.dem and any("metric_value" in x for x in ps) and not any(emit.STREAM.match(x) for x in ps) and not f.args[0].get("sret"):
                f.follow = True
    return _mod


CONV = re.compile(r"::operator (?!new|delete)[a-z_]|^_ZNK10cxxmetrics12metric_valuecv")
BINARY = re.compile(r"^cxxmetrics::metric_value::operator[-+*/]\(")
NUMCH = re.compile(rb"^[-+.0-9A-Za-z]*$")


class Values:
    """where metric values come from"""

    def __init__(self, mod):
        self.mod = mod
        self._f = {}

    def prov(self, p, k, addr, depth=0):
        """what the metric value at an address was made from, as of event k"""
        a = strip(addr)
        if depth > 40:
            return ("?", a)
        for n in range(k - 1, -1, -1):
            e = p.ev[n]
            if e.kind != "call" or not e.args or e.x is not None and e.x.get("pure"):
                continue
            if strip(e.args[0]) != a:
                continue
            m = e.short.split("::")[-1]
            if CONV.search(e.name) or e.name.startswith("cxxmetrics::metric_value::") and e.name.endswith(" const") and not BINARY.match(e.name):
                continue
            if len(params(e.name)) == len(e.args) and re.match(r"^cxxmetrics::metric_value const&$", params(e.name)[0]):
                continue
            if e.name.startswith("cxxmetrics::metric_value::"):
                ps = params(e.name)
                if m == "metric_value":
                    if re.match(r"^cxxmetrics::metric_value( const)?&", ps[0]):
                        return self.prov(p, n, e.args[1], depth + 1)
                    return ("mv", ps[0], e.args[1], n)
                if m == "operator=":
                    return self.prov(p, n, e.args[1], depth + 1)
                if m in ("operator*", "operator/", "operator+", "operator-") and len(e.args) == 3:
                    return ("op", m[-1], self.prov(p, n, e.args[1], depth + 1), self.prov(p, n, e.args[2], depth + 1))
                if m in ("operator*=", "operator/=", "operator+=", "operator-=") and len(e.args) == 2:
                    return ("op", m[-2], self.prov(p, n, a, depth + 1), self.prov(p, n, e.args[1], depth + 1))
                if m == "~metric_value":
                    continue
                return ("?", e.name)
            raw = e.i.callee_raw
            if raw in self.mod.fns and "cxxmetrics_prometheus::" in e.name:
                return self.apply(p, n, e, raw, depth)
            return ("get", e.short, tuple(strip(x) for x in e.args[1:]), n)
        return ("at", a)

    # -- functions of the publisher from values to values
    def function(self, raw):
        """[(path, provenance of the result)]"""
        if raw not in self._f:
            self._f[raw] = None
            f = self.mod.fns[raw]
            out = []
            for p in trace.paths(f, self.mod, cls=emit.Tracer, stable=True):
                if p.kind == "ret":
                    out.append((p, self.prov(p, len(p.ev), ("arg", 0))))
            self._f[raw] = out
        if self._f[raw] is None:
            raise core.AnalysisError("recursion in " + raw)
        return self._f[raw]

    def apply(self, p, n, e, raw, depth):
        args = []
        for k, a in enumerate(e.args):
            args.append(strip(a))
        return ("fn", raw, tuple(args), tuple(self.prov(p, n, a, depth + 1) if k and isinstance(a, tuple) and "metric_value" in (self.ptype(e.name, k) or "") else None for k, a in enumerate(e.args)))

    def ptype(self, name, k):
        ps = params(name)
        return ps[k - 1] if 0 < k <= len(ps) else None

    # -- numbers
    def number(self, p, k, addr):
        return self.isnum(p, k, self.prov(p, k, addr), addr)

    def isnum(self, p, k, v, addr=None):
        if v[0] == "mv":
            c = v[2]
            ty = v[1]
            if ty in ("float", "double", "long double"):
                f = flow_float(c)
                return f is not None and not f_sign(c)
            return not ("char" in ty or "string" in ty)
        if v[0] == "fn":
            return all(self.isnum(q, len(q.ev), r) or self.checked(q, r) for q, r in self.function(v[1]))
        return self.checked(p, v)

    def checked(self, p, v):
        """whether a path has made sure that a value is a number: no character that numbers do not have, and not nan"""
        chars = nan = False
        for n, e in enumerate(p.ev):
            if e.kind != "call" or not e.args:
                continue
            m = e.short.split("::")[-1]
            if "operator long double" in e.name or "operator double" in e.name or "operator float" in e.name:
                if self.prov(p, n, e.args[0]) == v and self.notnan(p, e.res):
                    nan = True
            if m == "find_first_not_of" and len(e.args) >= 2 and self.textof(p, n, e.args[0]) == v:
                b = self.cstr(e.args[1])
                if b is not None and NUMCH.match(b) and (len(e.args) < 3 or e.args[2] == ("c", 0, 64)) and self.nopos(p, e.res):
                    chars = True
        return chars and nan

    def textof(self, p, k, addr):
        """the metric value a string was converted from"""
        a = strip(addr)
        for n in range(k - 1, -1, -1):
            e = p.ev[n]
            if e.kind != "call" or not e.args or e.x is not None and e.x.get("pure") or strip(e.args[0]) != a:
                continue
            if e.name.startswith("cxxmetrics::metric_value::operator std::") or "metric_value" in e.name and "cv" in e.name and "basic_string" in e.name:
                return self.prov(p, n, e.args[1])
            ind = e.x.get("ind") if e.x else None
            if len(e.args) == 2:
                return self.prov(p, n, e.args[1])
            return None
        return None

    def cstr(self, t):
        return emit.Emit.cstr(self, t)

    def text(self, t):
        return emit.Emit.text(self, t)

    def nopos(self, p, t):
        iv = p.w.iv.get(t)
        return iv is not None and iv[0] == iv[1] == -1 or iv is not None and iv[2] == iv[3] == (1 << 64) - 1

    def notnan(self, p, t):
        for key, s in p.w.rel.items():
            if key[0] == "f" and t in key[1:] and "un" not in s:
                return True
        for key, v in p.w.bool.items():
            if key[0] == "bool" and key[1][0] == "pc" and "isnan" in str(key[1][1]) and key[1][2] == t and v is False:
                return True
        return False


def flow_float(t):
    if t[0] == "f":
        try:
            return float(t[1])
        except (ValueError, TypeError):
            return None
    return None


def f_sign(t):
    """a nan with a sign"""
    return str(t[1]).lower().startswith("-nan")


KINDS = ("cumulative_value_snapshot", "average_value_snapshot", "meter_snapshot", "histogram_snapshot", "timer_snapshot")
TAGS, SNAP, VISITOR = ("arg", 101), ("arg", 102), ("ptr", ("alloca", "the visitor", 0), 0, ())


class Visit:
    """a snapshot's visit: what the publisher does for the first tagged metric and what for the ones after it"""

    def __init__(self, kind, fn, name, options, out, start):
        self.kind, self.fn, self.name, self.options, self.out, self.start = kind, fn, name, options, out, start
        self.first, self.later = [], []


class Publisher:
    def __init__(self):
        self.mod = load()
        self.vals = Values(self.mod)
        self.paths = {}
        self.visits = []
        em = emit.Emit(self.mod, X.FORMAT, self.vals.number, self.paths)
        self.format = em
        self.walks = 0
        self.handed = set()
        self.writers = {}
        self.all = em.paths("pw_all")
        for p in self.all:
            for k, e in enumerate(p.ev):
                if e.kind == "call" and e.x and e.x.get("cls") and "basic_registered_metric" in e.x["cls"]:
                    self.walks += 1
                    if self.visited(p, k, e):
                        self.handed.add(id(e))

    def visited(self, p, k, e):
        mod = self.mod
        handed = False
        for a in e.args[1:]:
            fns = emit.slots(mod, e.x["mem"], a) if isinstance(a, tuple) and ptr(a)[1][0] == "alloca" else None
            for f in fns or []:
                if f is None or f not in mod.fns or not any("tag_collection" in x for x in params(mod.fns[f].dem)):
                    continue
                handed = True
                for p2 in emit.within(mod, f, e.x["mem"], {0: a, 1: VISITOR, 2: TAGS}, p.w):
                    if p2.kind == "ret":
                        self.built(p, k, e, p2)
        return handed

    def built(self, p, k, e, p2):
        mod = self.mod
        mem = emit.Memory(p2.t)
        fns = emit.slots(mod, mem, VISITOR)
        if fns is None:
            raise core.AnalysisError("no visitor is built")
        for f in fns:
            ps = params(mod.fns[f].dem) if f in mod.fns else []
            m = re.match(r"^cxxmetrics::(\w+) const&$", ps[-1]) if ps else None
            if not m:
                continue
            v = Visit(m.group(1), f, e, None, ("arg", 1), len(mem.ev))
            v.metric = e.args[0]
            v.first = emit.within(mod, f, mem, {0: VISITOR, 1: SNAP}, p2.w)
            groups = {}
            for q in v.first:
                if q.kind == "ret":
                    left = [s for s in q.t.stores[len(mem.stores):] if s[0] == "havoc" or s[0] == "copy" or s[0][1][0] == "alloca" and s[0][1][1] not in self.inside(q, len(mem.ev))]
                    key = str([s for s in left if s[0] != "havoc"])
                    groups.setdefault(key, (q, left))
            for q, left in groups.values():
                m2 = emit.Memory(q.t)
                m2.stores = mem.stores + left
                m2.ev = mem.ev
                m2.w = p2.w
                v.later += emit.within(mod, f, m2, {0: VISITOR, 1: SNAP}, p2.w)
            self.visits.append(v)

    def inside(self, q, n):
        return {e.addr[1][1] for e in q.ev[n:] if e.kind == "alloca"}


_pub = None


def publisher():
    global _pub
    if _pub is None:
        _pub = Publisher()
    return _pub


def culprit(em, ps, q, depth=0):
    """where output stops being well formed that starts in state q"""
    for p in ps:
        w = em.why.get((q, id(p)))
        if w is None:
            continue
        e, env, states = w
        raw = e.i.callee_raw
        if em.writer(e) and depth < 12:
            for s in states:
                r = culprit(em, em.paths(raw), s, depth + 1)
                if r:
                    return r
        for (_, k), hs in em._in.items():
            if k < len(p.ev) and p.ev[k] is e and depth < 12:
                for f, hp in hs:
                    for s in states:
                        r = culprit(em, hp, s, depth + 1)
                        if r:
                            return r
        return e, [em.X.names[s] for s in states], p
    return None


@prop("C21", technique="abstract interpretation of the written text over an automaton of the format (compiler IR)", level="sound-analysis",
      explains="what the publisher writes for a metric is interpreted as a relation over the states of an automaton that accepts the text exposition format: every write to the stream on every path (loops as fixpoints, strings told apart by being empty or beginning with a digit, characters by the tests made on them) for each kind of snapshot, for the first tagged metric and for the ones after it; metric values count as numbers only where the path has made sure of it",
      rule="from the start of a line, the output of a visit ends at the start of a line and never leaves the format; the TYPE line is written once per metric, before its samples; the name of a metric without elements is not looked at",
      assumptions=["the stream accepts everything and has its default format flags", "characters are classified in the C locale", "tags of a metric have different names after sanitising, other than those the publisher adds"])
def c21(c):
    pub = publisher()
    em = pub.format
    heads = emit.Emit(pub.mod, X.HEADER, pub.vals.number, pub.paths)
    kinds = set()
    for v in pub.visits:
        kinds.add(v.kind)
        for which, what in (("first", "the first tags"), ("later", "further tags")):
            ps = getattr(v, which)
            c.count("paths", len(ps))
            rel = em.solve(v.fn, ps, {}, {v.out}, v.start)
            ends = rel[X.BOL]
            key = "malformed:" + v.kind
            if em.X.dead in ends:
                e, states, p = culprit(em, ps, X.BOL)
                c.bad(key, e.where(), "output of a %s may be malformed: %s is written %s" % (v.kind, describe(pub, e), " or ".join(states)), "on a path where " + p.facts()[-600:])
            else:
                c.require(ends <= {X.BOL}, key, origin(ps), "output of a %s may end %s" % (v.kind, ", ".join(em.X.names[q] for q in ends - {X.BOL})), detail="well formed for " + what)
            hs = {X.HEADS[q][0] if q in X.HEADS else None for q in heads.solve(v.fn, ps, {}, {v.out}, v.start)[0]}
            want = 1 if which == "first" else 0
            c.require(hs <= {want}, "header:%s:%s" % (v.kind, which), origin(ps), "for %s of a metric with a %s %s written, not %s" % (what, v.kind, " or ".join(sorted(("no TYPE line is", "a TYPE line is", "several TYPE lines are", "a TYPE line is, after a sample,")[h] if h is not None else "unknown text is" for h in hs - {want})), ("none", "one")[want]), detail="%s TYPE line for %s" % (("no", "one")[want], what))
    for t, e in sorted(em.derefs.items(), key=str):
        c.bad("empty", e.where(), "an element is used of something that may be empty: %s" % flow.show(t)[:200])
    if not em.derefs:
        c.ok("no element of an empty path or collection is used")
    c.stats["writes interpreted"] = len(em.sites)
    c.stats["functions summarised"] = len({k[0] for k in em._s})
    c.expect(len(kinds & set(KINDS)), 5, "kinds of snapshots")
    c.expect(len(em.sites), 8, "writes interpreted")


def describe(pub, e):
    if e.short.startswith("cxxmetrics::operator<<"):
        return "a value that may be text or a nan with a sign"
    b = pub.format.cstr(e.args[1]) if len(e.args) > 1 and isinstance(e.args[1], tuple) else None
    return "%r" % b.decode("latin1") if b is not None else "what %s puts out" % e.short


def origin(ps):
    for p in ps:
        for e in reversed(p.ev):
            if e.i is not None and e.kind == "call":
                return e.where()
    return "?"


# ---------------------------------------------------------------- C22: which rows are written, with what values
OPTS = {"cumulative_value_snapshot": "value", "average_value_snapshot": "value", "meter_snapshot": "meter", "histogram_snapshot": "histogram", "timer_snapshot": "timer"}
MICRO = "std::chrono::duration<long, std::ratio<1l, 1000000l>>"
# characters the texts of numbers are made of
TEXTS = frozenset(b"0123456789+-.einfa")


def truth(p, t):
    """what a path knows about a condition"""
    b = p.w.bool.get(("bool", t))
    if b is not None:
        return b
    for k, v in p.w.bool.items():
        if k[0] == "bool" and strip(k[1]) == strip(t):
            return v
    for x, iv in p.w.iv.items():
        s = strip(x)
        s0 = strip(t)
        if s == s0 or s[0] == "op" and s[1] in ("and", "zext", "trunc") and s0 in s[2:] and (s[1] != "and" or ("c", 1, 8) in s or ("c", 1, 1) in s):
            if iv[2] == iv[3] == 0:
                return False
            if iv[2] > 0:
                return True
    return None


class Row:
    def __init__(self, p, items, value, e, loop, owner):
        self.p, self.items, self.value, self.e, self.loop, self.owner = p, items, value, e, loop, owner

    def label(self):
        return tuple(self.items)


class Rows:
    """the samples a path writes"""

    def __init__(self, pub, kind):
        self.pub, self.mod, self.em, self.vals, self.kind = pub, pub.mod, pub.format, pub.vals, kind

    def of(self, p, start, owner=()):
        """([row], [(loop event, its number)])"""
        rows, cur, val, where = [], [], None, None
        loop, lps = None, []
        env = Env({}, {})
        for k, e in enumerate(p.ev):
            if k < start:
                continue
            if e.kind == "loop":
                loop = k
                lps.append(k)
                continue
            if e.kind != "call":
                continue
            if e.x and e.x.get("cls"):
                for f, hs in self.em.handlers(p, k, e):
                    for h in hs:
                        if h.kind == "ret":
                            r, _ = self.of(h, len(e.x["mem"].ev), (k,))
                            rows += r
                        elif h.kind == "back":
                            raise core.AnalysisError("a loop in the handler of quantiles is not modelled")
                continue
            if not any(isinstance(a, tuple) and self.em.isstream(a, p, {self.out}) for a in e.args):
                continue
            for it in self.items(p, k, e, env):
                if it[0] == "lit":
                    parts = it[1].split(b"\n")
                    for n, part in enumerate(parts):
                        if n:
                            if val is not None or cur and not (cur[0][0] == "lit" and cur[0][1].startswith(b"#")):
                                rows.append(Row(p, cur, val, where or e, loop, owner))
                            cur, val, where = [], None, None
                        if part:
                            if cur and cur[-1][0] == "lit":
                                cur[-1] = ("lit", cur[-1][1] + part)
                            else:
                                cur.append(("lit", part))
                elif it[0] == "value":
                    if val is not None:
                        raise core.AnalysisError("two values on one line (%s)" % e.where())
                    val, where = (p, k, e.args[1]), e
                else:
                    cur.append(it)
        if val is not None:
            rows.append(Row(p, cur, val, where, loop, owner))
        return rows, lps

    out = ("arg", 1)

    def items(self, p, k, e, env):
        if e.short == "cxxmetrics::operator<<":
            return [("value",)]
        if self.em.writer(e):
            return [("fn", e.i.callee_raw) + tuple(strip(a) if not (isinstance(a, tuple) and self.em.isstream(a, p, {self.out})) else "stream" for a in e.args)]
        ps = params(e.name)
        m = e.short.split("::")[-1]
        if len(e.args) >= 2:
            v = e.args[1]
            if ps and re.match(r"^(signed |unsigned )?char const\*$", ps[-1]):
                b = self.em.cstr(v)
                if b is not None:
                    return [("lit", b)]
            if ps and re.match(r"^(signed |unsigned )?char$", ps[-1]) and isC(v):
                return [("lit", bytes((v[1] & 255,)))]
            if m == "put" and isC(v):
                return [("lit", bytes((v[1] & 255,)))]
            if m == "write" and len(e.args) == 3 and isC(e.args[2]):
                b = self.em.text(v)
                if b is not None:
                    return [("lit", b[:e.args[2][1]])]
            if "endl" in str(v):
                return [("lit", b"\n")]
            return [("out", ps[-1] if ps else m, strip(v))]
        return []

    # -- values
    def forms(self, p, v, depth=0):
        """[({term of options: whether they scale}, value, path of the innermost function)]; a value is a source or ('*', source, factor)"""
        if depth > 10:
            raise core.AnalysisError("values are nested too deeply")
        if v[0] == "fn":
            out = []
            for q, r in self.vals.function(v[1]):
                known = {}
                for o in self.scales(q):
                    known[self.outer(o, v[2])] = self.isscaled(q, o)
                for kn, val, src in self.forms(q, r, depth + 1):
                    inner = {self.outer(o, v[2]): b for o, b in kn.items()}
                    inner.update(known)
                    out += self.fill(p, v, inner, val, src, depth)
            return self.merge(out)
        if v[0] == "op" and v[1] == "*":
            out = []
            for ka, a, s in self.forms(p, v[2], depth + 1):
                for kb, b, sb in self.forms(p, v[3], depth + 1):
                    fa, fb = self.factor(a), self.factor(b)
                    if fb is not None:
                        out.append((dict(ka, **kb), ("*", a, fb), s))
                    elif fa is not None:
                        out.append((dict(ka, **kb), ("*", b, fa), sb))
                    else:
                        out.append((dict(ka, **kb), v, s))
            return out
        return [({}, v, p)]

    def fill(self, p, v, known, val, src, depth):
        """a value in terms of a function's caller"""
        if val[0] == "at" and val[1][0] == "arg":
            k = val[1][1]
            if k < len(v[3]) and v[3][k] is not None:
                return [(dict(known, **kn), x, s) for kn, x, s in self.forms(p, v[3][k], depth + 1)]
            return [(known, ("?", val), src)]
        if val[0] == "*":
            return [(kn, ("*", x, self.outer(val[2], v[2])), s) for kn, x, s in self.fill(p, v, known, val[1], src, depth)]
        return [(known, val, src)]

    @staticmethod
    def merge(out):
        seen, r = set(), []
        for kn, x, s in out:
            k = (tuple(sorted(kn.items(), key=str)), x if x[0] != "mv" else x[:3], id(s))
            if k not in seen:
                seen.add(k)
                r.append((kn, x, s))
        return r

    def factor(self, v):
        """the options whose scale factor a value is"""
        if v[0] == "mv" and v[1] in ("double", "float", "long double"):
            t = strip(v[2])
            while t[0] == "op" and t[1] in ("fpext", "fptrunc"):
                t = t[3]
            if t[0] == "ext" and t[2] == 0 and t[1][0] == "pc" and t[1][1].endswith("::scale"):
                return self.base(t[1][2])
            if t[0] == "pc" and t[1].endswith("factor") and isinstance(t[2], tuple):
                return self.base(t[2])
        return None

    @staticmethod
    def base(t):
        return ptr(t)[1]

    def outer(self, o, args):
        if o[0] == "arg" and o[1] < len(args):
            return self.base(args[o[1]])
        return o

    def scales(self, p):
        out = set()

        def go(t):
            if isinstance(t, tuple):
                if t and t[0] == "pc" and isinstance(t[1], str) and t[1].endswith("_publish_options::scale"):
                    out.add(t[2])
                for x in t:
                    go(x)
        for t in list(p.w.iv) + list(p.w.bool) + list(p.w.ne) + list(p.w.rel):
            go(t)
        return {self.base(strip(t)) for t in out}

    def isscaled(self, p, o):
        for t in list(p.w.iv) + list(p.w.bool):
            found = []

            def go(x):
                if isinstance(x, tuple):
                    if x and x[0] == "ext" and x[2] == 1 and x[1][0] == "pc" and str(x[1][1]).endswith("_publish_options::scale") and self.base(strip(x[1][2])) == o:
                        found.append(x)
                    for y in x:
                        go(y)
            go(t)
            for x in found:
                r = truth(p, x)
                if r is not None:
                    return r
        return None

    def isnan(self, v):
        return v[0] == "mv" and v[1] in ("double", "float", "long double") and v[2][0] == "f" and "nan" in v[2][1].lower()

    def subject(self, v, p, loop):
        """what a value is"""
        if v[0] == "get":
            if v[1] == "cxxmetrics::value_snapshot::value" and len(v[2]) == 1:
                a = ptr(v[2][0])
                return ("value", a[2]) if a[1] == SNAP and not a[3] else None
            if v[1] == "cxxmetrics::reservoir_snapshot::mean" and ptr(v[2][0])[1] == SNAP:
                return ("mean",)
            return None
        if v[0] == "at":
            if v[1][0] == "arg" and v[1][1] > 1000:
                return ("quantile",)
            a = ptr(v[1])
            return ("window", a[1]) if a[1][0] == "iv" and not a[3] else None
        if v[0] == "mv":
            t = strip(v[2])
            if t[0] == "pc" and t[1] == "cxxmetrics::histogram_snapshot::count" and self.base(t[2]) == SNAP:
                return ("count",)
            if v[1] == MICRO:
                if t[0] == "op" and t[1] == "sdiv" and t[4] == ("c", 1000, 64):
                    n, want = t[3], "1000000000l"
                else:
                    n, want = t, "1000000l"
                if n[0] == "res" and n[1] < len(p.ev):
                    e = p.ev[n[1]]
                    if "metric_value::operator std::chrono::duration<long, std::ratio<1l, %s>>" % want in e.name:
                        s = self.subject(self.vals.prov(p, n[1], e.args[0]), p, loop)
                        return ("micros",) + s if s else None
        return None


def scaled(c, rs, row, want, key, what):
    """the value is what it should be, scaled as the options say"""
    p, k, a = row.value
    forms = rs.forms(p, rs.vals.prov(p, k, a))
    subj = set()
    for known, v, src in forms:
        nan = v
        while nan[0] == "*":
            nan = nan[1]
        if rs.isnan(nan) and src is not p:
            if not nanwhen(rs, src):
                c.bad(key, row.e.where(), "the sample of %s may be nan although the value is a number" % what, src.facts()[-600:])
            continue
        own = {o: rs.isscaled(p, o) for o in rs.scales(p)}
        own.update(known)
        if v[0] == "*":
            if v[2] != want:
                c.bad(key, row.e.where(), "the sample of %s is scaled by other options than those of its kind: %s" % (what, flow.show(v[2])[:150]))
                return None
            if own.get(want) is not True:
                c.bad(key, row.e.where(), "the sample of %s is scaled although the options have no scale" % what)
                return None
            v = v[1]
            if v[0] == "*":
                c.bad(key, row.e.where(), "the sample of %s is scaled more than once" % what)
                return None
        elif own.get(want) is not False:
            other = [o for o in own if o != want]
            c.bad(key, row.e.where(), "the sample of %s is not scaled although the options %s" % (what, "of its kind may have a scale (other options are asked: %s)" % ", ".join(flow.show(o)[:100] for o in other) if other else "may have a scale"))
            return None
        subj.add((rs.subject(v, p, row.loop), str(v)[:300]))
    if len({s for s, _ in subj}) != 1:
        c.bad(key, row.e.where(), "the value of a sample is not always the same: %s" % " or ".join(t for _, t in subj))
        return None
    s, t = subj.pop()
    if s is None:
        c.bad(key, row.e.where(), "a sample is written whose value is none of the snapshot's: " + t)
    return s


def nanwhen(rs, p):
    """a path that turns a value into nan has found that it is none"""
    for n, e in enumerate(p.ev):
        if e.kind != "call" or not e.args:
            continue
        if "operator long double" in e.name or "operator double" in e.name:
            if unordered(p, e.res):
                return True
        if e.short.split("::")[-1] == "find_first_not_of" and len(e.args) >= 2:
            b = rs.em.cstr(e.args[1])
            if b is not None and TEXTS <= frozenset(b) and not rs.vals.nopos(p, e.res):
                iv = p.w.iv.get(e.res)
                if iv is not None and iv[3] < (1 << 64) - 1 or -1 in {flow.sgn(x, 64) for x in p.w.ne.get(e.res, ())}:
                    return True
    return False


def unordered(p, t):
    for key, s in p.w.rel.items():
        if key[0] == "f" and t in key[1:] and s == {"un"}:
            return True
    return False


def flags(kind, p, opts):
    def get(name):
        for k in list(p.w.bool) + [("", x) for x in p.w.iv]:
            t = k[1] if len(k) > 1 else None
            found = []

            def go(x):
                if isinstance(x, tuple):
                    if x and x[0] == "pc" and isinstance(x[1], str) and x[1].endswith("::" + name) and ptr(strip(x[2]))[1] == opts:
                        found.append(x)
                    for y in x:
                        go(y)
            go(t)
            for x in found:
                r = truth(p, x)
                if r is not None:
                    return r
        return None
    return get


def expected(kind, get):
    """{subject: whether it must be written (None: the path does not know)}"""
    if kind in ("cumulative_value_snapshot", "average_value_snapshot"):
        return {"value": True}
    if kind == "meter_snapshot":
        return {"value": get("include_mean"), "windows": True}
    if kind == "histogram_snapshot":
        return {"count": get("include_count"), "mean": True, "quantile": True}
    r, m = get("include_rates"), get("include_mean")
    return {"count": get("include_count"), "mean": True, "quantile": True, "value": False if r is False or m is False else True if r and m else None, "windows": r}


@prop("C22", technique="path-sensitive dataflow: provenance of every value written, against the options the path asked (compiler IR)", level="sound-analysis",
      explains="every path through the publisher's visit of each kind of snapshot, for the first tagged metric and further ones: the samples it writes, what their values were made from (through copies, conversions, scaling and functions of the publisher), and what the path knows about the options; the handler of quantiles and one generic iteration over the windows included",
      rule="every sample's value is one of the snapshot's, multiplied by the scale of the options for its kind exactly when they have one (nan only where it is no number); count, mean, rates and windows are written exactly when the options say so, each once, with different labels; times are in microseconds; the walk over the windows is complete; every metric that has a name is visited once; the walks over tags and names write every element",
      assumptions=["the options' accessors answer the same each time while a metric is written", "C20 covers which options are in effect, C26 what quantiles are"])
def c22(c):
    pub = publisher()
    kinds = set()
    for v in pub.visits:
        if v.kind not in OPTS:
            continue
        kinds.add(v.kind)
        rs = Rows(pub, v.kind)
        rs.out = v.out
        for ps in (v.first, v.later):
            for p in ps:
                rowsof(c, pub, v, rs, p)
    for (raw, j, what), e in sorted(pub.writers.items(), key=str):
        left = wholly.check(pub.format, raw, j, 2 if what == "tags" else 1)
        c.count("functions that write tags or names")
        for at, msg, path in left or []:
            c.bad("all:" + what, at, ("of the tags of a metric, " if what == "tags" else "of the elements of a name, ") + msg, "on a path where " + path)
        if left is None:
            c.count("of these not followed, because the walk has another form")
        elif not left:
            c.ok("all:%s:%s" % (what, raw[:80]))
    if everything(c, pub) and not kinds:
        return
    c.expect(len(kinds), 5, "kinds of snapshots")
    c.expect(c.stats.get("samples", 0), 20, "samples")


def everything(c, pub):
    """each metric with a name is visited, once; True if some are not"""
    bad = False
    for p in pub.all:
        n = [e for e in p.ev if id(e) in pub.handed]
        if len(n) > 1 and p.kind == "back":
            bad = True
            c.bad("everything", n[1].where(), "a metric is written more than once")
        if n or p.kind != "back" or not any("'iv'" in repr(k) for k in p.w.bool):
            continue
        # a metric may be left out for having no name
        if not any(nameless(k, v) for k, v in p.w.bool.items()):
            bad = True
            c.bad("everything", origin([p]), "a metric is left out without its name being known to be empty", "on a path where " + p.facts()[-600:])
    if not bad:
        c.ok("everything", "%d ways through the walk over the metrics" % len(pub.all))
    return bad


def nameless(key, val):
    t = repr(key)
    if "('iv'" not in t or "('pc'" not in t:
        return False
    if "'empty'" in t or "'size'" in t:
        return True
    return key[0] == "peq" and val and "'begin'" in t.replace("cbegin", "begin") and "'end'" in t.replace("cend", "end")


def options(p, kind, v):
    """the options of a kind out of those in effect for the metric that is visited"""
    for n, e in enumerate(p.ev[:v.start]):
        if e.kind == "call" and e.short.endswith("::effective_options") and len(e.args) == 2 and ptr(strip(e.args[1])) == ptr(strip(v.metric)):
            return ("pc", "cxxmetrics::publish_options::%s_options" % OPTS[kind], ("res", n))
    return None


def rowsof(c, pub, v, rs, p):
    if p.kind not in ("ret", "back"):
        return
    opts = options(p, v.kind, v)
    if opts is None:
        c.bad("options:" + v.kind, v.name.where(), "the options in effect for a metric are not asked for")
        return
    c.count("paths")
    rows, lps = rs.of(p, v.start)
    got, labels = {}, set()
    last = None
    if p.kind == "back":
        last = next(n for n in reversed(lps) if p.ev[n].x["h"] == p.ret)
    windows = 0
    for r in rows:
        c.count("samples")
        what = "a " + v.kind
        key = "sample:" + v.kind
        if r.value is None:
            raise core.AnalysisError("a line without a value is written (%s)" % r.e.where())
        s = scaled(c, rs, r, opts, key, what)
        if s is None:
            continue
        name = s[0]
        if name == "micros":
            name = s[1]
            if v.kind != "timer_snapshot" or name not in ("mean", "quantile"):
                c.bad(key, r.e.where(), "a value that is no time is written as microseconds")
                continue
        elif v.kind == "timer_snapshot" and name in ("mean", "quantile"):
            c.bad(key, r.e.where(), "a time is not written in microseconds")
            continue
        if name == "window":
            if r.loop is None or p.kind != "back" and False:
                c.bad(key, r.e.where(), "a window is written outside the walk over the windows")
                continue
            if p.kind == "back" and r.loop == last:
                windows += 1
                window(c, v, rs, p, r, last, s, key)
            else:
                raise core.AnalysisError("windows are walked in a way that is not modelled (%s)" % r.e.where())
        elif name == "value" and v.kind == "timer_snapshot" and s[1] == 0:
            c.bad(key, r.e.where(), "the mean rate of a timer is not that of its meter")
            continue
        elif p.kind == "back" and r.loop == last:
            c.bad(key, r.e.where(), "the %s is written once per window" % name)
            continue
        if not r.owner:
            got[name] = got.get(name, 0) + 1
        else:
            got.setdefault("quantile", {}).setdefault(id(r.p), 0)
            got["quantile"][id(r.p)] += 1
            if name != "quantile":
                c.bad(key, r.e.where(), "the %s is written once per quantile" % name)
        lab = (r.label(), bool(r.owner))
        if not r.owner:
            c.require(lab not in labels, "label:" + v.kind, r.e.where(), "two samples of a metric have the same name and labels", detail="its own label")
        labels.add(lab)
        if r.owner:
            q = ("arg", r.value[0].ev and 1000 * (r.owner[0] + 1) + 1)
            c.require(any(inside(it, q) or any(inside(it, x) for x in copiesof(r.p, q)) for it in r.items), "label:" + v.kind, r.e.where(), "the label of a quantile does not name the quantile", detail="labelled with the quantile")
            for it in r.items:
                if it[0] == "out" and any(inside(it, x) for x in copiesof(r.p, q)):
                    f = fraction(it[2])
                    c.require(f is not None and abs(f - 0.01) < 1e-9, "label:" + v.kind, r.e.where(), "the label of a quantile is %s times its percentile" % f, detail="the percentile divided by 100")
        for it in r.items:
            if it[0] == "fn":
                for j, a in enumerate(it[2:]):
                    r0 = ptr(a)[1] if isinstance(a, tuple) else ()
                    if r0 == TAGS or r0 and r0[0] == "iv" and r0[1] == "pw_all":
                        pub.writers.setdefault((it[1], j, "tags" if r0 == TAGS else "name"), r.e)
        c.require(any(it[0] == "fn" and any(inside(a, TAGS) for a in it[2:]) for it in r.items), "tags:" + v.kind, r.e.where(), "a sample is written without the tags of the metric", detail="with the tags")
    exp = expected(v.kind, flags(v.kind, p, opts))
    handled = [k for k, e in enumerate(p.ev[v.start:]) if e.kind == "call" and e.x and e.x.get("cls")]
    for name, must in exp.items():
        if name == "windows":
            if p.kind == "back":
                c.require(windows == 1 if must else windows == 0 if must is False else False, "windows:" + v.kind, origin([p]), "%d samples are written for a window of a path where %s" % (windows, p.facts()[-300:]), detail="one sample per window")
            else:
                walks = [n for n in lps if walk(p, n)]
                if must is None:
                    c.bad("windows:" + v.kind, origin([p]), "the windows of the rate are written or not without asking whether they should be", p.facts()[-400:])
                else:
                    c.require(bool(walks) == must and len(walks) <= 1 and all(complete(p, n) for n in walks), "windows:" + v.kind, origin([p]), "the windows are %s although the options %s" % ("not (all) walked" if must else "walked", "ask for them" if must else "do not ask for them"), p.facts()[-400:], detail="all windows" if must else "no windows")
            continue
        n = got.get(name, 0)
        if name == "quantile":
            ok = isinstance(n, dict) and all(x == 1 for x in n.values()) and len(handled) == 1 and asked(p, v, opts)
            c.require(ok, "quantile:" + v.kind, origin([p]), "the quantiles the options ask for are not each written once", p.facts()[-400:], detail="each quantile once")
        elif must is None:
            # windows are looked at before the path gets to what it does not know
            c.bad("unasked:%s:%s" % (v.kind, name), origin([p]), "the %s is written or not without asking the options whether it should be" % name, p.facts()[-400:]) if p.kind == "ret" or n else None
        else:
            c.require(n == (1 if must else 0), "%s:%s" % (v.kind, name), origin([p]), "%d samples of the %s are written although the options say %s" % (n, name, must), p.facts()[-400:], detail="%s: %d" % (name, n))


def fraction(t):
    """the factor between a percentile and what is written"""
    if t[0] == "pc":
        return 1.0 if t[1].endswith("::percentile") else None
    if t[0] == "op" and t[1] in ("fpext", "fptrunc"):
        return fraction(t[3])
    if t[0] == "op" and t[1] in ("fdiv", "fmul") and len(t) >= 5:
        for a, b in ((t[3], t[4]), (t[4], t[3]))[:1 if t[1] == "fdiv" else 2]:
            k = flow_float(b) if b[0] == "f" else None
            f = fraction(a)
            if f is not None and k is not None:
                return f * k if t[1] == "fmul" else f / k if k else None
    return None


def copiesof(p, t):
    """what was asked of a copy of something"""
    return {strip(e.res) for e in p.ev if e.kind == "call" and e.x and any(inside(h, t) for h in e.x.get("held") or ())}


def inside(t, s):
    return t == s or isinstance(t, tuple) and any(inside(x, s) for x in t)


def walk(p, n):
    """(phi, object) of a loop over the windows of a snapshot"""
    for k, (init, t) in p.ev[n].x["iv"].items():
        s = strip(init) if init is not None else None
        if s and s[0] == "pc" and s[1].endswith("meter_snapshot::begin") and ptr(s[2])[1] == SNAP:
            return k, s[2], t
    return None


def complete(p, n):
    """a path that left the walk was at its end"""
    k, obj, t = walk(p, n)
    return atend(p, obj, t) is True


def atend(p, obj, t):
    for key, v in p.w.bool.items():
        if key[0] == "peq":
            a, b = strip(key[1]), strip(key[2])
            for x, y in ((a, b), (b, a)):
                y = ptr(y)[1]
                if ptr(x) == ptr(t) and y[0] == "pc" and y[1].endswith("meter_snapshot::end") and y[2] == obj:
                    return v
    return None


def following(p, x, t):
    """x is the iterator after t"""
    if x is None:
        return False
    x = strip(x)
    if x[0] == "ld":
        a = ptr(x[1])
        return ptr(t)[1] == a[1] and a[2] == 0 and not a[3]
    if x[0] == "res" and x[1] < len(p.ev):
        e = p.ev[x[1]]
        return e.name.startswith("std::_Rb_tree_increment") and ptr(e.args[0]) == ptr(t)
    return x[0] == "pc" and x[1].startswith("std::_Rb_tree_increment") and ptr(x[2]) == ptr(t)


def window(c, v, rs, p, r, last, s, key):
    w = walk(p, last)
    if w is None:
        c.bad(key, r.e.where(), "the walk over the windows does not begin at the first")
        return
    k, obj, t = w
    c.require(s[1] == t, key, r.e.where(), "the sample of a window is not the value of that window", detail="the window's value")
    c.require(p.x and following(p, p.x.get(k), t), "windows:" + v.kind, r.e.where(), "the walk over the windows does not go from one to the next", detail="from one to the next")
    c.require(atend(p, obj, t) is False, "windows:" + v.kind, r.e.where(), "a window is used before it is known that there is one", detail="not at the end")
    c.require(any(it[0] == "fn" and any(inside(a, t) for a in it[2:]) for it in r.items), "label:" + v.kind, r.e.where(), "the label of a window does not name the window", detail="labelled with the window")


def asked(p, v, opts):
    """the quantiles of the right options, of this snapshot"""
    for k, e in enumerate(p.ev):
        if k < v.start or e.kind != "call" or not e.x or not e.x.get("cls"):
            continue
        if not any(isinstance(a, tuple) and ptr(strip(a))[1] == SNAP for a in e.args[1:]):
            return False
        # a pointer that came from the options' quantiles()
        o = ptr(strip(e.args[0]))[1]
        while o[0] in ("pc", "ld") and isinstance(o[2 if o[0] == "pc" else 1], tuple):
            if o[0] == "pc" and o[1].endswith("::quantiles"):
                return ptr(o[2])[1] == opts
            o = ptr(o[2] if o[0] == "pc" else o[1])[1]
        if o[0] == "alloca":
            for x in reversed(p.ev[:k]):
                if x.kind == "call" and x.short.endswith("::quantiles") and ptr(strip(x.args[0]))[1] == o:
                    return ptr(strip(x.args[1]))[1] == opts
        return False
    return False


# ---------------------------------------------------------------- C23: labels of windows
UNITS = {}
for _u, _n in ((3600 * 10 ** 9, "h hr hrs hour hours"), (60 * 10 ** 9, "m min mins minute minutes"), (10 ** 9, "s sec secs second seconds"), (10 ** 6, "ms msec msecs millisecond milliseconds"),
               (10 ** 3, "us usec usecs microsecond microseconds"), (1, "ns nsec nsecs nanosecond nanoseconds"), (86400 * 10 ** 9, "d day days")):
    for _w in _n.split():
        UNITS[_w] = _u


def expand(mod, raw):
    """paths of a function of the publisher, those it calls included"""
    todo, seen = [raw], []
    while todo:
        f = todo.pop()
        if f in seen or f not in mod.fns:
            continue
        seen.append(f)
        todo += [i.callee_raw for i in mod.fns[f].insts() if i.is_call() and i.callee_raw in mod.fns and "cxxmetrics_prometheus::" in mod.fns[i.callee_raw].dem and "metric_value" not in mod.fns[i.callee_raw].dem]
    old = {f: mod.fns[f].follow for f in seen}
    try:
        for f in seen:
            mod.fns[f].follow = True
        return list(trace.paths(mod.fns[raw], mod, cls=emit.Tracer, stable=True))
    finally:
        for f, v in old.items():
            mod.fns[f].follow = v


class Linear:
    """sums of multiples of what is left when a whole part is taken away"""

    def __init__(self, dur, ps=()):
        self.dur = dur
        self.nonneg = any(iv[0] >= 0 for p in ps for t, iv in p.w.iv.items() if strip(t) == dur)

    def of(self, t):
        """{atom: factor}; atoms are 1, the duration and quotients ('q', sum, unit)"""
        t = strip(t)
        if t == self.dur:
            return {"D": 1}
        if isC(t):
            v = flow.sgn(t[1], t[2])
            return {"1": v} if v else {}
        if t[0] == "lin":
            v = flow.sgn(t[2], t[1])
            r = {"1": v} if v else {}
            for x, k in t[3]:
                r = self.plus(r, self.of(x), flow.sgn(k, t[1]) if isinstance(k, int) else k)
            return r
        if t[0] == "op":
            m = t[1]
            if self.nonneg and m in ("udiv", "urem"):
                m = "s" + m[1:]
            if m in ("sext", "freeze") and len(t) >= 4:
                return self.of(t[3])
            if m in ("add", "sub", "mul", "sdiv", "srem", "shl") and len(t) >= 5:
                a, b = self.of(t[3]), self.of(t[4])
                if m == "add":
                    return self.plus(a, b, 1)
                if m == "sub":
                    return self.plus(a, b, -1)
                if m == "mul":
                    for x, y in ((a, b), (b, a)):
                        if set(y) <= {"1"}:
                            return {k: v * y.get("1", 0) for k, v in x.items() if v * y.get("1", 0)}
                if m == "shl" and set(b) <= {"1"}:
                    return {k: v << b.get("1", 0) for k, v in a.items()}
                if m in ("sdiv", "srem") and set(b) == {"1"} and b["1"] > 0:
                    u = b["1"]
                    if u == 1:
                        return a if m == "sdiv" else {}
                    q = ("q", tuple(sorted(a.items(), key=str)), u)
                    if len(a) == 1:
                        (x, v), = a.items()
                        if isinstance(x, tuple) and x[0] == "q" and v == 1:
                            q = ("q", x[1], x[2] * u)
                    return {q: 1} if m == "sdiv" else self.plus(a, {q: 1}, -u)
        return {("t", t): 1}

    @staticmethod
    def plus(a, b, k):
        r = dict(a)
        for x, v in b.items():
            r[x] = r.get(x, 0) + k * v
            if not r[x]:
                del r[x]
        return r

    def zeros(self, p):
        """what a path knows to be zero"""
        out = []
        for t, iv in p.w.iv.items():
            if iv[0] == iv[1] or iv[2] == iv[3]:
                f = self.of(t)
                f = self.plus(f, {"1": iv[0] if iv[0] == iv[1] else iv[2]}, -1)
                out.append(f)
        for key, s in p.w.rel.items():
            if s == {"eq"} and key[0] != "f":
                out.append(self.plus(self.of(key[1]), self.of(key[2]), -1))
        return [f for f in out if f]

    def iszero(self, f, zeros):
        """whether a sum is zero given others that are"""
        from fractions import Fraction
        rows = []
        for z in zeros:
            z = {k: Fraction(v) for k, v in z.items()}
            for piv, r in rows:
                if piv in z:
                    z = self.plus(z, r, -z[piv])
            if not z:
                continue
            piv = max(z, key=lambda k: (isinstance(k, tuple), str(k)))
            z = {k: v / z[piv] for k, v in z.items()}
            rows = [(pv, self.plus(r, z, -r[piv]) if piv in r else r) for pv, r in rows]
            rows.append((piv, z))
        f = {k: Fraction(v) for k, v in f.items()}
        for piv, r in rows:
            if piv in f:
                f = self.plus(f, r, -f[piv])
        return not f


@prop("C23", technique="path-sensitive dataflow with linear arithmetic over quotients: what the label of a window says against the window's duration (compiler IR)", level="sound-analysis",
      explains="every path that writes the label of a window of a meter or timer: the numbers and units it writes, as sums of quotients of the duration, with the divisibilities the path has established",
      rule="the numbers times the units named after them add up to the window's duration on every path; every number is followed by a unit and every unit has one meaning, so that different durations have different labels",
      assumptions=["the units are named with one of the usual abbreviations, or stand for the divisor of the number before them"])
def c23(c):
    pub = publisher()
    done, labels = {}, 0
    for v in pub.visits:
        if v.kind not in ("meter_snapshot", "timer_snapshot"):
            continue
        rs = Rows(pub, v.kind)
        rs.out = v.out
        for ps in (v.first, v.later):
            for p in ps:
                if p.kind != "back":
                    continue
                rows, lps = rs.of(p, v.start)
                last = next(n for n in reversed(lps) if p.ev[n].x["h"] == p.ret)
                w = walk(p, last)
                if w is None:
                    continue
                for r in rows:
                    if r.loop == last:
                        labels += 1
                        labelled(c, pub, v, p, r, strip(w[2]), done)
    c.count("labels", labels)
    c.expect(labels, 4, "labels of windows")
    c.expect(len(done), 1, "ways to write the label")


def pieces(items):
    """what is written between the quotes of the window's label"""
    out, on = [], False
    for it in items:
        if it[0] == "lit":
            s = it[1]
            while s:
                if not on:
                    k = s.find(b'window="')
                    if k < 0:
                        break
                    s, on = s[k + 8:], True
                else:
                    k = s.find(b'"')
                    if k >= 0:
                        if s[:k]:
                            out.append(("lit", s[:k]))
                        return out
                    out.append(("lit", s))
                    s = b""
        elif on:
            out.append(it)
    return None


def labelled(c, pub, v, p, r, t, done):
    key = "window-label:" + v.kind
    its = pieces(r.items)
    if its is None:
        c.bad(key, r.e.where(), "the sample of a window has no label for the window")
        return
    node = ptr(t)[1]
    ways = [([p], [], None)]
    for it in its:
        if it[0] != "fn":
            ways = [(ps, seq + [it], d) for ps, seq, d in ways]
            continue
        hit = [k - 2 for k, a in enumerate(it) if k >= 2 and inside(a, node)]
        if len(hit) != 1:
            c.bad(key, r.e.where(), "the label of a window does not come from the window's duration")
            return
        k = hit[0]
        a = ptr(it[2 + k]) if it[2 + k][0] != "ld" else None
        if it[1] not in done:
            done[it[1]] = [(q, label(pub, q)) for q in expand(pub.mod, it[1]) if q.kind != "unreachable"]
        # the window itself, or its address
        dur = strip(("ld", ("ptr", ("arg", k), 0, ()), 8, "i64")) if a is not None else ("arg", k)
        ways = [(ps + [q], seq + s, dur) for ps, seq, d in ways for q, s in done[it[1]]]
    for ps, seq, d in ways:
        c.count("ways to write a label")
        where = origin(ps)
        if any(q.kind == "back" for q in ps[1:]):
            raise core.AnalysisError("a loop in the label of a window is not modelled (%s)" % where)
        if d is None:
            ds = {x for it in seq if it[0] == "out" for x in loads(it[2], node)}
            if len(ds) != 1:
                c.bad(key, where, "the label of a window is not made from the window's duration")
                continue
            d = ds.pop()
        lin = Linear(d, ps)
        total, n, num = {}, 0, None
        bad = None
        for it in seq:
            if it[0] == "out":
                if num is not None:
                    bad = "two numbers follow one another"
                if not INT.match(it[1]):
                    bad = "a number is written as " + it[1]
                num = it
            elif it[0] == "lit":
                u = it[1].decode("latin1").strip(" _")
                if num is None or not u or u[0].isdigit() or u[-1].isdigit():
                    bad = "%r does not follow a number" % it[1].decode("latin1")
                    break
                f = lin.of(num[2])
                unit = UNITS.get(u)
                if unit is None:
                    unit = next(iter(f))[2] if len(f) == 1 and isinstance(next(iter(f)), tuple) and next(iter(f))[0] == "q" else None
                    if unit is None:
                        raise core.AnalysisError("the unit %r of a label is not known" % u)
                c.stats.setdefault("units", {})
                if c.stats["units"].setdefault(u, unit) != unit:
                    bad = "%r stands for different units" % u
                total = lin.plus(total, f, unit)
                num, n = None, n + 1
            else:
                raise core.AnalysisError("a label is written in a way that is not modelled (%s)" % where)
        if bad is None and num is not None:
            bad = "a number has no unit"
        if bad is None and not n:
            bad = "nothing is written"
        zeros = [z for q in ps for z in Linear(d, ps).zeros(q)]
        ok = bad is None and lin.iszero(lin.plus(total, {"D": 1}, -1), zeros)
        say = "".join(it[1].decode("latin1") if it[0] == "lit" else "<%s>" % flow.show(it[2]) if it[0] == "out" else "?" for it in seq)
        c.require(ok, key, where, "the label of a window is not its duration: %s (%s)" % (say[:200], bad or "the sum of the numbers times their units is another"), ps[-1].facts()[-500:], detail=say[:200])


INT = re.compile(r"^(unsigned |signed )?(short|int|long|long long)$")


def loads(t, node):
    if isinstance(t, tuple):
        if t and t[0] == "ld" and ptr(t[1])[1] == node:
            return {strip(t)}
        return set().union(*[loads(x, node) for x in t]) if t else set()
    return set()


def label(pub, q):
    """what a path of a function writes: literals and numbers"""
    rs = Rows(pub, "")
    rs.out = next((("arg", n) for n, t in enumerate(params(q.t.fn.dem)) if emit.STREAM.match(t)), ("arg", 0))
    out = []
    for k, e in enumerate(q.ev):
        if e.kind == "call" and any(isinstance(a, tuple) and rs.em.isstream(a, q, {rs.out}) for a in e.args):
            for it in rs.items(q, k, e, Env({}, {})):
                if it[0] == "lit" and out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + it[1])
                else:
                    out.append(it)
    return out
