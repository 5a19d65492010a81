"""The life of what a metric value holds."""
import re
from . import core, policies, trace
from .flow import isC
from .registry import prop
from .snapshots import ptr

STR = re.compile(r"^std::(__cxx11::)?basic_string<char.*>::(~?)basic_string\((.*)\)")
DTOR = re.compile(r"D([012])Ev$")
VT = "_ZTV"
SKIP = ("_ZTVN10__cxxabiv",)


class Tr(trace.Tracer):
    """also tells the stores of tables of virtual functions into local variables, and what is called indirectly"""
    def step(self, i):
        if i.op == "store":
            a = self.asptr(self.val(i.ops[1]))
            v = self.val(i.ops[0])
            if a[1][0] == "alloca":
                self.ev.append(trace.Ev("lstore", i, addr=a, val=v, size=i.d["size"]))
        return super().step(i)

    def call(self, i):
        raw = i.callee_raw
        if raw and raw.startswith(("llvm.memcpy", "llvm.memmove")):
            args = [self.val(a) for a in i.ops[:3]]
            src = self.asptr(args[1])
            self.ev.append(trace.Ev("bytes", i, addr=self.asptr(args[0]), val=src, size=args[2], x={"is": self.load(src, args[2][1], "i%d" % (8 * args[2][1])) if isC(args[2]) else None}))
        elif raw and raw.startswith("llvm.lifetime.start") and i.ops[-1]["k"] != "c":
            self.ev.append(trace.Ev("begin", i, addr=self.asptr(self.val(i.ops[-1]))))
        k = len(self.ev)
        r = super().call(i)
        if len(self.ev) > k and self.ev[k].kind == "call" and i.callee is None:
            self.ev[k].x["tgt"] = self.val(i.d["callee"])
        return r


def split(t):
    """(root, offset) of an address, None if it is not a known one"""
    if t is None:
        return None
    while t[0] == "op" and t[1] in ("bitcast", "freeze", "inttoptr", "ptrtoint"):
        t = t[3]
    if t[0] in ("arg", "alloca"):
        return t, 0
    if t[0] != "ptr":
        return None
    a = ptr(t)
    if a[1][0] not in ("arg", "alloca") or a[3]:
        return None
    return a[1], a[2]


def table(t):
    """the table of virtual functions a term is the address of"""
    if t is None or t[0] != "ptr" or t[1][0] != "g" or t[3]:
        return None
    return t[1][1] if t[1][1].startswith(VT) and not t[1][1].startswith(SKIP) else None


def callee(e):
    """(object, offset of the slot, table or None) of a call of a virtual function"""
    t = e.x.get("ind")
    if t is None or t[0] != "ld":
        return None
    a = t[1]
    if a[0] != "ptr" or a[3]:
        return None
    b, off = a[1], a[2]
    if b[0] == "g" and b[1].startswith(VT):
        return None, off - 16, b[1]
    while b[0] == "op" and b[1] in ("bitcast", "freeze"):
        b = b[3]
    if b[0] == "ld":
        o = split(b[1])
        if o is not None and o[1] == 0:
            return o[0], off, None
    return None


class Table:
    def __init__(self, mod, name):
        g = mod.globals[name]
        self.name, self.dem = name, re.sub(r"^vtable for (cxxmetrics::)?(internal::)?", "", g["dem"])
        fs = g["init"]
        while len(fs) == 1 and isinstance(fs[0], list):
            fs = fs[0]
        self.fns = [(x.get("n"), x.get("d")) for x in fs[2:]]
        self.strs = set()
        self.size = 8
        self.need = {}      # offset: (where, what)
        self.deleting = {8 * k for k, (n, d) in enumerate(self.fns) if n and DTOR.search(n) and DTOR.search(n).group(1) == "0"}
        self.dtors = {8 * k for k, (n, d) in enumerate(self.fns) if n and DTOR.search(n)} - self.deleting


class Broken(Exception):
    def __init__(self, where, what):
        super().__init__(what)
        self.where, self.what = where, what


class Box:
    """what a piece of storage holds"""
    def __init__(self, vt=None, strs=(), own=False):
        self.vt = vt                    # None: nothing, "?": a value of unknown kind, else its table
        self.strs = {o: ("own", o) for o in strs}
        self.vals = {}
        self.own = own
        self.moved = None
        self.seen = vt is not None

    def live(self, tables):
        if self.vt is None:
            return False
        if self.vt == "?":
            return True
        return set(self.strs) == tables[self.vt].strs

    def empty(self):
        return self.vt != "?" and not self.strs


class Life:
    def __init__(self, mod, tables, builds, keeps, variant):
        self.mod, self.tables, self.builds, self.keeps, self.variant = mod, tables, builds, keeps, variant

    def follow(self, p, boxes, names, this=None):
        """the boxes at the end of a path; Broken if it uses one wrongly"""
        T = self.tables
        self.names = names
        same = {}
        for k, v in p.w.bool.items():
            if k[0] == "peq" and v:
                a, b = split(k[1]), split(k[2])
                if a and b and a[0][0] == b[0][0] == "arg" and a[1] == b[1] == 0:
                    same[max(a[0], b[0])] = min(a[0], b[0])

        def key(r):
            return same.get(r, r)

        def box(r):
            r = key(r)
            if r not in boxes:
                boxes[r] = Box()
            return boxes[r]
        texts = {}          # strings elsewhere: (root, offset): origin

        def origin(t):
            s = split(t)
            if s is None:
                return None
            b = boxes.get(key(s[0]))
            if b is not None and s[1] in b.strs:
                return (key(s[0]),) + tuple(b.strs[s[1]][1:]) if b.strs[s[1]][0] == "own" else b.strs[s[1]]
            return texts.get((key(s[0]), s[1]), ("object", key(s[0]), s[1]) if key(s[0])[0] == "arg" else None)
        looped = False
        for e in p.ev:
            if e.kind == "loop":
                looped = True
            elif e.kind == "begin":
                s = split(e.addr)
                if s and key(s[0]) in boxes:
                    b = boxes[key(s[0])]
                    if not b.empty():
                        raise Broken(e.where(), "%s is made anew while it holds a value" % self.n(s[0]))
                    boxes[key(s[0])] = Box()
            elif e.kind in ("store", "lstore"):
                s = split(e.addr)
                if s is None:
                    continue
                vt = table(e.val)
                if vt is not None and s[1] == 0:
                    if vt not in T:
                        continue
                    b = box(s[0])
                    b.seen = True
                    if b.vt == "?" or b.strs and vt != b.vt:
                        raise Broken(e.where(), "a value is made over the live one in %s" % self.n(s[0]))
                    if vt != b.vt:
                        b.vals = {}
                    b.vt = vt
                elif vt is None and s[1] == 0 and key(s[0]) in boxes and boxes[key(s[0])].seen and e.size == 8:
                    v = e.val
                    if v[0] == "ld" and split(v[1]) and split(v[1])[1] == 0 and key(split(v[1])[0]) in boxes:
                        raise Broken(e.where(), "the kind of value %s holds is copied without the value" % self.n(split(v[1])[0]))
                elif key(s[0]) in boxes:
                    boxes[key(s[0])].vals[s[1]] = e.val
            elif e.kind == "bytes":
                d, s = split(e.addr), split(e.val)
                if d is None or s is None:
                    continue
                if d[1] >= 8 and key(d[0]) in boxes:
                    boxes[key(d[0])].vals[d[1]] = e.x["is"]
                sb = boxes.get(key(s[0]))
                if sb is None or not sb.seen:
                    if d[1] == 0 and key(d[0]) in boxes and boxes[key(d[0])].seen:
                        raise Broken(e.where(), "%s is written over bytewise" % self.n(d[0]))
                    continue
                if s[1] >= 8:
                    n = e.size[1] if isC(e.size) else 1 << 30
                    if any(s[1] < o + 32 and o < s[1] + n for o in sb.strs):
                        raise Broken(e.where(), "a string of %s is copied bytewise" % self.n(s[0]))
                    continue
                if sb.vt == "?" or sb.strs:
                    raise Broken(e.where(), "what %s holds is copied bytewise" % self.n(s[0]))
                b = box(d[0])
                if not b.empty():
                    raise Broken(e.where(), "a value is made over the live one in %s" % self.n(d[0]))
                b.vt, b.seen = sb.vt, True
                b.vals = dict(sb.vals)
                if sb.own:
                    for o in T[sb.vt].need:
                        b.vals.setdefault(o, ("ld", ("ptr", s[0], o, ())))
            elif e.kind == "call":
                if self.call(e, p, boxes, box, key, texts, origin, this) and looped and p.kind == "back":
                    raise core.AnalysisError("values are made or destroyed in a loop at %s" % e.where())
        return boxes

    def n(self, r):
        return self.names.get(r, "a local value")

    def call(self, e, p, boxes, box, key, texts, origin, this):
        T = self.tables
        v = callee(e)
        if v is None and e.x.get("tgt") is not None and e.x["tgt"][0] == "fn":
            # a virtual function of a known object
            s = [split(a) for a in e.args]
            for q in s:
                if q and q[1] == 0 and key(q[0]) in boxes and boxes[key(q[0])].vt in T:
                    fs = T[boxes[key(q[0])].vt].fns
                    k = [8 * j for j, f in enumerate(fs) if f[0] == e.x["tgt"][1]]
                    if k:
                        v = (q[0], k[0], None)
        if v is not None:
            obj, slot, vt = v
            if obj is None:
                for a in e.args:
                    q = split(a)
                    if q and q[1] == 0 and key(q[0]) in boxes and boxes[key(q[0])].vt == vt:
                        obj = q[0]
                        break
                else:
                    raise core.AnalysisError("cannot tell the object of the call at %s" % e.where())
            b = box(obj)
            b.seen = True
            args = [split(a) for a in e.args]
            at = [k for k, q in enumerate(args) if q and key(q[0]) == key(obj) and q[1] == 0]
            me = at[0] if at else 0
            fn = [t.fns[slot // 8][1] for t in T.values() if slot % 8 == 0 and 0 <= slot // 8 < len(t.fns)]
            if not fn:
                raise core.AnalysisError("a virtual function that no kind has is called at %s" % e.where())
            what = fn[0].split("::")[-1].split("(")[0]
            if not b.live(T):
                raise Broken(e.where(), "%s is called for %s, which holds no value" % (what, self.n(obj)))
            if slot in self.deleting():
                raise Broken(e.where(), "the storage of %s is given to operator delete" % self.n(obj))
            if slot in self.dtors():
                b.vt, b.strs, b.vals = None, {}, {}
                return True
            for k in self.variant.get(slot, ()):
                # positions count from the object
                q = args[me + k] if me + k < len(args) else None
                if q is None:
                    raise core.AnalysisError("cannot tell the argument of %s at %s" % (what, e.where()))
                if q[1] != 0 or not box(q[0]).live(T):
                    raise Broken(e.where(), "%s is called with %s, which holds no value" % (what, self.n(q[0])))
            if slot in self.builds:
                q = args[me + 1] if me + 1 < len(args) else None
                if q is None or q[1] != 0:
                    raise core.AnalysisError("cannot tell where %s at %s puts the value" % (what, e.where()))
                d = box(q[0])
                if key(q[0]) == key(obj) or not d.empty():
                    raise Broken(e.where(), "%s puts a value over the live one in %s" % (what, self.n(q[0])))
                d.seen = True
                d.vt, d.vals = b.vt, {}
                src = {o: (key(obj),) + tuple(x[1:]) if x[0] == "own" else x for o, x in b.strs.items()}
                d.strs = {o: ("via", key(obj), o, src[o]) for o in b.strs}
                if b.own:
                    d.vals = {o: ("ld", ("ptr", obj, o, ())) for o in T[b.vt].need}
                    d.strs = {o: src[o] for o in b.strs}
                if slot not in self.keeps:
                    b.moved = e.where()
                return True
            return False
        m = STR.match(e.name or "")
        if m and e.args:
            s = split(e.args[0])
            if s is None:
                return False
            r = key(s[0])
            inside = r in boxes and (boxes[r].seen or s[1] > 0)
            if m.group(2):
                if inside:
                    if s[1] not in boxes[r].strs:
                        raise Broken(e.where(), "a string of %s that is not there is destroyed" % self.n(s[0]))
                    del boxes[r].strs[s[1]]
                    return True
                texts.pop((r, s[1]), None)
                return False
            src = origin(e.args[1]) if len(e.args) > 1 else None
            if src is None and len(e.args) > 1:
                src = ("text", e.args[1])
            if "&&" in m.group(3) and len(e.args) > 1:
                q = split(e.args[1])
                if q and key(q[0]) in boxes and q[1] in boxes[key(q[0])].strs:
                    boxes[key(q[0])].moved = e.where()
            if inside:
                if s[1] in boxes[r].strs:
                    raise Broken(e.where(), "a string of %s is made over the live one" % self.n(s[0]))
                boxes[r].strs[s[1]] = src or ("text", None)
                return True
            if s[1] > 0 and r[0] == "alloca":
                # the string may be made before the object's table is stored
                boxes[r] = Box()
                boxes[r].seen = True
                boxes[r].strs[s[1]] = src or ("text", None)
                return True
            texts[(r, s[1])] = src
            return False
        # other functions that are given the place of a value
        for k, a in enumerate(e.args or []):
            s = split(a)
            if s is None or key(s[0]) not in boxes or not boxes[key(s[0])].seen:
                continue
            b = boxes[key(s[0])]
            if s[1] == 0 and key(s[0]) != key(this or ("arg", -1)) and not e.x.get("pure"):
                raise core.AnalysisError("%s is given %s at %s" % (e.short, self.n(s[0]), e.where()))
            if s[1] == 0 and not e.x.get("pure") and re.search(r"operator delete|free$", e.short or ""):
                continue
            if b.vt in T and s[1] in T[b.vt].strs:
                if s[1] not in b.strs:
                    raise Broken(e.where(), "%s uses a string of %s that is not there" % (e.short, self.n(s[0])))
                if k == 0 and not e.x.get("pure"):
                    b.strs[s[1]] = ("changed", e.where())
        return False

    def deleting(self):
        return set().union(*(t.deleting for t in self.tables.values()))

    def dtors(self):
        return set().union(*(t.dtors for t in self.tables.values()))


def gather(mod, names):
    """the tables of virtual functions stored on the way, followed through their functions"""
    found, work, seen = {}, list(names), set()
    paths = {}
    while work:
        n = work.pop()
        if n in seen or n not in mod.fns:
            continue
        seen.add(n)
        ps = list(trace.paths(mod.fns[n], mod, exc=True, cls=Tr))
        paths[n] = ps
        for p in ps:
            for e in p.ev:
                vt = table(e.val) if e.kind in ("store", "lstore") else None
                if vt is not None and vt not in found and vt in mod.globals and "init" in mod.globals[vt]:
                    t = Table(mod, vt)
                    found[vt] = t
                    work += [f for f, d in t.fns if f]
    # a table with pure virtual functions belongs to no complete object
    return {k: t for k, t in found.items() if not any(f == "__cxa_pure_virtual" for f, d in t.fns)}, paths


def bare(t):
    while t and t[0] == "op" and t[1] in ("bitcast", "freeze", "zext", "trunc", "sext", "fpext", "fptrunc"):
        t = t[3]
    if t and t[0] == "op" and t[1] in ("and", "icmp ne", "icmp") and len(t) > 4:
        for x, y in ((t[3], t[4]), (t[4], t[3])):
            if isC(x):
                return bare(y)
    return t


def isload(v, root, off):
    v = bare(v)
    if v is None or v[0] != "ld":
        return False
    s = split(v[1])
    return s is not None and s == (root, off)


ROLES = [
    # name, {argument: (before, after a return, after an exception)}
    (r"make_", {0: "new"}),
    (r"copy$", {0: "new", 1: "const"}),
    (r"move$", {0: "new", 1: "var"}),
    (r"destroy$", {0: "end"}),
    (r"(assign|swap)$", {0: "var", 1: "var"}),
    (r"(assign|swap)_self$", {0: "var"}),
    (r"set_copy$", {0: "var", 1: "const"}),
    (r"set_", {0: "var"}),
    (r"(add|sub|mul|div)$", {0: "new", 1: "const", 2: "const"}),
    (r"(add|sub|mul|div)_self$", {0: "new", 1: "const"}),
    (r"(add|sub|mul|div)_to$", {0: "var", 1: "const"}),
    (r"(add|sub|mul|div)_to_self$", {0: "var"}),
    (r"(neg|inv)$", {0: "new", 1: "const"}),
    (r"(eq|ne|lt|le|gt|ge)$", {0: "const", 1: "const"}),
    (r"(long|ld|hash)$", {0: "const"}),
    (r"(str|nanos|print)$", {-1: "const"}),
]
SAYS = {"make": "making", "copy": "copying", "move": "moving", "destroy": "destroying", "assign": "assigning", "swap": "swapping", "set": "assigning", "str": "reading", "nanos": "reading",
        "print": "printing", "hash": "hashing", "long": "reading", "ld": "reading"}


def tell(n):
    w = n.split("_")[1]
    s = SAYS.get(w, "calculating with") + " a value"
    if n.endswith("_self"):
        s += " and itself" if w in ("add", "sub", "mul", "div") else " with itself" if w == "swap" else " to itself"
    return s + " (%s)" % n


@prop("C07", technique="typestate analysis of storage over all paths, exceptional ones included (compiler IR)", level="sound-analysis",
      explains="making (24 kinds of values), copying, moving, assigning, swapping, calculating, comparing, reading and destroying values, each also with itself, and every virtual function of every kind of value that these store: on every path the state of each piece of storage (empty, or holding a value, with the strings in it) is followed",
      rule="a virtual function is called only for storage that holds a value; copying and moving put a value, of the same kind and with the same contents, only into empty storage; every string in a storage is destroyed exactly once; values that were made or given are there after a return and, unless being made, after an exception, and local ones are gone; const operands keep their contents; every kind fits the storage",
      assumptions=["std::string's own functions keep its promises"])
def c07(c):
    mod = core.normalise("lifetimes.cpp", "A", policies.A, prefix="lt_")
    drivers = sorted(n for n in mod.fns if n.startswith("lt_"))
    tables, paths = gather(mod, drivers)
    if len(tables) < 2:
        raise core.AnalysisError("values have %d kinds" % len(tables))
    slots = {8 * k for t in tables.values() for k in range(len(t.fns))}

    def impl(slot):
        return [(t, t.fns[slot // 8][0]) for t in tables.values() if slot // 8 < len(t.fns)]

    # arguments that are values themselves, and slots that put a value where they are told to
    variant = {}
    for s in slots:
        for t, f in impl(s):
            for p in paths.get(f, ()):
                for e in p.ev:
                    v = callee(e) if e.kind == "call" else None
                    if v and v[0] and v[0][0] == "arg":
                        variant.setdefault(s, set()).add(v[0][1])
    # an std::string is returned through the first argument
    first = {}
    for t in tables.values():
        for k, (f, d) in enumerate(t.fns):
            if f in mod.fns:
                first[8 * k] = max(first.get(8 * k, 0), thisarg(mod.fns[f], paths.get(f, ())))
    for s in list(variant):
        variant[s] = {k - first.get(s, 0) for k in variant[s]} - {0}
    builds, builders = set(), {}
    while True:
        new = set(builds)
        for s in slots - builds:
            for t, f in impl(s):
                if f is None or DTOR.search(f):
                    continue
                for p in paths.get(f, ()):
                    if p.kind == "ret" and puts(p, builds, first.get(s, 0)):
                        new.add(s)
                        builders[s] = t
        if new == builds:
            break
        builds = new
    # strings of each kind: what its destructor ends and what its makers begin
    for t in tables.values():
        for k, (f, d) in enumerate(t.fns):
            for p in paths.get(f, ()):
                for e in p.ev:
                    if e.kind == "call" and STR.match(e.name or "") and e.args:
                        q = split(e.args[0])
                        if q and 8 * k in t.dtors | t.deleting and q[0] == ("arg", 0) and STR.match(e.name).group(2):
                            t.strs.add(q[1])
                        if q and 8 * k in builds and q[0] == ("arg", 1) and q[1] > 0 and not STR.match(e.name).group(2):
                            t.strs.add(q[1])
        ti = first
        for k, (f, d) in enumerate(t.fns):
            for p in paths.get(f, ()):
                for e in p.ev:
                    for a in ([e.addr] if e.kind in ("load", "store") else []):
                        q = split(a)
                        if q and q[0] == ("arg", ti.get(8 * k, 0)):
                            n = e.size or 0
                            t.size = max(t.size, q[1] + (16 if n == 10 else n))
                            if q[1] >= 8 and not any(o <= q[1] < o + 32 for o in t.strs):
                                t.need.setdefault(q[1], e.where())
        for o in t.strs:
            t.size = max(t.size, o + 32)
    for s in builds:
        for t, f in impl(s):
            q = [p for p in paths.get(f, ()) if p.kind == "ret"]
            c.require(q and all(puts(p, builds, 0) for p in q), "puts:%s:%s" % (t.dem, s), core.origin(mod.fns[f]) if f in mod.fns else "",
                      "%s puts no value where it is told to, unlike %s" % (t.fns[s // 8][1], builders[s].fns[s // 8][1]))
    # room
    size = int(mod.globals["lt_size"]["init"]["v"])
    for t in sorted(tables.values(), key=lambda t: t.dem):
        c.require(t.size <= size, "room:" + t.dem, "", "%s takes %d bytes, the storage has %d" % (t.dem, t.size, size))
    align = int(mod.globals["lt_align"]["init"]["v"])
    wide = [t.dem for t in tables.values() for f, d in t.fns for p in paths.get(f, ()) for e in p.ev if e.kind in ("load", "store") and e.size in (10, 16) and split(e.addr) and split(e.addr)[0][0] == "arg" and split(e.addr)[1] >= 16]
    c.require(not wide or align >= 16, "align", "", "the storage of %s is aligned to %d bytes" % (wide[:1], align))

    # the virtual functions of every kind
    keeps = set(builds)
    nf = np = 0
    for rnd in (0, 1):
        life = Life(mod, tables, builds, keeps, variant)
        for t in sorted(tables.values(), key=lambda t: t.dem):
            for k, (f, d) in enumerate(t.fns):
                if f not in mod.fns or 8 * k in t.deleting:
                    continue
                s = 8 * k
                me = ("arg", first.get(s, 0))
                nf += rnd
                for p in paths[f]:
                    np += rnd
                    boxes = {me: Box(t.name, t.strs, own=True)}
                    if f in other(tables, t):
                        # functions of the common base
                        boxes[me] = Box("?", own=False)
                    names = {me: "the value"}
                    for j in variant.get(s, ()):
                        boxes.setdefault(("arg", me[1] + j), Box("?"))
                        names[("arg", me[1] + j)] = "the other value"
                    into = ("arg", me[1] + 1)
                    if s in builds:
                        boxes[into] = Box()
                        boxes[into].seen = True
                        names[into] = "the new place"
                    try:
                        boxes = life.follow(p, boxes, names, me)
                        if s in t.dtors and boxes[me].vt == "?":
                            continue
                        if s in builds and rnd == 0:
                            if boxes[me].moved or any(x[0] == "changed" for x in boxes[me].strs.values()):
                                keeps.discard(s)
                            continue
                        if rnd:
                            finish(t, d, p, s, boxes, me, into, builds, tables)
                    except Broken as b:
                        if rnd:
                            c.bad("kind:%s:%s" % (t.dem, d.split("::")[-1]), b.where, "%s: %s" % (d, b.what))
                        continue
                    if rnd:
                        c.ok("kind:%s:%s" % (t.dem, d.split("::")[-1]))
    # the operations on values
    life = Life(mod, tables, builds, keeps, variant)
    for n in drivers:
        roles = [r for pat, r in ROLES if re.match(pat, n[3:])][0]
        ps = paths[n]
        if not any(p.kind == "ret" for p in ps):
            raise core.AnalysisError("%s never returns" % n)
        nf += 1
        for p in ps:
            np += 1
            boxes, names = {}, {}
            for k, r in roles.items():
                a = ("arg", len(mod.fns[n].args) - 1 if k == -1 else k)
                boxes[a] = Box(None if r == "new" else "?")
                boxes[a].seen = True
                names[a] = {"new": "the new value", "const": "the operand", "var": "the target" if a[1] == 0 else "the source", "end": "the value"}[r]
            was = {k: v for k, v in boxes.items()}
            try:
                boxes = life.follow(p, boxes, names)
                if p.kind == "back":
                    continue
                for k, b in boxes.items():
                    where = core.origin(mod.fns[n])
                    how = {"ret": "", "unwind": " when an exception is thrown"}[p.kind if p.kind in ("ret",) else "unwind"]
                    r = [roles.get(a) for a in ([k[1]] if k[0] == "arg" else [])] or ["local"]
                    r = r[0] if r[0] is not None else (roles.get(-1) if k[0] == "arg" and k[1] == len(mod.fns[n].args) - 1 else "local")
                    if r in ("local", "end") or r == "new" and how:
                        if not b.empty():
                            raise Broken(where, "%s is not destroyed%s" % (self_name(names, k), how))
                    elif not b.live(tables):
                        raise Broken(where, "%s holds no value afterwards%s" % (self_name(names, k), how))
                    if r == "const" and b.moved:
                        raise Broken(b.moved, "the contents of %s are moved out of it" % self_name(names, k))
            except Broken as b:
                c.bad("op:" + n, b.where, "%s: %s" % (tell(n), b.what))
                continue
            c.ok("op:" + n)
    c.count("paths", np)
    c.count("virtual functions of each kind", len(slots))
    c.expect(len(tables), 4, "kinds of values")
    c.expect(nf, 50, "functions")


def self_name(names, k):
    return names.get(k, "a local value")


def other(tables, t):
    """functions that several kinds share"""
    n = {}
    for x in tables.values():
        for f, d in x.fns:
            n[f] = n.get(f, 0) + 1
    return {f for f, k in n.items() if k > 1}


def thisarg(f, ps):
    """1 if the function returns an object through its first argument"""
    return 1 if f.args and f.args[0].get("sret") else 0


def puts(p, builds, base):
    into = ("arg", base + 1)
    for e in p.ev:
        if e.kind == "store" and table(e.val) and split(e.addr) == (into, 0):
            return True
        if e.kind == "bytes" and split(e.addr) == (into, 0):
            return True
        v = callee(e) if e.kind == "call" else None
        if v and v[1] in builds and any(split(a) == (into, 0) for a in e.args):
            return True
    return False


def finish(t, d, p, s, boxes, me, into, builds, tables):
    where = next((e.where() for e in reversed(p.ev) if e.i is not None), "")
    if p.kind == "back":
        return
    for k, b in boxes.items():
        if k[0] == "alloca" and not b.empty():
            raise Broken(where, "a local value is not destroyed")
    b = boxes[me]
    if s in t.dtors:
        if b.strs:
            raise Broken(where, "the string at offset %d is not destroyed" % sorted(b.strs)[0])
        return
    if not b.live(tables):
        raise Broken(where, "the value is not there afterwards")
    if s in builds and p.kind == "ret":
        n = boxes[into]
        if b.vt == "?":
            if not n.live(tables):
                raise Broken(where, "the new place holds no value")
            return
        if n.vt != t.name:
            raise Broken(where, "the new value is of another kind (%s)" % (tables[n.vt].dem if n.vt in tables else "none"))
        if not n.live(tables):
            raise Broken(where, "the new value is not complete")
        for o in t.strs:
            if n.strs[o] != (me, o):
                raise Broken(where, "the new value's string is not the value's")
        for o, w in t.need.items():
            if not isload(n.vals.get(o), me, o):
                raise Broken(where, "the new value has something else at offset %d, which is used at %s" % (o, w))
