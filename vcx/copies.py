"""Copies and assignments."""
import re
from . import core, policies, rings, sampling
from .flow import isC
from .machine import Outside, State
from .meters import ways
from .registry import prop
from .snapshots import ptr

# parts with obligations of their own are copied by calls
P = [
    r"opaque ^cxxmetrics::internal::ringbuf<",
    r"opaque ^cxxmetrics::uniform_reservoir<",
    r"opaque ^std::function<",
    r"opaque ^cxxmetrics::\w+_snapshot::",
    r"inline ^void std::_Tuple_impl<",
] + policies.A

# snapshots are only moved
SNAP = [
    r"opaque ^(\S+ )?cxxmetrics::metric_value::",
    r"opaque ^std::(vector|unordered_map)<.*>::(vector|unordered_map|operator=|swap|size|begin|end|c?begin|c?end|empty|operator\[\])\b",
    r"opaque ^std::(vector|unordered_map)<.*>::(operator=|operator\[\])",
] + policies.A

EWMA = [r"opaque ^(void )?cxxmetrics::internal::ewma<"]


def at(e_or_t, arg):
    """the constant offset of an address in the object arg, None if it is not one"""
    if e_or_t is None:
        return None
    t = bare(e_or_t)
    if t == ("arg", arg):
        return 0
    if t[0] != "ptr":
        return None
    a = ptr(t)
    return a[2] if a[1] == ("arg", arg) and not a[3] else None


def bare(t):
    while t and t[0] == "op" and t[1] in ("bitcast", "freeze", "zext", "trunc", "sext", "inttoptr", "ptrtoint"):
        t = t[3]
    if t and t[0] == "op" and t[1] == "and" and (isC(t[3]) and t[3][1] == 1 or isC(t[4]) and t[4][1] == 1):
        return bare(t[4] if isC(t[3]) else t[3])
    return t


def observed(ps, arg):
    """{offset: (where, what)} of the parts of the object that functions look at"""
    out = {}
    for p in ps:
        for e in p.ev:
            if e.kind in ("load", "rmw", "cas"):
                o = at(e.addr, arg)
                if o is not None:
                    out.setdefault(o, e.where())
            elif e.kind == "call":
                for a in e.args or []:
                    o = at(a, arg)
                    if o is not None:
                        out.setdefault(o, e.where())
    return out


def comes(p, v, o, arg, upto):
    """whether a value is what is at offset o of the object arg"""
    v = bare(v)
    if v is None:
        return False
    if v[0] == "at" and isinstance(v[1], int):
        e = p.ev[v[1]]
        return e.kind in ("load", "rmw") and at(e.addr, arg) == o
    if v[0] == "ld":
        return at(v[1], arg) == o
    if v[0] == "parts":
        return comes(p, v[1], o, arg, upto)
    return False


CLASS = re.compile(r"([A-Za-z_]\w*)(<.*>)?::(~?[\w=()]+|operator=)$")


def written(p, o):
    """(event index, event) of the last write to offset o of arg0, and the first"""
    out = []
    for k, e in enumerate(p.ev):
        if e.kind in ("store", "rmw") or e.kind == "cas" and e.x.get("ok"):
            if at(e.addr, 0) == o:
                out.append((k, e))
        elif e.kind in ("copy", "set"):
            d = at(e.addr, 0)
            n = size(e)
            if d is not None and d <= o and (n is None or o < d + n):
                out.append((k, e))
        elif e.kind == "call":
            if any(at(a, 0) == o for a in e.args or []):
                out.append((k, e))
    return out


def size(e):
    return e.size[1] if e.size is not None and isC(e.size) else None


def carried(p, o, ws):
    k, e = ws[-1]
    if e.kind in ("store", "cas"):
        return comes(p, e.val, o, 1, k)
    if e.kind == "rmw":
        return e.x.get("op") == "xchg" and comes(p, e.val, o, 1, k)
    if e.kind == "copy":
        s = at(e.val, 1)
        return s is not None and s == at(e.addr, 0)
    if e.kind == "call":
        if [at(a, 0) for a in e.args][:1] != [o]:
            return False
        return any(at(a, 1) == o or between(p, a, o, k) for a in e.args[1:])
    return False


def between(p, a, o, upto):
    """whether something of the function's own was last made of what is at offset o of the source"""
    if local(a) is None:
        return False
    for j in range(upto - 1, -1, -1):
        e = p.ev[j]
        if e.kind == "call" and e.args and local(e.args[0]) == local(a):
            return any(at(x, 1) == o or between(p, x, o, j) for x in e.args[1:])
        if e.kind in ("store", "copy", "set") and local(e.addr) == local(a):
            return e.kind == "copy" and (at(e.val, 1) == o or between(p, e.val, o, j))
    return False


def local(t):
    """an address within something the function itself holds"""
    if t is None:
        return None
    t = bare(t)
    if t[0] == "ptr":
        p = ptr(t)
        base, rest = p[1], p[2:]
    else:
        base, rest = t, (0, ())
    return (base, repr(rest)) if base[0] in ("alloca", "local", "stack") else None


def same_object(p):
    """True or False if the path tells whether target and source are the same"""
    for key, val in p.w.bool.items():
        if key[0] == "peq" and (at(key[1], 0) == 0 and at(key[2], 1) == 0 or at(key[1], 1) == 0 and at(key[2], 0) == 0):
            return bool(val)
    return None


def structure(c, mod, which):
    kinds = {}
    for n in sorted(mod.fns):
        m = re.match(r"cy_(\w+?)__(\w+)$", n)
        if m and which(m.group(2)):
            kinds.setdefault(m.group(2), {})[m.group(1)] = n
    nfun = npart = 0
    for k, fs in kinds.items():
        obs = {}
        for w, n in fs.items():
            if w.startswith("obs_"):
                for o, wh in observed([p for p in ways(mod, n) if p.kind in ("ret", "back")], 1).items():
                    obs.setdefault(o, wh)
        # parts that are not state: the address of the table of virtual functions
        made = [p for p in ways(mod, fs.get("copy") or fs["move"]) if p.kind == "ret"]
        parts = {o: wh for o, wh in obs.items() if not all(vtable(p, o) for p in made)}
        if not parts:
            raise core.AnalysisError("%s: nothing looks at the object" % k)
        for w, n in fs.items():
            if w.startswith("obs_"):
                continue
            f = mod.fns[n]
            ps = [p for p in ways(mod, n) if p.kind in ("ret", "back")]
            if any(e.kind == "loop" for p in ps for e in p.ev):
                raise core.AnalysisError("%s copies in a loop" % n)
            nfun += 1
            npart += len(parts)
            name = {"copy": "copying", "assign": "assigning", "move": "moving", "massign": "move-assigning"}[w] + " a " + k
            for p in ps:
                same = same_object(p)
                if w in ("assign", "massign"):
                    c.require(bare(p.ret) == ("arg", 0) or same and bare(p.ret) == ("arg", 1), "result:%s:%s" % (k, w), core.origin(f), "%s does not give the target" % name)
                if same:
                    continue
                for o in sorted(parts):
                    key = "%s:%s:%d" % (w, k, o)
                    ws = written(p, o)
                    if not ws:
                        c.bad(key, core.origin(f), "%s leaves out the part at offset %d, which is used at %s" % (name, o, parts[o]))
                        continue
                    if not carried(p, o, ws):
                        c.bad(key, ws[-1][1].where(), "%s gives the part at offset %d, which is used at %s, something else than the source's" % (name, o, parts[o]))
                        continue
                    if w == "assign" and same is None and len(ws) > 1:
                        # the source may be the target
                        early = [e for j, e in ws[:-1] if not carried(p, o, [(j, e)])]
                        if early:
                            c.bad(key + ":self", early[0].where(), "%s to itself loses the part at offset %d" % (name, o))
                            continue
                    c.ok(key)
                if w in ("copy", "assign"):
                    bad = [e for e in p.ev if e.kind in ("store", "rmw", "cas", "set", "copy") and at(e.addr, 1) is not None]
                    c.require(not bad, "source:%s:%s" % (k, w), bad[0].where() if bad else "", "%s changes the source" % name)
    return len(kinds), nfun, npart


def vtable(p, o):
    ws = written(p, o)
    if not ws:
        return False
    e = ws[-1][1]
    if e.kind != "store":
        return False
    t = e.val
    while t[0] == "ptr":
        t = t[1]
    return t[0] == "g" and str(t[1]).startswith("_ZT")


@prop("C04", technique="member-wise dataflow; abstract interpretation for arrays (compiler IR)", level="sound-analysis",
      explains="copy and move construction and assignment of counters, moving averages, meters, simple and sliding reservoirs, histograms and gauges of every kind, and moves of every kind of snapshot: each part of the object that a member function looks at is followed from the source to the target on every path; uniform reservoirs and ring buffers: copies and assignments from and to every abstract state",
      rule="after a copy or assignment every part of the target that reading, marking, updating or taking a snapshot looks at is what the source has at the same place, the source is not written, assignment gives the target and may be from the target itself; a copied reservoir or ring buffer has exactly the source's elements",
      assumptions=["no other thread updates source or target during the copy", "standard library types copy what they hold"])
def c04(c):
    mod = core.normalise("copies.cpp", "A", P, prefix="cy_")
    nk, nf, npart = structure(c, mod, lambda k: k.startswith("ewma"))
    mod = core.normalise("copies.cpp", "A", EWMA + P, prefix="cy_")
    nk, nf, npart = [x + y for x, y in zip((nk, nf, npart), structure(c, mod, lambda k: not k.startswith("ewma")))]
    mod = core.normalise("moves.cpp", "A", SNAP, prefix="cy_")
    nk, nf, npart = [x + y for x, y in zip((nk, nf, npart), structure(c, mod, lambda k: True))]
    errors = []
    nring = nres = 0
    mod = core.normalise("ring.cpp", "A", policies.A, prefix="rb_")
    for k in sorted(x.split("__", 1)[1] for x in mod.fns if x.startswith("rb_push__")):
        kd = rings.Kind(mod, k)
        kd.errors = errors
        try:
            hist = rings.history(kd)
            n = 0

            def run():
                nonlocal nring
                nring += rings.copied(kd, hist)
            rings.checked(c, "ringbuf:" + k, kd, "copy", run)
        except Outside:
            continue
        except core.AnalysisError as x:
            errors.append(str(x))
    mod = core.normalise("sampling.cpp", "A", policies.AV, prefix="rv_")
    for k in sorted(x.split("__", 1)[1] for x in mod.fns if x.startswith("rv_update__")):
        kd = sampling.Kind(mod, k)
        try:
            n = reservoirs(c, kd)
            nres += n
            c.ok("reservoir:%s" % k, "%d copies" % n)
        except sampling.Bad as b:
            c.bad("reservoir:%s:%s" % (k, b.args[0]), b.args[1], b.args[2])
        except Outside:
            continue
        except core.AnalysisError as x:
            errors.append(str(x))
    if errors:
        raise core.AnalysisError(errors[0])
    c.expect(nk, 12, "kinds of metrics and parts")
    c.expect(nf, 24, "copying and assigning functions")
    c.expect(npart, 40, "parts followed")
    if not c.violations:
        c.expect(nring, 20, "copies of ring buffers in abstract states")
        c.expect(nres, 20, "copies of reservoirs in abstract states")


def reservoirs(c, kd):
    states, n = sampling.reach(kd), 0
    for s, filled, name in states:
        t = sampling.marked(s)
        want = sorted(kd.snapshot(t)[0], key=repr)
        for d, _, dn in [(State(), 0, "")] + states:
            what = "assign" if d.cells else "copy"
            n += 1
            x = kd.one(what, [sampling.obj(0), sampling.obj(1)], {0: d, 1: t})[0]
            if x[1].cells != t.cells:
                raise sampling.Bad("source", kd.where(what), "a copy of %s changes it" % name)
            if sorted(kd.snapshot(x[0])[0], key=repr) != want:
                raise sampling.Bad(what, kd.where(what), "%s does not have the samples of %s" % ("a copy" if what == "copy" else dn + " after an assignment", name))
        x = kd.one("assign", [sampling.obj(0), sampling.obj(0)], {0: t})[0]
        if sorted(kd.snapshot(x[0])[0], key=repr) != want:
            raise sampling.Bad("self", kd.where("assign"), "%s loses samples when it is assigned to itself" % name)
        # both take the next update alike: as many samples afterwards
        c1 = kd.one("copy", [sampling.obj(0), sampling.obj(1)], {0: State(), 1: t})[0][0]
        a = {len(kd.snapshot(y)[0]) for y in kd.updates(t)}
        b = {len(kd.snapshot(y)[0]) for y in kd.updates(c1)}
        if a != b:
            raise sampling.Bad("next", kd.where("copy"), "a copy of %s takes the next update differently" % name)
    return n
