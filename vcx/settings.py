"""Which options apply to a metric: its own if there are any, else the registry's, else the defaults.  Part of C20"""
from . import core, flow, policies, reg
from .reg import MAPS, Names, callseq, isend, isnull, nm
from .snapshots import ptr

KEY = "_ZTIN10cxxmetrics15publish_optionsE"


def stored(r, N, f, p, t, KEY=KEY):
    """(kind of the owner, whether the key is right) of the stored options an address denotes, or None"""
    a = slotof(r, p, t)
    s = r.slot(p, a) if a is not None else None
    if s is None:
        return None
    cont, e = s[1]
    owner = r.obj(p, cont)
    k = p.ev.index(e)
    return owner, N.of(f, p, e.args[1], k) == ("T", KEY), e


def slotof(r, p, t):
    """the owning pointer stored data is reached through"""
    o = r.obj(p, t)
    if o is not None and o[0] == "O" and not o[1] and not ptr(t)[3]:
        b = o[2]
        return b[1] if b[0] == "ld" else r.evof(p, b).args[0]
    if ptr(t)[1][0] == "res":
        # made just now and put in place
        for e in p.ev:
            if e.kind == "store" and e.val is not None and ptr(e.val) == ptr(t) and (r.slot(p, e.addr) or "?")[0] == "O":
                return e.addr
    return None


def lookups(r, N, f, p, KEY=KEY):
    """{kind of owner: None when the path knows it has no options (lookup failed or empty), True when it has}"""
    out = {}
    for n, e in callseq(p):
        if not MAPS.match(e.name) or not e.args or r.mapped(e.name) != "O":
            continue
        o = r.obj(p, e.args[0])
        m = e.short.split("::")[-1]
        if o is not None and out.get(o[0]) is True:
            continue        # nothing is ever removed
        if o is None or N.of(f, p, e.args[1], n) != ("T", KEY) if len(e.args) > 1 else True:
            continue
        if m == "find":
            end = isend(p, e.res)
            if end is True:
                out[o[0]] = False
            elif end is False:
                null = [v for k, v in p.w.bool.items() if k[0] == "peq" and flow.NULL in (k[1], k[2]) and inside(ptr(k[2] if k[1] == flow.NULL else k[1]), e.res)]
                null += [not v for k, v in p.w.bool.items() if k[0] == "bool" and k[1][0] == "pc" and k[1][1] == "operator bool" and inside(k[1][2], e.res)]
                out[o[0]] = False if True in null else True
        elif m in ("count", "contains"):
            z = reg.iszero(p, e.res)
            if z is not None:
                out[o[0]] = not z
    # an owner that is there and empty: none
    for k, v in p.w.bool.items():
        if k[0] == "peq" and flow.NULL in (k[1], k[2]) and v:
            x = ptr(k[2] if k[1] == flow.NULL else k[1])[1]
            q = r.slot(p, x[1]) if x[0] == "ld" else None
            if q and q[0] == "O" and q[1][1].short.split("::")[-1] in ("find", "at"):
                o = r.obj(p, q[1][0])
                if o is not None:
                    out[o[0]] = False
    return out


def inside(t, s):
    return reg.within(t, s)


def check(c):
    r = reg.load("reg.cpp", "po_", extra=["opaque ^cxxmetrics::publish_options::operator=\\("])
    N = Names(r)
    n = 0
    for f, this, metric in (("po_get", "R", None), ("po_eff", "R", "E")):
        for p in r.paths(f):
            if p.kind != "ret":
                continue
            n += 1
            w = next((e.where() for e in reversed(p.ev) if e.i is not None), f)
            t = ptr(p.ret)
            known = lookups(r, N, f, p)
            s = stored(r, N, f, p, t)
            what = p.facts()[-300:]
            if s is not None:
                owner, key, e = s
                kind = owner[0] if owner else None
                c.require(kind in (this, metric) and key, "own options:" + f, w, "the options used are not stored for the metric or its registry under the type of options (%s)" % what, detail="stored options")
                if kind == this and metric:
                    c.require(known.get(metric) is False, "overridden:" + f, w, "the registry's options are used although the metric may have its own (%s)" % what, detail="only without own options")
                if kind == metric and e.short.split("::")[-1] in ("operator[]", "emplace", "try_emplace", "insert") and metric:
                    c.require(known.get(metric) is True, "made up:" + f, w, "a metric without options of its own is given new ones instead of the registry's (%s)" % what, detail="only with own options")
            elif t[1][0] == "g":
                need = [this] + ([metric] if metric else [])
                c.require(all(known.get(k) is False for k in need), "defaults:" + f, w, "the defaults are used although options may have been set (%s)" % what, detail="only when nothing is set")
            else:
                c.bad("options:" + f, w, "the options used are neither the metric's, nor the registry's, nor the defaults: %s" % flow.show(p.ret)[:200])
    for f, kind, src in (("po_set", "R", 1), ("po_setm", "E", 2)):
        for p in r.paths(f):
            if p.kind != "ret":
                continue
            n += 1
            w = next((e.where() for e in reversed(p.ev) if e.i is not None), f)
            sets = [(k, e) for k, e in callseq(p) if e.short == "cxxmetrics::publish_options::operator=" or
                    ("make_unique" in e.short or "make_shared" in e.short or e.short.endswith("publish_options::publish_options")) and any(ptr(a) == ptr(("arg", src)) for a in e.args[1:])]
            if not sets:
                none = kind == "E" and (reg.registered(r, p) is False or reg.hollow(r, p))
                for k, e in callseq(p):
                    if kind == "E" and MAPS.match(e.name) and e.short.endswith("::find") and ptr(e.args[1]) == ptr(("arg", 1)):
                        none |= any(v for kk, v in p.w.bool.items() if kk[0] == "peq" and flow.NULL in (kk[1], kk[2]) and inside(ptr(kk[2] if kk[1] == flow.NULL else kk[1]), e.res))
                c.require(none, "set:" + f, w, "options given are not stored (%s)" % p.facts()[-300:], detail="only when there is no such metric")
                continue
            k, e = sets[-1]
            if e.short != "cxxmetrics::publish_options::operator=":
                # made of the options given and put into the empty slot
                put = next((x for m, x in callseq(p) if m > k and x.short.endswith("::operator=") and len(x.args) > 1 and ptr(x.args[1]) == ptr(e.args[0]) and r.slot(p, x.args[0])), None)
                if put is None:
                    raise core.AnalysisError(f + ": options are stored in a way that is not modelled")
                cont, le = r.slot(p, put.args[0])[1]
                o = r.obj(p, cont)
                c.require(o is not None and o[0] == kind and N.of(f, p, le.args[1], p.ev.index(le)) == ("T", KEY), "set:" + f, put.where(), "options are not stored for the metric (or registry) they are set on", detail="put into an empty slot")
                continue
            s = stored(r, N, f, p, e.args[0])
            ok = s is not None and s[0] is not None and s[0][0] == kind and s[1] and ptr(e.args[1]) == ptr(("arg", src))
            if ok and kind == "E":
                b = s[0][2]
                ok = b[0] == "ld" and reg.element_for(r, p, b[1], ("arg", 1))[0] or b[0] != "ld" and reg.element_for(r, p, r.evof(p, b).args[0], ("arg", 1))[0]
            c.require(ok, "set:" + f, e.where(), "options are not stored for the metric (or registry) they are set on", detail="stored under the type of options")
    c.expect(n, 8, "ways options are found and set")
