"""Class hierarchy of a unit: which functions a virtual call may reach."""

FLAGS = ["-fvisibility=hidden", "-fwhole-program-vtables", "-flto"]


class Classes:
    def __init__(self, mod):
        self.vt, self.up, self.dem = {}, {}, {}
        for g, d in mod.globals.items():
            if g.startswith("_ZTV") and isinstance(d.get("init"), list) and d["init"] and isinstance(d["init"][0], list):
                self.vt[g[4:]] = [x.get("n") if x.get("k") == "fn" else None for x in d["init"][0]][2:]
                self.dem[g[4:]] = d["dem"].replace("vtable for ", "", 1)
            elif g.startswith("_ZTI") and isinstance(d.get("init"), list):
                self.up[g[4:]] = [x["n"][4:] for x in d["init"][1:] if isinstance(x, dict) and x.get("k") == "g" and x["n"].startswith("_ZTI")]
                self.dem.setdefault(g[4:], d["dem"].replace("typeinfo for ", "", 1))

    def derives(self, k, base):
        seen, work = set(), [k]
        while work:
            x = work.pop()
            if x == base:
                return True
            if x not in seen:
                seen.add(x)
                work += self.up.get(x, [])
        return False

    def cands(self, i):
        """(class, function) a virtual call may reach; None when it is not a known virtual call"""
        if not i.d.get("cls"):
            return None
        base, s = i.d["cls"][4:], i.d["slot"] // 8
        return [(k, fns[s]) for k, fns in self.vt.items() if self.derives(k, base) and s < len(fns) and fns[s] and "__cxa_pure" not in fns[s]]
