"""Running an analysis: compiling drivers, collecting obligations, reporting, evidence."""
import json
import os
import re
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VCX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "clang++-18"
TOOL = os.path.join(BUILD, "irtool")


class AnalysisError(Exception):
    """the analysis could not be carried out (no verdict)"""


def build_tool():
    src = os.path.join(VERIF, "tool", "irtool.cpp")
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    cx = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True, check=True).stdout.split()
    cx = [x for x in cx if not x.startswith("-std=")]
    ld = subprocess.run(["llvm-config-18", "--ldflags"], capture_output=True, text=True, check=True).stdout.split()
    tmp = "%s.%d" % (TOOL, os.getpid())
    r = subprocess.run([CLANG, "-O1", "-w", "-std=c++17", src, "-o", tmp] + cx + ["-fno-exceptions"] + ld + ["-lLLVM-18"],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build irtool: " + r.stderr[-2000:])
    os.rename(tmp, TOOL)


class CompileError(Exception):
    def __init__(self, src, text):
        super().__init__("%s does not compile" % os.path.basename(src))
        self.src, self.text = src, text


BASEFLAGS = ["-std=gnu++14", "-O1", "-g", "-w", "-I" + os.path.join(VERIF, "drivers")]


def repo_flags():
    return ["-I" + REPO, "-I" + os.path.join(REPO, "cxxmetrics_prometheus")]


_tmp = None


def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.TemporaryDirectory(prefix="vcx")
    return _tmp.name


def normalise(driver, mode, policy=(), flags=(), prefix="drv_,ref_", tool=()):
    """compiles a driver against the repository's current sources and returns its normalised IR"""
    from . import ir
    build_tool()
    src = driver if os.path.isabs(driver) else os.path.join(VERIF, "drivers", driver)
    stem = os.path.join(scratch(), os.path.basename(src).replace(".cpp", "") + "." + mode)
    bc, js, pol = stem + ".bc", stem + ".json", stem + ".pol"
    r = subprocess.run([CLANG] + BASEFLAGS + list(flags) + repo_flags() + ["-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", src, "-o", bc],
                       capture_output=True, text=True, cwd="/")  # so that debug information names files by their whole path
    if r.returncode:
        raise CompileError(src, r.stderr)
    with open(pol, "w") as f:
        f.write("\n".join(policy) + "\n")
    with open(js, "w") as f:
        r = subprocess.run([TOOL, "--mode=" + mode, "--src=" + REPO, "--policy=" + pol, "--prefix=" + prefix] + list(tool) + [bc], stdout=f,
                           stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise AnalysisError("irtool failed on %s: %s" % (src, r.stderr[-2000:]))
    return ir.Module(js)


def syntax(code, name="witness.cpp", flags=()):
    """type checks a piece of code; returns (ok, diagnostics)"""
    p = os.path.join(scratch(), name)
    with open(p, "w") as f:
        f.write(code)
    r = subprocess.run([CLANG, "-fsyntax-only"] + BASEFLAGS + list(flags) + repo_flags() + [p], capture_output=True, text=True)
    return r.returncode == 0, r.stderr


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obligations = []      # (name, ok, detail)
        self.violations = []
        self.samples = []
        self.assumptions = []
        self.stats = {}
        self.t0 = time.time()

    # -- obligations
    def ok(self, name, detail=""):
        self.obligations.append((name, True, detail))

    def bad(self, key, where, msg, extra=None):
        """key: stable identification of the instance (property wide), used for known findings"""
        self.obligations.append((key, False, msg))
        self.violations.append({"key": key, "where": where, "msg": msg, "extra": extra})

    def require(self, cond, key, where, msg, extra=None, detail=""):
        if cond:
            self.ok(key, detail)
        else:
            self.bad(key, where, msg, extra)
        return cond

    def expect(self, n, least, what):
        """analysis anchor: at least this many instances must have been found"""
        self.stats[what] = n
        if n < least:
            raise AnalysisError("%s: found %d instances of '%s', expected at least %d" % (self.pid, n, what, least))

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def run(pid, tier, fn, meta):
    c = Check(pid, tier)
    code = 0
    err = None
    try:
        fn(c)
        if not c.obligations:
            raise AnalysisError("no obligations were generated")
    except AnalysisError as e:
        err = str(e)
    except CompileError as e:
        err = "%s:\n%s" % (e, e.text[-3000:])
    except Exception as e:      # what the analysis did not foresee is no answer
        import traceback
        err = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    known = known_findings().get(pid, {})
    new, old = [], []
    for v in c.violations:
        (old if v["key"] in known else new).append(v)
    seen = set()
    for v in old:
        if v["key"] not in seen:
            seen.add(v["key"])
            print("KNOWN-FINDING: property=%s %s [%s] at %s" % (pid, known[v["key"]], v["key"], v["where"]))
    evd = os.environ.get("VCX_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    rep = os.path.join(evd, pid + ".violations.json")
    if new:
        code = 1
        with open(rep, "w") as f:
            json.dump(new, f, indent=1, default=str)
        for v in new:
            print("%s: %s: %s" % (v["where"], v["key"], v["msg"]))
            if v["extra"]:
                print("    " + str(v["extra"]).replace("\n", "\n    ")[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
    elif os.path.exists(rep):
        os.unlink(rep)
    ob = len(c.obligations)
    dis = sum(1 for o in c.obligations if o[1])
    cov = {
        "explanation": meta["explains"],
        "rule": meta["rule"],
        "obligations": ob,
        "discharged": dis,
        "checker_cmd": "./check %s %s" % (pid, tier),
        "trusted_base": ["clang-18 front end and the LLVM passes irtool runs", "tool/irtool.cpp", "vcx/*.py", "the x86-64 layout the library is compiled for"],
        "analysed": c.stats,
        "samples": [{"obligation": n, "discharged": o, "detail": d} for n, o, d in pick(c.obligations)] + c.samples[:12],
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": meta["level"],
          "coverage": cov, "assumptions": meta.get("assumptions", []) + c.assumptions, "wall_s": round(time.time() - c.t0, 2),
          "violations": len(new)}
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if code == 0 and err:
        print("ANALYSIS-ERROR property=%s %s" % (pid, err))
        return 2
    if code == 0:
        print("ok property=%s obligations=%d discharged=%d known=%d %s" % (pid, ob, dis, len(seen), json.dumps(c.stats)))
    return code


def pick(obs, n=14):
    if len(obs) <= n:
        return obs
    step = len(obs) / n
    return [obs[int(k * step)] for k in range(n)]


# ---------------------------------------------------------------- comparison of drivers with specifications
def spec_pairs(c, mod, nan=True, prefix="", where=None, real=False, **kw):
    """drv_X must have the normal form of ref_X (real: avg_drv_X and avg_ref_X, over the real numbers)"""
    from . import flow
    n = 0
    for name, f in sorted(mod.fns.items()):
        lead = "avg_drv_" if real else "drv_"
        if not name.startswith(tuple(lead + p for p in ([prefix] if isinstance(prefix, str) else prefix))):
            continue
        name_ = name[len(lead):]
        r = mod.fns.get(lead.replace("drv", "ref") + name_)
        if r is None:
            continue
        n += 1
        try:
            d, cases = (flow.equal_real if real else flow.equal)(f, r, nan=nan, mod=mod, **kw)
            alt = mod.fns.get("alt_" + name_)
            if d is not None and alt is not None:
                d, cases = flow.equal(f, alt, nan=nan, mod=mod, **kw)
        except (flow.Unsupported, flow.TooBig) as e:
            raise AnalysisError("%s: %s" % (name, e))
        c.count("cases compared", cases)
        if d is None:
            c.ok(name_, "%d cases" % cases)
        else:
            c.bad(name_, where(f) if where else origin(f), "the code does not compute what the property says",
                  "case: %(case)s\ncode: %(code)s\nspec: %(spec)s" % d)
    c.count("driver/specification pairs", n)
    return n


def origin(f):
    """the repository constructs the code of a driver comes from"""
    seen = []
    for i in f.insts():
        for l in i.d.get("loc", []):
            if l.startswith(REPO + "/"):
                p, ln, fn = l[len(REPO) + 1:].split(":", 2)
                s = "%s:%s (%s)" % (p, ln, fn)
                if s not in seen:
                    seen.append(s)
                break
    return ", ".join(seen[:4]) or f.d.get("at", f.name)
