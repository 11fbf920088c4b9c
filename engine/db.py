"""Program database: builds the extractor, runs it over every translation unit of /repo, merges."""
import os, sys, json, subprocess, hashlib, glob, tempfile, shutil, pickle
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("KNOR_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
MPI_INC = "/usr/lib/x86_64-linux-gnu/mpich/include"
LIBDIRS = ["libkcommon", "libauto", "libman", "libdist", "exec"]


class AnalysisBroken(Exception):
    """The analysis itself cannot give an answer (anchor vanished, tool failed): error exit."""


def extractor():
    src = os.path.join(HERE, "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "knor-extract-" + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        cfg = subprocess.run(["llvm-config-18", "--includedir"], capture_output=True, text=True)
        inc = cfg.stdout.strip() or "/usr/lib/llvm-18/include"
        tmp = exe + ".%d" % os.getpid()
        cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-w", "-D_GNU_SOURCE",
               "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
               "-I" + inc, src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("cannot build the extractor: " + r.stderr[-2000:])
        os.rename(tmp, exe)
    return exe


def units(repo):
    """(tag, file, flags): what the project's own Makefiles compile (lib*/Makefile, exec/Makefile*)."""
    out = []
    for d in LIBDIRS:
        for f in sorted(glob.glob(os.path.join(repo, d, "*.cpp"))):
            fl = ["-std=c++11", "-fopenmp", "-DSTATISTICS", "-I%s/%s" % (repo, d), "-I" + repo,
                  "-I%s/libkcommon" % repo]
            if d == "libdist" or os.path.basename(f) == "knord.cpp":
                fl += ["-I%s/libman" % repo, "-I" + MPI_INC]
                if d == "exec":
                    fl += ["-I%s/libdist" % repo]
            elif d == "exec":
                fl += ["-I%s/libman" % repo, "-I%s/libauto" % repo, "-DUSE_NUMA"]
            else:
                fl += ["-DUSE_NUMA"]
            out.append((d + "-" + os.path.basename(f), f, fl))
    # header-only code (templates, binding/*.hpp) is instantiated by an analysis-only unit
    drv = os.path.join(HERE, "instantiate.cpp")
    if os.path.exists(drv):
        fl = ["-std=c++11", "-fopenmp", "-DSTATISTICS", "-DUSE_NUMA", "-I" + repo] + \
             ["-I%s/%s" % (repo, d) for d in ("libkcommon", "libman", "libauto", "binding")]
        out.append(("instantiate", drv, fl))
    return out


def source_hash(repo, extra):
    h = hashlib.sha256()
    for d in LIBDIRS + ["binding"]:
        for f in sorted(glob.glob(os.path.join(repo, d, "**", "*.[ch]pp"), recursive=True) +
                        glob.glob(os.path.join(repo, d, "**", "*.h"), recursive=True)):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    for f in sorted(glob.glob(os.path.join(HERE, "*.cpp")) + glob.glob(os.path.join(HERE, "include", "*")) + glob.glob(os.path.join(HERE, "model", "*"))):
        h.update(open(f, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def load_raw(extra=(), repo=None):
    repo = repo or REPO
    key = source_hash(repo, extra) + "-" + hashlib.sha256(repo.encode()).hexdigest()[:6]
    os.makedirs(BUILD, exist_ok=True)
    pk = os.path.join(BUILD, "db-%s.pickle" % key)
    if os.path.exists(pk):
        try:
            return pickle.load(open(pk, "rb"))
        except Exception:
            pass
    exe = extractor()
    us = units(repo)
    if len(us) < 20:
        raise AnalysisBroken("only %d translation units found under %s" % (len(us), repo))
    tmp = tempfile.mkdtemp(prefix="knorx.", dir=BUILD)
    try:
        def one(u):
            tag, f, fl = u
            o = os.path.join(tmp, tag + ".json")
            cmd = [exe, HERE + "/model" if tag.startswith("model-") else repo, o, f, "--"] + fl + list(extra) + ["-idirafter", os.path.join(HERE, "include"), "-w"]
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=tmp)
            if r.returncode or not os.path.exists(o):
                return (tag, None, r.stderr[-1500:])
            return (tag, json.load(open(o)), "")
        us = us + [("model-" + os.path.basename(f), f, ["-std=c++11"]) for f in sorted(glob.glob(os.path.join(HERE, "model", "*.cpp")))]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, us))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    bad = [(t, e) for t, d, e in res if d is None]
    if bad:
        raise AnalysisBroken("extraction failed for %s: %s" % (bad[0][0], bad[0][1]))
    raw = {"units": [t for t, _, _ in res if not t.startswith("model-")],
           "data": [(t, d) for t, d, _ in res if not t.startswith("model-")],
           "model": {t: d for t, d, _ in res if t.startswith("model-")}}
    old = sorted(glob.glob(os.path.join(BUILD, "db-*.pickle")), key=os.path.getmtime)
    for f in old[:-12]:
        try:
            os.unlink(f)
        except OSError:
            pass
    t2 = pk + ".%d" % os.getpid()
    with open(t2, "wb") as fh:
        pickle.dump(raw, fh)
    os.rename(t2, pk)
    return raw


class DB:
    def __init__(self, extra=(), repo=None):
        raw = load_raw(extra, repo)
        self.repo = repo or REPO
        self.units = raw["units"]
        self.fn = {}          # mangled -> function record
        self.byq = {}         # qualified name -> [function]
        self.cls = {}         # class name -> record
        self.globals = {}
        self.enums = {}
        self.main = {}        # unit tag -> main function
        for ui, (tag, d) in enumerate(raw["data"]):
            for f in d["functions"]:
                m = f["m"]
                f["unit"] = tag
                f["ui"] = ui
                if m == "main":
                    self.main[tag] = f
                if m == "main" or f.get("internal") or "_GLOBAL__N_" in m:
                    f["m"] = m = m + "@" + tag
                if m in self.fn:
                    continue
                self.fn[m] = f
                self.byq.setdefault(f["q"], []).append(f)
            for c in d["classes"]:
                self.cls.setdefault(c["q"], c)
            for g in d["globals"]:
                self.globals.setdefault(g["q"], g)
            for e in d["enums"]:
                self.enums.setdefault(e["q"], [x.split("::")[-1] for x in e["c"]])
        self.standins = raw["model"]
        self.derived = {}
        for q, c in self.cls.items():
            for b in c["bases"]:
                self.derived.setdefault(b, set()).add(q)
        self.overriders = {}  # mangled -> [mangled overriding]
        for q, c in self.cls.items():
            for m in c["methods"]:
                for o in m["ovr"]:
                    self.overriders.setdefault(o, []).append((q, m["m"]))

    def standin(self, tag):
        """use the analysis-only definitions of engine/model/<tag>.cpp in place of the program's own"""
        d = self.standins["model-%s.cpp" % tag]
        self.real = {}
        for f in d["functions"]:
            if f["m"] in self.fn:
                self.real[f["m"]] = self.fn[f["m"]]
            f["unit"], f["ui"] = "model-" + tag, -1
            self.fn[f["m"]] = f
            old = [g for g in self.byq.get(f["q"], []) if g["m"] != f["m"]]
            self.byq[f["q"]] = old + [f]

    def bases(self, q):
        """q and its transitive bases, nearest first"""
        out, todo = [], [q]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            if x in self.cls:
                todo += self.cls[x]["bases"]
        return out

    def all_derived(self, q):
        out, todo = [], [q]
        while todo:
            x = todo.pop()
            for d in sorted(self.derived.get(x, ())):
                if d not in out:
                    out.append(d)
                    todo.append(d)
        return out

    def concrete(self, q):
        return [d for d in [q] + self.all_derived(q) if d in self.cls and not self.cls[d]["abstract"]]

    def ovr_chain(self, m, seen=None):
        """all transitive overridden methods of mangled m"""
        out = set()
        f = self.fn.get(m)
        todo = [m]
        decl = self._decls()
        while todo:
            x = todo.pop()
            for o in decl.get(x, {}).get("ovr", []):
                if o not in out:
                    out.add(o)
                    todo.append(o)
        return out

    def _decls(self):
        if not hasattr(self, "_dc"):
            self._dc = {}
            for q, c in self.cls.items():
                for m in c["methods"]:
                    self._dc[m["m"]] = dict(m, cls=q)
        return self._dc

    def resolve_virtual(self, m, dyncls):
        """final overrider of virtual method m for an object of dynamic class dyncls"""
        for b in self.bases(dyncls):
            c = self.cls.get(b)
            if not c:
                continue
            for me in c["methods"]:
                if me["m"] == m or m in self.ovr_chain(me["m"]):
                    return me["m"]
        return m

    def find_method(self, cls, name, nparams=None):
        """method `name` as seen from class cls (own, then bases)"""
        for b in self.bases(cls):
            for f in self.byq.get(b + "::" + name, []):
                if nparams is None or len(f["params"]) == nparams:
                    return f
        return None

    def one(self, q, pick=None):
        fs = self.byq.get(q, [])
        if pick:
            fs = [f for f in fs if pick(f)]
        if not fs:
            raise AnalysisBroken("anchor vanished: no definition of " + q)
        return fs[0]


if __name__ == "__main__":
    d = DB()
    print("extractor %s, %d functions, %d classes" % (os.path.basename(extractor()), len(d.fn), len(d.cls)))
