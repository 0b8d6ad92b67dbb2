"""Obtains the type-resolved program of /repo's current working tree: compile commands from the
real cmake configuration (in a scratch build directory), one extractor run per translation unit,
merged into one Program."""
import json, os, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LPA_REPO", "/repo")
LPX = os.path.join(VERIF, "build", "lpx")


class FrontendError(Exception):
    pass


def ensure_extractor():
    if not os.path.exists(LPX) or os.path.getmtime(LPX) < os.path.getmtime(os.path.join(VERIF, "extract", "extract.cpp")):
        r = subprocess.run([os.path.join(VERIF, "extract", "build.sh")], capture_output=True, text=True)
        if r.returncode:
            raise FrontendError("extractor build failed: " + r.stderr[-2000:])


_res = None
def resource_dir():
    global _res
    if _res is None:
        _res = subprocess.run(["clang++", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()
    return _res


def compile_commands(scratch):
    """[(file, args)] of the library's own translation units (those under src/)."""
    b = os.path.join(scratch, "cm")
    os.makedirs(b, exist_ok=True)
    r = subprocess.run(["cmake", "-S", REPO, "-B", b, "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON",
                        "-DCMAKE_EXPORT_PACKAGE_REGISTRY=OFF", "-Wno-dev"], capture_output=True, text=True, env=dict(os.environ, HOME=scratch))
    f = os.path.join(b, "compile_commands.json")
    if r.returncode or not os.path.exists(f):
        raise FrontendError("cmake configuration failed: " + (r.stderr or r.stdout)[-2000:])
    out, seen = [], set()
    src = os.path.realpath(os.path.join(REPO, "src"))
    for c in json.load(open(f)):
        fn = os.path.realpath(os.path.join(c["directory"], c["file"]))
        if not fn.startswith(src + "/") or fn in seen:
            continue
        seen.add(fn)
        toks = shlex.split(c["command"]) if "command" in c else c["arguments"]
        args, i = [], 1
        while i < len(toks):
            t = toks[i]
            if t in ("-o", "-c", "-MF", "-MT", "-MQ"):
                i += 1 if t == "-c" else 2
                continue
            if os.path.realpath(os.path.join(c["directory"], t)) == fn:
                i += 1
                continue
            if t.startswith(("-I", "-D", "-U", "-std", "-isystem", "-include", "-f", "-m", "-O", "-W")):
                args.append(t)
                if t in ("-I", "-D", "-U", "-isystem", "-include"):
                    i += 1
                    args.append(toks[i])
            i += 1
        if not any(a.startswith("-std") for a in args):
            args.append("-std=gnu++11")
        out.append((fn, args))
    if not out:
        raise FrontendError("no translation unit under src/ in the compilation database")
    return sorted(out)


def run_lpx(root, fn, args, outf):
    cmd = [LPX, root, outf, fn, "--"] + args + ["-resource-dir", resource_dir(), "-w", "-ferror-limit=0"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r


class Program:
    def __init__(self):
        self.functions, self.records, self.globals, self.decls, self.files = {}, {}, {}, [], set()
        self.units = []

    def merge(self, j, unit):
        # variable ids are per unit: make them unique
        off = len(self.units) * 1000000
        def fix(o):
            if isinstance(o, dict):
                if "id" in o and isinstance(o["id"], int):
                    o["id"] += off
                for v in o.values():
                    fix(v)
            elif isinstance(o, list):
                for v in o:
                    fix(v)
        fix(j)
        self.units.append(unit)
        for k, f in j["functions"].items():
            if k not in self.functions:
                f["key"] = k
                self.functions[k] = f
        for k, r in j["records"].items():
            self.records.setdefault(k, r)
        for g in j["globals"]:
            self.globals.setdefault((g["q"], g.get("file")), g)
            if g.get("init") is not None and self.globals[(g["q"], g.get("file"))].get("init") is None:
                self.globals[(g["q"], g.get("file"))]["init"] = g["init"]
        for d in j["decls"]:
            d["unit"] = unit
            self.decls.append(d)
        self.files.update(j.get("files", []))

    # ---- call graph
    def callees(self, key):
        c = self.__dict__.setdefault("_callees", {})
        if key not in c:
            out = set()
            def walk(o):
                if isinstance(o, dict):
                    x = o.get("f")
                    if isinstance(x, str) and x in self.functions:
                        out.add(x)
                    for v in o.values():
                        walk(v)
                elif isinstance(o, list):
                    for v in o:
                        walk(v)
            f = self.functions.get(key) or {}
            walk(f.get("b"))
            walk(f.get("inits"))
            c[key] = out
        return c[key]

    def reach(self, key):
        c = self.__dict__.setdefault("_reach", {})
        if key not in c:
            out, todo = set(), [key]
            while todo:
                for x in self.callees(todo.pop()):
                    if x not in out:
                        out.add(x)
                        todo.append(x)
            c[key] = out
        return c[key]

    def recursive(self, key):
        return key in self.reach(key)

    def scc(self, key):
        return {k for k in self.reach(key) if key in self.reach(k)} | {key}

    # ---- lookups
    def by_q(self, q):
        return [f for f in self.functions.values() if f["q"] == q]

    def methods(self, cls, name):
        """definitions of cls::name (cls canonical record name)"""
        return [f for f in self.functions.values() if f.get("cls") == cls and f["n"] == name]

    def bases(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            for b in self.records.get(c, {}).get("bases", []):
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def derived(self, cls):
        return [r for r in self.records if cls in self.bases(r)]


def load(extra_flags=(), keep=None):
    ensure_extractor()
    scratch = keep or tempfile.mkdtemp(prefix="lpa.")
    try:
        cc = compile_commands(scratch)
        root = os.path.realpath(os.path.join(REPO, "src"))
        def job(x):
            i, (fn, args) = x
            o = os.path.join(scratch, "u%d.json" % i)
            r = run_lpx(root, fn, args + list(extra_flags), o)
            return fn, o, r
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(job, enumerate(cc)))
        P = Program()
        for fn, o, r in res:
            if not os.path.exists(o):
                raise FrontendError("extractor failed on %s: %s" % (fn, r.stderr[-1500:]))
            j = json.load(open(o))
            if r.returncode:
                raise FrontendError("%s does not compile: %s" % (fn, r.stderr[-1500:]))
            P.merge(j, fn)
        P.cc = cc
        return P
    finally:
        if not keep:
            shutil.rmtree(scratch, ignore_errors=True)


def rel(path):
    r = os.path.realpath(REPO)
    return os.path.relpath(path, r) if path and path.startswith(r) else path
