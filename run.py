#!/usr/bin/env python3
"""Runner of the zzzJSON runtime-verification checks.

  run.py check <property>            quick or thorough, by VERIF_TIER (default quick)
  run.py replay <replay file>        re-run the failing case of an earlier violation
  run.py builds                      build everything the checks need (setup)

Every check builds the real library from /repo's working tree inside the harness
(several builds), runs workloads under the monitors, and decides from what the
monitors saw. Exit 0: held. Exit 1: VIOLATION line. Exit 2: the check could not decide.
"""
import sys, os, json, time, hashlib, subprocess, shutil, re, struct, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
import threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
NCPU = min(8, os.cpu_count() or 8)

SAN = {
    "": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"],
    "addr": ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1"],  # gcc: its UBSan is not used (miscompiles)
    "msan": ["-fsanitize=memory", "-fno-omit-frame-pointer", "-g1"],
    "tsan": ["-fsanitize=thread", "-g1"],
}
BACKENDS = {  # name -> (source, language)
    "long": ("be_long.c", "c"), "longcpp": ("be_longcpp.cpp", "c++"), "short": ("be_short.c", "c"),
    "cpp": ("be_cpp.cpp", "c++"), "mem": ("be_mem.cpp", "c++"), "hpp": ("be_hpp.cpp", "c++"),
    "beta": ("be_beta.cpp", "c++"), "betas": ("be_betas.cpp", "c++"), "go": ("be_go.cpp", "c++"),
    # several translation units and flavours in one program
    "mixc": ("be_mix.cpp", "c++"), "mixcpp": ("be_mix.cpp", "c++"), "mixhpp": ("be_mix.cpp", "c++"), "mixbeta": ("be_mix.cpp", "c++"),
}
PARTS = {"mixc": (("a", "be_long.c", "c"), ("b", "be_short.c", "c")), "mixcpp": (("a", "be_cpp.cpp", "c++"), ("b", "be_mem.cpp", "c++"), ("c", "be_longcpp.cpp", "c++")),
         "mixhpp": (("a", "be_hpp.cpp", "c++"), ("b", "be_hpp.cpp", "c++")), "mixbeta": (("a", "be_beta.cpp", "c++"), ("b", "be_betas.cpp", "c++"))}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=23:detect_leaks=1:detect_stack_use_after_return=1:malloc_context_size=8:quarantine_size_mb=64:allocator_may_return_null=1:fast_unwind_on_malloc=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=24",
    "MSAN_OPTIONS": "exitcode=25:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=26:halt_on_error=1:second_deadlock_stack=1",
    "LC_ALL": "C",
})


class Cfg:
    """One build: backend x compiler x flags x configuration macros."""

    def __init__(self, backend="long", cc="gcc", opt="-O2", san="", defs=(), hooks=False, name=None, extra=()):
        self.backend, self.cc, self.opt, self.san, self.defs, self.hooks = backend, cc, opt, san, tuple(defs), hooks
        self.extra = tuple(extra)
        self.name = name or "-".join([backend, cc, opt.lstrip("-")] + ([san] if san else []) + (["hooks"] if hooks else []) + list(self.defs) + list(self.extra))

    def __repr__(self):
        return self.name


class CompileError(Exception):
    pass


_hash_lock = threading.Lock()
_tree = {}


def tree_hash():
    """content of everything a build can depend on"""
    with _hash_lock:
        if "h" not in _tree:
            m = hashlib.sha256()
            fs = []
            for d, dirs, names in os.walk(REPO):
                dirs[:] = sorted(x for x in dirs if x not in (".git", "_build", "test", "tests"))
                fs += [os.path.join(d, n) for n in sorted(names) if n.endswith((".h", ".hpp", ".go", ".inc", ".c", ".cc", ".cpp"))]
            fs += sorted(glob.glob(H + "/*"))
            for f in fs:
                if os.path.isfile(f):
                    m.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
            _tree["h"] = m.hexdigest()
        return _tree["h"]


def harness_hash():
    m = hashlib.sha256()
    for f in sorted(glob.glob(H + "/*")):
        if os.path.isfile(f):
            m.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return m.hexdigest()


_locks = {}


def _lock(key):
    with _hash_lock:
        return _locks.setdefault(key, threading.Lock())


def sh(cmd, timeout=600, cwd=None, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env or ENV)
    return p.returncode, p.stdout.decode("utf-8", "replace")


ROUTE = ["malloc", "calloc", "realloc", "free", "strdup", "strndup"]
COUNT = ["strlen", "strcmp", "strncmp", "memcpy", "memmove", "memset", "memcmp", "memchr", "strchr", "strstr", "strcpy", "strncpy", "strcat", "strspn", "strcspn", "strtod", "snprintf", "sprintf", "sscanf", "__isoc99_sscanf=vf_sscanf99", "__isoc23_sscanf=vf_sscanf23"]


def compile_obj(cmd, key, route=()):
    out = os.path.join(BUILD, "obj", key + ".o")
    with _lock(key):
        if os.path.exists(out):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".tmp%d" % os.getpid()
        rc, txt = sh(cmd + ["-o", tmp])
        if rc != 0:
            raise CompileError("%s\n%s" % (" ".join(cmd), txt[-6000:]))
        if route:  # whatever way the library reaches these functions, it reaches the monitor's
            rc, txt = sh(["objcopy"] + ["--redefine-sym=" + (x if "=" in x else x + "=vf_" + x) for x in route] + [tmp])
            if rc != 0:
                raise CompileError("objcopy: " + txt[-2000:])
        os.rename(tmp, out)
        return out


class GoError(CompileError):
    """the Go package itself does not compile"""


def build_go(cfg):
    """the Go binding and its bridge, as a C archive"""
    key = "go" + hashlib.sha256((tree_hash() + open(H + "/go/main.go.txt").read() + REPO + repr(vars(cfg))).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, "go", key)
    lib = os.path.join(d, "libvfgo.a")
    with _lock(key):
        if os.path.exists(lib):
            return lib
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/zzzjson")
        env = dict(ENV)
        for k in list(env):
            if k.startswith(("GO", "CGO")):
                del env[k]
        env.update({"GOCACHE": os.path.join(BUILD, "gocache"), "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "CGO_ENABLED": "1", "GOPATH": os.path.join(BUILD, "gopath"), "GONOSUMDB": "*",
                    "CC": cfg.cc, "CGO_CFLAGS_ALLOW": ".*", "CGO_LDFLAGS_ALLOW": ".*", "CGO_LDFLAGS": "-Wl,--unresolved-symbols=ignore-all"})
        for f in glob.glob(REPO + "/*.go"):
            if not f.endswith("_test.go"):
                shutil.copy(f, d + "/zzzjson/")
        open(d + "/go.mod", "w").write("module vf\n\ngo 1.21\n")
        # first as a user would build it
        for f in glob.glob(REPO + "/*.h"):
            shutil.copy(f, d + "/zzzjson/")
        rc, txt = sh(["go", "build", "./zzzjson"], cwd=d, env=env)
        if rc != 0:
            raise GoError(txt[-4000:])
        # then with the library's allocations routed through the monitor
        for f in glob.glob(REPO + "/*.h"):
            open(d + "/zzzjson/" + os.path.basename(f), "w").write('#define VF_ROUTE_MACROS\n#include "%s/vf_rt.h"\n#include "%s"\n' % (H, os.path.abspath(f)))
        san = SAN[cfg.san]
        open(d + "/zzzjson/vf_flags.go", "w").write("package zzzjson\n\n// #cgo CFLAGS: -w -I%s %s %s\nimport \"C\"\n" % (REPO, " ".join("-D" + x for x in cfg.defs), " ".join(san)))
        if san:
            env["CGO_LDFLAGS"] += " " + " ".join(san)
        shutil.copy(H + "/go/main.go.txt", d + "/main.go")
        tmp = lib + ".tmp"
        rc, txt = sh(["go", "build", "-buildmode=c-archive", "-o", tmp, "."], cwd=d, env=env)
        if rc != 0:
            raise CompileError(txt[-4000:])
        # C.CString allocates in generated code outside the package's own C file: route it too
        os.makedirs(d + "/x")
        sh(["ar", "x", tmp], cwd=d + "/x")
        for o in sorted(glob.glob(d + "/x/*.o")):
            if "_Cfunc__Cmalloc" in sh(["nm", "--defined-only", o])[1]:
                rc, txt = sh(["objcopy", "--redefine-sym", "malloc=vf_malloc", o])
                rc2, txt2 = sh(["ar", "r", tmp, o])
                if rc or rc2:
                    raise CompileError(txt + txt2)
        shutil.rmtree(d + "/x")
        os.rename(tmp, lib)
        return lib


def build(cfg):
    """-> (binary, hooks_used)"""
    cxx = {"gcc": "g++", "clang": "clang++"}
    san = SAN[cfg.san]
    # the driver: same compiler family as the sanitizer runtime
    dcc = cfg.cc if cfg.san else "gcc"
    dcmd = [cxx[dcc], "-std=c++17", "-O1" if cfg.san else "-O2", "-w", "-I" + H] + san + ["-c", H + "/driver.cpp"]
    if cfg.san == "msan":
        dcmd.insert(1, "-D_GLIBCXX_ASSERTIONS")
    dkey = "drv" + hashlib.sha256((harness_hash() + " ".join(dcmd)).encode()).hexdigest()[:24]
    src, lang = BACKENDS[cfg.backend]

    def backend(hooks):
        parts = PARTS.get(cfg.backend)
        if not parts:
            return [backend1(hooks, src, lang, [])]
        return [backend1(hooks, f, l, ["-Dzapi_get=zapi_get_" + x]) for x, f, l in parts] + [backend1(False, src, lang, ["-DVF_MIX3"] if len(parts) > 2 else [])]

    def backend1(hooks, src, lang, more):
        cmd = [cxx[cfg.cc] if lang == "c++" else cfg.cc, cfg.opt, "-w", "-I" + REPO, "-I" + H, "-include", H + "/vf_rt.h"] + san
        if lang == "c++":
            cmd.insert(1, "-std=c++14")
        cmd += ["-D" + d for d in cfg.defs] + list(cfg.extra) + more
        if hooks:
            cmd.append("-Dzj_VERIF_HOOKS")
        cmd += ["-c", os.path.join(H, src)]
        route = [] if cfg.backend == "go" else ROUTE + (COUNT if "-DVF_WORK" in cfg.extra else [])
        key = "be" + hashlib.sha256((tree_hash() + REPO + " ".join(cmd) + " ".join(route)).encode()).hexdigest()[:24]
        return compile_obj(cmd, key, route)

    hooks = cfg.hooks
    try:
        bo = backend(hooks)
    except CompileError:
        if not hooks:
            raise
        hooks = False  # the hook points are gone from the tree: run without them
        bo = backend(False)
    do = compile_obj(dcmd, dkey)
    libs = [build_go(cfg)] if cfg.backend == "go" else []
    key = "bin" + hashlib.sha256((do + " ".join(bo) + " ".join(cfg.extra) + "".join(hashlib.sha256(open(x, "rb").read()).hexdigest() for x in libs)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "bin", key)
    with _lock(key):
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = out + ".tmp%d" % os.getpid()
            rc, txt = sh([cxx[dcc]] + san + ["-o", tmp, do] + bo + libs + ["-lpthread"])
            if rc != 0:
                raise CompileError("link: " + txt[-4000:])
            os.rename(tmp, out)
    return out, hooks


def env_for(cfg):
    if cfg is None or cfg.backend != "go":
        return ENV
    e = dict(ENV)  # LeakSanitizer cannot see pointers held by the Go heap; the allocation monitor decides leaks
    e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
    e["GOTRACEBACK"] = "single"
    return e


class Job:
    """cases [0,cases) of one mode on one build, split into shards"""

    def __init__(self, cfg, mode, cases, shards=4, level=1, args=(), tr=False, cpu=60):
        self.cfg, self.mode, self.cases, self.shards, self.level, self.args, self.tr, self.cpu = cfg, mode, cases, max(1, min(shards, cases)), level, tuple(args), tr, cpu


class Failure:
    def __init__(self, prop, cfg, mode, case, kind, msg, args, seed, cases, detail=""):
        self.prop, self.cfg, self.mode, self.case, self.kind, self.msg, self.args, self.seed, self.cases, self.detail = prop, cfg, mode, case, kind, msg, args, seed, cases, detail

    def sig(self):
        return "%s mode=%s kind=%s :: %s" % (self.cfg.name if self.cfg else "-", self.mode, self.kind, self.msg)


class HarnessError(Exception):
    pass


def drv_cmd(binary, job, seed, extra):
    return [binary, "--mode", job.mode, "--seed", str(seed), "--cases", str(job.cases), "--level", str(job.level), "--cpu", str(job.cpu), "--corpus", os.path.join(REPO, "test"), "--dict", dict_file()] + list(job.args) + extra


_dict = {}


def dict_file():
    """constants, number texts and tokens that occur in the tree under test (they steer the workload only)"""
    with _hash_lock:
        if "f" in _dict:
            return _dict["f"]
        sizes, vals, toks = set(), set(), set()
        for f in sorted(glob.glob(REPO + "/*.h") + glob.glob(REPO + "/*.hpp") + glob.glob(REPO + "/*.go") + glob.glob(REPO + "/beta/*.h")):
            s = open(f, errors="replace").read()
            s = re.sub(r"/\*.*?\*/|//[^\n]*", " ", s, flags=re.S)
            lit = r"'(?:\\.[0-9a-fA-F]*|[^'\\\n])'|\"(?:\\.|[^\"\\\n])*\""
            for x in re.findall(lit, s):
                try:
                    b = x[1:-1].encode().decode("unicode_escape").encode("latin-1")
                except (UnicodeError, ValueError):
                    continue
                if 0 < len(b) <= 40 and b"\0" not in b and not x[1:-1].startswith("%") and not x[1:-1].endswith((".h", ".hpp")):
                    toks.add(b)
            s = re.sub(lit, " ", s)
            num = r"(?<![\w.])(?:0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][-+]?\d+)?)"
            for x in re.findall(num, s):
                v = int(x, 16) if x[:2] in ("0x", "0X") else float(x) if re.search(r"[.eE]", x) else int(x)
                vals.add(x.rstrip(".") if not isinstance(v, int) else str(v))
                if isinstance(v, int) and v <= 1 << 20:
                    sizes.add(v)
            for a, o, b in re.findall(r"(?<![\w.])(\d{1,7})[uUlL]*\s*(\*|<<)\s*(\d{1,7})\b", s):
                v = int(a) * int(b) if o == "*" else int(a) << min(int(b), 40)
                if v <= 1 << 20:
                    sizes.add(v)
        txt = "".join("S %d\n" % v for v in sorted(sizes)) + "".join("V %s\n" % v for v in sorted(vals)) + "".join("T %s\n" % t.hex() for t in sorted(toks))
        d = os.path.join(BUILD, "dict")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, hashlib.sha256(txt.encode()).hexdigest()[:16])
        if not os.path.exists(p):
            open(p + ".tmp%d" % os.getpid(), "w").write(txt)
            os.rename(p + ".tmp%d" % os.getpid(), p)
        _dict["f"] = p
        return p


class Runner:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.tmp = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=_mk(BUILD))
        self.failures, self.errors, self.inconclusive = [], [], []
        self.cnt, self.samples, self.hashes = {}, [], set()
        self.per = []
        self.trs = {}
        self.lock = threading.Lock()
        self.n = 0
        self.stop = False
        self.procs = set()
        self.deadline = time.time() + (780 if tier == "quick" else 4 * 3600)
        self.known = [rx for (pid, rx, _) in load_known() if pid == prop]

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def shard(self, binary, job, k, hooks):
        if self.stop:
            return
        with self.lock:
            self.n += 1
            base = os.path.join(self.tmp, "s%d" % self.n)
        extra = ["--stride", str(job.shards), "--offset", str(k), "--out", base + ".out", "--shared", base + ".sh", "--hashes", base + ".hs"]
        if job.tr:
            extra += ["--tr", base + ".tr"]
        cmd = drv_cmd(binary, job, self.seed, extra)
        t0 = time.time()
        rc, err, timed = self.run(cmd, base, cfg=job.cfg)
        dt = time.time() - t0
        out = open(base + ".out", errors="replace").read() if os.path.exists(base + ".out") else ""
        if rc == 0 and "\nDONE" in "\n" + out:
            self.collect(job, out, base, dt, hooks)
            return
        if self.stop:
            return  # ended on purpose: a violation is already known
        if rc == 3 or timed:
            with self.lock:
                (self.errors if rc == 3 else self.inconclusive).append("%s mode=%s shard %d: %s" % (job.cfg, job.mode, k, "timed out" if timed else err[-500:]))
            return
        case, op = -1, ""
        if os.path.exists(base + ".sh"):
            b = open(base + ".sh", "rb").read()
            if len(b) >= 448:
                case = struct.unpack_from("<q", b, 32)[0]
                opn = struct.unpack_from("<q", b, 40)[0]
                op = "op %d %s" % (opn, b[48:448].split(b"\0")[0].decode("utf-8", "replace"))
        kind, msg = classify(rc, out, err)
        m = re.search(r"FAIL kind=(\S+) mode=\S* case=(\d+)", out)
        if m:
            case = int(m.group(2))
        if kind == "hang":  # confirm alone, with a larger budget
            rc2, err2, timed2 = self.run(drv_cmd(binary, job, self.seed, ["--from", str(case), "--to", str(case), "--out", base + ".out2", "--cpu", str(job.cpu * 3)]), base + "b", timeout=max(20, min(job.cpu * 6, self.deadline - time.time() - 20)), cfg=job.cfg)
            if self.stop:
                return
            if timed2:
                rc2 = 11  # well over the budget twice, the second time alone
            if rc2 == 0:
                with self.lock:
                    self.inconclusive.append("%s mode=%s case %d was slow" % (job.cfg, job.mode, case))
                return
            if rc2 != 11:
                kind, msg = classify(rc2, open(base + ".out2", errors="replace").read() if os.path.exists(base + ".out2") else "", err2)
        f = Failure(self.prop, job.cfg, job.mode, case, kind, msg, list(job.args) + ["--level", str(job.level)], self.seed, job.cases, detail=op + "\n" + err[-6000:])
        with self.lock:
            self.failures.append(f)
            if not any(rx.search(f.sig()) for rx in self.known):
                self.stop = True  # one violation decides; end what is still running
                for p in list(self.procs):
                    p.kill()

    def run(self, cmd, base, timeout=None, cfg=None):
        e = open(base + ".err", "wb")
        timed = False
        left = self.deadline - time.time()
        if left <= 0:
            return -99, "", True
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=e, env=env_for(cfg), cwd=self.tmp)
        with self.lock:
            self.procs.add(p)
            if self.stop:
                p.kill()
        try:
            p.wait(min(timeout or left, left))
        except subprocess.TimeoutExpired:
            timed = True
            p.kill()
            p.wait()
        with self.lock:
            self.procs.discard(p)
        e.close()
        return (-99 if timed else p.returncode), open(base + ".err", errors="replace").read(), timed

    def collect(self, job, out, base, dt, hooks):
        c = {}
        for line in out.splitlines():
            if line.startswith("DONE"):
                for kv in line.split()[1:]:
                    k, v = kv.split("=")
                    c[k] = int(v)
        hs = set()
        if os.path.exists(base + ".hs"):
            b = open(base + ".hs", "rb").read()
            hs = set(struct.unpack("<%dQ" % (len(b) // 8), b))
        with self.lock:
            for k, v in c.items():
                self.cnt[k] = self.cnt.get(k, 0) + v
            for line in out.splitlines():
                if line.startswith("SAMPLE ") and len(self.samples) < 8:
                    s = {"build": job.cfg.name, "workload": job.mode, "case": line[7:]}
                    if sum(1 for x in self.samples if x["workload"] == job.mode) < 2:
                        self.samples.append(s)
            mh = int(hashlib.md5(job.mode.encode()).hexdigest()[:15], 16)
            self.hashes.update(h ^ mh for h in hs)
            self.per.append((job.cfg.name, job.mode, c.get("cases", 0), dt, hooks))
            if job.tr:
                d = self.trs.setdefault((job.mode, job.level, job.cases, job.args), {}).setdefault(job.cfg.name, {})
                for line in open(base + ".tr"):
                    a, b = line.split()
                    d[int(a)] = b

    def run_jobs(self, jobs, compile_is_violation=False):
        cfgs = {}
        for j in jobs:
            cfgs.setdefault(j.cfg.name, j.cfg)
        bins = {}

        def b(c):
            try:
                bins[c.name] = build(c)
            except CompileError as e:
                bins[c.name] = e

        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(b, cfgs.values()))
        bad = [n for n, v in bins.items() if isinstance(v, Exception)]
        for n in bad:
            if isinstance(bins[n], GoError):
                try:
                    build(Cfg())
                    self.failures.append(Failure(self.prop, cfgs[n], "compile", -1, "compile", "the Go package does not compile although the C header does: " + str(bins[n])[:600], [], self.seed, 0, str(bins[n])))
                except CompileError as e:
                    self.errors.append("the header does not compile: %s" % str(e)[-1500:])
                continue
            if any("_MODE=3" in d for d in cfgs[n].defs) and len(bad) < len(bins):
                continue  # the user's part of a custom mode is the harness's; whether it fits is not judged
            if compile_is_violation and len(bad) < len(bins):
                self.failures.append(Failure(self.prop, cfgs[n], "compile", -1, "compile", "this supported configuration no longer compiles while others do", [], self.seed, 0, str(bins[n])))
            else:
                self.errors.append("build %s failed: %s" % (n, str(bins[n])[-1500:]))
        if bad and not compile_is_violation and len(bad) == len(bins):
            return
        tasks = []
        for j in jobs:
            if isinstance(bins[j.cfg.name], Exception):
                continue
            for k in range(j.shards):
                tasks.append((bins[j.cfg.name], j, k))
        heavy = {"ladder": 0, "consts": 0, "deep": 0, "work": 0, "enum_edit": 1, "threads": 1}
        tasks.sort(key=lambda t: (heavy.get(t[1].mode, 2), t[1].cfg.san == ""))
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda t: self.shard(t[0][0], t[1], t[2], t[0][1]), tasks))

    def compare_transcripts(self):
        """every case must have the same transcript in every build"""
        n = 0
        for (mode, level, cases, args), d in self.trs.items():
            names = list(d)
            base = d[names[0]]
            for nm in names[1:]:
                for case in sorted(base):
                    if case not in d[nm]:
                        continue
                    n += 1
                    if base[case] != d[nm][case]:
                        self.failures.append(Failure(self.prop, None, mode, case, "transcript", "results differ between %s and %s" % (names[0], nm), list(args) + ["--level", str(level)], self.seed, cases))
                        break
        self.cnt["transcripts_compared"] = self.cnt.get("transcripts_compared", 0) + n


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


def classify(rc, out, err):
    m = re.search(r"FAIL kind=(\S+)[^\n]*?:: ([^\n]*)", out)
    if rc == 10 and m:
        return m.group(1), m.group(2)
    if rc == 11:
        return "hang", "no progress within the CPU budget"
    s = re.search(r"(ERROR: (?:Address|Leak|Thread|Memory)Sanitizer: [^\n]*|WARNING: (?:Thread|Memory)Sanitizer: [^\n]*|runtime error: [^\n]*)", err)
    if s:
        k = "ubsan" if s.group(1).startswith("runtime") else "asan" if "Address" in s.group(1) or "Leak" in s.group(1) else "tsan" if "Thread" in s.group(1) else "msan"
        fr = re.search(r"#\d+ 0x[0-9a-f]+ in (z[zj_]\S*)", err)
        return k, re.sub(r"0x[0-9a-f]+|==\d+==|\(pid=\d+\)", "", s.group(1)) + (" in " + fr.group(1) if fr else "")
    if rc < 0:
        return "crash", "killed by signal %d" % -rc
    return "crash", "exit code %d" % rc


def load_known():
    """known-findings.txt: lines 'finding: property=<id> <regex on the failure signature>'"""
    k = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) /(.*)/ (.*)$", line.strip())
            if m:
                k.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return k


def write_replay(f):
    d = _mk(os.path.join(VERIF, "replays"))
    name = "%s-%s-%s.json" % (f.prop, f.mode, hashlib.sha256((f.sig() + str(f.case)).encode()).hexdigest()[:10])
    p = os.path.join(d, name)
    json.dump({"property": f.prop, "config": vars(f.cfg) if f.cfg else None, "mode": f.mode, "case": f.case, "seed": f.seed, "cases": f.cases, "args": f.args, "kind": f.kind, "message": f.msg, "detail": f.detail,
               "how": "python3 /verif/run.py replay %s" % p}, open(p, "w"), indent=1, default=list)
    return p


def finish(r, rule, t0, assumptions, extra=None, level="exploration"):
    known = load_known()
    new, kf = [], []
    for f in r.failures:
        for (pid, rx, text) in known:
            if pid == r.prop and rx.search(f.sig()):
                kf.append(text)
                break
        else:
            new.append(f)
    cov = {"evaluations": r.cnt.get("cases", 0), "distinct_nontrivial": len(r.hashes), "rule": rule, "samples": r.samples or ["(no sample recorded)"],
           "monitors": {k: v for k, v in sorted(r.cnt.items())},
           "builds": sorted({p[0] for p in r.per}),
           "workloads": {}}
    for (b, mode, n, dt, hooks) in r.per:
        w = cov["workloads"].setdefault(mode, {"cases": 0, "builds": [], "cpu_s": 0.0})
        w["cases"] += n
        w["cpu_s"] = round(w["cpu_s"] + dt, 2)
        if b not in w["builds"]:
            w["builds"].append(b)
    cov["arena_hooks_active"] = any(p[4] for p in r.per)
    cov["inconclusive"] = r.inconclusive
    if extra:
        cov.update(extra)
    ev = {"property": r.prop, "tier": r.tier, "seed": r.seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    _mk(os.path.join(VERIF, "evidence"))
    json.dump(ev, open(os.path.join(VERIF, "evidence", r.prop + ".json"), "w"), indent=1)
    for text in sorted(set(kf)):
        print("KNOWN-FINDING: property=%s %s" % (r.prop, text))
    if new:
        f = new[0]
        p = write_replay(f)
        for g in new[:6]:
            print("violation: " + g.sig()[:1500])
            if g.kind not in ("transcript", "compile") and g.detail:
                print("  at " + g.detail.splitlines()[0][:400])
        print("VIOLATION property=%s replay=%s" % (r.prop, p))
        return 1
    if r.errors:
        print("ERROR: " + "\n".join(r.errors)[:4000])
        return 2
    if r.inconclusive:
        print("inconclusive parts: " + "; ".join(r.inconclusive)[:1000])
    print("property %s held: %d cases, %d distinct non-trivial, %.1f s" % (r.prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
        print("ERROR: nothing was observed")
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    if not d.get("config"):
        print("transcript difference; per-build logs:\n" + json.dumps(d, indent=1))
        return 1
    c = d["config"]
    if d["mode"] == "compile" or d["mode"].startswith("go"):
        print(d["detail"])
        return 1
    cfg = Cfg(c["backend"], c["cc"], c["opt"], c["san"], c["defs"], c["hooks"], c["name"], c["extra"])
    b, _ = build(cfg)
    cmd = [b, "--mode", d["mode"], "--seed", str(d["seed"]), "--cases", str(d["cases"]), "--from", str(d["case"]), "--to", str(d["case"]), "--corpus", os.path.join(REPO, "test"), "--dict", dict_file()] + d["args"]
    print(" ".join(cmd))
    rc = subprocess.call(cmd + ["--log", "/dev/stdout"], env=env_for(cfg))
    print("exit", rc)
    return 1 if rc else 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    import checks
    if sys.argv[1] == "builds":
        return checks.setup()
    if sys.argv[1] == "check":
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        return checks.check(sys.argv[2], seed, tier)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main())
