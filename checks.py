"""What each property's check runs. Builds are described by Cfg, workloads by Job."""
import os, sys, time
from concurrent.futures import ThreadPoolExecutor
import run
from run import Cfg, Job, Runner, finish, build, CompileError

TINY = ("zj_ALLOCATOR_INIT_MEMSIZE=1", "zj_STRING_INIT_MEMSIZE=1", "zj_STRING_CACHE_INIT_MEMSIZE=1")
P = Cfg()                                                        # plain, as users build it
PT = Cfg(defs=TINY, name="long-gcc-O2-tiny")                     # every request crosses a block boundary
A = Cfg(cc="clang", opt="-O1", san="asan", hooks=True)           # ASan+UBSan, arena red zones
A0 = Cfg(cc="clang", opt="-O2", san="asan")                      # ASan+UBSan, natural arena layout
AT = Cfg(cc="clang", opt="-O1", san="asan", hooks=True, defs=TINY, name="long-clang-O1-asan-hooks-tiny")
AG = Cfg(cc="gcc", opt="-O2", san="addr", hooks=True)
M = Cfg(cc="clang", opt="-O1", san="msan", hooks=True)
MT = Cfg(cc="clang", opt="-O1", san="msan", defs=TINY, name="long-clang-O1-msan-tiny")
T = Cfg(cc="clang", opt="-O1", san="tsan")
TT = Cfg(cc="clang", opt="-O2", san="tsan", defs=TINY, name="long-clang-O2-tsan-tiny")
WORK = Cfg(cc="clang", opt="-O1", extra=("-fsanitize-coverage=trace-pc", "-fno-builtin", "-DVF_WORK"), name="long-clang-O1-stepcount")

F = ("--track", "0", "--keep", "0")  # functional checks leave ownership and retention to C12/C13
FILL = ("--fill", "165")

BASE_ASSUME = ["held on the executions of this run, not on all inputs",
               "the reference parser, tree model and decoder in harness/ref.h and harness/session.h are right",
               "texts handed to the library contain no NUL byte; no value is moved into itself or its own descendant; children of an overwritten container are not used afterwards; malloc succeeds; the C locale is in force"]


def fn(prop, modes, thorough_scale=20):
    """functional property: plain build in bulk, tiny-block build, and an ASan/UBSan slice"""
    def jobs(tier):
        th = tier == "thorough"
        lv = 2 if th else 1
        k = 3 * thorough_scale if th else 3
        out = []
        for m in modes:
            mode, n, kind = m
            if kind == "big":  # large documents: plain and sanitized, no multiplication in the quick tier
                kk = 8 if th else 1
                out += [Job(P, mode, n * kk, 8, lv, F + FILL, cpu=600 if th else 120), Job(A, mode, max(8, n * kk // 4), 8, 1, F, cpu=600 if th else 120), Job(PT, mode, max(8, n * kk // 4), 4, 1, F, cpu=600 if th else 120)]
            elif kind == "enum":  # a finite family, cut into n parts
                out += [Job(P, mode, n, 8, lv, F + FILL, cpu=600 if th else 60)]
                out += [Job(A, mode, n, 8, 0 if mode == "consts" and not th else 1, F)] if mode not in ("enum_struct",) or th else []
                if th:
                    out += [Job(PT, mode, n, 8, 1, F)]
            else:
                out += [Job(P, mode, n * k, 8, lv, F + FILL), Job(PT, mode, max(8, n * k // 4), 4, lv, F), Job(A, mode, max(8, n * k // 5), 8, lv, F)]
        return out
    return jobs


def jobs_C11(tier):
    th = tier == "thorough"
    k = 50 if th else 2
    out = []
    sessions = [("edit", 60), ("edit2", 60), ("fail", 60), ("copy", 40), ("buf", 120), ("alloc", 40), ("stable", 60), ("parsefail", 40), ("copyiso", 40), ("fastcopy", 80), ("probe", 60)]
    texts = [("verdict", 150), ("roundtrip", 120), ("read", 60), ("esc", 120), ("num", 200), ("numset", 100), ("setter", 80), ("corpus", 300), ("rt_corpus", 300)]
    for m, n in sessions + texts:
        out.append(Job(A, m, n * k, 8))
        out.append(Job(M, m, max(8, n * k // 3), 4))
        out.append(Job(AT, m, max(8, n * k // 3), 4))
        if th:
            for c in (A0, AG, MT):
                out.append(Job(c, m, n * k // 4, 8))
        else:
            out.append(Job(A0, m, max(8, n // 2), 4))
    for m in ("bounds", "rt_sweep", "setter_sweep", "sweep_bytes", "esc_bytes", "esc_units"):
        out.append(Job(A, m, 64, 8, 2 if th else 1))
        if m in ("bounds", "rt_sweep") or th:
            out.append(Job(A0, m, 64, 8, 1))
            out.append(Job(M, m, 64, 8, 1))
    out.append(Job(A, "ladder", 61, 8, 1 if th else 0, cpu=600))
    out.append(Job(A0, "ladder", 61, 8, 1 if th else 0, cpu=600))
    out.append(Job(M, "ladder", 61, 8, 0))
    for c in (A, A0, M):
        out.append(Job(c, "consts", 64, 8, 1 if th else 0, cpu=600))
    out.append(Job(A, "dict", 64, 8, 1))
    out.append(Job(A, "enum_edit", 64, 8, 1))
    out.append(Job(A, "deep", 8, 8, 1))
    for c in (A, A0, AT, M):
        out += [Job(c, "grow", 64, 8, 2 if th else 0), Job(c, "bigidx", 4, 2, 2 if th else 1)]
    for b in ("hpp", "mem", "cpp"):
        c = Cfg(b, cc="clang", opt="-O1", san="asan", hooks=True)
        cm = Cfg(b, cc="clang", opt="-O1", san="msan", hooks=True)
        for m in ("edit2", "alloc", "buf"):
            out.append(Job(c, m, 40 * k if th else 16, 4))
            out.append(Job(cm, m, 40 * k if th else 16, 4))
    return out


def jobs_C10(tier):
    th = tier == "thorough"
    k = 60 if th else 3
    out = []
    for c, d in ((P, 1), (A, 4), (PT, 3), (AT, 8)):
        out += [Job(c, "fastcopy", 300 * k // d, 8, 1, ("--track", "0")), Job(c, "probe", 60 * k // d, 4, 1, ("--track", "0"))]
        out += [Job(c, "buf", 400 * k // d, 8, 1, ("--track", "0")), Job(c, "edit", 60 * k // d, 4, 1, ("--track", "0")), Job(c, "setter", 120 * k // d, 4, 1, F), Job(c, "verdict", 200 * k // d, 4, 1, F),
                Job(c, "esc", 200 * k // d, 4, 1, F), Job(c, "num", 200 * k // d, 4, 1, F), Job(c, "read", 100 * k // d, 4, 1, F)]
    out += [Job(P, "setter_sweep", 64, 8, 2 if th else 1, F), Job(P, "sweep_bytes", 64, 8, 1, F), Job(P, "enum_struct", 64, 8, 1, F), Job(P, "ladder", 61, 8, 0, F), Job(A, "ladder", 61, 8, 0, F), Job(P, "consts", 64, 8, 1, F), Job(A, "consts", 64, 8, 1 if th else 0, F), Job(P, "dict", 64, 8, 1, F), Job(A, "sweep_bytes", 64, 8, 1, F), Job(A, "setter_sweep", 64, 8, 1, F)]
    return out


def jobs_C12(tier):
    th = tier == "thorough"
    k = 40 if th else 2
    out = [Job(P, "alloc", 500 * k, 8), Job(PT, "alloc", 200 * k, 8), Job(A, "alloc", 80 * k, 8), Job(AT, "alloc", 40 * k, 8),
           Job(P, "copy", 100 * k, 8), Job(P, "edit", 60 * k, 8), Job(P, "fail", 100 * k, 8), Job(P, "stable", 80 * k, 8), Job(P, "buf", 100 * k, 8), Job(P, "copyiso", 100 * k, 8),
           Job(P, "verdict", 200, 8), Job(P, "roundtrip", 200, 8), Job(P, "esc", 200, 8), Job(P, "num", 200, 8), Job(P, "ladder", 61, 8, 0), Job(PT, "ladder", 61, 8, 0), Job(P, "consts", 64, 8, 1), Job(PT, "consts", 64, 8, 1 if th else 0), Job(A, "consts", 64, 8, 0), Job(P, "bounds", 64, 8, 1), Job(P, "rt_sweep", 64, 8, 1), Job(P, "deep", 16, 8, 1)]
    for b in ("hpp", "mem", "cpp"):
        out += [Job(Cfg(b), "alloc", 60 * k, 4), Job(Cfg(b, cc="clang", opt="-O1", san="asan", hooks=True), "alloc", 20 * k, 4)]
    for c in (P, PT, A, Cfg("hpp"), Cfg("mem"), Cfg("cpp")):
        out.append(Job(c, "grow", 64, 8, 2 if th else 1 if c is P else 0))
    for mm in (2, 3):  # counting mode: the counters agree with the monitor; custom mode: only the user's functions are used
        for b in ("long", "short"):
            c = Cfg(b, defs=("zj_MEMORY_MODE=%d" % mm,))
            for m, n in (("alloc", 40), ("copy", 20), ("edit", 16), ("fail", 16), ("num", 60), ("numset", 60), ("setter", 60), ("esc", 60), ("roundtrip", 60), ("verdict", 60)):
                out.append(Job(c, m, n * (k // 2), 2))
            out.append(Job(c, "grow", 64, 4, 0))
            out.append(Job(c, "ladder", 61, 4, 0))
    return out


def jobs_C13(tier):
    th = tier == "thorough"
    k = 40 if th else 2
    out = []
    tk = ("--track", "0")
    for c, d in ((P, 1), (PT, 2), (A, 4), (A0, 4), (AT, 6)):
        out += [Job(c, "stable", 400 * k // d, 8, 1, tk), Job(c, "probe", 100 * k // d, 4, 1, tk), Job(c, "bounds", 64, 8, 2 if th and c is P else 1, tk), Job(c, "alloc", 60 * k // d, 4, 1, tk), Job(c, "fail", 60 * k // d, 4, 1, tk)]
    out += [Job(P, "consts", 64, 8, 1, tk), Job(A, "consts", 64, 8, 1 if th else 0, tk), Job(P, "ladder", 61, 8, 1, tk), Job(A, "ladder", 61, 8, 0, tk), Job(M, "stable", 60 * k, 8, 1, tk)]
    return out


def jobs_C14(tier):
    th = tier == "thorough"
    k = 15 if th else 1
    out = [Job(T, "threads", 64 * k, 4), Job(TT, "threads", 32 * k, 4), Job(P, "threads", 48 * k, 4), Job(A, "threads", 24 * k, 4)]
    for b in ("hpp", "mem", "short", "cpp"):
        out.append(Job(Cfg(b, cc="clang", opt="-O1", san="tsan"), "threads", 12 * k, 4))
    out.append(Job(Cfg(cc="gcc", opt="-O2", san="tsan"), "threads", 16 * k, 4))
    return out


TRANS = [("edit", 40), ("edit2", 30), ("fail", 40), ("copy", 30), ("buf", 40), ("alloc", 24), ("stable", 30), ("verdict", 60), ("roundtrip", 40), ("read", 40), ("esc", 60), ("num", 60), ("numset", 60), ("setter", 40), ("parsefail", 20), ("copyiso", 30), ("fastcopy", 24), ("probe", 24)]


def configs_C15(tier):
    cs = [Cfg(), Cfg(opt="-O0"), Cfg(opt="-O3"), Cfg(opt="-Os"), Cfg(cc="clang", opt="-O0"), Cfg(cc="clang", opt="-O2"), Cfg(cc="clang", opt="-O3"),
          Cfg("longcpp"), Cfg("longcpp", cc="clang"), PT,
          Cfg(defs=("zj_DELTA=3",)), Cfg(defs=("zj_DELTA=7", "zj_ALLOCATOR_INIT_MEMSIZE=64")), Cfg(defs=("zj_SIZE_TYPE=uint64_t",)), Cfg(defs=("zj_SIZE_TYPE=size_t", "zj_STRING_INIT_MEMSIZE=3", "zj_DELTA=4")),
          Cfg(defs=("zj_MEMORY_MODE=2",)), Cfg(defs=("zj_MEMORY_MODE=3",)), Cfg(defs=("zj_EXPECT_MODE=2",)), Cfg(defs=("zj_EXPECT_MODE=3",)), Cfg(defs=("zj_API_MODE=0",)),
          Cfg(defs=("zj_STRING_CACHE_INIT_MEMSIZE=1",)), Cfg(defs=("zj_STRING_CACHE_INIT_MEMSIZE=7", "zj_STRING_INIT_MEMSIZE=5")), Cfg(defs=("zj_STRING_INIT_MEMSIZE=1",)), Cfg(defs=("zj_ALLOCATOR_INIT_MEMSIZE=1",)), Cfg(defs=("zj_ALLOCATOR_INIT_MEMSIZE=100000", "zj_STRING_INIT_MEMSIZE=50000", "zj_STRING_CACHE_INIT_MEMSIZE=5000")),
          Cfg("longcpp", defs=TINY, name="longcpp-gcc-O2-tiny"), Cfg("longcpp", defs=("zj_MEMORY_MODE=2",))]
    if tier == "thorough":
        cs += [Cfg(opt="-O1"), Cfg(cc="clang", opt="-O1"), Cfg(cc="clang", opt="-Os")]
        for d in (2, 3, 5):
            for a in (1, 2, 31, 255, 4096, 65536):
                for s in (1, 2, 9, 1024):
                    cs.append(Cfg(defs=("zj_DELTA=%d" % d, "zj_ALLOCATOR_INIT_MEMSIZE=%d" % a, "zj_STRING_INIT_MEMSIZE=%d" % s, "zj_STRING_CACHE_INIT_MEMSIZE=%d" % max(1, s // 2))))
    return cs


def configs_C15_small(tier):
    """further settings, each with fewer cases: plain char unsigned, sizes around each other and around what the library stores"""
    uc = ("-funsigned-char",)
    cs = [Cfg(extra=uc), Cfg(cc="clang", extra=uc), Cfg("longcpp", extra=uc), Cfg("hpp", extra=uc), Cfg(extra=uc, defs=TINY, name="long-gcc-O2-uchar-tiny")]
    k = 0
    for a, s, q in ((2, 3, 2), (3, 2, 5), (5, 8, 4), (8, 4, 16), (15, 17, 3), (16, 16, 16), (24, 7, 32), (32, 31, 33), (33, 64, 15), (63, 1, 64), (64, 65, 1), (65, 128, 63), (100, 100, 100), (127, 10, 129), (128, 6, 9), (129, 255, 8), (255, 257, 6), (256, 20, 2), (257, 11, 12), (512, 33, 24), (1000, 12, 48), (1024, 1, 1), (4095, 512, 127), (8192, 2048, 256), (40000, 4096, 1024)):
        d = (2, 3, 4, 5, 6, 8, 10, 16)[k % 8] if a < 1000 else 2 + k % 2
        be, cc = (("long", "gcc"), ("long", "clang"), ("longcpp", "gcc"), ("long", "gcc"))[k % 4]
        defs = ("zj_ALLOCATOR_INIT_MEMSIZE=%d" % a, "zj_STRING_INIT_MEMSIZE=%d" % s, "zj_STRING_CACHE_INIT_MEMSIZE=%d" % q, "zj_DELTA=%d" % d)
        if k % 5 == 1:
            defs += ("zj_SIZE_TYPE=" + ("uint64_t", "size_t", "unsigned long long")[k % 3],)
        if k % 5 == 3:
            defs += ("zj_EXPECT_MODE=%d" % (2 + k % 2),)
        if k % 5 == 4:
            defs += ("zj_MEMORY_MODE=%d" % (2 + k % 2),)
        cs.append(Cfg(be, cc=cc, opt=("-O2", "-O1", "-O3")[k % 3], defs=defs, name="%s-%s-mix%d" % (be, cc, k)))
        k += 1
    return cs


def jobs_trans(cfgs, tier, extra=()):
    k = 5 if tier == "thorough" else 1
    out = []
    for c in cfgs:
        for m, n in TRANS:
            out.append(Job(c, m, n * k, 1 if tier == "quick" else 2, 1, ("--keep", "0"), tr=True))
        for m, n, lv in extra:
            out.append(Job(c, m, n, 2, lv, F, tr=True))
    return out


def jobs_C15(tier):
    cs = configs_C15(tier)
    out = jobs_trans(cs, tier)
    for c in [cs[0]] + configs_C15_small(tier):
        for m, n in [("edit2", 20), ("alloc", 10), ("stable", 10), ("fail", 16), ("verdict", 24), ("roundtrip", 24), ("esc", 32), ("num", 32), ("numset", 32), ("setter", 24), ("read", 16), ("buf", 16)]:
            out.append(Job(c, m, n * (10 if tier == "thorough" else 1), 1, 1, ("--keep", "0"), tr=True))
        out.append(Job(c, "ladder", 61, 2, 0, F))
    some = [c for c in cs if c.san == ""][:24]
    for c in some:
        out.append(Job(c, "ladder", 61, 2, 0, F))
        out.append(Job(c, "bigidx", 4, 1, 1, F))
    for c in (cs if tier == "thorough" else [cs[0], cs[6], cs[7], PT, cs[10], cs[12]]):
        out.append(Job(c, "consts", 64, 4, 0, F, tr=True))
    for c in (P, PT):
        out.append(Job(c, "setter_sweep", 64, 4, 1, F, tr=True))
        out.append(Job(c, "rt_sweep", 64, 4, 1, F, tr=True))
    # configurations whose arithmetic differs, under the sanitizers
    for d in (("zj_SIZE_TYPE=uint64_t",), TINY, ("zj_DELTA=3", "zj_ALLOCATOR_INIT_MEMSIZE=7", "zj_STRING_INIT_MEMSIZE=2")):
        c = Cfg(cc="clang", opt="-O1", san="asan", hooks=False, defs=d)
        for m in ("edit", "buf", "esc", "roundtrip"):
            out.append(Job(c, m, 24, 2, 1, ("--keep", "0")))
    return out


def jobs_C16(tier):
    cs = [Cfg(), Cfg("short"), Cfg("longcpp"), Cfg("cpp"), Cfg("mem"), Cfg("hpp"), Cfg("hpp", cc="clang", opt="-O1"), Cfg("mem", cc="clang", opt="-O1")]
    mixes = [Cfg(b, extra=("-DVF_MIXSEED=%d" % i,)) for b in ("mixc", "mixcpp", "mixhpp") for i in (range(1, 9) if tier == "thorough" else (1, 2))]
    k = 3 if tier == "thorough" else 1
    out = jobs_trans(cs + mixes, tier)
    for c in cs:
        out += [Job(c, m, n * k * 2, 2, 1, ("--keep", "0"), tr=True) for m, n in (("edit2", 60), ("alloc", 40), ("fail", 60), ("read", 60), ("setter", 60))] if tier == "thorough" else []
    for b in ("hpp", "mem", "cpp", "short"):
        c = Cfg(b, cc="clang", opt="-O1", san="asan", hooks=True)
        for m in ("edit2", "alloc", "buf", "read", "setter", "fail"):
            out.append(Job(c, m, (40 if m != "alloc" else 24) * k, 2))
        out.append(Job(Cfg(b), "alloc", 60 * k, 2))
        out.append(Job(Cfg(b), "ladder", 61, 2, 0, F))
        out.append(Job(Cfg(b), "consts", 64, 4, 0, F))
        out += [Job(Cfg(b), "bigidx", 4, 1, 1, F), Job(Cfg(b), "grow", 64, 4, 0)]
    return out


def jobs_C19(tier):
    th = tier == "thorough"
    out = [Job(P, "deep", 32, 8, 2 if th else 1, cpu=600 if th else 30), Job(A, "deep", 32, 8, 1, cpu=120 if th else 40), Job(PT, "deep", 16, 8, 1, cpu=120 if th else 30), Job(Cfg(opt="-O0"), "deep", 16, 8, 1, cpu=120 if th else 30), Job(Cfg("hpp"), "deep", 16, 8, 1, cpu=120 if th else 30),
           Job(P, "memory", 56 * (4 if th else 1), 4, 2 if th else 1, cpu=300 if th else 40), Job(PT, "memory", 28, 4, 1, cpu=300 if th else 40), Job(Cfg(defs=("zj_DELTA=3",)), "memory", 28, 4, 1, cpu=300 if th else 40),
           Job(WORK, "work", 20 * (4 if th else 1), 7, 2 if th else 1, cpu=300 if th else 40),
           Job(Cfg(cc="clang", opt="-O1", extra=WORK.extra, defs=TINY, name="long-clang-O1-stepcount-tiny"), "work", 20, 7, 1, cpu=300 if th else 40)]
    for b in ("hpp", "mem", "cpp", "short"):
        out.append(Job(Cfg(b, cc="clang", opt="-O1", extra=WORK.extra, name=b + "-clang-O1-stepcount"), "work", 20, 4, 1, cpu=300 if th else 40))
        out.append(Job(Cfg(b), "memory", 28, 4, 1, cpu=300 if th else 40))
    return out


BTINY = ("z_ALLOCATORINITMEMSIZE=1", "z_STRINGINITMEMSIZE=1")
BETA_TEXTS = [("verdict", 400), ("longverdict", 60), ("corpus", 200), ("roundtrip", 300), ("rt_corpus", 200), ("read", 250), ("keys", 150), ("copies", 400), ("esc", 250), ("num", 300), ("fastcopy", 150), ("probe", 150)]
BETA_ENUM = ["enum_struct", "enum_obj", "enum_num", "enum_num2", "enum_str", "enum_chars", "sweep_bytes", "sweep_units", "esc_units", "esc_pairs", "rt_sweep"]


def jobs_C18(tier):
    th = tier == "thorough"
    k = 20 if th else 1
    bp, bt = Cfg("beta"), Cfg("beta", defs=BTINY, name="beta-gcc-O2-tiny")
    ba, ba0 = Cfg("beta", cc="clang", opt="-O1", san="asan", hooks=True), Cfg("beta", cc="clang", opt="-O2", san="asan")
    bat = Cfg("beta", cc="clang", opt="-O1", san="asan", hooks=True, defs=BTINY, name="beta-clang-O1-asan-hooks-tiny")
    bm = Cfg("beta", cc="clang", opt="-O1", san="msan", hooks=True)
    out = []
    for m, n in BETA_TEXTS:
        out += [Job(bp, m, n * k, 8, 1, FILL), Job(bt, m, n * k // 4, 4), Job(ba, m, n * k // 4, 8), Job(ba0, m, n * k // 10, 4), Job(bat, m, n * k // 10, 4), Job(bm, m, n * k // 10, 4)]
    for m in BETA_ENUM:
        out.append(Job(bp, m, 64, 8, 2 if th else 1, F, cpu=600 if th else 60))
        if m != "enum_struct" or th:
            out.append(Job(ba, m, 64, 8, 1, F))
    for c in (bp, ba):
        out.append(Job(c, "deepverdict", 68 * (8 if th else 1), 8, 1, F, cpu=300))
    for c in (bp, bt, ba, bm):
        out.append(Job(c, "ladder", 61, 8, 1 if c is bp or th else 0))
        out.append(Job(c, "consts", 64, 8, 1 if c is bp or th else 0))
    for m, n in BETA_TEXTS:
        out.append(Job(Cfg("betas"), m, n * k // 4, 2))
    for c in (bp, ba):
        out.append(Job(c, "dict", 64, 8, 1, F))
        out += [Job(c, "bigidx", 4, 2, 1), Job(c, "grow", 64, 8, 0)]
    return out


E = ("--edits", "1")
EF = E + F


def beta_cfgs():
    return (Cfg("beta"), Cfg("beta", defs=BTINY, name="beta-gcc-O2-tiny"), Cfg("beta", cc="clang", opt="-O1", san="asan", hooks=True), Cfg("beta", cc="clang", opt="-O1", san="asan", hooks=True, defs=BTINY, name="beta-clang-O1-asan-hooks-tiny"), Cfg("beta", cc="clang", opt="-O1", san="msan", hooks=True), Cfg("betas"))


def jobs_C20(tier):
    th = tier == "thorough"
    k = 20 if th else 1
    bp, bt, ba, bat, bm, bs = beta_cfgs()
    out = []
    for m, n in [("edit", 500), ("edit2", 400), ("fail", 500), ("parsefail", 200), ("copy", 150), ("copyiso", 400), ("copies", 150), ("buf", 200), ("setter", 1200), ("numset", 600), ("esc", 300), ("num", 200), ("read", 150), ("fastcopy", 200), ("probe", 300)]:
        out += [Job(bp, m, n * k, 8, 1, EF + FILL), Job(bt, m, n * k // 4, 4, 1, EF), Job(ba, m, n * k // 5, 8, 1, EF), Job(bs, m, n * k // 5, 4, 1, EF)]
    for m in ("enum_edit", "setter_sweep", "esc_bytes", "dict", "ladder", "consts"):
        n = 61 if m == "ladder" else 64
        out.append(Job(bp, m, n, 8, 2 if th else 1, EF, cpu=600 if th else 60))
        if m != "enum_edit":
            out.append(Job(ba, m, n, 8, 1 if th or m not in ("ladder", "consts") else 0, EF))
        out.append(Job(bs, m, n, 8, 0, EF))
    for m, n in [("edit", 60), ("edit2", 60), ("fail", 60), ("copy", 20), ("setter", 100), ("read", 30)]:  # two translation units, long and short names in one program
        out.append(Job(Cfg("mixbeta", extra=("-DVF_MIXSEED=1",)), m, n * k, 4, 1, EF))
    out += [Job(bp, "bigedit", 32 * (8 if th else 1), 8, 1, EF, cpu=300), Job(bp, "bigidx", 8, 4, 1, EF), Job(bp, "deep", 32, 8, 1, EF, cpu=300)]
    return out


def jobs_C21(tier):
    th = tier == "thorough"
    k = 20 if th else 1
    bp, bt, ba, bat, bm, bs = beta_cfgs()
    ba0 = Cfg("beta", cc="clang", opt="-O2", san="asan")
    out = []
    for m, n in [("edit", 60), ("edit2", 60), ("fail", 60), ("copy", 40), ("copyiso", 60), ("buf", 120), ("alloc", 60), ("stable", 200), ("parsefail", 40), ("setter", 80), ("numset", 80), ("esc", 80), ("num", 80), ("fastcopy", 60), ("probe", 60)]:
        out += [Job(bp, m, n * k * 2, 8, 1, E), Job(bt, m, n * k, 4, 1, E), Job(ba, m, n * k, 8, 1, E), Job(ba0, m, n * k // 4, 4, 1, E), Job(bat, m, n * k // 3, 4, 1, E), Job(bm, m, n * k // 3, 4, 1, E)]
    for m in ("bounds", "setter_sweep", "rt_sweep", "grow", "ladder", "consts"):
        n = 61 if m == "ladder" else 64
        for c in (bp, bt, ba, bm):
            out.append(Job(c, m, n, 8, 1 if th or (c is bp and m != "ladder") else 0, E, cpu=300))
    tb = Cfg("beta", cc="clang", opt="-O1", san="tsan")
    out += [Job(tb, "threads", 48 * (15 if th else 1), 4, 1, E, cpu=120), Job(bp, "threads", 24 * k, 4, 1, E, cpu=120)]
    out += [Job(bp, "deep", 32, 8, 2 if th else 1, E, cpu=600 if th else 30), Job(ba, "deep", 16, 8, 1, E, cpu=120 if th else 40), Job(bp, "memory", 56, 4, 2 if th else 1, E, cpu=300 if th else 40), Job(bt, "memory", 28, 4, 1, E, cpu=300 if th else 40),
            Job(Cfg("beta", cc="clang", opt="-O1", extra=WORK.extra, name="beta-clang-O1-stepcount"), "work", 20 * (4 if th else 1), 5, 2 if th else 1, E, cpu=300 if th else 40)]
    return out


def configs_C22(tier):
    uc = ("-funsigned-char",)
    cs = [Cfg("beta"), Cfg("beta", opt="-O0"), Cfg("beta", opt="-O3"), Cfg("beta", opt="-Os"), Cfg("beta", cc="clang", opt="-O0"), Cfg("beta", cc="clang", opt="-O3"), Cfg("betas", cc="clang", opt="-O2"), Cfg("beta", extra=uc), Cfg("beta", cc="clang", extra=uc),
          Cfg("beta", defs=("z_EXPECT_MODE=2",)), Cfg("beta", defs=("z_EXPECT_MODE=3",)), Cfg("beta", defs=("z_MEMORY_MODE=2",)), Cfg("beta", defs=("z_MEMORY_MODE=3",)), Cfg("beta", defs=("z_DELTA=3",)), Cfg("beta", defs=BTINY, name="beta-gcc-O2-tiny")]
    k = 0
    for a, s, q in ((2, 3, 2), (5, 8, 4), (16, 16, 16), (33, 64, 15), (63, 1, 64), (100, 100, 100), (129, 255, 8), (512, 33, 24), (1024, 1, 1), (8192, 2048, 256), (40000, 4096, 1024)):
        d = (2, 3, 4, 5, 8, 16)[k % 6] if a < 1000 else 2 + k % 2
        defs = ("z_ALLOCATORINITMEMSIZE=%d" % a, "z_STRINGINITMEMSIZE=%d" % s, "z_STRINGCACHEINITMEMSIZE=%d" % q, "z_DELTA=%d" % d)
        if k % 3 == 1:
            defs += ("z_EXPECT_MODE=%d" % (2 + k % 2),)
        if k % 3 == 2:
            defs += ("z_MEMORY_MODE=%d" % (2 + k % 2),)
        cs.append(Cfg("beta", cc=("gcc", "clang")[k % 2], opt=("-O2", "-O1", "-O3")[k % 3], defs=defs, name="beta-mix%d" % k))
        k += 1
    cs += [Cfg("mixbeta", extra=("-DVF_MIXSEED=%d" % i,)) for i in ((1, 2, 3, 4) if tier == "thorough" else (1, 2))]
    return cs


def jobs_C22(tier):
    """the beta header under every setting of its macros: the same transcripts"""
    k = 8 if tier == "thorough" else 1
    cs = configs_C22(tier)
    out = []
    for c in cs:
        for m, n in [("edit", 24), ("edit2", 24), ("alloc", 12), ("stable", 16), ("fail", 30), ("parsefail", 12), ("copyiso", 24), ("copies", 16), ("verdict", 60), ("roundtrip", 60), ("esc", 60), ("num", 60), ("numset", 50), ("setter", 60), ("read", 30), ("buf", 30), ("fastcopy", 20), ("probe", 20)]:
            out.append(Job(c, m, n * k, 1, 1, E + ("--keep", "0"), tr=True))
        out.append(Job(c, "ladder", 61, 2, 0, E + F))
    for c in cs[:10] if tier == "thorough" else (cs[0], cs[5], cs[9]):
        out += [Job(c, "consts", 64, 4, 0, E + F), Job(c, "setter_sweep", 64, 4, 1 if tier == "thorough" else 0, E + F), Job(c, "enum_num", 64, 4, 0, E + F)]
    for d in (BTINY, ("z_DELTA=3", "z_ALLOCATORINITMEMSIZE=7", "z_STRINGINITMEMSIZE=2"), ("z_ALLOCATORINITMEMSIZE=64", "z_STRINGINITMEMSIZE=5", "z_EXPECT_MODE=2")):
        c = Cfg("beta", cc="clang", opt="-O1", san="asan", hooks=False, defs=d)
        for m in ("edit", "buf", "esc", "roundtrip", "numset"):
            out.append(Job(c, m, 24 * k, 2, 1, E + ("--keep", "0")))
    return out


def jobs_C17(tier):
    k = 15 if tier == "thorough" else 1
    g, ga, gt = Cfg("go"), Cfg("go", cc="clang", opt="-O1", san="asan"), Cfg("go", defs=TINY, name="go-gcc-O2-tiny")
    nk = ("--keep", "0")
    out = []
    for m, n in [("edit", 80), ("edit2", 80), ("fail", 80), ("copy", 40), ("copyiso", 100), ("copies", 60), ("buf", 100), ("alloc", 60), ("stable", 40), ("parsefail", 40), ("verdict", 200), ("corpus", 120), ("roundtrip", 120), ("rt_corpus", 100), ("read", 120), ("keys", 80),
                 ("esc", 200), ("num", 200), ("numset", 150), ("setter", 200), ("fastcopy", 120), ("probe", 150)]:
        out += [Job(g, m, n * k, 8, 1, nk), Job(ga, m, max(4, n * k // 6), 4, 1, nk), Job(gt, m, max(4, n * k // 8), 2, 1, nk)]
    for m in ("setter_sweep", "sweep_bytes", "esc_units", "esc_bytes", "enum_edit"):
        out.append(Job(g, m, 64, 8, 1, nk))
    out.append(Job(g, "ladder", 61, 8, 1 if tier == "thorough" else 0, nk, cpu=300))
    out.append(Job(g, "consts", 64, 8, 1 if tier == "thorough" else 0, nk, cpu=300))
    out.append(Job(g, "dict", 64, 8, 1, nk))
    out += [Job(g, "bigidx", 8, 4, 1, nk), Job(g, "grow", 64, 8, 1, nk), Job(g, "deep", 32, 8, 1, nk, cpu=120)]
    return out


CHECKS = {
    "C01": (fn("C01", [("verdict", 1500, "r"), ("enum_struct", 64, "enum"), ("enum_obj", 64, "enum"), ("enum_num", 64, "enum"), ("enum_num2", 64, "enum"), ("enum_str", 64, "enum"), ("enum_chars", 64, "enum"), ("sweep_bytes", 64, "enum"), ("sweep_units", 64, "enum"), ("corpus", 600, "r"), ("longverdict", 240, "r"), ("deepverdict", 136, "big"), ("deep", 32, "big"), ("dict", 64, "enum"), ("consts", 64, "enum")]),
            "texts: grammar-generated documents and their mutations, every token sequence up to the length bound over six vocabularies, every byte in every position of 15 templates, all 65536 code units, the repository's corpus and its mutations; distinct accepted texts and distinct generated or mutated texts of more than 3 bytes count"),
    "C02": (fn("C02", [("roundtrip", 2500, "r"), ("rt_sweep", 64, "enum"), ("rt_corpus", 600, "r"), ("ladder", 61, "enum"), ("consts", 64, "enum"), ("deep", 32, "big")]),
            "documents: generated (with whitespace, duplicates, nesting), corpus files, every output length of the sweep with last tokens of each kind; distinct compact texts of non-empty containers count"),
    "C03": (fn("C03", [("read", 1500, "r"), ("keys", 800, "r"), ("probe", 400, "r"), ("bigidx", 8, "big"), ("ladder", 61, "enum"), ("consts", 64, "enum")]), "generated documents, each value of which is read through every query in both variants, with present and absent keys and indexes; distinct texts count"),
    "C04": (fn("C04", [("esc", 3000, "r"), ("probe", 250, "r"), ("esc_units", 64, "enum"), ("esc_pairs", 64, "enum"), ("esc_bytes", 64, "enum"), ("dict", 64, "enum"), ("ladder", 61, "enum"), ("consts", 64, "enum")]),
            "strings and keys: generated escape sequences, all code units, all surrogate pairs, all single bytes and byte pairs through the escaping setters; distinct strings count"),
    "C05": (fn("C05", [("num", 3000, "r"), ("numset", 3000, "r"), ("ladder", 61, "enum"), ("consts", 64, "enum")]), "number texts (all lengths up to 420, up to 6000 digits, halfway cases, type limits) placed in documents and set by text, and doubles/ints/longs set by value; distinct number texts or documents count"),
    "C06": (fn("C06", [("setter", 2500, "r"), ("setter_sweep", 64, "enum"), ("dict", 64, "enum"), ("ladder", 61, "enum"), ("consts", 64, "enum")]), "arguments: legal strings and numbers, mutations, every byte in every position of 14 templates, code units, all number-like strings up to the length bound, each through four calling conventions with hostile bytes behind; distinct arguments of more than one byte count"),
    "C07": (fn("C07", [("fail", 1500, "r"), ("parsefail", 800, "r"), ("deep", 32, "big"), ("consts", 64, "enum")]), "edit histories in which more than half of the operations must be refused, each followed by an audit of every live value; distinct document states count"),
    "C08": (fn("C08", [("edit", 500, "r"), ("edit2", 400, "r"), ("enum_edit", 64, "enum"), ("probe", 500, "r"), ("fail", 150, "r"), ("bigedit", 32, "big"), ("bigidx", 8, "big"), ("deep", 32, "big"), ("consts", 64, "enum")]), "random edit histories over values at all positions and every history of the enumerated vocabulary up to the length bound, audited against the tree model; distinct document states and distinct enumerated histories count"),
    "C09": (fn("C09", [("copy", 300, "r"), ("copyiso", 1200, "r"), ("copies", 600, "r"), ("fastcopy", 500, "r"), ("enum_edit", 64, "enum"), ("ladder", 61, "enum"), ("consts", 64, "enum"), ("deep", 32, "big")]), "histories dominated by copying operations, within and across allocators, followed by edits on both sides and by releases; distinct document states count"),
    "C10": (jobs_C10, "caller buffers of exact size at guard pages, read-only, overwritten and revoked after copying calls; distinct document states and texts count"),
    "C11": (jobs_C11, "all workloads under AddressSanitizer+UBSan (with and without arena red zones), MemorySanitizer, with default and one-byte initial sizes; distinct states and texts count"),
    "C12": (jobs_C12, "histories with up to 60 allocators created and released in random order, every system allocation recorded and attributed to its allocator; distinct document states count"),
    "C13": (jobs_C13, "histories in which most returned texts, numbers and booleans are retained and compared again later and at release; distinct document states count"),
    "C17": (jobs_C17, "edit, copy, read and allocator histories, texts, strings, numbers and setter arguments through every exported method of the Go binding, the Go strings laid over guarded buffers that are changed and revoked after each call; distinct document states and texts count"),
    "C18": (jobs_C18, "texts, documents, strings, numbers and copies through the beta header's parse, read, copy and stringify calls, plain, with one-byte initial sizes, and under ASan+UBSan and MSan; distinct texts count"),
    "C20": (jobs_C20, "edit histories (random and enumerated), setter arguments, copies and refused calls through the beta header's long and short names, audited against the tree model; distinct document states, arguments and histories count"),
    "C21": (jobs_C21, "histories through the beta header with every returned result retained, every system block attributed to its allocator, under ASan+UBSan, MSan and TSan, on deep and large documents with counted steps; distinct document states count"),
    "C22": (jobs_C22, "the same cases on the beta header in every build configuration and in programs of two translation units; per-case transcripts of all results compared with the first build; distinct document states count"),
    "C14": (jobs_C14, "six threads with own allocators and shared input text running session histories concurrently, pairs running identical histories, compared with the same histories alone, plus hand-over of a session between threads; ThreadSanitizer on; distinct document states count"),
    "C15": (jobs_C15, "the same cases on every build configuration; per-case transcripts of all results compared with the first build; distinct document states count"),
    "C16": (jobs_C16, "the same cases through every API flavour; per-case transcripts of all results compared with the long C names; distinct document states count"),
    "C19": (jobs_C19, "documents of up to 500000 (thorough 4000000) levels, elements or characters on a small stack; steps executed inside the library counted at size n and 16n; distinct shape/size pairs count"),
}


# texts, tokens and containers of 2^18 to 2^24 bytes or members: which kinds matter to which property, on which builds
HUGE = {
    "C01": ("Vacdei", 10, (P, PT, A), ()), "C02": ("abcdeij", 14, (P, PT), ()), "C03": ("acdeij", 12, (P, A), ()), "C04": ("bfg", 9, (P, A), ()), "C05": ("e", 6, (P, A), ()),
    "C06": ("efg", 9, (P, A), ()), "C07": ("adefi", 10, (P,), ()), "C08": ("fijkl", 10, (P, PT), ()), "C09": ("hkl", 9, (P, PT, A), ()), "C11": ("", 24, (A, AT), ()), "C12": ("", 24, (P, PT), ()),
    "C16": ("", 24, tuple(Cfg(b) for b in ("short", "longcpp", "cpp", "mem", "hpp")), ()), "C17": ("", 24, (Cfg("go"),), ()), "C19": ("", 48, (P, PT), ()),
    "C15": ("", 24, (Cfg(opt="-O3"), Cfg(defs=("zj_SIZE_TYPE=uint64_t",)), Cfg(defs=("zj_DELTA=3",))), ()),
    "C18": ("abcdeij", 21, (Cfg("beta"), Cfg("beta", cc="clang", opt="-O1", san="asan", hooks=True)), ()),
    "C20": ("efijkl", 18, (Cfg("beta"), Cfg("betas")), E), "C21": ("", 24, (Cfg("beta"), Cfg("beta", cc="clang", opt="-O1", san="asan", hooks=True)), E),
    "C22": ("", 24, (Cfg("beta", opt="-O3"), Cfg("beta", defs=("z_DELTA=3",))), E),
}


def with_huge(prop, jf):
    def jobs(tier):
        kinds, n, cfgs, args = HUGE[prop]
        th = tier == "thorough"
        return jf(tier) + [Job(c, "huge", n * (3 if th else 1), 4, 2 if th else 1, tuple(args) + (("--kinds", kinds) if kinds else ()), cpu=600 if th else 120) for c in cfgs]
    return jobs if prop in HUGE else jf


CHECKS = {p: (with_huge(p, jf), rule) for p, (jf, rule) in CHECKS.items()}


def check(prop, seed, tier):
    t0 = time.time()
    if prop not in CHECKS:
        print("no check for " + prop)
        return 2
    jf, rule = CHECKS[prop]
    r = Runner(prop, seed, tier)
    try:
        jobs = jf(tier)
        r.run_jobs(jobs, compile_is_violation=prop in ("C15", "C16", "C22"))
        r.compare_transcripts()
        return finish(r, rule, t0, BASE_ASSUME)
    finally:
        r.close()


def setup():
    """build what the quick checks need, so that a broken toolchain shows early"""
    cfgs = {}
    for p, (jf, _) in CHECKS.items():
        for j in jf("quick"):
            cfgs.setdefault(j.cfg.name, j.cfg)
    bad = []

    def b(c):
        try:
            build(c)
        except CompileError as e:
            bad.append(str(e))
    with ThreadPoolExecutor(run.NCPU) as ex:
        list(ex.map(b, cfgs.values()))
    print("%d builds, %d failed" % (len(cfgs), len(bad)))
    for x in bad[:3]:
        print(x[-2000:])
    return 1 if bad else 0
