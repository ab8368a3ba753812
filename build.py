#!/usr/bin/env python3
"""Builds the simulator and the library under test from /repo's working tree into /verif/.build."""
import os, re, subprocess, sys, shutil, fcntl
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
B = os.environ.get("SIM_BUILD", os.path.join(V, ".build"))
SRC = os.path.join(REPO, "src")
NCOPY = 8

def cmake_list(path, var):
    t = open(path).read()
    m = re.search(r"set\(\s*%s\b(.*?)\)" % re.escape(var), t, re.S)
    if not m: return []
    body = re.sub(r"#.*", "", m.group(1))
    body = re.sub(r"\$\{[^}]*\}/\S+", "", body)
    return list(dict.fromkeys(x for x in body.split() if x.endswith(".c")))

# pthread_create is renamed by macro: libgcc has a symbol __wrap_pthread_create of its own.
WRAP = """malloc calloc realloc free memcpy memmove memset
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_broadcast pthread_cond_signal
pthread_join pthread_detach pthread_exit pthread_self pthread_equal pthread_getaffinity_np pthread_setaffinity_np
sched_yield usleep sleep nanosleep sysconf getenv time clock_gettime gettimeofday getrusage clock getpid fork
exit _exit abort fopen fopen64 fdopen fileno fclose pipe dup""".split()

FORT = "w job io strat c01 c02 c03 c04 c05 c06 c10 c11 c13 c14 c15 c19 c20 c22 c24 c25 c26".split()

DEFS = ("-DSCOTCH_DEBUG_ALL -Drestrict=__restrict -DCOMMON_RANDOM_FIXED_SEED -DSCOTCH_RENAME -DCOMMON_PTHREAD -DSCOTCH_PTHREAD "
        "-DCOMMON_PTHREAD_AFFINITY_LINUX -DSCOTCH_PTHREAD_MPI -DCOMMON_FILE_COMPRESS_GZ -DCOMMON_FILE_COMPRESS_BZ2 -DCOMMON_FILE_COMPRESS_LZMA -DCOMMON_PTHREAD_FILE "
        "-Dpthread_create=sim_pthread_create -DSCOTCH_VERSION_NUM=7 -DSCOTCH_RELEASE_NUM=0 -DSCOTCH_PATCHLEVEL_NUM=6")

def gen():
    os.makedirs(B, exist_ok=True)
    ls = os.path.join(SRC, "libscotch"); lm = os.path.join(SRC, "libscotchmetis"); le = os.path.join(SRC, "esmumps")
    cm = os.path.join(ls, "CMakeLists.txt")
    seq = cmake_list(cm, "SCOTCH_C_SOURCES"); par = cmake_list(cm, "PTSCOTCH_C_SOURCES")
    for f in ("library_context_mesh.c", "library_context_mesh_f.c", "library_graph_induce_f.c", "library_memory_f.c", "graph_dump.c", "library_graph_dump.c"):   # only in the project's Makefiles
        if f not in seq and os.path.exists(os.path.join(ls, f)): seq.append(f)
    if not seq or not par: raise SystemExit("build.py: cannot read the source lists of libscotch")
    w = []
    inc = f"-I{B}/gen -I{V}/sim/include -I{ls} -I{lm} -I{V}/sim"
    cflags = f"-std=gnu11 -O1 -g1 -fPIC -w -U_FORTIFY_SOURCE -fno-strict-aliasing -fno-optimize-sibling-calls -ffp-contract=off -ftrivial-auto-var-init=pattern {DEFS} {inc}"
    simopt = f"-include {V}/sim/include/simcfg.h '-DSCOTCH_COMM_PTOP_RAT=sim_ptop_rat()'"
    w.append(f"inst = -fsanitize=thread\ncflags = {cflags}\nbuilddir = {B}")
    w.append("rule cc\n  command = gcc $cflags $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $out")
    w.append(f"rule cxx\n  command = g++ -std=c++17 -O1 -g1 -fPIC -Wall -Wno-unused -Wno-misleading-indentation $extra {inc} {DEFS} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $out")
    w.append("rule cxxs\n  command = g++ -std=c++17 -O2 -g1 -fPIC -Wall -Wno-unused -Wno-misleading-indentation $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $out")
    w.append("rule run\n  command = $cmd")
    w.append("rule link\n  command = g++ $in -o $out $ldflags")
    G = B + "/gen"
    # generated headers and parsers
    w.append(f"build {B}/dummysizes.o: cc {ls}/dummysizes.c")
    w.append(f"build {B}/ptdummysizes.o: cc {ls}/dummysizes.c | {G}/scotch.h\n  extra = -DSCOTCH_PTSCOTCH")
    for n in ("dummysizes", "ptdummysizes"):
        w.append(f"build {B}/{n}: link {B}/{n}.o\n  ldflags = -pthread -lm")
    def gh(tool, src, dst): w.append(f"build {G}/{dst}: run {src} | {B}/{tool}\n  cmd = mkdir -p {G} && {B}/{tool} {src} {G}/{dst}")
    gh("dummysizes", f"{ls}/library.h", "scotch.h"); gh("dummysizes", f"{ls}/library_f.h", "scotchf.h")
    gh("ptdummysizes", f"{ls}/library_pt.h", "ptscotch.h"); gh("ptdummysizes", f"{ls}/library_pt_f.h", "ptscotchf.h")
    gh("dummysizes", f"{lm}/library_metis.h", "metis.h"); gh("dummysizes", f"{lm}/library_metis_f.h", "metisf.h"); gh("dummysizes", f"{lm}/library_parmetis.h", "parmetis.h")
    w.append(f"build {G}/esmumps.h: run {le}/library.h\n  cmd = mkdir -p {G} && cp {le}/library.h {G}/esmumps.h")
    w.append(f"build {G}/parser_yy.c {G}/parser_ly.h: run {ls}/parser_yy.y\n  cmd = mkdir -p {G} && cp {ls}/parser_yy.y {G}/ && cd {G} && bison -pscotchyy --defines=parser_ly.h --output=parser_yy.c parser_yy.y 2>/dev/null")
    w.append(f"build {G}/parser_ll.c: run {ls}/parser_ll.l\n  cmd = mkdir -p {G} && cp {ls}/parser_ll.l {G}/ && cd {G} && flex -Pscotchyy -oparser_ll.c parser_ll.l")
    hdrs = " ".join(f"{G}/{h}" for h in ("scotch.h", "scotchf.h", "ptscotch.h", "ptscotchf.h", "metis.h", "metisf.h", "parmetis.h", "parser_ly.h", "esmumps.h"))
    w.append(f"build hdrs: phony {hdrs}")
    objs = []
    def cc(src, tag, extra):
        o = f"{B}/o/{tag}{os.path.basename(src)[:-2]}.o"; objs.append(o)
        w.append(f"build {o}: cc {src} || hdrs\n  extra = {extra}")
    for f in seq: cc(f"{ls}/{f}", "s_", "$inst")
    for f in ("parser_yy.c", "parser_ll.c"): cc(f"{G}/{f}", "s_", "$inst")
    for f in par: cc(f"{ls}/{f}", "p_", f"$inst -DSCOTCH_PTSCOTCH {simopt}")
    t = open(f"{lm}/CMakeLists.txt").read()
    m3 = sorted(set(re.findall(r"^\s+((?:metis)_\w+\.c)\s*$", t, re.M))); mp = sorted(set(re.findall(r"^\s+(parmetis_\w+\.c)\s*$", t, re.M)))
    for f in m3: cc(f"{lm}/{f}", "m5_", "$inst -DSCOTCH_METIS_VERSION=5")
    for f in mp: cc(f"{lm}/{f}", "mp_", "$inst -DSCOTCH_PTSCOTCH -DSCOTCH_METIS_VERSION=3")
    es = [f for f in cmake_list(f"{le}/CMakeLists.txt", "esmumps_src")]
    for f in es: cc(f"{le}/{f}", "e_", "$inst")
    # the command-line programs: main() is renamed, everything else they define is made local
    sp = os.path.join(SRC, "scotch"); t = open(f"{sp}/CMakeLists.txt").read(); t = re.sub(r"#.*", "", t)
    w.append("rule prog\n  command = gcc $cflags $extra -MMD -MF $out.d -c $in -o $out.t.o && objcopy --keep-global-symbol=$fn $out.t.o $out\n  depfile = $out.d\n  deps = gcc\n  description = PROG $out")
    progs = []
    for f in sorted(os.listdir(sp)):
        if f.endswith(".c") and f[:-2] not in ("gdump",) and not f.startswith("gout") and re.search(r"^main \(", open(f"{sp}/{f}", errors="replace").read(), re.M): progs.append((f[:-2], f, ""))
    for n, f in (("gpart", "gmap"), ("dgpart", "dgmap")): progs.append((n, f + ".c", "-DSCOTCH_COMPILE_PART"))
    for n, f, x in progs:
        par_ = "-DSCOTCH_PTSCOTCH" if n.startswith("dg") else ""; o = f"{B}/o/prog_{n}.o"; objs.append(o)
        w.append(f"build {o}: prog {sp}/{f} || hdrs\n  fn = prog_{n}\n  extra = $inst -I{sp} -Dmain=prog_{n} {x} {par_} '-DSCOTCH_VERSION_STRING=\"7.0.6\"'")
    for f in sorted(os.listdir(f"{V}/sim/work")):
        if f.endswith(".cpp"):
            o = f"{B}/o/w_{f[:-4]}.o"; objs.append(o); w.append(f"build {o}: cxx {V}/sim/work/{f} || hdrs\n  extra = -DSCOTCH_PTSCOTCH")
        elif f.endswith(".c"):
            o = f"{B}/o/w_{f[:-2]}.o"; objs.append(o); w.append(f"build {o}: cc {V}/sim/work/{f} || hdrs\n  extra = -DSCOTCH_PTSCOTCH $inst")
    # a second set of the workloads, which goes through the Fortran interface (sim/work/fort.h); everything it defines is made local
    fo = []
    for n in FORT:
        o = f"{B}/o/f_{n}.o"; fo.append(o); w.append(f"build {o}: cxx {V}/sim/work/{n}.cpp || hdrs\n  extra = -fno-gnu-unique -DSCOTCH_PTSCOTCH -DSIM_FORT -include {V}/sim/work/fort.h")
    w.append("rule local\n  command = ld -r --force-group-allocation $in -o $out.t.o && objcopy --keep-global-symbol=sim_fort_none $out.t.o $out && rm -f $out.t.o\n  description = LOCAL $out")
    w.append(f"build {B}/o/fort_all.o: local {' '.join(fo)}"); objs.append(f"{B}/o/fort_all.o")
    wrap = " ".join("-Wl,--wrap=" + x for x in WRAP)
    w.append(f"build {B}/node0.so: link {' '.join(objs)}\n  ldflags = -shared {wrap} -Wl,-Bsymbolic -lz -lbz2 -llzma -lm")
    for i in range(1, NCOPY): w.append(f"build {B}/node{i}.so: run {B}/node0.so\n  cmd = cp -f {B}/node0.so {B}/node{i}.so")
    so = []
    for f in ("core", "thr", "io", "mpi", "main"):
        w.append(f"build {B}/o/x_{f}.o: cxxs {V}/sim/{f}.cpp"); so.append(f"{B}/o/x_{f}.o")
    w.append(f"build {B}/simx: link {' '.join(so)}\n  ldflags = -rdynamic -ldl -lz -lbz2 -llzma")
    w.append("default " + f"{B}/simx " + " ".join(f"{B}/node{i}.so" for i in range(NCOPY)))
    t = "\n".join(w) + "\n"
    p = f"{B}/build.ninja"
    if not os.path.exists(p) or open(p).read() != t: open(p, "w").write(t)

def build(verbose=False):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen()
        r = subprocess.run(["ninja", "-C", B], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:]); raise SystemExit(2)
        if verbose: print(r.stdout[-300:])
if __name__ == "__main__": build(True)
