"""Builds the symbolic engine, instrumented objects of /repo's current sources
and harnesses (and, for replay, plain native objects of the same sources)."""
import glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
ENGINE = os.path.join(VERIF, "engine")
HARNESS = os.path.join(VERIF, "harness")
STUBS = os.path.join(VERIF, "stubs")


def z3_root():
    for p in sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3")):
        if os.path.exists(p + "/lib/libz3.so") and os.path.exists(p + "/include/z3.h"):
            return p
    raise SystemExit("z3 library not found")


DRAKE = "third_party/com_github_robotlocomotion_drake/dreal/symbolic"
# source groups, relative to /repo; a harness names the groups it links.
GROUPS = {
    "drake": [DRAKE + "/*.cc"],
    "symbolic": ["dreal/symbolic/*.cc"],
    "util": ["dreal/util/*.cc"],
    "smt2": ["dreal/smt2/*.cc"],
    "dr": ["dreal/dr/*.cc"],
    "solver": ["dreal/solver/*.cc"],
    "contractor": ["dreal/contractor/*.cc"],
    "optimization": ["dreal/optimization/*.cc"],
    "api": ["dreal/api/*.cc"],
    "threadpool": ["third_party/com_github_progschj_threadpool/**/*.cc"],
}
SKIP = re.compile(r"(_test\.cc|/test/|_py\.cc)$|/test/")


def sources(groups, only=None, skip=()):
    out = []
    for g in groups:
        pats = GROUPS.get(g) or [g]
        for pat in pats:
            fs = sorted(glob.glob(os.path.join(REPO, pat), recursive=True))
            out += [f for f in fs if not SKIP.search(f)]
    res = []
    for f in out:
        b = os.path.basename(f)
        if b in skip or f in res:
            continue
        res.append(f)
    return res


def includes():
    tp = REPO + "/third_party"
    return (f"-iquote {REPO} -iquote {BUILD}/gen -iquote {HARNESS} -iquote {ENGINE} -isystem {STUBS} "
            f"-isystem {tp}/com_github_robotlocomotion_drake/. "
            f"-isystem {tp}/com_github_pinam45_dynamic_bitset -isystem {tp}/com_github_tartanllama_optional "
            f"-isystem {tp}/com_github_progschj_threadpool -isystem {tp}/com_github_westes_flex ")


DEFS = ("-include cstdint -DFMT_DEPRECATED_OSTREAM=1 -DFMT_NO_FMT_STRING_ALIAS=1 -DSPDLOG_FMT_EXTERNAL ")


def esc(s):
    return s.replace("$", "$$").replace(":", "$:").replace(" ", "$ ")


def objname(f):
    return re.sub(r"[^A-Za-z0-9_.]", "_", f.strip("/")) + ".o"


SYMPASS_CMD = "clang++ -std=c++17 -O1 -fPIC -shared -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS {src} -o {out} -s"
RT_CMD = "g++ -std=c++17 -O2 -c {src} -I{z}/include -o {out} -w"
PREBUILT = os.path.join(ENGINE, "prebuilt")


def engine_key(src):
    """The engine's objects depend on its source, the headers beside it and the tools."""
    m = hashlib.sha256()
    for f in (src, ENGINE + "/sym.h", os.path.join(z3_root(), "include/z3_version.h"), "/usr/lib/llvm-18/include/llvm/Config/llvm-config.h", "/usr/include/x86_64-linux-gnu/c++/13/bits/c++config.h"):
        m.update(open(f, "rb").read() if os.path.exists(f) else b"?")
    m.update((SYMPASS_CMD + RT_CMD).encode())
    return m.hexdigest()[:20]


def prebuilt(out, src):
    """A committed build of the engine (not of the code under test), used only
    while the engine's source is unchanged: it saves every check ten seconds."""
    p = os.path.join(PREBUILT, os.path.basename(out) + "." + engine_key(src) + ".gz")
    return p if os.path.exists(p) else None


class Ninja:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.z = z3_root()
        z = self.z
        self.lines = [
            f"builddir = {BUILD}",
            "rule sh\n  command = $cmd\n  description = $out",
            f"rule symcxx\n  command = clang++ $std -O1 -g1 -fno-vectorize -fno-slp-vectorize -fno-strict-aliasing -fpass-plugin={BUILD}/SymPass.so "
            f"-D_GLIBCXX_EXTERN_TEMPLATE=0 -DVP_SYM=1 {includes()} {DEFS} $defs -w -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = SYM $in",
            f"rule natcxx\n  command = g++ $std -O1 -g -fno-strict-aliasing -fsanitize=address -fno-omit-frame-pointer {includes()} {DEFS} $defs -w -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = NATIVE $in",
            "rule ar\n  command = rm -f $out && ar crsT $out $in\n  description = AR $out",
            f"rule symlink\n  command = g++ $objs -Wl,--start-group $libs -Wl,--end-group {BUILD}/rt.o -o $out {z}/lib/libz3.so -Wl,-rpath,{z}/lib -lfmt -ldl -lpthread $extra\n  description = LINK $out",
            f"rule natlink\n  command = g++ -fsanitize=address $objs -Wl,--start-group $libs -Wl,--end-group -o $out -lfmt -ldl -lpthread $extra\n  description = LINK $out",
        ]
        self.seen = set()
        for out, src, cmd in ((f"{BUILD}/SymPass.so", f"{ENGINE}/SymPass.cpp", SYMPASS_CMD), (f"{BUILD}/rt.o", f"{ENGINE}/rt.cpp", RT_CMD)):
            pre = prebuilt(out, src)
            if pre:
                self.sh(out, [src], f"gzip -dc {pre} > {out}")
            else:
                self.sh(out, [src], cmd.format(src=src, out=out, z=z))
        self.engine = [f"{BUILD}/SymPass.so", f"{BUILD}/rt.o"]
        self.gens = []

    def sh(self, out, ins, cmd):
        outs = out if isinstance(out, list) else [out]
        self.lines.append(f"build {' '.join(esc(o) for o in outs)}: sh {' '.join(esc(i) for i in ins)}\n  cmd = {cmd.replace('$', '$$')}")

    def generated(self):
        """bison/flex/version outputs, regenerated outside /repo."""
        if self.gens:
            return
        g = BUILD + "/gen/dreal"
        for d in ("smt2", "dr"):
            os.makedirs(f"{g}/{d}", exist_ok=True)
            yy = [f"{g}/{d}/{n}" for n in ("parser.yy.cc", "parser.yy.hh", "location.hh", "position.hh", "stack.hh")]
            self.sh(yy, [f"{REPO}/dreal/{d}/parser.yy"], f"/usr/bin/bison -Wno-deprecated -o {yy[0]} {REPO}/dreal/{d}/parser.yy")
            self.sh(f"{g}/{d}/scanner.ll.cc", [f"{REPO}/dreal/{d}/scanner.ll"], f"/usr/bin/flex -o {g}/{d}/scanner.ll.cc {REPO}/dreal/{d}/scanner.ll")
            self.gens += yy + [f"{g}/{d}/scanner.ll.cc"]
        v = REPO + "/tools/generate_version_header.sh"
        self.sh(f"{g}/version.h", [v], f"{v} 4.21.06.2 > {g}/version.h")
        self.gens.append(f"{g}/version.h")

    def obj(self, src, kind, defs="", std="-std=c++14", suffix=""):
        o = f"{BUILD}/{kind}{suffix}/{objname(src)}"
        if o not in self.seen:
            self.seen.add(o)
            rule = "symcxx" if kind == "sym" else "natcxx"
            order = (self.engine if kind == "sym" else [])
            dep = f" | {BUILD}/SymPass.so" if kind == "sym" else ""
            oo = f" || {' '.join(esc(x) for x in self.gens)}" if self.gens else ""
            self.lines.append(f"build {esc(o)}: {rule} {esc(src)}{dep}{oo}\n  defs = {defs}\n  std = {std}")
        return o

    def harness(self, h, kind):
        """h: dict with name, src, groups, skip, gen, defs, extra."""
        defs = h.get("defs", "")
        suffix = h.get("variant", "")
        if h.get("gen"):
            self.generated()
        hs = [f"{HARNESS}/{s}" for s in h["src"]]
        if kind == "nat":
            hs.append(ENGINE + "/native.cpp")
        hobjs = [self.obj(s, kind, h.get("hdefs", "") + (" -DSYM_COUNT_ALLOC" if h.get("alloc") and s.endswith("native.cpp") else ""),
                          h.get("std", "-std=c++14") if not s.endswith("native.cpp") else "-std=c++17", suffix="_h_" + h["name"]) for s in hs]
        srcs = sources(h["groups"], skip=h.get("skip", ()))
        srcs += [f"{BUILD}/gen/{g}" for g in h.get("genfiles", [])]
        srcs.sort(key=lambda f: 0 if f.endswith(("dreal/symbolic/symbolic.cc", "expression_cell.cc")) else 1)  # slow ones first
        lobjs = [self.obj(s, kind, defs, suffix=suffix) for s in srcs]
        for s in h.get("stubsrc", []):
            lobjs.append(self.obj(f"{STUBS}/{s}", kind, defs, suffix=suffix))
        lib = f"{BUILD}/{kind}_{h['name']}.a"
        exe = f"{BUILD}/{kind}_{h['name']}"
        self.lines.append(f"build {esc(lib)}: ar {' '.join(esc(o) for o in lobjs)}")
        rule = "symlink" if kind == "sym" else "natlink"
        dep = f" {BUILD}/rt.o" if kind == "sym" else ""
        self.lines.append(f"build {esc(exe)}: {rule} {' '.join(esc(o) for o in hobjs)} {esc(lib)}{dep}\n  objs = {' '.join(hobjs)}\n  libs = {lib}\n  extra = {h.get('extra', '')}")
        return exe

    def run(self, targets, log, jobs=None, tag="build"):
        nf = f"{BUILD}/{tag}.ninja"
        with open(nf, "w") as f:
            f.write("\n".join(self.lines) + "\n")
        cmd = ["ninja", "-f", nf, "-k", "0"] + (["-j", str(jobs)] if jobs else []) + list(targets)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=BUILD)
        with open(log, "w") as f:
            f.write(p.stdout)
        return p.returncode == 0, p.stdout
