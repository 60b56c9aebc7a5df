#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--keep]: regenerate the encoding of /repo's current
source, run every harness entry of the property through symx and report."""
import sys, os, json, subprocess, hashlib, shutil, time, re, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARN = os.path.join(VERIF, "harness")
NIGHTLY = "nightly"
PINNED = "nightly-2025-04-08"
IRFLAGS = "--emit=llvm-ir,link -Cno-vectorize-loops -Cno-vectorize-slp -Ccodegen-units=1"
CLANG = ["clang++", "-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-S", "-emit-llvm", "-w", "-fno-asynchronous-unwind-tables" if False else "-g0", "-DSYMX"]
class Fatal(Exception):
    pass
class CompileError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def env_base(toolchain, target):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e.update(RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             CARGO_TARGET_DIR=target)
    e["HOME"] = os.environ.get("HOME", "/root")
    e["PATH"] = e["HOME"] + "/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin")
    for k in ("CXX", "CXXFLAGS", "CC", "CFLAGS", "VERIF_SEED"):
        e.pop(k, None)
    return e

def run(cmd, env=None, cwd=None, timeout=800, check=True, exc=Fatal, stdin=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=stdin)
    if check and p.returncode != 0 and "--message-format=json" in cmd:
        raise exc("command failed (%d): %s\n%s" % (p.returncode, " ".join(map(str, cmd)), cargo_errors(p)))
    if check and p.returncode != 0:
        raise exc("command failed (%d): %s\n%s" % (p.returncode, " ".join(map(str, cmd)), (p.stderr or p.stdout).decode(errors="replace")[-6000:]))
    return p

def cargo_errors(p):
    msgs = []
    for l in p.stdout.decode(errors="replace").splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("reason") == "compiler-message" and d["message"]["level"] == "error":
            msgs.append(d["message"]["rendered"])
    return "\n".join(msgs)[-5000:] + p.stderr.decode(errors="replace")[-2000:]

def tree_hash(roots, exts=None):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", "book", "third-party", "node_modules") )
            for f in sorted(fs):
                p = os.path.join(d, f)
                if exts and not f.endswith(exts):
                    continue
                if os.path.islink(p) and not os.path.exists(p):
                    continue
                h.update(os.path.relpath(p, root).encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "symx")
    h = tree_hash([src]); exe = os.path.join(BUILD, "symx-" + h[:16])
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(BUILD, "symx-*")):
            os.unlink(old)
        run(["g++", "-std=c++20", "-O2", "-w", "-o", exe + ".tmp", os.path.join(src, "main.cpp"), "-lz3", "-lpthread"])
        os.rename(exe + ".tmp", exe)
    return exe

def guard_target(target, key):
    """A cached target directory is only trusted for the repository content it was built from."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, ".content")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != key:
        pats = ["cxx", "cxx-*", "cxxbridge*", "cxx_*", "cxx-gen*", "cxx-build*", "cxx_macro_lib*", "cxx_cmd_lib*", "c[0-9][0-9]*", "rt", "gen_*"]
        for base in ("debug", "x86_64-unknown-linux-gnu/debug", "release"):
            for sub in ("build", ".fingerprint", "incremental"):
                for pat in pats:
                    for d in glob.glob(os.path.join(target, base, sub, pat)):
                        shutil.rmtree(d, ignore_errors=True)
        open(stamp, "w").write(key)

class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.dir = os.path.join(HARN, prop.lower())
        self.cfg = json.load(open(os.path.join(self.dir, "check.json")))
        self.out = os.path.join(BUILD, "out", prop)
        shutil.rmtree(self.out, ignore_errors=True); os.makedirs(self.out)
        self.repo_hash = tree_hash([REPO], (".rs", ".cc", ".h", ".toml", ".lock"))
        self.key = self.repo_hash
        self.crate = self.cfg.get("crate", prop.lower())
        self.notes = []
        self.t = {}

    def macro_lib(self):
        """The procedural macro's own sources as an ordinary library, so that its expansion can be executed: only the proc_macro interface of lib.rs is replaced."""
        d = os.path.join(BUILD, "macro-lib"); src = os.path.join(REPO, "macro/src"); want = {}
        for f in sorted(os.listdir(src)):
            if f.endswith(".rs"):
                want[f] = open(os.path.join(src, f)).read()
        t = want["lib.rs"].replace("use proc_macro::", "use proc_macro2::")
        t = re.sub(r"\bproc_macro::TokenStream", "proc_macro2::TokenStream", t)
        t = re.sub(r"#\[proc_macro(_attribute)?\]", "", t).replace("use syn::parse_macro_input;", "").replace("syn::parse_macro_input!", "parse_macro_input!")
        t = re.sub(r"^(mod |#\[path)", """macro_rules! parse_macro_input { ($t:ident as $ty:ty) => { match ::syn::parse2::<$ty>($t) { Ok(v) => v, Err(e) => return e.to_compile_error() } } }
mod shim { pub trait ParserExt: syn::parse::Parser + Sized { fn parse(self, t: proc_macro2::TokenStream) -> syn::Result<Self::Output> { self.parse2(t) } } impl<T: syn::parse::Parser> ParserExt for T {} }
#[allow(unused_imports)] use crate::shim::ParserExt as _;
\\1""", t, count=1, flags=re.M)
        want["lib.rs"] = t
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        for f in os.listdir(os.path.join(d, "src")):
            if f.endswith(".rs") and f not in want:
                os.unlink(os.path.join(d, "src", f))
        link = os.path.join(d, "src/syntax")
        if not os.path.islink(link):
            os.symlink(os.path.join(REPO, "syntax"), link)
        want = {"src/" + k: v for k, v in want.items()}
        want["Cargo.toml"] = """[package]
name = "cxx_macro_lib"
version = "0.0.0"
edition = "2021"
[lib]
path = "src/lib.rs"
[dependencies]
proc-macro2 = { version = "1.0.74", default-features = false, features = ["span-locations"] }
quote = { version = "1.0.35", default-features = false }
rustversion = "1"
syn = { version = "2.0.46", default-features = false, features = ["clone-impls", "derive", "full", "parsing", "printing"] }
"""
        for f, v in want.items():
            p = os.path.join(d, f)
            if not os.path.exists(p) or open(p).read() != v:
                open(p, "w").write(v)

    def cmd_lib(self):
        """The sources of the cxxbridge command as a library with a public `main`."""
        d = os.path.join(BUILD, "cmd-lib"); cmd = os.path.join(REPO, "gen/cmd"); src = os.path.join(cmd, "src"); want = {}; links = {}
        for f in sorted(os.listdir(src)):
            if os.path.islink(os.path.join(src, f)):
                links[f] = os.path.realpath(os.path.join(src, f))
            elif f.endswith(".rs"):
                want["src/" + f] = open(os.path.join(src, f)).read()
        want["src/main.rs"] = re.sub(r"^fn main\(\)", "pub fn main()", want["src/main.rs"], count=1, flags=re.M)
        toml = open(os.path.join(cmd, "Cargo.toml")).read()
        deps = re.search(r"^\[dependencies\]\n.*?(?=^\[|\Z)", toml, re.M | re.S).group(0)
        version = re.search(r'^version = .*$', toml, re.M).group(0)
        want["Cargo.toml"] = '[package]\nname = "cxx_cmd_lib"\n%s\nedition = "2021"\n[features]\nexperimental-async-fn = []\n[lib]\npath = "src/main.rs"\n%s' % (version, deps)
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        for f in os.listdir(os.path.join(d, "src")):
            if "src/" + f not in want and f not in links:
                os.unlink(os.path.join(d, "src", f))
        for f, to in links.items():
            l = os.path.join(d, "src", f)
            if os.path.islink(l) and os.readlink(l) != to:
                os.unlink(l)
            if not os.path.islink(l):
                os.symlink(to, l)
        for f, v in want.items():
            p = os.path.join(d, f)
            if not os.path.exists(p) or open(p).read() != v:
                open(p, "w").write(v)

    # ---- Rust -> IR
    def rust_ir(self):
        t0 = time.time()
        target = os.path.join(BUILD, "rs"); guard_target(target, self.key)
        env = env_base(NIGHTLY, target); env["RUSTFLAGS"] = IRFLAGS + " " + self.cfg.get("rustflags", "")
        for k, v in self.cfg.get("env", {}).items():
            env[k] = v.replace("$REPO", REPO)
        cmd = ["cargo", "build", "-Zbuild-std=std,panic_unwind", "--target", "x86_64-unknown-linux-gnu", "--offline", "--message-format=json"]
        p = run(cmd, env=env, cwd=self.dir, check=False)
        if p.returncode != 0:
            raise CompileError("cargo build (IR) failed\n" + cargo_errors(p))
        lls = []
        for l in p.stdout.decode().splitlines():
            d = json.loads(l)
            if d.get("reason") != "compiler-artifact":
                continue
            for f in d["filenames"]:
                if f.endswith(".rlib") and "/x86_64-unknown-linux-gnu/" in f and "panic_abort" not in f: # panic=unwind
                    b = os.path.basename(f)[3:-5]; ll = os.path.join(os.path.dirname(f), b + ".ll")
                    if not os.path.exists(ll):
                        c = glob.glob(os.path.join(os.path.dirname(f), b + "*.ll"))
                        if not c:
                            raise Fatal("no IR for " + f)
                        ll = c[0]
                    lls.append(ll)
        self.t["rust_ir"] = time.time() - t0
        return lls

    # ---- bridge -> C++
    def cxxbridge(self):
        t0 = time.time()
        target = os.path.join(BUILD, "host"); guard_target(target, self.key)
        env = env_base(PINNED, target)
        env["CARGO_PROFILE_DEV_DEBUG"] = "0"
        run(["cargo", "build", "-p", "cxxbridge-cmd", "--offline"], env=env, cwd=REPO, exc=CompileError)
        self.t["cxxbridge"] = time.time() - t0
        return os.path.join(target, "debug", "cxxbridge")

    def gen_cpp(self):
        inc = os.path.join(self.out, "include"); os.makedirs(os.path.join(inc, "rust"), exist_ok=True)
        shutil.copy(os.path.join(REPO, "include/cxx.h"), os.path.join(inc, "rust/cxx.h"))
        outs = []
        br = self.cfg.get("bridges", [])
        if br:
            exe = self.cxxbridge()
            for b in br:
                src = os.path.join(self.dir, b); name = os.path.basename(b)
                for ext, flag in ((".h", ["--header"]), (".cc", [])):
                    o = os.path.join(inc if ext == ".h" else self.out, name + ext)
                    p = run([exe, src] + flag + ["-o", o] + self.cfg.get("cxxbridge_args", []), check=False)
                    if p.returncode != 0:
                        raise CompileError("cxxbridge failed on %s: %s" % (b, p.stderr.decode(errors="replace")[-2000:]))
                outs.append(os.path.join(self.out, name + ".cc"))
        return inc, outs

    def cc_list(self, outs):
        ccs = [os.path.join(HARN, "common/model.cc"), os.path.join(REPO, "src/cxx.cc")] + outs
        ccs += sorted(glob.glob(os.path.join(self.dir, "cc", "*.cc")))
        return ccs

    def incs(self, inc):
        return ["-I" + inc, "-I" + os.path.join(HARN, "common"), "-I" + os.path.join(self.dir, "cc")]

    def cpp_ir(self, inc, outs):
        t0 = time.time(); jobs = []
        for c in self.cc_list(outs):
            o = os.path.join(self.out, os.path.basename(c) + ".ll")
            if c.startswith(HARN + "/common"):
                h = hashlib.sha256(open(c, "rb").read()).hexdigest()[:16]; o = os.path.join(BUILD, os.path.basename(c) + "-" + h + ".ll")
                if os.path.exists(o):
                    jobs.append((None, o)); continue
            jobs.append((CLANG + self.cfg.get("cxxflags", []) + self.incs(inc) + [c, "-o", o + ".tmp"], o))
        def do(j):
            if j[0]:
                run(j[0], exc=CompileError); os.rename(j[1] + ".tmp", j[1])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(do, jobs))
        self.t["cpp_ir"] = time.time() - t0
        return [o for _, o in jobs]

    # ---- native build for replay
    def native(self):
        if hasattr(self, "_native"):
            return self._native
        t0 = time.time()
        target = os.path.join(BUILD, "native"); guard_target(target, self.key)
        env = env_base(PINNED, target); env["CARGO_PROFILE_DEV_DEBUG"] = "0"
        for k, v in self.cfg.get("env", {}).items():
            env[k] = v.replace("$REPO", REPO)
        p = run(["cargo", "rustc", "--lib", "--crate-type", "staticlib", "--offline", "--message-format=json"], env=env, cwd=self.dir, exc=CompileError)
        lib = None
        for l in p.stdout.decode().splitlines():
            d = json.loads(l)
            if d.get("reason") == "compiler-artifact" and d["target"]["name"] == self.crate:
                for f in d["filenames"]:
                    if f.endswith(".a"):
                        lib = f
        if not lib:
            raise Fatal("no native staticlib")
        nd = os.path.join(self.out, "native"); os.makedirs(nd, exist_ok=True)
        ents = os.path.join(nd, "entries.cc")
        with open(ents, "w") as f:
            f.write('extern "C" {\n' + "".join("void %s(void);\n" % e for e in self.entries))
            f.write("struct entry_t { const char *name; void (*fn)(void); };\nextern const entry_t entries[];\nconst entry_t entries[] = {" + "".join('{"%s", %s},' % (e, e) for e in self.entries) + "{0,0}};\n}\n")
        flags = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-I" + os.path.join(HARN, "common")]
        jobs = []
        if self.cfg.get("cpp", True):
            inc, outs = self.cpp
            for c in self.cc_list(outs):
                if c.endswith("common/model.cc") or c == os.path.join(REPO, "src/cxx.cc"):
                    continue  # the real libstdc++; cxx.cc comes with the Rust library
                jobs.append((flags + self.cfg.get("cxxflags", []) + self.incs(inc) + ["-c", c, "-o"], os.path.join(nd, os.path.basename(c) + ".o")))
        jobs.append((flags + ["-c", ents, "-o"], os.path.join(nd, "entries.o")))
        jobs.append((flags + ["-c", os.path.join(HARN, "common/native.cc"), "-o"], os.path.join(nd, "native.o")))
        jobs.append((flags + ["-DCOUNT_LIVE", "-c", os.path.join(HARN, "common/native.cc"), "-o"], os.path.join(nd, "native_live.o")))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: run(j[0] + [j[1]], exc=CompileError), jobs))
        objs = [j[1] for j in jobs if not j[1].endswith(("native.o", "native_live.o"))]
        plain, livex = os.path.join(nd, "replay"), os.path.join(nd, "replay_live")
        tail = [lib, "-ldl", "-lpthread", "-lm"]
        run(["g++", "-o", plain] + objs + [os.path.join(nd, "native.o")] + tail, exc=CompileError)
        wraps = "-Wl," + ",".join("--wrap=" + s for s in ("malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc"))
        run(["g++", wraps, "-o", livex] + objs + [os.path.join(nd, "native_live.o")] + tail, exc=CompileError)
        self._native = (plain, livex)
        self.t["native"] = time.time() - t0
        return self._native

    def replay(self, entry, inputs, v):
        """Run a counterexample on the real build. Returns (confirmed, description, cmd)."""
        plain, livex = self.native()
        rd = os.path.join(BUILD, "replay"); os.makedirs(rd, exist_ok=True)
        f = os.path.join(rd, "%s-%s-%s.inputs" % (self.prop, entry, hashlib.sha256(json.dumps(v).encode()).hexdigest()[:8]))
        with open(f, "w") as h:
            for n, x in inputs:
                h.write("%s\t%s\n" % (n, x))
        tier = "1" if self.tier == "thorough" else "0"
        res = []
        for label, cmd in (("live", [livex, entry, f, tier]), ("valgrind", ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--undef-value-errors=yes", plain, entry, f, tier])):
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
                out = p.stdout.decode(errors="replace"); rc = p.returncode; err = p.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired:
                out, rc, err = "", -999, "timeout"
            res.append("%s rc=%d %s" % (label, rc, out.strip().replace("\n", "; ")[-300:]))
            if rc in (10, 11, 99, -999) or (rc < 0):
                open(f + ".txt", "w").write("command: %s\nexit: %d\n%s\n%s\nviolation: %s\n" % (" ".join(cmd), rc, out, err[-5000:], json.dumps(v, indent=1)))
                return True, "; ".join(res), f + ".txt"
        open(f + ".txt", "w").write("NOT CONFIRMED natively: %s\nviolation: %s\n" % ("; ".join(res), json.dumps(v, indent=1)))
        return False, "; ".join(res), f + ".txt"

    def main(self):
        t0 = time.time()
        exe = build_engine()
        files = []
        if self.cfg.get("macro"):
            self.macro_lib()
        if self.cfg.get("cmd"):
            self.cmd_lib()
        with ThreadPoolExecutor(2) as ex:
            fr = ex.submit(self.rust_ir)
            if self.cfg.get("cpp", True):
                self.cpp = self.gen_cpp()
                files += self.cpp_ir(*self.cpp)
            rl = fr.result()
        own = [f for f in rl if os.path.basename(f).startswith(self.crate + "-")]
        if self.cfg.get("cpp", True):
            own += [f for f in files if "common/" not in f and BUILD + "/model" not in f]
        files += rl
        lst = os.path.join(self.out, "files.txt"); open(lst, "w").write("\n".join(files) + "\n")
        pat = re.compile(r"^define [^@]*@(h_[a-z0-9_]+)\(", re.M)
        ents = set()
        for f in own:
            ents.update(pat.findall(open(f).read()))
        self.entries = sorted(ents)
        only = os.environ.get("SYMX_ONLY")
        runl = [e for e in self.entries if not only or re.search(only, e)]
        if self.tier == "quick":
            runl = [e for e in runl if not e.endswith("_deep")]
        if not runl:
            raise Fatal("no entries")
        budget = self.cfg.get("max_time", {}).get(self.tier, 500 if self.tier == "quick" else 780)
        t1 = time.time()
        def one(e):
            o = os.path.join(self.out, e + ".json")
            cmd = [exe, "--list", lst, "--entry", e, "--json", o, "--max-time", str(budget), "--tier", "1" if self.tier == "thorough" else "0"] + self.cfg.get("symx_args", [])
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            return e, p.returncode, (json.load(open(o)) if os.path.exists(o) else None), p.stderr.decode(errors="replace")
        order = self.cfg.get("heavy", [])
        runl.sort(key=lambda e: (e not in order, e))
        with ThreadPoolExecutor(8) as ex:
            results = list(ex.map(one, runl))
        self.t["symx"] = time.time() - t1
        return self.finish(results, t0)

    def finish(self, results, t0):
        known = load_known(self.prop)
        nviol, rc, bad = 0, 0, []
        tot = dict(paths=0, forks=0, steps=0, queries=0, solver_s=0.0, cache_hits=0, finite=0)
        funcs, asserts, reach, samples, per, ends = {}, {}, {}, [], {}, {}
        for e, code, j, err in results:
            if code == 3 or code < 0 or j is None:
                bad.append("%s: engine failure: %s" % (e, err[-1500:])); continue
            for k in tot:
                tot[k] += j[k]
            for n, c, m in j["functions"]:
                if in_repo(n, m):
                    funcs[n] = funcs.get(n, 0) + c
            for d, s in ((asserts, j["asserts"]), (reach, j["reach"]), (ends, j["ends"])):
                for k, v in s.items():
                    d[k] = d.get(k, 0) + v
            per[e] = {k: j[k] for k in ("paths", "queries", "solver_s", "wall_s", "steps")}
            if j["samples"]:
                samples.append((e, j["samples"]))
            if j["incomplete"]:
                bad.append("%s: incomplete: %s\n%s" % (e, json.dumps(j["incomplete"])[:600], err[-1500:]))
            if not j["violations"] and not j["asserts"] and not j["ends"].get("expected-abort"):
                bad.append("%s: vacuous: no assertion evaluated" % e)
            seen = 0
            for v in j["violations"]:
                if seen >= 4:
                    break
                seen += 1
                k = match_known(known, e, v)
                if k:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"])); continue
                try:
                    ok, desc, path = self.replay(e, v["inputs"], v)
                except CompileError as x:
                    ok, desc, path = False, "native build failed: " + str(x)[-800:], ""
                log("counterexample in %s: %s %s | %s" % (e, v["kind"], v["msg"], desc))
                log("   inputs: %s" % json.dumps(v["inputs"])[:600])
                if ok:
                    nviol += 1; print("VIOLATION property=%s replay=%s" % (self.prop, path)); print("  %s: %s (%s)" % (e, v["msg"], desc), flush=True)
                else:
                    bad.append("%s: counterexample not confirmed natively: %s %s (%s)" % (e, v["kind"], v["msg"], desc))
        want = self.cfg.get("reach", [])
        if not os.environ.get("SYMX_ONLY") and not nviol:
            for r in want:
                if not reach.get(r):
                    bad.append("vacuity: marker %s not reached" % r)
        # validate explored paths on the real build
        validated = 0
        if not nviol and not bad and not os.environ.get("SYMX_NOVALIDATE"):
            try:
                plain, _ = self.native()
                sd = os.path.join(self.out, "samples"); os.makedirs(sd, exist_ok=True)
                jobs = []
                for e, ss in samples:
                    for i, s in enumerate(ss):
                        f = os.path.join(sd, "%s.%d" % (e, i))
                        open(f, "w").write("".join("%s\t%s\n" % (k[:k.rindex("#")], v) for k, v in s.items()))
                        jobs.append((e, f))
                tier = "1" if self.tier == "thorough" else "0"
                def one(j):
                    p = subprocess.run([plain, j[0], j[1], tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
                    return j, p
                with ThreadPoolExecutor(8) as ex:
                    for j, p in ex.map(one, jobs):
                        if p.returncode == 0:
                            validated += 1
                        elif p.returncode in (10, 11):
                            # the real build disagrees with the symbolic execution of the same inputs
                            dst = os.path.join(BUILD, "replay"); os.makedirs(dst, exist_ok=True)
                            t = os.path.join(dst, "%s-%s-validate.txt" % (self.prop, j[0])); open(t, "w").write("command: %s %s %s\n%s%s\ninputs:\n%s" % (plain, j[0], j[1], p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")[-3000:], open(j[1]).read()))
                            bad.append("validation of a path of %s on the real build failed: %s (see %s)" % (j[0], p.stdout.decode(errors="replace")[-300:], t))
                        else:
                            bad.append("validation run of %s broke: rc=%d %s" % (j[0], p.returncode, (p.stdout + p.stderr).decode(errors="replace")[-600:]))
            except CompileError as x:
                bad.append("native build failed: " + str(x)[-2000:])
        wall = time.time() - t0
        level = self.cfg.get("level", "model_checking")
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
              "coverage": {"states": tot["paths"] + tot["forks"], "transitions": tot["steps"], "traces_validated_against_impl": validated,
                           "samples": [{"entry": e, "inputs": s} for e, ss in samples[:6] for s in ss[:1]],
                           "paths": tot["paths"], "path_ends": ends, "queries_discharged": tot["queries"], "query_cache_hits": tot["cache_hits"], "branch_queries_decided_over_the_whole_domain": tot["finite"], "solver_seconds": round(tot["solver_s"], 3),
                           "assertions_evaluated": asserts, "reached": reach, "functions_encoded": sorted(demangle(funcs)), "functions_encoded_count": len(funcs),
                           "bounds": self.cfg.get("bounds", {}).get(self.tier, self.cfg.get("bounds", "")), "outside_bounds": self.cfg.get("outside", ""),
                           "per_entry": per, "exhaustive": not bad, "phase_seconds": {k: round(v, 1) for k, v in self.t.items()}},
              "assumptions": self.cfg.get("assumptions", []) + ["LLVM IR of nightly rustc / clang 18 at -O1 stands for the real code; counterexamples are replayed on the pinned toolchain", "libstdc++ exception classes and the C runtime are replaced by models (harness/common/model.cc, symx/builtins.h)", "z3 4.8.12 is trusted"],
              "wall_s": round(wall, 2), "violations": nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        log("%s: entries=%d paths=%d steps=%d queries=%d solver=%.1fs validated=%d violations=%d wall=%.1fs %s" % (self.prop, len(results), tot["paths"], tot["steps"], tot["queries"], tot["solver_s"], validated, nviol, wall, json.dumps({k: round(v, 1) for k, v in self.t.items()})))
        for b in bad[:12]:
            log("PROBLEM: " + b)
        if len(bad) > 12:
            log("... and %d more problems" % (len(bad) - 12))
        if nviol:
            return 1
        return 2 if bad else 0

def in_repo(n, mod):
    if mod.startswith(("cxx", "rt-")) or re.match(r"c\d\d", mod) or mod.endswith((".rs.cc.ll", ".cc.ll")):
        return not n.startswith(("h_", "llvm.")) and "3std" not in n[:8]
    return False

def demangle(d):
    names = list(d)
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
        o = p.stdout.decode(errors="replace").split("\n")
        return sorted(set(x[:160] for x in o if x and not x.startswith(("std::", "void std::", "core::", "<core", "<alloc", "alloc::", "<std", "__gnu"))))[:400]
    except OSError:
        return names[:400]

def load_known(prop):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if k.get("property") == prop and k.get("status") == "known"]

def match_known(known, entry, v):
    for k in known:
        if k["entry"] == entry and k["id"] == (v["id"] or v["msg"]) and all(any(n == kn and x == kv for n, x in v["inputs"]) for kn, kv in k.get("inputs", {}).items()):
            return k
    return None

def compile_violation(c, err):
    """The generated or runtime code does not compile. Believe it only if the pinned toolchain agrees."""
    rd = os.path.join(BUILD, "replay"); os.makedirs(rd, exist_ok=True)
    f = os.path.join(rd, "%s-compile.txt" % c.prop)
    try:
        if not hasattr(c, "entries"):
            c.entries = []
        if not hasattr(c, "cpp") and c.cfg.get("cpp", True):
            c.cpp = c.gen_cpp()
        c.native()
    except CompileError as e2:
        open(f, "w").write("IR build:\n%s\n\nnative build:\n%s\n" % (err, e2))
        print("VIOLATION property=%s replay=%s" % (c.prop, f)); log(str(e2)[-3000:])
        return 1
    log("build for IR failed but the native build works:\n" + str(err)[-4000:])
    return 2

def main():
    a = sys.argv[1:]
    prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick") if "--tier" not in a else a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    c = Check(prop, tier)
    try:
        rc = c.main()
    except CompileError as e:
        rc = compile_violation(c, e)
    except Fatal as e:
        log("FATAL: " + str(e)); rc = 2
    sys.exit(rc)

if __name__ == "__main__":
    main()
