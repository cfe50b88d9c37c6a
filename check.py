#!/usr/bin/env python3
"""check.py <property> | --setup | --replay <file>

Builds /repo's working tree (its own sources, with AddressSanitizer) together
with the model-checking harness that decides the property, runs the bounded
exhaustive exploration, and writes evidence/<property>.json.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from properties_config import PROPS, HARNESSES

NPROC = os.cpu_count() or 8
CXX = "g++"
BASE = ["-std=c++11", "-Wno-deprecated-declarations", "-w", "-fPIC", "-g1", "-pthread",
        "-fno-omit-frame-pointer"]
FLAVORS = {
    "asan": ["-O1", "-fsanitize=address", "-fsanitize-address-use-after-scope"],
    "plain": ["-O1"],
    # instrumented for the scheduler and race detector of mc/mt.cc, which takes the place of the runtime of ThreadSanitizer
    "sched": ["-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
}
LINK = {"asan": ["-fsanitize=address"], "plain": [], "sched": ["-Wl,-Bsymbolic-functions"]}


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def xml_flags():
    return ["-I/usr/include/libxml2"], ["-lxml2"]


def ruby_flags():
    """(compiler flags, load path) of the installed Ruby"""
    r = sh(["ruby", "--disable=gems", "-rrbconfig", "-e",
            "c = RbConfig::CONFIG; puts c['rubyhdrdir'], c['rubyarchhdrdir'], c['rubylibdir'], c['rubyarchdir'], c['RUBY_SO_NAME']"])
    hdr, arch, lib, archlib, so = r.stdout.split()
    return ["-I" + hdr, "-I" + arch], [lib, archlib], ["-l" + so]


def file_hash(h, path):
    with open(path, "rb") as f:
        h.update(path.encode()); h.update(b"\0"); h.update(f.read()); h.update(b"\0")


def repo_headers():
    out = []
    for top in ("typelib", "lang", "bindings/ruby/ext"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            out += [os.path.join(d, f) for f in sorted(files)
                    if not f.endswith((".cc", ".txt", ".cpp", ".c"))]
    return sorted(out)


class BuildError(Exception):
    pass


_hdr_digest = {}


def digest_of(files):
    key = tuple(files)
    if key not in _hdr_digest:
        h = hashlib.sha256()
        for f in files:
            file_hash(h, f)
        _hdr_digest[key] = h.digest()
    return _hdr_digest[key]


def atomic_run(cmd, out):
    tmp = "%s.%d.tmp" % (out, os.getpid())
    r = sh(cmd + ["-o", tmp])
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout + r.stderr)
    os.replace(tmp, out)


def compile_obj(src, flags, headers):
    h = hashlib.sha256()
    h.update(digest_of(headers))
    h.update(repr(flags).encode())
    file_hash(h, src)
    out = os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        atomic_run([CXX] + flags + ["-c", src], out)
    else:
        os.utime(out)
    return out


def link(objs, out_name, flags, shared):
    h = hashlib.sha256(repr((objs, flags, shared)).encode()).hexdigest()[:32]
    d = os.path.join(BUILD, "bin", h)
    out = os.path.join(d, out_name)
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        atomic_run([CXX] + (["-shared"] if shared else []) + objs + flags, out)
    else:
        os.utime(out)
    return out


def prune_cache(limit=3 << 30):
    files = []
    for d, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(d, f)
            try:
                st = os.stat(p); files.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    total = sum(s for _, s, _ in files)
    for m, s, p in sorted(files):
        if total <= limit:
            break
        if time.time() - m < 3600:
            continue
        try:
            os.unlink(p); total -= s
        except OSError:
            pass


def build(harness):
    """returns (executable, environment)"""
    flavor = HARNESSES[harness].get("flavor", "asan")
    hd = repo_headers()
    inc = ["-I" + REPO] + xml_flags()[0]
    fl = BASE + FLAVORS[flavor]
    lib_src = sorted(glob.glob(REPO + "/typelib/*.cc") + glob.glob(REPO + "/typelib/utilmm/**/*.cc", recursive=True))
    plug = {n: sorted(glob.glob("%s/lang/%s/*.cc" % (REPO, n))) for n in ("csupport", "tlb", "idl")}
    bare = HARNESSES[harness].get("uninstrumented", [])
    ruby = HARNESSES[harness].get("ruby")
    ruby_inc, ruby_path, ruby_lib = ruby_flags() if ruby else ([], [], [])
    ext_src = sorted(glob.glob(REPO + "/bindings/ruby/ext/*.cc")) if ruby else []
    hsrc = [os.path.join(VERIF, "mc", s) for s in HARNESSES[harness]["sources"]]
    hhdr = sorted(glob.glob(VERIF + "/mc/*.hh"))
    jobs = []

    def flags_for(src):
        f = fl + inc
        if src.endswith("/pluginmanager.cc"):
            f = f + ['-DTYPELIB_HARDCODED_PLUGIN_PATH="%s"' % "/nonexistent"]
        if src in ext_src:
            f = f + ruby_inc
        if src.endswith("/endianness.cc"):
            f = f + ["-fno-strict-aliasing"]
        return f

    with ThreadPoolExecutor(NPROC) as pool:
        def go(src):
            return pool.submit(compile_obj, src, flags_for(src), hd)
        # The harness is the biggest translation unit: start it first
        fh = [pool.submit(compile_obj, s, (BASE + ["-O2"] if os.path.basename(s) in bare else fl) + inc + ruby_inc + ["-I" + VERIF + "/mc"] + HARNESSES[harness].get("cxxflags", []),
                          hd + hhdr) for s in hsrc]
        fp = {n: [go(s) for s in ss] for n, ss in plug.items()}
        fl_ext = [go(s) for s in ext_src]
        fl_lib = [go(s) for s in lib_src]
        lib_o = [f.result() for f in fl_lib]
        plug_o = {n: [f.result() for f in fs] for n, fs in fp.items()}
        ext_o = [f.result() for f in fl_ext]
        h_o = [f.result() for f in fh]
    lf = LINK[flavor] + ["-pthread", "-ldl", "-lboost_filesystem", "-lboost_system", "-lboost_thread"]
    lib = link(lib_o, "libtypeLib.so", lf, True)
    libdir = os.path.dirname(lib)
    rp = ["-L" + libdir, "-ltypeLib", "-Wl,-rpath," + libdir]
    names = {"csupport": "libtypeLang_cSupport.so", "tlb": "libtypeLang_tlb.so", "idl": "libtypeLang_idl.so"}
    dirs = []
    with ThreadPoolExecutor(4) as pool:
        fs = [pool.submit(link, plug_o[n], names[n], rp + xml_flags()[1] + lf, True) for n in names]
        plugs = [f.result() for f in fs]
    dirs = [os.path.dirname(p) for p in plugs]
    # the harness uses the standard C types directly, as the test suite does
    csup = [plugs[0], "-Wl,-rpath," + dirs[0]]
    exe = link(h_o, harness, csup + rp + HARNESSES[harness].get("ldflags", []) + ruby_lib + lf, False)
    env = dict(os.environ)
    env["TYPELIB_PLUGIN_PATH"] = ":".join(dirs)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:"
                           "detect_odr_violation=0:handle_abort=1:alloc_dealloc_mismatch=0:hard_rss_limit_mb=6000:"
                           "allocator_release_to_os_interval_ms=-1:quarantine_size_mb=16:malloc_context_size=6:" +
                           os.environ.get("MC_ASAN", ""))
    env["LC_ALL"] = "C.UTF-8"
    if ruby:
        ext = link(ext_o, "typelib_ruby.so", csup + rp + lf, True)
        env["MC_RUBYLIB"] = ":".join([VERIF + "/rb", VERIF + "/rb/shim", REPO + "/bindings/ruby/lib", os.path.dirname(ext)] + ruby_path)
        env["ASAN_OPTIONS"] += ":detect_stack_use_after_return=0:use_sigaltstack=0"
        for k in ("RUBYOPT", "RUBYLIB", "TYPELIB_RUBY_PLUGIN_PATH", "TYPELIB_CXX_LOADER"):
            env.pop(k, None)
    return exe, env


def limit_stack(size=1 << 20):
    # AddressSanitizer unpoisons the whole stack on every exception
    import resource
    resource.setrlimit(resource.RLIMIT_STACK, (size, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def load_findings():
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=C01 key=<key> | description
                body, _, desc = line[len("finding:"):].partition(" | ")
                p = body.split("property=", 1)[1].split()[0]
                key = body.split(" key=", 1)[1].strip()
                out.setdefault(p, {})[key] = desc.strip()
    return out


def run_check(prop, tier, only=None):
    t0 = time.time()
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    exe, env = build(cfg["harness"])
    build_s = time.time() - t0
    work = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    res_path = os.path.join(work, "result.json")
    env["MC_SCRATCH"] = os.path.join(work, "scratch")
    os.makedirs(env["MC_SCRATCH"])
    cap = 420 if tier == "quick" else float(os.environ.get("MC_THOROUGH_CAP", "3000"))
    cmd = [exe, prop, "--tier", tier, "--out", res_path, "--tmp", os.path.join(work, "w"),
           "--jobs", str(NPROC), "--cap", str(cap)] + cfg.get("args", [])
    if only:
        cmd += ["--only", only]
    try:
        r = sh(cmd, env=env, cwd=work, preexec_fn=lambda: limit_stack(HARNESSES[cfg["harness"]].get("stack", 1 << 20)), timeout=cap * 1.5 + 200)
        if r.returncode != 0 or not os.path.exists(res_path):
            print("harness failed: rc=%s\n%s\n%s" % (r.returncode, r.stdout[-3000:], r.stderr[-5000:]))
            return 2
        res = json.load(open(res_path))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = load_findings().get(prop, {})
    violations, seen_known = [], []
    for f in res["failures"]:
        (seen_known if f["key"] in known else violations).append(f)
    wall = time.time() - t0
    ok_exec = res["executions"] - sum(f["count"] for f in res["failures"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "states": res["states"],
            "transitions": res["transitions"],
            "traces_validated_against_impl": ok_exec,
            "executions": res["executions"],
            "executions_pruned": res["pruned"],
            "samples": res["samples"],
            "exhaustive": bool(res["complete"]),
            "bounds": cfg["bounds"][tier] if isinstance(cfg["bounds"], dict) else cfg["bounds"],
            "search_groups": res["groups"],
            "outcomes": res["counters"],
            "determinism_replays": res["determinism_checked"],
            "what_is_counted": "states: distinct canonical states or cases reached; transitions: operations executed on the "
                               "real code and compared with the reference model; traces: complete executions on which the "
                               "real code agreed with the model",
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 2),
        "build_s": round(build_s, 2),
        "violations": len(violations),
        "known_findings": [f["key"] for f in seen_known],
    }
    if cfg["level"] in ("fault_enumeration", "exploration"):
        ev["coverage"]["evaluations"] = res["executions"]
        ev["coverage"]["distinct_nontrivial"] = res["states"]
        ev["coverage"]["rule"] = cfg["rule"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d transitions, %d states, complete=%s, build %.1fs, search %.1fs" % (
        prop, tier, res["executions"], res["transitions"], res["states"], res["complete"], build_s, res["wall_s"]))
    for k, v in sorted(res["counters"].items()):
        print("   %-40s %d" % (k, v))
    for f in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[f["key"]] or f["key"]))
    rc = 0
    if violations:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, f in enumerate(violations):
            path = os.path.join(rd, "%s-%d.json" % (prop, i))
            with open(path, "w") as o:
                json.dump({"property": prop, "tier": tier, "trace": f["trace"], "key": f["key"], "message": f["msg"],
                           "log": f["log"].split("\n"), "only": only,
                           "how": "python3 check.py --replay %s" % path}, o, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   key=%s (%d executions)\n   %s" % (f["key"], f["count"], f["msg"][:1500].replace("\n", "\n   ")))
        rc = 1
    if res["errors"] or res["unconfirmed"]:
        for e in res["errors"] + res["unconfirmed"]:
            print("HARNESS-ERROR:", e[:3000])
        if rc == 0:
            rc = 2
    prune_cache()
    return rc


def main():
    if sys.argv[1] == "--setup":
        for h in HARNESSES:
            build(h)
            print("built", h)
        return 0
    if sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2]))
        exe, env = build(PROPS[rp["property"]]["harness"])
        env["MC_SCRATCH"] = tempfile.mkdtemp(prefix="mc-replay-")
        cmd = [exe, rp["property"], "--tier", rp["tier"], "--replay", rp["trace"]] + \
            PROPS[rp["property"]].get("args", []) + (["--only", rp["only"]] if rp.get("only") else [])
        r = subprocess.run(cmd, env=env, preexec_fn=lambda: limit_stack(HARNESSES[PROPS[rp["property"]]["harness"]].get("stack", 1 << 20)))
        shutil.rmtree(env["MC_SCRATCH"], ignore_errors=True)
        return 1 if r.returncode else 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    try:
        return run_check(prop, tier, only)
    except BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
