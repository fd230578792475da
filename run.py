#!/usr/bin/env python3
"""Driver of the property checks: run.py <ID> [--tier quick|thorough] [--replay FILE] | --setup | --list

Generates a ninja file that compiles /repo's current sources against the stand-ins of /verif/stubs, builds the test
binaries of one property, runs them in parallel shards, replays every failure three times before reporting it and
writes evidence/<ID>.json.
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
sys.path.insert(0, os.path.join(HERE, "checks"))
JOBS = 8

CXX = "g++"
BASE = "-std=c++20 -w -pthread -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer"


def sh_quote(s):
    return "'" + s.replace("'", "'\\''") + "'"


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def configure(src, subst):
    with open(src) as f:
        text = f.read()
    for k, v in subst.items():
        text = text.replace("@%s@" % k, v)
    return text


class Ninja:
    def __init__(self):
        self.lines = [
            "ninja_required_version = 1.5",
            "builddir = %s" % BUILD,
            "rule cxx",
            "  command = $cxx $flags -MMD -MF $out.d -c $in -o $out",
            "  depfile = $out.d",
            "  deps = gcc",
            "  description = CXX $out",
            "rule ar",
            "  command = rm -f $out && ar crs $out $in",
            "rule link",
            "  command = $cxx $flags -o $out $in $libs",
        ]
        self.done = set()

    def esc(self, p):
        return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

    def build(self, out, rule, ins, **kw):
        if out in self.done:
            return out
        self.done.add(out)
        self.lines.append("build %s: %s %s" % (self.esc(out), rule, " ".join(self.esc(i) for i in ins)))
        for k, v in kw.items():
            self.lines.append("  %s = %s" % (k, v.replace("$", "$$") if k == "flags" else v))
        return out

    def write(self, path):
        write_if_changed(path, "\n".join(self.lines) + "\n")


def src_dirs():
    out = [os.path.join(REPO, "src")]
    for d, subs, _ in os.walk(os.path.join(REPO, "src")):
        subs.sort()
        if "setups" in subs and d == os.path.join(REPO, "src"):
            subs.remove("setups")
        for s in subs:
            out.append(os.path.join(d, s))
    return out


def config_headers(ndim, geom, eos):
    d = os.path.join(BUILD, "cfg", "%d_%s_%s" % (ndim, geom, re.sub(r"\W", "_", eos)))
    sub = {
        "Heraclespp_EOS": eos,
        "Heraclespp_GEOM": geom,
        "Heraclespp_NDIM": str(ndim),
        "GIT_BUILD_STRING": "verif-build-string",
        "GIT_BRANCH": "verif-branch",
        "DATE_STRING": "01/02/03",
        "TIME_STRING": "04:05:06",
    }
    for f in glob.glob(os.path.join(REPO, "src/utils/*.in")):
        name = os.path.basename(f)[:-3]
        write_if_changed(os.path.join(d, name), configure(f, sub))
    return d


def includes(cfg):
    inc = ["-I" + cfg] if cfg else []
    inc += ["-I" + os.path.join(HERE, "lib")]
    inc += ["-I" + os.path.join(HERE, "stubs", s) for s in ("kokkos", "mpi", "pdi")]
    inc += ["-I" + d for d in src_dirs()]
    inc += ["-I" + os.path.join(REPO, "vendor/inih/include")]
    inc += ["-isystem /usr/include/hdf5/openmpi"]
    return " ".join(inc)


H5 = "-lhdf5_openmpi -lyaml-cpp"


def inih_objs(n, opt, san):
    d = os.path.join(BUILD, "inih" + hashlib.sha1((opt + san).encode()).hexdigest()[:6])
    fl = "%s %s %s -I%s/vendor/inih/include" % (BASE, opt, san, REPO)
    return [
        n.build(d + "/ini.o", "cxx", [REPO + "/vendor/inih/src/ini.c"], cxx="gcc", flags="-w -pthread %s %s -I%s/vendor/inih/include" % (opt, san, REPO)),
        n.build(d + "/INIReader.o", "cxx", [REPO + "/vendor/inih/src/INIReader.cpp"], cxx=CXX, flags=fl),
    ]


FULL_LIB = False


def lib_objs(n, ndim, geom, opt, groups=None):
    """The code base except main.cpp (or only some of its directories), as a static library per (ndim, geometry)."""
    if FULL_LIB:
        groups = None
    cfg = config_headers(ndim, geom, "PerfectGas")
    d = os.path.join(BUILD, "lib_%d_%s%s" % (ndim, geom, opt.replace(" ", "")))
    flags = "%s %s %s" % (BASE, opt, includes(cfg))
    objs = []
    for sd in src_dirs():
        rel = os.path.relpath(sd, REPO + "/src")
        if groups is not None and rel.split("/")[0] not in groups:
            continue
        for f in sorted(glob.glob(sd + "/*.cpp")):
            if f == os.path.join(REPO, "src/main.cpp"):
                continue
            o = os.path.join(d, os.path.relpath(f, REPO + "/src").replace("/", "_") + ".o")
            objs.append(n.build(o, "cxx", [f], cxx=CXX, flags=flags))
    if groups is not None:
        if "utils" in groups:
            objs += inih_objs(n, opt, "")
        return n.build(d + "/lib_" + "_".join(g.replace(".", "top") for g in groups) + ".a", "ar", objs)
    objs.append(n.build(d + "/git_version.o", "cxx", [cfg + "/git_version.cpp"], cxx=CXX, flags=flags))
    objs.append(n.build(os.path.join(BUILD, "pdi_stub.o"), "cxx", [HERE + "/stubs/pdi/pdi_stub.cpp"], cxx=CXX, flags="%s -O1 %s" % (BASE, includes(None))))
    objs += inih_objs(n, opt, "")
    return n.build(d + "/libh.a", "ar", objs)


def add_binary(n, pid, b):
    """b: dict(name, src, ndim, geom, eos, gravity, setup, lib, defs, opt, san, cxx, fuzz...)"""
    opt = b.get("opt", "-O1")
    san = b.get("san", "")
    cxx = b.get("cxx", CXX)
    ndim, geom, eos = b.get("ndim", 1), b.get("geom", "Cartesian"), b.get("eos", "PerfectGas")
    cfg = config_headers(ndim, geom, eos)
    d = os.path.join(BUILD, "bin", pid)
    defs = " ".join("-D" + x.replace("@REPO@", REPO) for x in b.get("defs", []))
    sdir = ""
    own = os.path.join(HERE, "checks/setup_%s" % b.get("setup"))
    if b.get("setup") and not os.path.isdir(own):
        sdir = "-I%s/src/setups/%s" % (REPO, b["setup"])
    flags = "%s %s %s %s %s %s" % (BASE, opt, san, defs, sdir, includes(cfg))
    ins = []
    for s in b["src"] if isinstance(b["src"], list) else [b["src"]]:
        s = s.replace("@REPO@", REPO)
        ins.append(n.build("%s/%s.%s.o" % (d, b["name"], os.path.basename(s)), "cxx", [os.path.join(HERE, "checks", s) if not s.startswith("/") else s], cxx=cxx, flags=flags))
    for k, s in enumerate(b.get("csrc", [])):
        ins.append(n.build("%s/%s.c%d.o" % (d, b["name"], k), "cxx", [s.replace("@REPO@", REPO)], cxx="clang" if cxx.startswith("clang") else "gcc", flags="-w %s %s %s -I%s/vendor/inih/include" % (opt, san, defs, REPO)))
    if b.get("setup"):
        sd = own if os.path.isdir(own) else os.path.join(REPO, "src/setups", b["setup"])
        grav = b.get("gravity", "Uniform")
        o = os.path.join(BUILD, "main", "%d_%s_%s_%s_%s%s.o" % (ndim, geom, re.sub(r"\W", "_", eos), grav, b["setup"], opt))
        mf = "%s %s -Dmain=heraclespp_main -DMY_SETUP='\"%s\"' -DHERACLESPP_GRAVITY_%s -I%s %s" % (BASE, opt, b["setup"], grav, sd, includes(cfg))
        ins.append(n.build(o, "cxx", [REPO + "/src/main.cpp"], cxx=CXX, flags=mf))
    libs = b.get("libs", "")
    if b.get("lib", True):
        ins.append(lib_objs(n, ndim, geom, b.get("libopt", "-O1"), b.get("groups")))
        if not b.get("groups") or FULL_LIB:
            libs += " " + H5
    out = "%s/%s" % (d, b["name"])
    n.build(out, "link", ins, cxx=cxx, flags="-pthread " + san, libs=libs + " -lpthread -lm -ldl")
    return out


def generate(table, only=None):
    n = Ninja()
    targets = {}
    for pid, chk in table.items():
        if only and pid not in only:
            continue
        targets[pid] = {b["name"]: (add_binary(n, pid, b), b) for b in chk["bins"]}
    return n, targets


def forget_stale():
    """ninja compares times: a source whose content changed without becoming newer (a copy that keeps the times, say)
    would not be compiled again, so everything is rebuilt when that happens."""
    path = os.path.join(BUILD, "sources.json")
    try:
        with open(path) as f:
            old = json.load(f)
    except (OSError, ValueError):
        old = None
    new = {"repo": REPO, "time": time.time(), "files": {}}
    stale = old is None
    for top in ("src", "vendor/inih"):
        for d, _, files in os.walk(os.path.join(REPO, top)):
            for name in files:
                f = os.path.join(d, name)
                with open(f, "rb") as h:
                    digest = hashlib.sha1(h.read()).hexdigest()
                new["files"][f] = digest
                if old and old["repo"] == REPO and old["files"].get(f) != digest and os.stat(f).st_mtime <= old["time"]:
                    stale = True
    if stale:
        for f in glob.glob(os.path.join(BUILD, ".ninja_*")):
            os.remove(f)
        shutil.rmtree(os.path.join(BUILD, "bin"), ignore_errors=True)
    write_if_changed(path, json.dumps(new))


def run_ninja(n, wanted, tag, quiet=False):
    forget_stale()
    path = os.path.join(BUILD, "build_%s.ninja" % tag)
    n.write(path)
    cmd = ["ninja", "-f", path, "-j%d" % JOBS] + wanted
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=BUILD)
    if p.returncode != 0 and quiet and "undefined reference" in p.stdout:
        return None
    if p.returncode != 0:
        print("BUILD FAILED")
        errs = [l for l in p.stdout.splitlines() if "error" in l or "undefined" in l]
        print("\n".join(errs[:20]) or p.stdout[-3000:])
        return False
    return True


def known_findings(pid):
    out = {}
    try:
        with open(os.path.join(HERE, "KNOWN_FINDINGS")) as f:
            for line in f:
                m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def limit():
    # a runaway allocation must not take the sandbox down
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_shard(exe, b, args, scratch, timeout):
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1", OMPI_MCA_btl="self")
    log = os.path.join(scratch, "log")
    with open(log, "w") as f:
        p = subprocess.Popen([exe] + args, stdout=f, stderr=subprocess.STDOUT, cwd=scratch, env=env, preexec_fn=limit, start_new_session=True)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return "timeout", log
    return p.returncode, log


def replay(exe, path, scratch, shrink=False, known=()):
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")
    cmd = [exe, "--replay", path, "--scratch", scratch, "--case-cpu", "20"] + ([] if shrink else ["--no-shrink"])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", cwd=scratch, env=env, timeout=300, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        return None
    for line in reversed(p.stdout.splitlines()):
        if line.startswith("{\"result\""):
            try:
                return json.loads(line)
            except ValueError:
                return None
    return None


def do_check(table, pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = table[pid]
    n, targets = generate(table, {pid})
    built = run_ninja(n, [t[0] for t in targets[pid].values()], pid, quiet=True)
    if built is False:
        return 2
    if built is None:
        # perhaps a function moved to another directory: link against everything
        global FULL_LIB
        FULL_LIB = True
        n, targets = generate(table, {pid})
        if not run_ninja(n, [t[0] for t in targets[pid].values()], pid):
            return 2
    t_build = time.time() - t0
    known = known_findings(pid)
    scratch_root = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    try:
        jobs = []
        for name, (exe, b) in targets[pid].items():
            cases = b.get(tier, b.get("quick", 200))
            shards = b.get("shards", {}).get(tier, 1 if tier == "quick" else 4)
            tcap = b.get("time", {}).get(tier, 60 if tier == "quick" else 1500)
            for s in range(shards):
                sc = os.path.join(scratch_root, "%s_%d" % (name, s))
                out = os.path.join(sc, "out.json")
                args = ["--seed", str(seed), "--cases", str(cases), "--time", str(tcap), "--out", out, "--scratch", sc, "--shard", "%d/%d" % (s, shards), "--known", ",".join(known)]
                jobs.append((name, exe, b, s, sc, out, args, tcap))
        # longest first
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda j: run_shard(j[1], j[2], j[6], j[4], j[7] * 3 + 240), jobs))
        evaluations = distinct = discarded = 0
        samples, labels, per_test, failures, known_hit = [], {}, {}, [], {}
        broken = []
        for (name, exe, b, s, sc, out, args, tcap), (rc, log) in zip(jobs, res):
            data = None
            try:
                with open(out) as f:
                    data = json.load(f)
            except (OSError, ValueError):
                data = None
            if data is None:
                crash = out + ".crash"
                if os.path.exists(crash):
                    r = replay(exe, crash, sc, shrink=True)
                    if r and r["result"] == 1:
                        with open(crash) as f:
                            test = f.readline().strip()
                        failures.append(dict(bin=name, exe=exe, test=test, msg=r["msg"], key=r["key"], text=r["text"], replay=crash, sc=sc))
                        continue
                with open(log, errors="replace") as f:
                    tail = f.read()[-2000:]
                broken.append("%s shard %d ended with %s: %s" % (name, s, rc, tail))
                continue
            for t, st in data["tests"].items():
                evaluations += st["cases"]
                distinct += st["distinct"]
                discarded += st["discarded"]
                key = "%s/%s" % (name, t)
                pt = per_test.setdefault(key, {"cases": 0, "distinct_nontrivial": 0, "discarded": 0})
                pt["cases"] += st["cases"]
                pt["distinct_nontrivial"] += st["distinct"]
                pt["discarded"] += st["discarded"]
                for l, c in st["labels"].items():
                    labels[t + ":" + l] = labels.get(t + ":" + l, 0) + c
                for x in st["samples"]:
                    if len([q for q in samples if q.startswith(t + ": ")]) < 2:
                        samples.append(t + ": " + x)
                for k, v in st["known_hits"].items():
                    known_hit[k] = known_hit.get(k, 0) + v[0]
            for f in data["failures"]:
                failures.append(dict(bin=name, exe=exe, sc=sc, **f))
        violations = []
        seen = set()
        for f in failures:
            sig = (f["bin"], f["test"], f["key"])
            if sig in seen:
                continue
            rs = [replay(f["exe"], f["replay"], os.path.join(f["sc"], "rp%d" % k)) for k in range(3)]
            if not all(r and r["result"] == 1 for r in rs):
                broken.append("failure of %s/%s does not replay: %s (%s)" % (f["bin"], f["test"], f["msg"], rs))
                continue
            seen.add(sig)
            if rs[0]["key"] and rs[0]["key"] in known:
                known_hit[rs[0]["key"]] = known_hit.get(rs[0]["key"], 0) + 1
                continue
            dst = os.path.join(replays, "%s-%s-%s.replay" % (pid, f["bin"], f["test"]))
            with open(f["replay"]) as src:
                lines = src.read().splitlines()
            lines[1] = "binary " + f["bin"]
            with open(dst, "w") as o:
                o.write("\n".join(lines) + "\n")
            violations.append((f, rs[0], dst))
        for k, text in known.items():
            print("KNOWN-FINDING: property=%s key=%s %s (hit %d times in this run)" % (pid, k, text, known_hit.get(k, 0)))
        ev = {
            "property": pid,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": distinct,
                "rule": chk["rule"],
                "samples": samples[:24] or ["none"],
                "discarded": discarded,
                "per_test": per_test,
                "labels": labels,
                "builds": sorted(targets[pid]),
            },
            "assumptions": chk.get("assumptions", DEFAULT_ASSUMPTIONS),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(violations),
        }
        write_if_changed(os.path.join(HERE, "evidence", pid + ".json"), json.dumps(ev, indent=1) + "\n")
        for f, r, dst in violations:
            print("failing case of %s/%s: %s" % (f["bin"], f["test"], r["text"][:1500]))
            print("  " + r["msg"][:1500])
            print("VIOLATION property=%s replay=%s" % (pid, dst))
        print("%s %s: %d cases (%d distinct non-trivial, %d discarded), %d violations, build %.1fs, total %.1fs" % (pid, tier, evaluations, distinct, discarded, len(violations), t_build, time.time() - t0))
        if violations:
            for x in broken:
                print("NOTE: " + x)
            return 1
        if broken:
            for x in broken:
                print("ERROR: " + x)
            return 2
        return 0
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)


DEFAULT_ASSUMPTIONS = [
    "the code under test is compiled against the stand-ins of /verif/stubs for Kokkos, MPI, PDI and paraconf (none of them is installed), HDF5 and yaml-cpp are the real libraries",
    "double arithmetic of the host; comparisons use the tolerances stated in the check sources",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    from table import TABLE
    if a.list:
        print("\n".join(TABLE))
        return 0
    if a.setup:
        for tool in ("g++", "ninja", "ar"):
            if not shutil.which(tool):
                print("missing " + tool)
                return 1
        print("setup: checks build what they need from %s" % REPO)
        return 0
    if a.build:
        ids = {a.id} if a.id else None
        n, targets = generate(TABLE, ids)
        return 0 if run_ninja(n, [], "all" if not ids else a.id) else 2
    if a.id not in TABLE:
        print("unknown property", a.id)
        return 2
    if a.replay:
        with open(a.replay) as f:
            lines = f.read().splitlines()
        name = lines[1].split(" ", 1)[1]
        n, targets = generate(TABLE, {a.id})
        exe = targets[a.id][name][0]
        if not run_ninja(n, [exe], a.id):
            return 2
        sc = tempfile.mkdtemp(prefix="verif_rp_")
        r = replay(exe, os.path.abspath(a.replay), sc)
        shutil.rmtree(sc, ignore_errors=True)
        print(json.dumps(r, indent=1))
        if r and r["result"] == 1:
            print("VIOLATION property=%s replay=%s" % (a.id, os.path.abspath(a.replay)))
            return 1
        return 0
    return do_check(TABLE, a.id, a.tier)


if __name__ == "__main__":
    sys.exit(main())
