#!/usr/bin/env python3
"""Builds /repo's current sources with a property's harness and runs it.

  check.py run ID                quick or thorough by $VERIF_TIER, seed by $VERIF_SEED
  check.py replay FILE           replays a saved violation against /repo's current tree
  check.py build ID...           builds only
Options of run: --tier T --seed N --scale X --only SUBPROPERTY --cap SECONDS --repo DIR
"""
import argparse
import fcntl
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")

COMMON = ["-std=c++17", "-w", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN"]
VARIANTS = {
    # the optimisation level and assertions of the shipped build; reads of uninitialised matrices turn into NaN
    "opt": ("g++", ["-O2", "-DNDEBUG"], []),
    # memory errors and Eigen / libstdc++ index assertions become failures
    "san": ("g++", ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"], ["-fsanitize=address"]),
    # the same, and undefined behaviour
    "ub": ("g++", ["-O1", "-fsanitize=address,signed-integer-overflow,shift,float-cast-overflow,bounds,integer-divide-by-zero,return,unreachable,bool,enum,vla-bound",
                     "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"], ["-fsanitize=address,undefined"]),
    # coverage-guided fuzzing, thorough tier only
    "fuzz": ("clang++", ["-O1", "-fsanitize=fuzzer-no-link,address,signed-integer-overflow,shift,float-cast-overflow,bounds,integer-divide-by-zero,return,"
                         "unreachable,bool,enum,vla-bound", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
             ["-fsanitize=fuzzer,address,undefined"]),
}


def harness_of(pid):
    names = [n for n in sorted(os.listdir(HARNESS)) if re.match(pid.lower() + r"_.*\.cpp$", n)]
    if len(names) != 1:
        sys.exit("no harness for " + pid)
    return os.path.join(HARNESS, names[0])


def variant_of(src):
    with open(src) as f:
        m = re.search(r"// variant: (\w+)", f.read())
    return m.group(1) if m else "opt"


def units_of(src):
    """Folders of the library that the harness needs (saves build time); None: all."""
    with open(src) as f:
        m = re.search(r"// units: (.*)", f.read())
    return m.group(1).split() if m else None


def build(pids, repo, variant=None):
    """Returns {pid: binary}; raises CalledProcessError with the compiler's output when a build fails.

    A harness that declares the folders it needs is first built from those alone; if that does not link (the code under
    test has got new dependencies), from everything."""
    if len(pids) == 1 and units_of(harness_of(pids[0])):
        try:
            return build_with(pids, repo, variant, units_of(harness_of(pids[0])), quiet=True)
        except subprocess.CalledProcessError:
            pass
    return build_with(pids, repo, variant, None)


def build_with(pids, repo, variant, units, quiet=False):
    base = os.path.join(repo, "eskf_vio_backend")
    sources = sorted(os.path.join(d, f) for d, _, fs in os.walk(os.path.join(base, "src")) for f in fs if f.endswith(".cpp"))
    if units:
        sources = [f for f in sources if os.path.relpath(f, os.path.join(base, "src")).startswith(tuple(units))]
    incs = sorted(d for d, _, fs in os.walk(os.path.join(base, "include")) if any(f.endswith((".hpp", ".h")) for f in fs))
    out = {}
    bdir = os.path.join(VERIF, "build", re.sub(r"\W+", "_", os.path.abspath(repo)).strip("_"))
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        rules, targets = [], {}
        seen = set()

        def obj(v, src, tag):
            o = os.path.join(v, tag, re.sub(r"\W+", "_", os.path.relpath(src, repo if tag == "lib" else HARNESS)) + ".o")
            if o not in seen:
                seen.add(o)
                rules.append("build %s: cxx_%s %s" % (o, v, src))
            return o

        for pid in pids:
            src = harness_of(pid)
            v = variant or variant_of(src)
            objs = [obj(v, s, "lib") for s in sources] + [obj(v, src, "h")]
            objs.append(obj(v, os.path.join(HARNESS, "fuzzmain.cpp" if v == "fuzz" else "main.cpp"), "h"))
            exe = os.path.join(v, pid.lower())
            rules.append("build %s: link_%s %s" % (exe, v, " ".join(objs)))
            targets[pid] = exe
            out[pid] = os.path.join(bdir, exe)
        head = ["ninja_required_version = 1.5"]
        for v, (cxx, cf, lf) in VARIANTS.items():
            flags = " ".join(COMMON + cf + ["-I" + HARNESS] + ["-I" + i for i in incs] + ["-isystem", "/usr/include/eigen3"])
            head += ["rule cxx_" + v, "  command = %s %s -MMD -MF $out.d -c $in -o $out" % (cxx, flags), "  depfile = $out.d", "  deps = gcc",
                     "rule link_" + v, "  command = %s $in %s -o $out" % (cxx, " ".join(lf))]
        fn = "build_%s_%s.ninja" % ("_".join(pids) if len(pids) < 4 else "all", variant or "default")
        with open(os.path.join(bdir, fn), "w") as f:
            f.write("\n".join(head + rules) + "\n")
        # each .ninja file has its own builddir for the log, but objects are shared
        r = subprocess.run(["ninja", "-C", bdir, "-f", fn] + list(targets.values()), capture_output=True, text=True)
        if r.returncode != 0:
            if not quiet:
                sys.stderr.write("\n".join(l for l in r.stdout.splitlines() if not l.startswith(("[", "g++", "clang++")))[-4000:] + r.stderr[-2000:])
            raise subprocess.CalledProcessError(r.returncode, "ninja")
    return out


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    return e


def run_fuzz(pid, repo, seed, rdir, seconds):
    """Coverage-guided campaign over the same generators and oracles (thorough tier).  An artifact counts only when the ordinary
    harness confirms it, which also shrinks it and writes the replay file."""
    exe = build([pid], repo, "fuzz")[pid]
    work = tempfile.mkdtemp(prefix="viofuzz.")
    e = dict(env(), VT_SCRATCH=work + "/scratch")
    os.makedirs(work + "/scratch")
    os.makedirs(work + "/corpus")
    try:
        subprocess.run([exe, "-seed=%d" % (seed or 1), "-max_len=4096", "-len_control=20", "-timeout=60", "-rss_limit_mb=3000", "-artifact_prefix=" + work + "/",
                        "-max_total_time=%d" % seconds, "-print_final_stats=1", "-use_value_profile=0", "-jobs=8", "-workers=8", work + "/corpus"],
                       cwd=work, capture_output=True, text=True, env=e, timeout=seconds + 200)
        runs = cov = 0
        for n in os.listdir(work):
            if n.startswith("fuzz-") and n.endswith(".log"):
                with open(os.path.join(work, n), errors="replace") as fh:
                    t = fh.read()
                m = re.findall(r"stat::number_of_executed_units: (\d+)", t)
                runs += sum(int(k) for k in m)
                cov = max([cov] + [int(k) for k in re.findall(r"cov: (\d+)", t)])
        found = [n for n in sorted(os.listdir(work)) if n.startswith(("crash-", "timeout-"))]
        info = {"executions": runs, "edges_covered": cov, "corpus": len(os.listdir(work + "/corpus")), "seconds": seconds, "artifacts": len(found)}
        for n in found[:8]:
            rec = os.path.join(work, "record")
            try:
                subprocess.run([exe, os.path.join(work, n)], cwd=work, capture_output=True, env=dict(e, VT_FUZZ_RECORD=rec), timeout=120)
            except subprocess.TimeoutExpired:
                pass
            with open(rec, "rb") as fh:
                d = fh.read()
            k = struct.unpack_from("<I", d, 0)[0]
            name = d[8 + 8192:8 + 8192 + 200].split(b"\0")[0].decode()
            choices = struct.unpack_from("<%dQ" % k, d, 8 + 8192 + 65536)
            path = os.path.join(rdir, "%s-%s-fuzz-%s.replay" % (pid, name, n[-8:]))
            with open(path, "w") as fh:
                fh.write("property %s\nsubproperty %s\nmessage coverage-guided\nchoices %s\n" % (pid, name, " ".join(map(str, choices))))
            r = subprocess.run([build([pid], repo)[pid], "--refine", path, "--shrink", "60"], env=e, stdout=subprocess.PIPE, text=True)
            if r.returncode == 1:
                return info, path
            os.remove(path)
        return info, None
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["run", "replay", "build"])
    ap.add_argument("args", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", default="1")
    ap.add_argument("--only", default="")
    ap.add_argument("--cap", default="")
    ap.add_argument("--jobs", default="8")
    ap.add_argument("--repo", default=os.environ.get("VIO_REPO", "/repo"))
    a = ap.parse_args()
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    if a.cmd == "build":
        build(a.args, a.repo)
        return 0
    if a.cmd == "replay":
        f = a.args[0]
        with open(f) as fh:
            pid = fh.readline().split()[1]
        scratch = tempfile.mkdtemp(prefix="vioscratch.")
        try:
            return subprocess.run([build([pid], a.repo)[pid], "--replay", f], env=dict(env(), VT_SCRATCH=scratch)).returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    pid = a.args[0]
    tier = "thorough" if a.tier == "thorough" else "quick"
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    t0 = time.time()
    try:
        exe = build([pid], a.repo)[pid]
    except subprocess.CalledProcessError:
        print("ERROR property=%s the harness does not build against %s" % (pid, a.repo))
        return 3
    t1 = time.time()
    m = re.search(r"// fuzz: (\d+)", open(harness_of(pid)).read())
    fuzz = int(m.group(1)) if m and tier == "thorough" and not a.only else 0         # seconds
    cap = a.cap or ("420" if tier == "quick" else str(750 - (fuzz + 130 if fuzz else 0)))
    cmd = [exe, "--tier", tier, "--seed", str(a.seed), "--evidence", ev, "--replay-dir", rdir, "--scale", a.scale, "--cap", cap,
           "--shrink", "60" if tier == "quick" else "90", "--jobs", a.jobs]
    if a.only:
        cmd += ["--only", a.only]
    scratch = tempfile.mkdtemp(prefix="vioscratch.")
    try:
        rc = subprocess.run(cmd, env=dict(env(), VT_SCRATCH=scratch)).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if rc not in (0, 1):
        print("ERROR property=%s harness exit status %d" % (pid, rc))
        return 3
    if rc == 0 and fuzz:
        try:
            info, replay = run_fuzz(pid, a.repo, a.seed, rdir, fuzz)
        except (subprocess.CalledProcessError, subprocess.TimeoutExpired, OSError):
            info, replay = {"executions": 0, "unavailable": True}, None
        with open(ev) as f:
            d = json.load(f)
        d["coverage"]["coverage_guided"] = info
        if replay:
            d["violations"] = 1
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            rc = 1
        with open(ev, "w") as f:
            json.dump(d, f, indent=1)
    sys.stderr.write("[%s] build %.1f s, total %.1f s\n" % (pid, t1 - t0, time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
