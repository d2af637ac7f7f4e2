#!/usr/bin/env python3
"""Build the current /repo working tree with a property's harness and run it.

  run.py check <ID>            decide the property (VERIF_SEED, VERIF_TIER)
  run.py replay <ID> <file>    run one replay file and print the outcome
  run.py build <ID>            build only
  run.py setup                 check that the tools are there
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
JOBS = max(2, os.cpu_count() or 8)
from checks import CHECKS  # noqa: E402

STD = ["-fno-common", "-fno-strict-aliasing", "-D_FILE_OFFSET_BITS=64", "-D_REENTRANT", "-D_GNU_SOURCE", "-gline-tables-only", "-w"]
SAN = ["-fsanitize=address,bounds,return,unreachable,vla-bound,integer-divide-by-zero", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
LIBS = ["-lssl", "-lcrypto", "-lpthread", "-lm", "-lrt"]


class CheckError(Exception):
    pass


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def library_sources():
    srcs = sorted(glob.glob(os.path.join(REPO, "src/main/**/*.c"), recursive=True))
    if not srcs:
        raise CheckError("no sources below %s/src/main" % REPO)
    return srcs


def makefile_objects():
    try:
        text = open(os.path.join(REPO, "Makefile")).read()
    except OSError:
        return set()
    return set(re.findall(r"([\w.-]+)\.o\b", text))


def build(prop, binary, outdir):
    """binary: {src, mode, extra, libs}; returns path of the executable."""
    mode = binary["mode"]
    inc = ["-I" + os.path.join(REPO, "src/include")]
    hinc = ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "props")]
    opt = binary.get("opt", "-O1")
    if mode == "asan":
        lib_flags = [opt] + SAN + (["-fsanitize-coverage=inline-8bit-counters"] if binary.get("cov", True) else [])
        prop_flags = ["-O1"] + SAN
        eng_flags = ["-O1"] + SAN
        link = SAN
    elif mode == "mt":
        lib_flags = [opt, "-fsanitize=thread"]
        prop_flags = ["-O1", "-fsanitize=thread", "-DVFMT"]
        eng_flags = ["-O2", "-DVFMT"]
        link = []
    elif mode == "plain":
        lib_flags = [opt]
        prop_flags = ["-O2"]
        eng_flags = ["-O2"]
        link = []
    else:
        raise CheckError("mode " + mode)
    syms = os.path.join(VERIF, "harness", "redef.syms")
    msyms = os.path.join(VERIF, "harness", "redef_mt.syms")

    def rename(obj):
        files = [syms] + ([msyms] if mode == "mt" else [])
        cmd = ["objcopy"]
        for f in files:
            cmd += ["--redefine-syms=" + f]
        return sh(cmd + [obj])

    def cc(src, obj, flags, ren):
        rc, out = sh(["clang"] + flags + ["-c", src, "-o", obj])
        if rc == 0 and ren:
            rc, out = rename(obj)
        return rc, out, src, obj

    jobs = []
    names = makefile_objects()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for src in library_sources():
            rel = os.path.relpath(src, os.path.join(REPO, "src/main")).replace("/", "__")[:-2]
            obj = os.path.join(outdir, "lib_" + rel + ".o")
            jobs.append(("lib", ex.submit(cc, src, obj, ["-std=gnu99"] + STD + lib_flags + binary.get("libflags", []) + inc, True)))
        hsrc = [binary["src"]] + binary.get("with", [])
        for s in hsrc:
            obj = os.path.join(outdir, "p_" + os.path.basename(s)[:-2] + ".o")
            jobs.append(("prop", ex.submit(cc, os.path.join(VERIF, s), obj, ["-std=gnu11"] + STD + prop_flags + inc + hinc + binary.get("cflags", []), True)))
        eng = ["harness/vf.c", "harness/vf_alloc.c", "harness/vf_sys.c"] + (["harness/vfmt.c"] if mode == "mt" else [])
        eng += binary.get("plain", [])
        for s in eng:
            obj = os.path.join(outdir, "e_" + os.path.basename(s)[:-2] + ".o")
            jobs.append(("eng", ex.submit(cc, os.path.join(VERIF, s), obj, ["-std=gnu11"] + STD + eng_flags + hinc + binary.get("cflags", []), False)))
    objs = []
    for kind, j in jobs:
        rc, out, src, obj = j.result()
        if rc != 0:
            base = os.path.basename(src)[:-2]
            if kind == "lib" and names and base not in names:
                continue  # not part of the library build
            raise CheckError("compiling %s failed:\n%s" % (src, out))
        objs.append(obj)
    exe = os.path.join(outdir, "check_" + mode)
    rc, out = sh(["clang"] + link + ["-o", exe] + objs + binary.get("libs", []) + LIBS)
    if rc != 0:
        raise CheckError("linking failed:\n" + out)
    return exe


def limits():
    for want in (1 << 30, 512 << 20, 64 << 20):
        try:
            hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
            resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
            return
        except (ValueError, OSError):
            continue


def run_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:quarantine_size_mb=16:max_malloc_fill_size=0:allocator_release_to_os_interval_ms=-1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    env["LC_ALL"] = "C"
    env["TZ"] = "UTC"
    return env


def run_harness(cmd, seconds):
    p = subprocess.Popen(cmd, env=run_env(), preexec_fn=limits, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(30, seconds))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise CheckError("harness did not finish in time")
    return p.returncode, out


def known_findings(prop):
    """Lines 'known: property=<id> match=<regex> :: <text>' of KNOWN_FINDINGS."""
    res = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
            m = re.match(r"known: property=(\w+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append(m.group(2))
    except OSError:
        pass
    return res


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") & 0xFFFFFFFFFFFFFFFF
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    conf = CHECKS[prop]
    top = os.path.join(VERIF, "build", prop)
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evals = nontriv = 0
    samples, targets, rules, violation = [], [], [], None
    for k, b in enumerate(conf["binaries"]):
        out = os.path.join(top, "%d_%s" % (k, b["mode"]))
        os.makedirs(out)
        exe = build(prop, b, out)
        cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--shards", "8"]
        if os.environ.get("VF_SCALE"):
            cmd += ["--scale", os.environ["VF_SCALE"]]
        if os.environ.get("VF_TARGET"):
            cmd += ["--target", os.environ["VF_TARGET"]]
        code, text = run_harness(cmd, 870 - (time.time() - t0))
        if code not in (0, 1, 3):
            raise CheckError("harness ended with %s:\n%s" % (code, text[-2000:]))
        r = json.load(open(os.path.join(out, "result.json")))
        rules.append(r["rule"])
        for t in r["targets"]:
            evals += t["evaluations"]
            nontriv += t["distinct_nontrivial"]
            samples += ["%s: %s" % (t["name"], s[:400]) for s in t["samples"][:2]]
            targets.append({x: t[x] for x in ("name", "evaluations", "nontrivial", "distinct_nontrivial", "labels", "wall_s")})
            f = t.get("failure")
            if f:
                violation = (code, t["name"], f)
        for o in glob.glob(os.path.join(out, "*.o")):
            os.unlink(o)
        if violation:
            break
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": conf["level"],
        "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv, "rule": " | ".join(dict.fromkeys(rules)), "samples": samples[:12], "targets": targets},
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation and violation[0] == 1 else 0,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    for t in targets:
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (prop, t["name"], t["evaluations"], t["distinct_nontrivial"], t["wall_s"]))
    if violation:
        rc, name, f = violation
        if rc == 3:
            print("target %s failed once but the failure did not reproduce: %s" % (name, printable(f["message"])))
            return 2
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.txt" % (prop, name, seed))
        shutil.copyfile(f["replay"], path)
        print("%s: %s" % (name, printable(f["message"])))
        if f.get("input"):
            print("input: " + printable(f["input"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (prop, evals, nontriv, time.time() - t0))
    return 0


def printable(text):
    return "".join(c if " " <= c <= "~" else "\\x%02x" % ord(c) for c in text)


def replay(prop, path):
    name = re.match(r"target (\S+)", open(path, errors="replace").read()).group(1)
    top = os.path.join(VERIF, "build", prop + "-replay")
    shutil.rmtree(top, ignore_errors=True)
    for k, b in enumerate(CHECKS[prop]["binaries"]):
        out = os.path.join(top, str(k))
        os.makedirs(out)
        exe = build(prop, b, out)
        p = subprocess.run([exe, "--out", out, "--replay", path], env=run_env(), preexec_fn=limits)
        err = os.path.join(out, "replay.err")
        if p.returncode != 2:
            if os.path.exists(err):
                print(open(err, errors="replace").read()[:6000])
            return p.returncode
    return 2


def main():
    try:
        if sys.argv[1] == "check":
            sys.exit(check(sys.argv[2]))
        if sys.argv[1] == "replay":
            sys.exit(replay(sys.argv[2], sys.argv[3]))
        if sys.argv[1] == "setup":
            for tool in ("clang", "objcopy"):
                if shutil.which(tool) is None:
                    raise CheckError(tool + " is not installed")
            library_sources()
            print("ready")
            sys.exit(0)
        if sys.argv[1] == "build":
            out = os.path.join(VERIF, "build", sys.argv[2] + "-build")
            for k, b in enumerate(CHECKS[sys.argv[2]]["binaries"]):
                d = os.path.join(out, str(k))
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                print(build(sys.argv[2], b, d))
            sys.exit(0)
    except CheckError as e:
        print("check error: %s" % e)
        sys.exit(2)
    except Exception as e:
        traceback.print_exc()
        print("check error: %s" % e)
        sys.exit(2)
    sys.exit(2)


if __name__ == "__main__":
    main()
