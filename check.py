#!/usr/bin/env python3
"""Driver of the runtime monitors.

check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N]

Compiles the harness of the property together with the sources of /repo's current working tree (sanitizers on), runs it
in parallel shards, merges what the monitors observed, writes evidence/<ID>.json and prints one VIOLATION line if an
oracle, a sanitizer or the watchdog reported anything that known_findings.json does not list.
Exit codes: 0 held on everything explored, 1 violation, 2 the check could not run (no answer).
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
EVID = os.path.join(ROOT, "evidence")
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import HARNESSES, PROPS  # noqa: E402
from meta import M  # noqa: E402

JOBS = min(8, os.cpu_count() or 8)
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
}
BASE = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-include", "cstdint", "-include", "stdexcept",
        "-D_GLIBCXX_ASSERTIONS", "-w"]
INCLUDES = ["src/baf", "src/spl", "src/io", "src/util", "src", "example/iga/src", "example/iga/src/itg", "external/pugixml", "external/cxxopts"]


def die(msg):
    print("check.py: " + msg, file=sys.stderr)
    sys.exit(2)


def tree_hash():
    """Content hash of everything that can influence an object file."""
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "src"), os.path.join(REPO, "example"), os.path.join(REPO, "external"),
                os.path.join(ROOT, "harness")):
        for base, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".cc", ".inc", ".hpp", ".cpp")):
                    p = os.path.join(base, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def lib_sources(groups):
    """Library translation units of the current tree, found by directory so that added or split files are included."""
    out = []
    for g in groups:
        if g == "pugixml":
            out.append(os.path.join(REPO, "external/pugixml/pugixml.cpp"))
            continue
        d = os.path.join(REPO, g)
        for base, dirs, files in os.walk(d):
            dirs[:] = sorted(x for x in dirs if x not in ("executables", "test"))
            for f in sorted(files):
                if f.endswith(".cc") and not has_main(os.path.join(base, f)):
                    out.append(os.path.join(base, f))
    return out


def has_main(path):
    with open(path, errors="replace") as fh:
        return re.search(r"^\s*(int|auto)\s+main\s*\(", fh.read(), re.M) is not None


def programs(groups):
    """Executables of the current tree: every translation unit of these directories that has a main function."""
    out = {}
    for g in groups:
        for base, dirs, files in os.walk(os.path.join(REPO, g)):
            for f in sorted(files):
                if f.endswith(".cc") and has_main(os.path.join(base, f)):
                    out[f[:-3]] = os.path.join(base, f)
    return out


def compile_one(job):
    src, flags, obj = job
    if os.path.exists(obj):
        return None
    tmp = obj + ".tmp%d" % os.getpid()
    cmd = ["clang++"] + flags + ["-c", src, "-o", tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return "compiling %s failed:\n%s" % (src, (r.stderr or "")[-3000:])
    os.rename(tmp, obj)
    return None


def build(name, th):
    h = HARNESSES[name]
    san = SAN[h.get("san", "asan")]
    inc = ["-I" + os.path.join(ROOT, "harness")] + ["-I" + os.path.join(REPO, i) for i in INCLUDES]
    flags = BASE + san + inc + h.get("flags", [])
    key = hashlib.sha256((th + " ".join(flags)).encode()).hexdigest()[:20]
    odir = os.path.join(BUILD, "obj", key)
    os.makedirs(odir, exist_ok=True)
    jobs = []
    for src, extra in h["sources"]:
        tag = hashlib.sha256(" ".join(extra).encode()).hexdigest()[:8]
        jobs.append((os.path.join(ROOT, "harness", src), flags + extra, os.path.join(odir, src + "." + tag + ".o")))
    for src in lib_sources(h["libs"]):
        tag = hashlib.sha256(src.encode()).hexdigest()[:8]
        jobs.append((src, flags, os.path.join(odir, os.path.basename(src) + "." + tag + ".o")))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for err in ex.map(compile_one, jobs):
            if err:
                die(err)
    exe = os.path.join(odir, name)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["clang++"] + san + [j[2] for j in jobs] + h.get("link", []) + ["-o", tmp],
                           capture_output=True, text=True)
        if r.returncode != 0:
            die("linking %s failed:\n%s" % (name, r.stderr[-3000:]))
        os.rename(tmp, exe)
    progs = programs(h.get("programs", []))
    libs = [j[2] for j in jobs if j[0].startswith(REPO)]

    def program(item):
        pname, psrc = item
        path = os.path.join(odir, pname)
        if os.path.exists(path):
            return None
        err = compile_one((psrc, flags, path + ".main.o"))
        if err:
            return err
        tmp = path + ".tmp%d" % os.getpid()
        r = subprocess.run(["clang++"] + san + [path + ".main.o"] + libs + h.get("link", []) + ["-o", tmp],
                           capture_output=True, text=True)
        if r.returncode != 0:
            return "linking %s failed:\n%s" % (pname, r.stderr[-3000:])
        os.rename(tmp, path)
        return None
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for err in ex.map(program, progs.items()):
            if err:
                die(err)
    prune(key)
    return exe, odir


def prune(keep):
    d = os.path.join(BUILD, "obj")
    entries = sorted((os.path.getmtime(os.path.join(d, e)), e) for e in os.listdir(d))
    for _, e in entries[:-12]:
        if e != keep:
            shutil.rmtree(os.path.join(d, e), ignore_errors=True)


ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=86:allocator_may_return_null=0:max_allocation_size_mb=3000:"
                    "detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=86",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=86:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=86",
    "LC_ALL": "C",
}
SUMMARY = re.compile(r"^(SUMMARY: .*|VP-HANG.*|.*runtime error: .*|.*Assertion .* failed.*|terminate called.*|==\d+==ERROR: .*)$", re.M)


def crash_key(text, rc):
    """A stable identification of a sanitizer/assertion report: kind plus first frame inside the library."""
    kind = "signal-or-abort"
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", text)
    if m:
        kind = m.group(1) + ":" + m.group(2)
    m = re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", text)
    if m:
        kind = "ThreadSanitizer:" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"runtime error: ([^\n]{0,80})", text)
    if m:
        kind = "UBSan:" + re.sub(r"[-\d.e+]+", "N", m.group(1))
    if "Assertion" in text and "failed" in text:
        kind = "libstdcxx-assertion"
    if "VP-HANG" in text or rc == 77:
        kind = "hang"
    frame = ""
    for m in re.finditer(r" in (.+?) (/\S+?):(\d+)", text):
        if m.group(2).startswith(REPO):
            frame = re.sub(r"<.*", "", m.group(1)).split("(")[0] + "@" + os.path.basename(m.group(2))
            break
    return "sanitizer:" + kind + (":" + frame if frame else "")


def run_shard(exe, pid, tier, seed, cases, shard, nshards, work, timeout, extra):
    """Runs one shard; after a crash continues behind the crashing case. Returns (reports, crashes)."""
    reports, crashes, start = [], [], 0
    for attempt in range(6):
        tag = "%d_%d" % (shard, attempt)
        out, cur = os.path.join(work, "r%s.json" % tag), os.path.join(work, "c%s" % tag)
        tmp = os.path.join(work, "t%s" % tag)
        os.makedirs(tmp, exist_ok=True)
        cmd = [exe, "--prop", pid, "--tier", tier, "--seed", str(seed), "--cases", str(cases), "--shard", str(shard),
               "--nshards", str(nshards), "--out", out, "--current", cur, "--tmpdir", tmp, "--start", str(start)] + extra
        with open(os.path.join(work, "e%s" % tag), "w+") as err:
            try:
                rc = subprocess.run(cmd, stdout=err, stderr=err, env={**os.environ, **ENV}, timeout=timeout, cwd=tmp).returncode
            except subprocess.TimeoutExpired:
                rc = -999
            err.seek(0)
            text = err.read()
        shutil.rmtree(tmp, ignore_errors=True)
        done = os.path.exists(out) and os.path.getsize(out) > 0
        if done:
            reports.append(json.load(open(out)))
        if rc == 0 and done:
            return reports, crashes
        try:
            case = int(open(cur).read().split()[0])
        except Exception:
            case = -1
        if done:   # the cases are through, a leak or late report at exit
            crashes.append((-1, rc, text))
            return reports, crashes
        if rc in (3, -999) or case < 0:
            crashes.append((None, rc, text))
            return reports, crashes
        crashes.append((case, rc, text))
        start = case + 1
    return reports, crashes


def rerun_case(exe, pid, tier, seed, cases, case, work, extra, timeout=300):
    tmp = tempfile.mkdtemp(dir=work)
    out = os.path.join(tmp, "r.json")
    cmd = [exe, "--prop", pid, "--tier", tier, "--seed", str(seed), "--cases", str(cases), "--only", str(case), "--out",
           out, "--current", os.path.join(tmp, "c"), "--tmpdir", tmp] + extra
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env={**os.environ, **ENV}, timeout=timeout, cwd=tmp, errors="replace")
        rc, text = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        rc, text = -999, "timeout"
    rep = json.load(open(out)) if os.path.exists(out) and os.path.getsize(out) else None
    return rc, text, rep


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--self-test", action="store_true", help="only check that tools and sources are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.self_test:
        for need in (REPO + "/src", ROOT + "/harness", ROOT + "/known_findings.json"):
            if not os.path.exists(need):
                die("missing " + need)
        sys.exit(0 if shutil.which("clang++") else 2)
    pid = a.id
    if pid not in PROPS:
        die("unknown property " + pid)
    p = PROPS[pid]
    only = None
    if a.replay:
        rp = json.load(open(a.replay))
        a.seed, a.tier, only = rp["seed"], rp["tier"], rp.get("case")
        a.cases = rp["cases"]
    parts = p["parts"]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    work = tempfile.mkdtemp(prefix="run_%s_" % pid, dir=BUILD)
    try:
        status = run_all(a, pid, p, parts, th, work, t0, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(status)


def run_all(a, pid, p, parts, th, work, t0, only):
    total = {"evaluations": 0, "observations": 0, "counters": {}, "distinct": set(), "samples": []}
    found = []  # dicts key/message/input/case/part
    for pi, part in enumerate(parts):
        exe, odir = build(part["harness"], th)
        extra = ["--bindir", odir] + part.get("args", [])
        cases = a.cases or part["cases"][0 if a.tier == "quick" else 1]
        nsh = min(part.get("shards", JOBS), max(1, cases))
        if only is not None:
            rc, text, rep = rerun_case(exe, pid, a.tier, a.seed, cases, only, work, extra)
            print(text[-6000:])
            res = [([rep] if rep else [], [] if rc == 0 else [(only, rc, text)])]
        else:
            with cf.ThreadPoolExecutor(nsh) as ex:
                res = list(ex.map(lambda s: run_shard(exe, pid, a.tier, a.seed, cases, s, nsh, work,
                                                      part.get("timeout", 700 if a.tier == "quick" else 6000), extra), range(nsh)))
        for reports, crashes in res:
            for r in reports:
                total["evaluations"] += r["evaluations"]
                total["observations"] += r["observations"]
                total["distinct"].update(r["distinct"])
                total["samples"] += r["samples"]
                for k, v in r["counters"].items():
                    total["counters"][k] = total["counters"].get(k, 0) + v
                for v in r["violations"]:
                    found.append(dict(v, part=pi, cases=cases))
            for case, rc, text in crashes:
                if case is None:
                    sys.stderr.write(text[-3000:])
                    die("harness of %s could not run (exit %s)" % (pid, rc))
                key = crash_key(text, rc)
                if case == -1 and "Sanitizer" not in text:
                    sys.stderr.write(text[-3000:])
                    die("harness of %s ended with exit %s after its cases" % (pid, rc))
                if key.startswith("sanitizer:hang") and case >= 0 and only is None:
                    # a slow machine is no violation: the case has to exceed the budget again on its own
                    rc2, text2, _ = rerun_case(exe, pid, a.tier, a.seed, cases, case, work, extra)
                    if rc2 == 0:
                        continue
                    text, key = text2, crash_key(text2, rc2)
                m = SUMMARY.search(text)
                idx = max(0, text.find("ERROR: "), text.find("WARNING: Thread"))
                found.append({"case": case, "key": key, "message": (m.group(1)[:300] if m else "exit %s" % rc),
                              "input": text[idx:idx + 6000], "part": pi, "cases": cases})
    known = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["known"] if k["property"] == pid]
    new, seen_known = [], {}
    for f in found:
        hit = next((k for k in known if re.search(k["key"], f["key"]) and re.search(k.get("match", ""), f["message"] + f["input"])), None)
        if hit:
            seen_known[hit["id"]] = hit
        else:
            new.append(f)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": total["evaluations"],
            "distinct_nontrivial": len(total["distinct"]),
            "rule": M[pid]["rule"],
            "samples": [s[:700] for s in total["samples"][:5]],
            "oracle_observations": total["observations"],
            "monitored_events": total["counters"],
        },
        "assumptions": M[pid]["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    rp = os.path.join(EVID, pid + ".replay.json")
    if new:
        ev["coverage"]["violation_keys"] = sorted({f["key"] for f in new})
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    if not new and only is None:
        need = M[pid]["min_events"] if a.cases is None else {}
        short = [k for k, v in need.items() if total["counters"].get(k, 0) < v]
        if total["observations"] == 0 or short:
            die("%s: the monitors saw too little (%s)" % (pid, short))
    if new:
        f = new[0]
        json.dump({"property": pid, "tier": a.tier, "seed": a.seed, "cases": f["cases"], "case": f["case"] if f["case"] >= 0 else None,
                   "part": f["part"], "key": f["key"], "message": f["message"], "input": f["input"],
                   "all": [{k: x[k] for k in ("case", "key", "message")} for x in new[:50]],
                   "reproduce": "python3 check.py %s --replay <this file>" % pid}, open(rp, "w"), indent=1)
        for x in (new if a.verbose else new[:5]):
            print("  [%s] case %s: %s\n     input: %s" % (x["key"], x["case"], x["message"][:600], x["input"][:1500 if a.verbose else 400]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s evaluations=%d observations=%d distinct=%d wall=%.1fs" % (
        pid, total["evaluations"], total["observations"], len(total["distinct"]), time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
