#!/usr/bin/env python3
"""Runs one check: builds the library from /repo's working tree together with
the monitors in harness/, executes the workloads, judges, writes evidence.

usage: run.py ID [--tier quick|thorough] [--seed N]
       run.py --replay FILE          re-run the recorded failing case
       run.py --setup                try the compiler: build two harnesses (each check builds its own)
"""
import sys, os, re, json, time, glob, signal, threading, subprocess, shutil, tempfile, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
NPROC = os.cpu_count() or 4

import checks as T


class HarnessError(Exception):
    pass


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise HarnessError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


# headers the C library's kernel headers provide usefully in user space
UAPI = {"linux/types.h", "linux/errno.h", "linux/limits.h", "linux/ioctl.h", "linux/version.h", "linux/const.h"}


def kstubs(out):
    """kernel headers the module includes and the stand-ins have no file for:
    everything the stand-ins provide is declared in kshim.h"""
    d = os.path.join(out, "stub")
    os.makedirs(d)
    for f in glob.glob(REPO + "/linux_kernel/*.[ch]") + glob.glob(REPO + "/src/*.[ch]") + glob.glob(REPO + "/arch/*.[ch]"):
        with open(f, errors="replace") as fh:
            for n in re.findall(r'^\s*#\s*include\s*<((?:linux|crypto|asm|asm-generic|uapi|vdso)/[^>]+)>', fh.read(), re.M):
                p = os.path.join(d, n)
                if n in UAPI or ".." in n or os.path.exists(p) or os.path.exists(os.path.join(H, "kshim", n)):
                    continue
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as o:
                    o.write('#include "kshim.h"\n')
    return d


def build(hname, variant, bdir):
    """compile library + harness, return the executable"""
    h = T.HARNESS[hname]
    v = T.VARIANT[variant]
    cc = v["cc"]
    out = os.path.join(bdir, hname + "-" + variant)
    exe = os.path.join(out, "run")
    if os.path.exists(exe):
        return exe
    odir = os.path.join(out, "o")
    os.makedirs(odir)
    common = v["flags"] + ["-g", "-fno-omit-frame-pointer", "-pthread", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE", "-w"]
    jobs = []
    objs = []
    if h.get("kernel"):
        inc = ["-I" + os.path.join(H, "kshim"), "-I" + kstubs(out)] + h["kflags"] + ["-I" + REPO, "-I" + REPO + "/src", "-I" + REPO + "/arch", "-I" + REPO + "/linux_kernel"]
        srcs = h["ksrc"]()
    else:
        inc = ["-I" + REPO, "-I" + REPO + "/src", "-I" + REPO + "/arch"] + h.get("defs", T.DEFS)
        srcs = h["ksrc"]() if "ksrc" in h else sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/arch/*.c"))
    for s in srcs:
        b = os.path.basename(s)[:-2]
        opt = "-O0" if b.endswith("base") else v["opt"]
        o = os.path.join(odir, "lib_" + b + ".o")
        jobs.append([cc] + common + inc + ["-fwrapv", "-fPIC", opt] + h.get("libflags", []) + ["-c", s, "-o", o])
        objs.append(o)
    for s in h["src"]:
        o = os.path.join(odir, "h_" + s.replace("/", "_")[:-2] + ".o")
        hopt = v["opt"]
        jobs.append([cc] + common + inc + ["-I" + H, hopt] + h.get("hflags", []) + ["-c", os.path.join(H, s), "-o", o])
        objs.append(o)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(sh, jobs))
    # calls into libc are redirected in the library's objects only (the
    # sanitizer runtimes keep theirs), calls between library files by the linker
    wraps = h.get("wrap", [])
    libc = [w for w in wraps if not w.startswith("jent_")]
    if libc:
        red = []
        for o in objs:
            ren = ["%s=__wrap_%s" % (w, w) for w in libc] if os.path.basename(o).startswith("lib_") else ["__real_%s=%s" % (w, w) for w in libc]
            red.append(["objcopy"] + sum((["--redefine-sym", r] for r in ren), []) + [o])
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(sh, red))
    sh([cc] + v["flags"] + ["-pthread", "-o", exe] + objs + ["-Wl,--wrap=" + w for w in wraps if w.startswith("jent_")] + h.get("ldflags", []))
    return exe


STOP = threading.Event()
DEADLINE = [float("inf")]


def run_shard(a, mine=None):
    exe, job, seed, frm, to, out, tier = a
    cmd = [exe, "--profile", job["profile"], "--seed", str(seed), "--from", str(frm), "--to", str(to),
           "--out", out, "--timeout", str(job.get("timeout", 60))]
    if tier == "thorough":
        cmd.append("--thorough")
    env = dict(os.environ)
    env.update(T.VARIANT[job["variant"]].get("env", {}))
    env.update(job.get("env", {}))
    env["VF_TMP"] = os.path.dirname(out)
    if STOP.is_set() or time.time() > DEADLINE[0]:
        return None
    with open(out + ".log", "w+") as log:
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        while p.poll() is None:
            # one witness is enough: do not wait for the others, which may be hanging for minutes
            if STOP.wait(0.05):
                try:
                    p.wait(3)
                except subprocess.TimeoutExpired:
                    pass
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                if p.wait() < 0:
                    return None
                break
        if p.returncode:
            log.seek(0)
            raise HarnessError("%s exited %d: %s" % (" ".join(cmd), p.returncode, log.read()[-2000:]))
    with open(out) as f:
        r = json.load(f)
    if mine and any(mine(v) for v in r["violations"]):
        STOP.set()
    return r


def run_job(job, seed, tier, bdir, idx, mine):
    try:
        exe = build(job["harness"], job["variant"], bdir)
    except HarnessError as e:
        # platforms that are only stood in for: a source that needs more of them than the stand-ins offer is left unjudged
        if not T.HARNESS[job["harness"]].get("optional"):
            raise
        shutil.rmtree(os.path.join(bdir, job["harness"] + "-" + job["variant"]), ignore_errors=True)
        return {"cases": 0, "inconclusive": 0, "counters": {}, "samples": [], "violations": [], "msgs": ["not built: " + str(e)[-300:]], "skipped": 1, "states": 0, "distinct": 0}
    n = job[tier]
    par = job.get("par", NPROC)
    chunk = max(1, min(job.get("chunk", 64), (n + par - 1) // par))
    shards = []
    for k, f in enumerate(range(0, n, chunk)):
        out = os.path.join(bdir, "j%d_%d.json" % (idx, k))
        shards.append((exe, job, seed, f, min(n, f + chunk), out, tier))
    tot = {"cases": 0, "inconclusive": 0, "counters": {}, "samples": [], "violations": [], "msgs": [], "skipped": 0}
    bm = 0
    with cf.ThreadPoolExecutor(par) as ex:
        for a, r in zip(shards, ex.map(lambda a: run_shard(a, mine), shards)):
            if r is None:
                tot["skipped"] += 1
                continue
            tot["cases"] += r["cases"]
            tot["inconclusive"] += r["inconclusive"]
            if r["inconclusive_msg"]:
                tot["msgs"].append(r["inconclusive_msg"])
            for k, v in r["counters"].items():
                tot["counters"][k] = tot["counters"].get(k, 0) + v
            tot["samples"] += r["samples"]
            for v in r["violations"]:
                v.update(harness=job["harness"], variant=job["variant"], profile=job["profile"], seed=seed)
                tot["violations"].append(v)
            with open(a[5] + ".bm", "rb") as f:
                bm |= int.from_bytes(f.read(), "little")
    tot["states"] = bin(bm & ((1 << (1 << 20)) - 1)).count("1")
    tot["distinct"] = bin(bm >> (1 << 20)).count("1")
    return tot


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    try:
        with open(p) as f:
            return [k for k in json.load(f)["known"] if k["property"] == pid]
    except FileNotFoundError:
        return []


def find_known(v, known):
    return next((k for k in known if k["key"] == v["key"] and k.get("match", "") in v["msg"] + v["desc"]), None)


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        bdir = tempfile.mkdtemp(prefix="setup-", dir=mkb())
        try:
            for h in ("model", "kern"):
                build(h, "plain", bdir)
        finally:
            shutil.rmtree(bdir, ignore_errors=True)
        print("setup ok")
        return 0
    if len(sys.argv) > 1 and sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            r = json.load(f)
        bdir = tempfile.mkdtemp(prefix="replay-", dir=mkb())
        try:
            exe = build(r["harness"], r["variant"], bdir)
            job = next(j for j in T.CHECKS[r["property"]]["jobs"] if j["harness"] == r["harness"] and j["profile"] == r["profile"] and j["variant"] == r["variant"])
            d = run_shard((exe, job, r["seed"], r["case"], r["case"] + 1, os.path.join(bdir, "o.json"), r["tier"]))
            print(json.dumps(d, indent=1))
            return 1 if d["violations"] else 0
        finally:
            shutil.rmtree(bdir, ignore_errors=True)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            tier = sys.argv[i + 1]
        if a == "--seed":
            seed = int(sys.argv[i + 1])
    if tier not in ("quick", "thorough"):
        tier = "quick"
    c = T.CHECKS[pid]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=pid + "-", dir=mkb())
    res, viol = [], []
    known = known_findings(pid)
    if tier == "quick":
        DEADLINE[0] = t0 + 600      # on a slow or busy machine: judge what was explored by then
    try:
        for i, j in enumerate(c["jobs"]):
            def mine(v, j=j):
                return ("only" not in j or v["key"] in j["only"]) and c.get("owner", {}).get(v["key"], pid) == pid and not find_known(v, known)
            r = run_job(j, seed, tier, bdir, i, mine)
            res.append((j, r))
            viol += [dict(v, elsewhere="only" in j and v["key"] not in j["only"]) for v in r["violations"]]
            if STOP.is_set():
                break
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    # what another property's oracle reports is that property's business
    owner = c.get("owner", {})
    foreign = [v for v in viol if v["elsewhere"] or owner.get(v["key"], pid) != pid]
    viol = [v for v in viol if not v["elsewhere"] and owner.get(v["key"], pid) == pid]
    hit = {}
    new = []
    for v in viol:
        k = find_known(v, known)
        if k:
            hit[k["id"]] = k
        else:
            new.append(v)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    cases = sum(r["cases"] for _, r in res)
    inc = sum(r["inconclusive"] for _, r in res)
    samples = []
    for j, r in res:
        samples += [{"profile": j["profile"], "case": s} for s in r["samples"][:3]]
        if not r["samples"]:
            samples.append({"profile": j["profile"], "seed": seed, "cases": "0..%d" % (r["cases"] - 1), "observed": dict(list(r["counters"].items())[:6])})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": c["level"],
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": sum(r["distinct"] for _, r in res),
            "rule": c["rule"],
            "samples": samples[:20],
            "inconclusive": inc,
            "reported_by_other_properties": len(foreign),
            "inconclusive_messages": sum((r["msgs"] for _, r in res), [])[:5],
            "jobs": [{"harness": j["harness"], "build": j["variant"], "profile": j["profile"], "cases": r["cases"],
                      "distinct_cases": r["distinct"], "shards_skipped": r["skipped"], "distinct_states_seen": r["states"], "observed": r["counters"]} for j, r in res],
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for old in glob.glob(os.path.join(EVID, "replay-%s-*.json" % pid)):
        os.unlink(old)
    if new:
        seen = set()
        for n, v in enumerate(new):
            if (v["key"], v["profile"]) in seen:
                continue
            seen.add((v["key"], v["profile"]))
            path = os.path.join(EVID, "replay-%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump(dict(v, property=pid, tier=tier), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  [%s/%s case %d] %s: %s" % (v["harness"], v["profile"], v["case"], v["key"], v["msg"][:1500].replace("\n", "\n    ")))
        return 1
    # next to nothing observed is not a pass; how much is observed shifts with how the code spends its
    # readings and allocations, so only a collapse counts
    for j, r in res:
        if r["skipped"] and not r["cases"]:
            continue
        for cn, least in j.get("require", {}).items():
            least = max(1, least // 8)
            if r["counters"].get(cn, 0) < (1 if r["skipped"] else least):
                print("ERROR: %s/%s observed only %d %s (needs %d)" % (j["harness"], j["profile"], r["counters"].get(cn, 0), cn, least))
                return 4
    if inc * 2 > cases or not cases:
        print("ERROR: %d of %d cases inconclusive: %s" % (inc, cases, ev["coverage"]["inconclusive_messages"]))
        return 4
    print("%s %s seed=%d: held on %d cases, %d distinct, %.1fs" % (pid, tier, seed, cases, ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


def mkb():
    d = os.path.join(HERE, ".build")
    os.makedirs(d, exist_ok=True)
    return d


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("ERROR: %s" % e)
        sys.exit(3)
