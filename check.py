#!/usr/bin/env python3
"""Decides one property of ipmb by watching executions of the real library.

    check.py C02                 the check (VERIF_SEED, VERIF_TIER=quick|thorough)
    check.py C02 --replay FILE   run the scenario of a replay file again
    check.py --setup             build everything
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
REPO = os.environ.get("VH_REPO", "/repo")
import build  # noqa: E402
import props  # noqa: E402

T0 = time.time()
LIMIT = 170  # seconds for one execution


class HarnessError(Exception):
    pass


def run_job(job, scratch):
    """One execution. Returns a dict with the verdicts."""
    d = tempfile.mkdtemp(prefix="j", dir=scratch)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("VH_", "LD_PRELOAD"))}
    env.update(VH_DIR=d, RUST_BACKTRACE="0")
    env.update({k: v.replace("$DIR", d) for k, v in build.env_of(job.get("variant", "plain")).items()})
    if job.get("shim", True) and job.get("variant", "plain") in ("plain", "compat"):
        env["LD_PRELOAD"] = build.SHIM
        env["VH_BADCLOSE"] = d + "/badclose"
    env.update({k: v.replace("$DIR", d) for k, v in job.get("env", {}).items()})
    cmd = job.get("cmd") or [build.binary(job.get("variant", "plain"), job["seed"]), "scen", job["scen"], str(job["seed"])]
    t = time.time()
    res = {"job": job, "violations": [], "inconclusive": [], "counts": {}, "distinct": [], "samples": []}
    with open(d + "/stdout", "wb") as so, open(d + "/stderr", "wb") as se:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=so, stderr=se, env=env, cwd=d, start_new_session=True)
        try:
            rc = p.wait(timeout=job.get("limit", LIMIT))
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    out = open(d + "/stdout", errors="replace").read()
    err = open(d + "/stderr", errors="replace").read()
    peers = "".join(
        f"\n[{f}] " + open(f"{d}/{f}", errors="replace").read()[-3000:] for f in sorted(os.listdir(d)) if f.startswith("err.")
    )
    result = None
    for line in out.splitlines():
        if line.startswith("RESULT "):
            result = json.loads(line[7:])
    san = san_reports(d, err + peers)
    if result is not None:
        for k in ("violations", "inconclusive", "samples", "distinct"):
            res[k] = result.get(k, [])
        res["counts"] = result.get("counts", {})
    elif rc is None:
        res["inconclusive"].append(f"{job['scen']} seed {job['seed']}: no result within its time")
        res["hung"] = True
    elif rc == 3 or "HARNESS " in err:
        res["inconclusive"].append(f"harness error in {job['scen']} seed {job['seed']}: {err[-600:]}")
        res["harness_error"] = True
    elif "FATAL: ThreadSanitizer" in err + peers:
        res["inconclusive"].append(f"{job['scen']} seed {job['seed']}: ThreadSanitizer gave up: {err[-300:]}")
    elif not san:
        m = re.search(r"panicked at ([^\n]*)", err)
        if m and not m.group(1).startswith(("/", "library/")):
            res["inconclusive"].append(f"harness panic in {job['scen']} seed {job['seed']}: {err[-600:]}")
            res["harness_error"] = True
        else:
            res["violations"].append(("crash", f"the process hosting the bus ended with {rc}: {err[-1500:]}"))
    logs = "".join(open(f"{d}/{f}", errors="replace").read() for f in os.listdir(d) if f.startswith("san."))
    if "LeakSanitizer has encountered a fatal error" in err + peers + logs:
        # It needs to stop threads through ptrace, which may fail for reasons of its own
        res["inconclusive"].append(f"{job['scen']} seed {job['seed']}: LeakSanitizer gave up")
        res["violations"] = []
    for s in san:
        res["violations"].append(s)
    if job.get("layout"):
        for m in sorted(set(re.findall(r"^LAYOUT (\w+) as size \d+ align (\d+), allocated as size \d+ align (\d+)", err + peers, re.M)))[:3]:
            what = re.search(rf"^LAYOUT {m[0]} as size \d+ align {m[1]}, allocated as size \d+ align {m[2]}", err + peers, re.M).group(0)
            res["violations"].append((f"allocator:{m[0]} with align {m[1]} instead of {m[2]}", what))
    res["wall"] = time.time() - t
    if res["violations"] or res["inconclusive"]:
        res["stderr"] = (err + peers)[-6000:]
    shutil.rmtree(d, ignore_errors=True)
    return res


def san_reports(d, text):
    """Sanitizer reports, identified by their kind and the innermost frame inside ipmb."""
    found = {}
    texts = [text] + [open(f"{d}/{f}", errors="replace").read() for f in os.listdir(d) if f.startswith("san.")]
    for text in texts:
        for m in re.finditer(r"(?:ERROR|WARNING): (\w+Sanitizer): ([\w-]+(?: [\w-]+)?)(.*?)(?=\n=====|\Z)", text, re.S):
            kind, body = m.group(2), m.group(3)
            if kind.startswith(("failed to intercept",)):
                continue
            fr = re.search(r"#\d+ (?:0x[0-9a-f]+ in )?(\S*ipmb\S*)", body)
            frame = re.sub(r"::h[0-9a-f]{16}|[<>]", "", fr.group(1)) if fr else "?"
            found.setdefault((f"{m.group(1)}:{kind}:{frame}"), (m.group(0))[:3000])
        for m in re.finditer(r"([^\s:]*):\d+:\d+: runtime error: ([^\n]*)", text):
            found.setdefault(f"UndefinedBehaviorSanitizer:{os.path.basename(m.group(1))}:{m.group(2)[:60]}", text[m.start():][:3000])
    return sorted(found.items())


def known_findings(pid):
    out = {}
    path = os.path.join(ROOT, "known-findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3).strip()
    return out


def sig_key(sig):
    return re.sub(r"\s+", "_", sig)


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        build.setup()
        return 0
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = props.PROPS[pid]
    scratch = tempfile.mkdtemp(prefix="vhc.", dir="/tmp")
    try:
        if "--replay" in sys.argv:
            jobs = [json.load(open(sys.argv[sys.argv.index("--replay") + 1]))["job"]]
            tries = 20
            build.need([jobs[0].get("variant", "plain")])
            for _ in range(tries):
                r = run_job(jobs[0], scratch)
                if r["violations"]:
                    for s, t in r["violations"]:
                        print(s, "--", t)
                    return 1
            print(f"not reproduced in {tries} runs")
            return 0
        return decide(pid, spec, seed, tier, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, spec, seed, tier, scratch):
    variants = sorted({j.get("variant", "plain") for j in spec["jobs"]})
    build.need(variants)
    t_run = time.time()
    budget = spec.get("budget", {}).get(tier, 14 if tier == "quick" else 300)
    workers = spec.get("workers", 8)
    known = known_findings(pid)
    agg = {"counts": {}, "distinct": set(), "samples": [], "n": 0, "evals": 0, "per": {}}
    violations, hit, inconclusive, harness = [], {}, [], 0
    lock = threading.Lock()
    stop = threading.Event()

    def gen():
        # Fixed jobs first, then the random ones in proportion to their weight
        i = 0
        for j in spec["jobs"]:
            for k in range(j.get("min", 1)):
                yield dict(j, seed=seed * 1_000_003 + i)
                i += 1
        weighted = [j for j in spec["jobs"] for _ in range(j.get("weight", 1))]
        if not weighted:
            return
        while True:
            for j in weighted:
                yield dict(j, seed=seed * 1_000_003 + i)
                i += 1

    it = gen()
    n_min = sum(j.get("min", 1) for j in spec["jobs"])
    issued = [0]

    def enough():
        return all(agg["counts"].get(k, 0) >= n for k, n in spec.get("need", {}).items())

    def worker():
        while not stop.is_set():
            with lock:
                t = time.time() - t_run
                if issued[0] >= n_min and t > budget and (enough() or t > 20 * budget):
                    return
                try:
                    job = next(it)
                except StopIteration:
                    return
                issued[0] += 1
            r = run_job(job, scratch)
            if r.get("hung") and not stop.is_set():
                # Once may be the machine, twice is the program
                again = run_job(job, scratch)
                if again.get("hung"):
                    again["inconclusive"] = []
                    again["violations"].append(("hang", f"two executions did not end within {job.get('limit', LIMIT)} s"))
                r = again
            with lock:
                agg["n"] += 1
                units = job.get("unit", [])
                if units:
                    agg["evals"] += sum(r["counts"].get(u, 0) for u in units)
                    if len(agg["distinct"]) < 3_000_000:  # counted up to there, a lower bound
                        agg["distinct"].update(hash((job["scen"], x)) for x in r["distinct"])
                else:
                    # The execution as a whole is one evaluation
                    agg["evals"] += 1
                    if r["counts"].get(job.get("nontrivial", ""), 1) > 0 and r["distinct"]:
                        h = hashlib.sha256("\n".join(sorted(r["distinct"])).encode()).hexdigest()[:16]
                        agg["distinct"].add(hash((job["scen"], h)))
                per = job["scen"] + ("@" + job["variant"] if "variant" in job else "")
                agg["per"][per] = agg["per"].get(per, 0) + 1
                nonlocal harness
                if r.get("harness_error"):
                    harness += 1
                for k, v in r["counts"].items():
                    agg["counts"][k] = max(agg["counts"].get(k, 0), v) if k.startswith("max_") else agg["counts"].get(k, 0) + v
                if len(agg["samples"]) < 3:
                    agg["samples"] += [{"scenario": job["scen"], "case": s} for s in r["samples"][:1]]
                inconclusive.extend(r["inconclusive"])
                new = []
                for s, text in r["violations"]:
                    if sig_key(s) in known:
                        hit[sig_key(s)] = text
                    else:
                        new.append((s, text))
                if new:
                    violations.append((job, new, r.get("stderr", "")))
                    stop.set()

    ts = [threading.Thread(target=worker) for _ in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]

    status = 0
    for k in sorted(hit):
        print(f"KNOWN-FINDING: property={pid} {known[k]}")
    if violations:
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        for job, vs, err in violations[:3]:
            path = os.path.join(ROOT, "replay", f"{pid}-{job['scen']}-{job['seed']}.json")
            json.dump({"property": pid, "job": job, "violations": vs, "stderr": err}, open(path, "w"), indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            for s, t in vs[:4]:
                print(f"  [{job['scen']} seed {job['seed']}] {s}: {t[:700]}")
        status = 1
    wall = time.time() - T0
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": agg["evals"],
            "executions": agg["n"],
            "distinct_nontrivial": len(agg["distinct"]),
            "rule": spec["rule"],
            "samples": agg["samples"] or [{"none": True}],
            "observed": dict(sorted(agg["counts"].items())),
            "executions_per_scenario": agg["per"],
            "inconclusive": len(inconclusive),
        },
        "assumptions": spec.get("assumptions", props.ASSUMPTIONS),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print(
        f"{pid}: {agg['n']} executions, {agg['evals']} evaluations, {len(agg['distinct'])} distinct, {len(violations)} violating, "
        f"{len(inconclusive)} inconclusive, build {t_run - T0:.1f} s, total {wall:.1f} s"
    )
    print("  observed " + ", ".join(f"{k}={v}" for k, v in sorted(agg["counts"].items())))
    for x in inconclusive[:5]:
        print("  inconclusive:", x[:400].replace("\n", " | "))
    if status == 0:
        short = [f"{k} {agg['counts'].get(k, 0)} < {n}" for k, n in spec.get("need", {}).items() if agg["counts"].get(k, 0) < n]
        if len(inconclusive) * 4 > agg["n"]:
            print("too many inconclusive executions: no verdict")
            return 2
        if short:
            print("observed too little for a verdict: " + "; ".join(short))
            return 2
    return status


if __name__ == "__main__":
    sys.exit(main())
