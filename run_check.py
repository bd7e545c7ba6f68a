#!/usr/bin/env python3
"""Runs one check: rebuilds the monitors from /repo's working tree, runs them,
judges what they observed, rewrites evidence/<id>.json.

  run_check.py C01 [--thorough]        exit 0 held, 1 violated, 2 error of the check
  run_check.py --replay evidence/replay/C01-0.json
"""
import json, os, re, subprocess, sys, time, signal, resource, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
from checks import CHECKS

# memcheck: the plain build under valgrind (reads of uninitialised memory)
FLAV = {"plain": ("g++", "gcc"), "asan": ("g++", "gcc"), "tsan": ("g++", "gcc")}
NPROC = os.cpu_count() or 8

VALGRIND = ["valgrind", "--quiet", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=14", "--fair-sched=yes"]

def built(flavour): return "plain" if flavour == "memcheck" else flavour

def build(flavour, targets, log=sys.stderr):
    d = f"{HERE}/build/{flavour}"
    os.makedirs(d, exist_ok=True)
    cxx, cc = FLAV[flavour]
    if not os.path.exists(f"{d}/build.ninja"):
        r = subprocess.run(["cmake", "-S", HERE, "-B", d, "-G", "Ninja", f"-DCMAKE_CXX_COMPILER={cxx}",
                            f"-DCMAKE_C_COMPILER={cc}", f"-DFLAVOUR={flavour}"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-3000:], file=log); return False
    r = subprocess.run(["ninja", "-C", d, "-j", str(NPROC)] + list(targets), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:], file=log); return False
    return True

SAN_ENV = {
    "ASAN_OPTIONS": "halt_on_error=1:abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:handle_segv=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4",
}

def limits(mem_gb):
    def f():
        if mem_gb: resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setpgrp()
    return f

def run_procs(jobs, timeout):
    """jobs: list of (argv, env, out, mem). Returns list of (rc, stderr tail)"""
    t0 = time.time(); ps = []
    for argv, env, out, mem in jobs:
        for sfx in ("", ".crash", ".hashes"):
            if os.path.exists(out + sfx): os.unlink(out + sfx)
        f = open(out + ".err", "wb")
        e = dict(os.environ); e.update(env)
        ps.append((subprocess.Popen(argv, env=e, stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits(mem)), f, out))
    res = []
    for p, f, out in ps:
        try: rc = p.wait(timeout=max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = "timeout"
        f.close()
        with open(out + ".err", "rb") as g:
            g.seek(0, 2); n = g.tell(); g.seek(max(0, n - 200000)); err = g.read().decode("utf8", "replace")
        res.append((rc, err))
    return res

def san_summary(err):
    m = re.search(r"(==\d+==ERROR: AddressSanitizer: \S+|runtime error: [^\n]*|==\d+== (?:Conditional jump|Use of uninit|Invalid (?:read|write|free)|Syscall param|Mismatched free)[^\n]*|\S*: Assertion '[^\n]*' failed|WARNING: ThreadSanitizer: [^\n(]*)", err)
    return m.group(1).strip() if m else None

def san_frames(err, n=6):
    return [f for f in re.findall(r"(?:#\d+ 0x[0-9a-f]+ in|==\d+==    (?:at|by) 0x[0-9A-F]+:) ([^\n]+)", err)][:n]

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        if not build(built(r["flavour"]), [r["target"]]): return 2
        env = dict(os.environ); env.update(SAN_ENV); env.update(r.get("env", {}))
        return subprocess.run((VALGRIND if r["flavour"] == "memcheck" else []) + [f"{HERE}/build/{built(r['flavour'])}/{r['target']}"] + r["args"], env=env).returncode
    pid = a[0]
    thorough = "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = CHECKS[pid]
    t0 = time.time()
    os.makedirs("evidence/replay", exist_ok=True)
    for f in os.listdir("evidence/replay"):
        if f.startswith(pid + "-"): os.unlink("evidence/replay/" + f)
    outdir = f"{HERE}/build/out/{pid}"
    shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    by_fl = {}
    for r in cfg["runs"]: by_fl.setdefault(built(r.get("flavour", "plain")), []).append(r["target"])
    for fl, ts in by_fl.items():
        if not build(fl, sorted(set(ts))):
            print(f"build of {ts} ({fl}) failed: no verdict", file=sys.stderr); return 2
    t_build = time.time() - t0
    tl = float(cfg.get("thorough_s", 1500) if thorough else cfg.get("quick_s", 200))
    viols, crashes, procs = [], [], []
    merged = {"cases": {}, "counts": {}, "max": {}, "samples": {}, "flavours": sorted(by_fl)}
    hashes = {}
    unfinished = False
    # all runs of one check are executed one flavour after another, sharded
    for ri, r in enumerate(cfg["runs"]):
        fl = r.get("flavour", "plain")
        exe = f"{HERE}/build/{built(fl)}/{r['target']}"
        pre = VALGRIND if fl == "memcheck" else []
        shards = r.get("shards", NPROC)
        env = dict(SAN_ENV); env["SEQUANT_NUM_THREADS"] = str(r.get("nthreads", 2)); env.update(r.get("env", {}))
        base = ["--seed", str(seed), "--seconds", str(tl / len(cfg["runs"]) if not r.get("seconds") else r["seconds"])] + r.get("args", [])
        if "scale" in r: base += ["--scale", str(r["scale"])]
        if thorough: base.append("--thorough")
        if fl != "plain": base.append("--nosig")
        hang = r.get("hang", 60 if fl == "plain" else 150)
        jobs = []
        for s in range(shards):
            out = f"{outdir}/{ri}-{s}.json"
            jobs.append((pre + [exe] + base + ["--hang", str(hang), "--shard", f"{s}/{shards}", "--out", out], env, out, r.get("mem_gb", 6) if fl == "plain" else 0))
        for (argv, env_, out, mem), (rc, err) in zip(jobs, run_procs(jobs, tl + 2 * hang + 60)):
            where = {"flavour": fl, "target": r["target"], "env": {k: env_[k] for k in ("SEQUANT_NUM_THREADS",)}}
            if os.path.exists(out):
                try: d = json.load(open(out))
                except Exception as x: print(f"unreadable result {out}: {x}", file=sys.stderr); return 2
                for k, v in d["cases"].items(): merged["cases"][k] = merged["cases"].get(k, 0) + v
                for k, v in d["counts"].items(): merged["counts"][k] = merged["counts"].get(k, 0) + v
                for k, v in d["max"].items(): merged["max"][k] = max(merged["max"].get(k, v), v)
                for k, v in d["samples"].items(): merged["samples"].setdefault(k, []).extend(v)
                if os.path.exists(out + ".hashes"):
                    for line in open(out + ".hashes"):
                        k, h = line.rsplit(" ", 1); hashes.setdefault(k, set()).add(h)
                for v in d["violations"]:
                    viols.append({**where, "signature": v["signature"], "detail": v["detail"],
                                  "args": ["--seed", str(seed)] + r.get("args", []) + (["--thorough"] if thorough else []) +
                                          ["--kind", v["kind"], "--case", str(v["case"])]})
            if fl == "tsan" and "WARNING: ThreadSanitizer" in err:
                for blk in err.split("==================")[1:]:
                    if "WARNING: ThreadSanitizer" not in blk: continue
                    fr = re.findall(r"#\d+ (.+?) (?:/|\(|<)", blk)
                    keep = [re.sub(r"<.*", "", f)[:80] for f in fr if "sequant" in f or "Index" in f][:2]
                    viols.append({**where, "signature": "tsan:" + "|".join(keep), "detail": blk[:3500],
                                  "args": base + ["--shard", argv[argv.index("--shard") + 1]]})
            if rc in (0, 1) or (rc == 66 and os.path.exists(out)): continue
            # abnormal end: which case was running?
            case = None
            if os.path.exists(out + ".crash"):
                L = open(out + ".crash").read().split("\n"); case = (L[0], L[1], int(L[2]))
            else:
                m = re.findall(r"@case (\S+) (-?\d+)", err)
                if m: case = ("abnormal end", m[-1][0], int(m[-1][1]))
            if rc == "timeout" or rc == -9:
                print(f"{r['target']} ended by watchdog or memory limit: no verdict from this shard ({rc})", file=sys.stderr); unfinished = True; continue
            if case is None:
                print(f"{r['target']} ended with {rc} outside any case\n{err[-1500:]}", file=sys.stderr); return 2
            # confirm by re-running this case alone
            one = pre + [exe, "--seed", str(seed)] + r.get("args", []) + (["--thorough"] if thorough else []) + (["--nosig"] if fl != "plain" else []) + \
                  ["--hang", str(2 * hang), "--kind", case[1], "--case", str(case[2]), "--out", out + ".again"]
            n_prev = sum(1 for c in crashes if c["confirmed"])
            if n_prev >= 2: continue      # enough evidence
            (rc2, err2), = run_procs([(one, env_, out + ".again", mem)], 2 * hang + 30)
            summ = san_summary(err) or san_summary(err2) or (case[0] if rc != 77 else "hang")
            again = rc2 not in (0, 1)
            if rc == 77 and not again:
                print(f"slow case {case[1]} {case[2]} finished on the second attempt: inconclusive", file=sys.stderr); unfinished = True; continue
            m = re.search(r"terminate called[^\n]*\n[^\n]*", err)
            summ = re.sub(r"==\d+==", "", summ)
            crashes.append({"confirmed": True})
            viols.append({**where, "signature": f"{case[1]}:abnormal-end:{summ}", "args": one[len(pre) + 1:-2],
                          "detail": f"the run ended abnormally in case {case[1]} {case[2]}: {summ} (rc {rc}; alone: rc {rc2}) {m.group(0) if m else ''}\n" +
                                    "\n".join(san_frames(err) or san_frames(err2)) + "\n" + err[-600:]})
    # a memory-safety or data-race check runs workloads whose values other checks judge:
    # only what the sanitizers saw counts here
    if "judge" in cfg:
        other = [v for v in viols if not any(j in v["signature"] for j in cfg["judge"])]
        viols = [v for v in viols if any(j in v["signature"] for j in cfg["judge"])]
        if other: print(f"note: {len(other)} violation(s) of other kinds seen, left to their own checks: {other[0]['signature'][:200]}", file=sys.stderr)
    # known findings
    known = [k for k in json.load(open("known_findings.json"))["findings"] if k["property"] == pid]
    ksig = {k["signature"]: k for k in known}
    new, seen = [], []
    for v in viols:
        if v["signature"] in ksig:
            if v["signature"] not in seen: seen.append(v["signature"])
        else: new.append(v)
    for k in known:
        if k["signature"] in seen: print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else: print(f"note: known finding {k['signature']} was not observed", file=sys.stderr)
    evals = sum(merged["cases"].values())
    nontriv = len(hashes.get("nontrivial", ()))
    samples = []
    for k in sorted(merged["samples"]): samples += [f"{k}: {t}" for t in merged["samples"][k][:3]]
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": cfg["level"],
          "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv, "rule": cfg["rule"], "samples": samples[:24],
                       "cases_by_kind": merged["cases"], "observed": merged["counts"],
                       "distinct_observed": {k: len(v) for k, v in sorted(hashes.items())},
                       "maxima": {k: round(v, 4) for k, v in merged["max"].items()}, "builds": merged["flavours"]},
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    ev["coverage"]["build_s"] = round(t_build, 1)
    ev["coverage"]["known_findings_observed"] = seen
    json.dump(ev, open(f"evidence/{pid}.json", "w"), indent=1, ensure_ascii=False)
    shown = set()
    for n, v in enumerate(new):
        if v["signature"] in shown or len(shown) >= 12: continue
        shown.add(v["signature"])
        path = f"evidence/replay/{pid}-{len(shown)-1}.json"
        json.dump({"property": pid, **v}, open(path, "w"), indent=1, ensure_ascii=False)
        print(f"VIOLATION property={pid} replay={path}")
        print("   " + v["signature"] + "\n   " + v["detail"][:1500].replace("\n", "\n   "))
    print(f"{pid}: {evals} cases, {nontriv} distinct non-trivial, {len(new)} violation(s), build {t_build:.0f} s, total {time.time()-t0:.0f} s")
    if new: return 1
    if unfinished and not cfg.get("allow_unfinished"): return 2
    for k, n in cfg.get("require", {}).items():
        have = merged["counts"].get(k, 0)
        if have < n: print(f"too little observed: {k} = {have} < {n}", file=sys.stderr); return 2
    if nontriv < cfg.get("min_nontrivial", 2): print("too little observed", file=sys.stderr); return 2
    return 0

if __name__ == "__main__": sys.exit(main())
