"""Runs instrumented harnesses, classifies what their monitors reported, writes evidence."""
import threading
import json, os, re, subprocess, sys, time, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")

ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=0:max_allocation_size_mb=4096:handle_segv=1:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=5:report_signal_unsafe=0:detect_deadlocks=0:suppressions=" + os.path.join(VERIF, "lib", "tsan.supp"),
}


def frames(text):
    """function names of frames whose source is in /repo, in order"""
    out = []
    for m in re.finditer(r"^\s*#\d+\s+(?:0x[0-9a-f]+ in )?(\S+) .*?(/repo/\S+?):\d+", text, re.M):
        out.append(m.group(1))
    return out


def san_signature(err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        fr = frames(err[m.start():])
        return f"asan:{m.group(1)}:{fr[0] if fr else '?'}"
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", err)
    if m:
        fr = frames(err[m.start():])
        return f"tsan:{m.group(1).strip().replace(' ', '-')}:{':'.join(fr[:1]) or '?'}"
    m = re.search(r"(/repo/\S+?):\d+:\d+: runtime error: (.*)", err)
    if m:
        fr = frames(err[m.start():])
        return f"ubsan:{os.path.basename(m.group(1))}:{fr[0] if fr else '?'}:{re.sub(r'[-+]?[0-9.e+]+', 'N', m.group(2))[:60]}"
    m = re.search(r"ERROR: LeakSanitizer: detected memory leaks", err)
    if m:
        fr = frames(err[m.start():])
        return f"lsan:leak:{fr[0] if fr else '?'}"
    return None


def run_job(job, exe, idx, workroot):
    d = os.path.join(workroot, f"j{idx}")
    os.makedirs(d, exist_ok=True)
    outp = os.path.join(d, "out.jsonl")
    errp = os.path.join(d, "err.txt")
    cmd = [exe, "--seed", str(job["seed"]), "--cases", str(job["cases"]), "--mode", job.get("mode", ""),
           "--dir", d, "--out", outp, "--thorough", "1" if job.get("thorough") else "0"]
    env = dict(os.environ); env.update(ENV)
    for k, v in job.get("env", {}).items():
        env[k] = (env[k] + ":" + v) if k.endswith("SAN_OPTIONS") and k in env else v
    t0 = time.time()
    status = None
    with open(errp, "wb") as ef:
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, cwd=d, env=env, start_new_session=True)
            status = p.wait(timeout=job["timeout"])
        except subprocess.TimeoutExpired:
            try:
                if shutil.which("gdb"):
                    bt = subprocess.run(["gdb", "-p", str(p.pid), "-batch", "-ex", "thread apply all bt 12"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=40).stdout
                    ef.write(("\n--- stacks at timeout ---\n" + bt).encode())
            except Exception:
                pass
            try:
                os.killpg(p.pid, 9)
            except Exception:
                pass
            p.wait()
            status = "timeout"
        finally:
            try:
                os.killpg(p.pid, 9)
            except Exception:
                pass
    with open(errp, "rb") as f:
        f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 400000)); err = f.read().decode(errors="replace")
    recs = []
    try:
        for l in open(outp, errors="replace"):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    except FileNotFoundError:
        pass
    return {"job": job, "cmd": cmd, "status": status, "err": err, "recs": recs, "wall": time.time() - t0, "dir": d}


def verdicts(r):
    """list of (signature, text, kind) found in one job result; kind: viol | hang | error.
    A job with "only" lends its workload to a property: what else goes wrong in it is another check's answer."""
    only = r["job"].get("only")
    return [v for v in all_verdicts(r) if not only or re.search(only, v[0]) or (v[2] == "error" and v[0] in ("exit:2", "exit:3"))]


def all_verdicts(r):
    out = []
    for x in r["recs"]:
        if x.get("t") == "viol":
            out.append((x["sig"], x["msg"], "viol"))
    s = san_signature(r["err"])
    if s:
        m = re.search(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|runtime error|ERROR: LeakSanitizer)", r["err"])
        out.append((s, r["err"][max(0, m.start() - 200): m.start() + 3500] if m else r["err"][-3000:], "viol"))
    elif r["status"] == "timeout":
        out.append(("hang:" + r["job"].get("mode", ""), r["err"][-6000:], "hang"))
    elif r["status"] not in (0, 1):
        done = any(x.get("t") == "done" for x in r["recs"])
        if isinstance(r["status"], int) and r["status"] < 0:
            out.append((f"signal:{-r['status']}", r["err"][-3000:], "viol"))
        elif r["status"] == 3 or not done:
            out.append((f"exit:{r['status']}", r["err"][-3000:], "error" if r["status"] in (2, 3) else "viol"))
        else:
            out.append((f"exit:{r['status']}", r["err"][-3000:], "viol"))
    elif not any(x.get("t") == "done" for x in r["recs"]):
        out.append(("no-summary", r["err"][-3000:], "error"))
    return out


def load_known(prop):
    try:
        k = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [f for f in k.get("findings", []) if f["property"] == prop]


def run_check(prop, spec, tier, seed):
    t0 = time.time()
    jobs = []
    for j in spec["jobs"](tier, seed, spec.get("mult", 1)):
        j.setdefault("timeout", 300); j["thorough"] = tier == "thorough"
        jobs.append(j)
    byvar = {}
    for j in jobs:
        byvar.setdefault(j["variant"], set()).add(j["harness"])
        for x in j.get("also", []):
            byvar[j["variant"]].add(x)
    exes = {}
    for var, names in byvar.items():
        t, err = B.build(var, sorted(names))
        if t is None:
            print(f"ERROR property={prop}: build of {sorted(names)} ({var}) failed:\n{err}")
            return 2
        for n, p in t.items():
            exes[(var, n)] = p
    workroot = tempfile.mkdtemp(prefix=f"{prop}-", dir=os.environ.get("VP_WORK", "/tmp"))
    known = load_known(prop)
    rc = 0
    try:
        par = spec.get("parallel", 4)

        def batch(todo):
            """runs jobs until one is violated or gives no answer in time; the later ones stay None"""
            stop = threading.Event()

            def one(i):
                if stop.is_set():
                    return None
                r = run_job(jobs[i], exes[(jobs[i]["variant"], jobs[i]["harness"])], i, workroot)
                if verdicts(r):
                    stop.set()
                return r
            with ThreadPoolExecutor(par) as ex:
                return dict(zip(todo, ex.map(one, todo)))

        got = {}
        while True:
            todo = [i for i in range(len(jobs)) if got.get(i) is None]
            if not todo:
                break
            got.update(batch(todo))
            kinds = [(i, k) for i, r in got.items() if r for _, _, k in verdicts(r)]
            if any(k != "hang" for _, k in kinds):
                break
            # a job that gave no answer in time is run once more, alone, before it counts as a hang
            hung = False
            for i, _ in kinds:
                j2 = dict(jobs[i]); j2["timeout"] = jobs[i]["timeout"] * 2
                got[i] = run_job(j2, exes[(j2["variant"], j2["harness"])], 1000 + i, workroot)
                if verdicts(got[i]):
                    hung = True
                    break
            if hung:
                break
        answered = any(k == "viol" for r in got.values() if r for _, _, k in verdicts(r))
        res = [r for _, r in sorted(got.items()) if r and not (answered and any(k == "hang" for _, _, k in verdicts(r)) and not any(k == "viol" for _, _, k in verdicts(r)))]
        viols, errors, knowns = [], [], {}
        for r in res:
            for sig, msg, kind in verdicts(r):
                f = next((f for f in known if re.search(f["signature"], sig)), None)
                if kind == "error":
                    errors.append((r, sig, msg))
                elif f is not None:
                    knowns[f["id"]] = (f, msg)
                else:
                    viols.append((r, sig, msg))
            for x in r["recs"]:
                if x.get("t") == "known":
                    f = next((f for f in known if f["id"] == x["sig"]), None)
                    if f is None:
                        viols.append((r, "known:" + x["sig"], x["msg"]))
                    else:
                        knowns[f["id"]] = (f, x["msg"])
        evals = 0; ctr = {}; dist = set(); ndist = 0; samples = []
        for r in res:
            for x in r["recs"]:
                if x.get("t") == "done":
                    evals += x["evals"]
                    pre = r["job"].get("mode", "")
                    dist.update((r["job"]["harness"], pre, h) for h in x["dist"])
                    for k, n in x["ctr"].items():
                        ctr[k] = ctr.get(k, 0) + n
                elif x.get("t") == "sample" and len(samples) < 12:
                    samples.append(x["msg"])
        for fid in sorted(knowns):
            f, _ = knowns[fid]
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"],
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(dist), "rule": spec["rule"],
                           "samples": samples or ["(none recorded)"], "observed": ctr,
                           "jobs": [{"harness": r["job"]["harness"], "variant": r["job"]["variant"], "mode": r["job"].get("mode", ""),
                                     "seed": r["job"]["seed"], "status": r["status"], "wall_s": round(r["wall"], 2)} for r in res]},
              "assumptions": spec.get("assumptions", []), "violations": len(viols), "wall_s": round(time.time() - t0, 2)}
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if viols:
            rdir = os.path.join(VERIF, ".work", "replay"); os.makedirs(rdir, exist_ok=True)
            seen = {}
            for r, sig, msg in viols:
                if sig in seen:
                    continue
                rp = os.path.join(rdir, f"{prop}-{hashlib.sha1(sig.encode()).hexdigest()[:10]}.txt")
                seen[sig] = rp
                with open(rp, "w") as f:
                    f.write(f"property: {prop}\nsignature: {sig}\ncommand: {' '.join(r['cmd'])}\nstatus: {r['status']}\n\n{msg}\n\n--- log tail ---\n{r['err'][-8000:]}\n")
                print(f"  {sig}: {msg.strip().splitlines()[0][:300] if msg.strip() else ''}")
                print(f"VIOLATION property={prop} replay={rp}")
            rc = 1
        elif errors:
            for r, sig, msg in errors:
                print(f"ERROR property={prop}: {sig}: {' '.join(r['cmd'])}\n{msg[-1500:]}")
            rc = 2
        else:
            print(f"OK property={prop} tier={tier} seed={seed} evaluations={evals} distinct={len(dist)} wall={time.time()-t0:.1f}s " + " ".join(f"{k}={v}" for k, v in sorted(ctr.items())))
    finally:
        if os.environ.get("VP_KEEP"):
            print("kept", workroot)
        else:
            shutil.rmtree(workroot, ignore_errors=True)
    return rc
