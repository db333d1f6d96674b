#!/opt/veriftools/pyvenv/bin/python3
"""Decide one property: generate the proof obligations of every contract the
property depends on from /repo's current source, discharge them, and evaluate
the same contracts concretely (replay of failures, labelled bounded part).

usage: check.py PROPERTY [--tier quick|thorough] [--only SUBSTRING] [--no-search] [--no-proof]
"""
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/engine", HERE + "/specs"]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import importlib
import task as TK
import ir as IRM
from registry import PROPS, TRUSTED

REPO = IRM.REPO
NPROC = min(8, os.cpu_count() or 8)


def build_search(name, out, log):
    """compile the concrete evaluator (in the background)."""
    return subprocess.Popen(["g++", "-std=c++17", "-O1", "-w", "-I" + REPO + "/include", "-I" + HERE + "/search", "-isystem", "/usr/include/eigen3",
                             "%s/search/%s.cpp" % (HERE, name), "-o", out], stdout=log, stderr=subprocess.STDOUT)


class Pool:
    """run picklable jobs in forked children with a per-job time limit."""

    def __init__(self, n):
        self.n = n

    def run(self, jobs, fn, limit, on_done):
        left = list(jobs)[::-1]
        live = {}
        try:
            while left or live:
                while left and len(live) < self.n:
                    j = left.pop()
                    r, w = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        os.close(r)
                        try:
                            res = fn(j)
                        except BaseException as e:
                            res = {"status": "unsupported", "detail": "internal: %r" % e, "obs": [], "nobs": 0}
                        try:
                            with os.fdopen(w, "w") as f:
                                json.dump(res, f)
                        finally:
                            os._exit(0)
                    os.close(w)
                    live[r] = [j, pid, time.time() + limit, b""]
                rd, _, _ = select.select(list(live), [], [], 0.5)
                for r in rd:
                    d = os.read(r, 1 << 16)
                    if d:
                        live[r][3] += d
                        continue
                    j, pid, _, buf = live.pop(r)
                    os.close(r)
                    os.waitpid(pid, 0)
                    try:
                        res = json.loads(buf)
                    except ValueError:
                        res = {"status": "unsupported", "detail": "worker died", "obs": [], "nobs": 0}
                    on_done(j, res)
                for r in list(live):
                    if time.time() > live[r][2]:
                        j, pid, _, _ = live.pop(r)
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        os.close(r)
                        on_done(j, {"status": "unsupported", "detail": "time limit %d s" % limit, "obs": [], "nobs": 0})
        finally:
            for r in live:
                os.kill(live[r][1], signal.SIGKILL)


def known_findings():
    r = []
    p = HERE + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=<id> match=<substring> | text
                head, text = l[len("finding:"):].split("|", 1)
                kv = dict(x.split("=", 1) for x in head.split())
                r.append((kv["property"], kv["match"], text.strip()))
    return r


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    do_search = do_proof = True
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
            i += 1
        elif args[i] == "--only":
            only = args[i + 1]
            i += 1
        elif args[i] == "--no-search":
            do_search = False
        elif args[i] == "--no-proof":
            do_proof = False
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(HERE + "/evidence", exist_ok=True)
    os.makedirs(HERE + "/build/replay", exist_ok=True)
    for f in os.listdir(HERE + "/build/replay"):
        if f.startswith(prop + "-"):
            os.unlink(HERE + "/build/replay/" + f)
    work = tempfile.mkdtemp(prefix="vt-%s-" % prop)
    try:
        code = decide(prop, P, tier, seed, only, do_search, do_proof, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def load_tasks(P, only):
    tasks = []
    for modname, gens in P.get("proof", []):
        mod = importlib.import_module(modname)
        for g in gens:
            flt = None
            if isinstance(g, tuple):
                g, flt = g
            ts = getattr(mod, g)()
            if flt:
                ts = [t for t in ts if t.fn in flt or t.name in flt]
            for t in ts:
                t.module, t.gen = modname, g
                if only is None or only in t.name:
                    tasks.append(t)
    return tasks


def canaries(tasks):
    """known-wrong variants of the first contract of each generator: the
    verifier must reject every one of them."""
    r, seen = [], set()
    for t in tasks:
        if t.gen in seen or t.expect_fail:
            continue
        c = t.wrong()
        if c is None:
            continue
        seen.add(t.gen)
        c.module, c.gen = t.module, t.gen
        r.append(c)
    return r


def extract_all(tasks, work, notes):
    """module -> parsed IR, one translation unit per spec module."""
    mods = {}
    groups = {}
    for t in tasks:
        groups.setdefault(t.module, []).append(t)
    procs = []
    for m, ts in groups.items():
        mod = importlib.import_module(m)
        size = getattr(mod, "TU", 60)
        for k in range(0, len(ts), size):
            procs.append((m, mod, ts[k:k + size], k))

    def job(x):
        m, mod, ts, k = procs[x]
        try:
            uniq = {t.name: t for t in ts}
            txt = TK.build(list(uniq.values()), mod.INC, work, "%s_%d" % (m, k), keep=getattr(mod, "KEEP", ()))
            open("%s/%s_%d.ir" % (work, m, k), "w").write(txt)
            return {"ok": True}
        except IRM.ExtractError as e:
            return {"ok": False, "detail": str(e)[-1500:]}

    def done(x, res):
        m, mod, ts, k = procs[x]
        if res.get("ok"):
            M = IRM.Module(open("%s/%s_%d.ir" % (work, m, k)).read())
            for t in ts:
                mods[t.name] = M
        else:
            notes.append("extraction of %s failed: %s" % (m, res.get("detail", "")[-600:]))
    Pool(NPROC).run(range(len(procs)), job, 600, done)
    return mods


def callee_report(used, tasks, results):
    """contracts used at calls: proved in this run, proved by the check of
    another property, or assumed."""
    here = {t.name: results[k]["status"] for k, t in enumerate(tasks)}
    r = {}
    for f, n, a in sorted(used):
        w = "assumed (bounded evaluation only)" if a else "proved in this run" if here.get(n) == "proved" else \
            "in this run, not proved" if n in here else "proved by: " + (owner(n) or "no registered check")
        r.setdefault(w, []).append(n)
    return r


_own = {}


def owner(name):
    if not _own:
        for q, Q in PROPS.items():
            for t in load_tasks(Q, None):
                _own.setdefault(t.name, []).append(q)
    return ", ".join(_own.get(name, []))


def decide(prop, P, tier, seed, only, do_search, do_proof, work, t0):
    notes = []
    search = {}
    if do_search:
        for name, cases, kinds in P.get("search", []):
            log = open("%s/%s.log" % (work, name), "w")
            search[name] = (build_search(name, "%s/s_%s" % (work, name), log), cases, kinds)
    # ------------------------------------------------------------- proof part
    tasks = load_tasks(P, only) if do_proof else []
    cans = canaries(tasks)
    mods = extract_all(tasks + cans, work, notes)
    for s in search.values():
        s[0].wait()
    results, canres = {}, {}
    jobs = [("t", k) for k in range(len(tasks))] + [("c", k) for k in range(len(cans))]

    def run(j):
        t = (tasks if j[0] == "t" else cans)[j[1]]
        if t.name not in mods:
            return {"task": t.name, "status": "unsupported", "detail": "extraction failed", "obs": [], "nobs": 0}
        return t.run(mods[t.name])

    def done(j, res):
        (results if j[0] == "t" else canres)[j[1]] = res
    # start searches
    running = []
    stime = P.get("stime", {}).get(tier, 30 if tier == "quick" else 300)
    for name, (p, cases, kinds) in search.items():
        exe = "%s/s_%s" % (work, name)
        if not os.path.exists(exe):
            notes.append("concrete evaluator %s does not compile: %s" % (name, open("%s/%s.log" % (work, name)).read()[-800:]))
            continue
        par = 1 if tier == "quick" else 3
        for w in range(par):
            cmd = [exe, "--seed", str(seed + 7919 * w), "--time", str(stime)]
            if cases:
                cmd += ["--only", ",".join(cases)]
            out = open("%s/s_%s_%d.out" % (work, name, w), "w")
            running.append((name, kinds, cmd, subprocess.Popen(cmd, stdout=out, stderr=subprocess.DEVNULL), out.name))
    limit = 200 if tier == "quick" else 1500
    Pool(max(2, NPROC - min(4, len(running)))).run(jobs, run, limit, done)

    violations = []          # (key, text, replay dict, concrete?)
    pk = P.get("kinds")
    nob = nd = 0
    bykind, backends, funcs, unsupported, divisors = {}, {}, {}, [], set()
    z3t = z3c = 0
    failed = []
    used = set()
    for k, t in enumerate(tasks):
        r = results[k]
        used |= {tuple(u) for u in r.get("used", [])}
        st = r["status"]
        ok_all = True
        for kind, name, ok, be in r["obs"]:
            if pk and kind not in pk and not kind.startswith("invariant"):
                continue
            nob += 1
            nd += bool(ok)
            b = bykind.setdefault(kind, [0, 0])
            b[0] += 1
            b[1] += bool(ok)
            backends[be] = backends.get(be, 0) + bool(ok)
        z3t += r.get("z3_time", 0)
        z3c += r.get("z3_calls", 0)
        divisors |= set(r.get("divisors", []))
        f = funcs.setdefault(t.fn, {"contracts": 0, "proved": 0, "obligations": 0})
        f["contracts"] += 1
        f["obligations"] += r.get("nobs", 0)
        if st == "proved":
            f["proved"] += 1
        elif st == "failed":
            bad = [o for o in r["obs"] if not o[2] and (not pk or o[0] in pk)]
            if bad or not pk or not r["obs"] or r.get("raised"):
                if r.get("raised") and pk and r["raised"] not in pk:
                    unsupported.append((t, r))
                    continue
                failed.append((t, r, bad))
            elif r.get("undecided") or any(o[0].startswith("invariant") and not o[2] for o in r["obs"]):
                unsupported.append((t, r))
            # failures of obligations that belong to another property are reported there
        else:
            unsupported.append((t, r))
            nob += 1          # the contract itself stays undischarged
    can_bad = [cans[k].name for k in range(len(cans)) if canres[k]["status"] == "proved"]
    # ----------------------------------------------------------- search part
    ev = distinct = 0
    samples, sfails = [], []
    for name, kinds, cmd, p, out in running:
        try:
            p.wait(timeout=stime + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            notes.append("concrete evaluation of %s stopped by time limit" % name)
        for line in open(out):
            try:
                d = json.loads(line)
            except ValueError:
                notes.append("unreadable evaluator output: %s" % line[:80])
                continue
            if "fail" in d:
                if kinds is None or d["kind"] in kinds or d["kind"] in ("crash", "hang"):
                    sfails.append((name, d))
            elif "evaluations" in d:
                ev += d["evaluations"]
                distinct += d["distinct"]
                samples += d["samples"]
    for name, d in sfails:
        violations.append(("%s/%s" % (d["fail"], d["kind"]), "%s: %s [%s]" % (d["fail"], d["msg"], d["case"]),
                           {"replay": "concrete", "evaluator": "search/%s.cpp" % name, "function": d["fail"], "kind": d["kind"],
                            "args": "--only %s --seed %d --at %d" % (d["fail"], d["seed"], d["iter"]), "input": d["case"], "observed": d["msg"]}, True))
    hit = {d["fail"] for _, d in sfails}
    for t, r, bad in failed:
        fns = {t.fn} | set(getattr(t, "search", ()))
        conc = [v for v in violations if v[3]]
        violations.append(("%s" % t.name, "contract %s of %s: %s" % (t.name, t.fn, r["detail"]),
                           {"replay": "obligation", "contract": t.name, "function": t.fn,
                            "failed_obligations": [list(o[:2]) for o in bad][:20], "verifier_output": r["detail"]}, False))
    # --------------------------------------------------------------- evidence
    nprov = sum(1 for r in results.values() if r["status"] == "proved")
    level = P.get("level", "proof")
    cov = {"obligations": nob, "discharged": nd,
           "checker_cmd": "python check.py %s" % prop,
           "trusted_base": TRUSTED,
           "contracts": len(tasks), "contracts_proved": nprov,
           "functions_under_contract": funcs,
           "obligations_by_kind": {k: {"generated": a, "discharged": b} for k, (a, b) in bykind.items()},
           "discharged_by_back_end": backends, "solver_calls": z3c, "solver_seconds": round(z3t, 2),
           "not_decided_by_proof": [{"contract": t.name, "function": t.fn, "reason": r["detail"][:300]} for t, r in unsupported],
           "wrong_contracts_rejected": "%d of %d" % (len(cans) - len(can_bad), len(cans)),
           "bounded_part": {"label": "bounded: never counted as proved", "what": P.get("bounded", "every contract above, and the functions listed as out of the verifier's reach, evaluated on concrete inputs"),
                            "evaluations": ev, "distinct_inputs": distinct, "seconds": stime, "samples": samples[:8]},
           "callee_contracts_relied_on": callee_report(used, tasks, results),
           "notes": notes}
    if level != "proof":
        cov["explanation"] = P.get("explanation", "")
        cov["evaluations"] = ev
        cov["distinct_nontrivial"] = distinct
        cov["rule"] = "random shapes, flags, layouts, strides and contents; distinct = different shape/flag/layout description"
        cov["samples"] = samples[:8] or ["none"]
    kn = known_findings()
    reported, findings = [], []
    for v in violations:
        m = [k for k in kn if k[0] == prop and (k[1] in v[0] or k[1] in v[1])]
        (findings if m else reported).append((v, m))
    for (v, m) in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, m[0][2]))
    evd = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": P.get("assumptions", []) + sorted({"assumed contract %s" % a for f, n, a in used if a}) + (["divisors that occur are nonzero (kinds: %s)" % ", ".join(sorted(divisors))] if divisors else []),
           "wall_s": round(time.time() - t0, 1), "violations": len(reported)}
    with open("%s/evidence/%s.json" % (HERE, prop), "w") as f:
        json.dump(evd, f, indent=1)
    print("%s: %d contracts, %d proved, %d undecided by proof; %d/%d obligations; concrete evaluations %d; %.1f s" % (
        prop, len(tasks), nprov, len(unsupported), nd, nob, ev, time.time() - t0))
    for t, r in unsupported[:12]:
        print("  undecided: %s: %s" % (t.name, r["detail"][:160]))
    if can_bad:
        print("ERROR: the verifier accepted known-wrong contracts: %s" % can_bad)
        return 2
    for n in notes:
        print("  note:", n[:300])
    if not reported:
        return 0
    conc = [v for v, _ in reported if v[3]]
    abst = [v for v, _ in reported if not v[3]]
    n = 0
    for v in conc[:6]:
        path = "%s/build/replay/%s-%d.json" % (HERE, prop, n)
        n += 1
        rel = [a[2] for a in abst if a[2]["function"] == v[2]["function"]]
        json.dump({**v[2], "failed_obligations": rel[:4]}, open(path, "w"), indent=1)
        print("  " + v[1][:300])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if not conc:
        path = "%s/build/replay/%s-%d.json" % (HERE, prop, n)
        json.dump({"replay": "obligation", "failed": [a[2] for a in abst[:20]]}, open(path, "w"), indent=1)
        for v in abst[:4]:
            print("  " + v[1][:300])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    return 1


if __name__ == "__main__":
    main()
