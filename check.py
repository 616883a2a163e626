#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current working tree.

1. builds govc (the contract verifier) and the harness from the committed
   sources and /repo's working tree,
2. govc generates and discharges every obligation of the functions under
   contract for the property, and of the functions whose contracts they use,
3. the harness runs the real code: bounded stand-in for what no contract
   reaches, and search for a failing input when an obligation fails.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
T0 = time.time()

def envvars():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", "source /opt/vp/env.sh && env -0"], capture_output=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode(errors="replace").split("=", 1)
            e[k] = v
    return e

def limits(gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f

def run(cmd, timeout, env, gb=16):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, preexec_fn=limits(gb), text=True, errors="replace", cwd=V)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, er = p.communicate()
        return None, o, er

def start(cmd, env, gb, out, err):
    return subprocess.Popen(cmd, stdout=open(out, "w"), stderr=open(err, "w"), env=env, preexec_fn=limits(gb), cwd=V)

def finish(p, timeout):
    try:
        return p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
        return None

class Harness:
    def __init__(self, binary, pid, env, work):
        self.b, self.id, self.env, self.work = binary, pid, env, work
        self.n = 0

    def start(self, seed, tier, secs):
        self.n += 1
        t = os.path.join(self.work, "h%d" % self.n)
        e = dict(self.env, VERIF_SEED=str(seed), VERIF_TIER=tier, HARNESS_SECS=str(secs), HARNESS_TRACE=t + ".trace", GOGC="50")
        return (start([self.b, self.id], e, 12, t + ".out", t + ".err"), t, secs, seed, tier)

    def finish(self, h):
        """-> (summary dict or None, failure dict or None)"""
        p, t, secs, seed, tier = h
        rc = finish(p, secs + 45)
        out = open(t + ".out", errors="replace").read()
        err = open(t + ".err", errors="replace").read()
        try:
            js = json.loads(out)
        except ValueError:
            js = None
        if rc in (0, 3) and js is not None:
            fs = js.get("failures") or []
            if fs:
                f = dict(fs[0]); f["seed"] = seed; f["tier"] = tier
                return js, f
            return js, None
        # crash or hang: the trace names the case; confirm it alone
        case = ""
        try: case = open(t + ".trace", errors="replace").read().rstrip("\0")
        except OSError: pass
        what = "does not end" if rc is None else "crash (exit %s): %s" % (rc, err[:1500])
        if not case:
            return None, {"property": self.id, "case": "(none)", "expected": "the harness ends", "got": what, "seed": seed, "tier": tier, "error": True}
        e = dict(self.env, VERIF_SEED=str(seed), VERIF_TIER=tier, HARNESS_SECS="600", HARNESS_ONLY=case)
        rc2, o2, e2 = run([self.b, self.id], 60, e, 12)
        if rc2 in (0,):
            return None, None   # not reproduced by that case alone: not reported
        if rc2 == 3:
            try:
                f = json.loads(o2)["failures"][0]; f["seed"] = seed; f["tier"] = tier
                return None, f
            except Exception: pass
        what = "does not end within 60 s" if rc2 is None else "crash (exit %s): %s" % (rc2, e2[:1500])
        return None, {"property": self.id, "case": case, "expected": "the case ends normally", "got": what, "seed": seed, "tier": tier}

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    if len(sys.argv) > 2 and sys.argv[2] == "--thorough": tier = "thorough"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    meta = json.load(open(os.path.join(V, "levels.json")))[pid]
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return decide(pid, tier, seed, meta, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def die(msg):
    print("ERROR:", msg)
    sys.exit(2)

def decide(pid, tier, seed, meta, work):
    env = envvars()
    env["VERIF_TIER"], env["VERIF_SEED"] = tier, str(seed)
    hb, gb = os.path.join(work, "h"), os.path.join(work, "govc")
    b1 = subprocess.Popen(["bash", V + "/harness/build.sh", hb], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b2 = subprocess.Popen(["bash", V + "/govc/build.sh", gb], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    o1, _ = b1.communicate(); o2, _ = b2.communicate()
    if b1.returncode: die("the harness does not build against /repo:\n" + o1)
    if b2.returncode: die("govc does not build:\n" + o2)
    H = Harness(hb, pid, env, work)

    # bounded stand-in and prover run side by side
    secs = meta.get("secs", 20) if tier == "quick" else 240
    hs = [H.start(seed, tier, secs)]
    if tier == "thorough":
        hs += [H.start(seed + 1000 * k, tier, secs) for k in (1, 2)]
    proof = None
    failed = []
    if meta.get("proved", True):
        out = os.path.join(work, "govc.json")
        to = "30" if tier == "quick" else "120"
        rc, o, e = run([gb, "-prop", pid, "-out", out, "-timeout", to, "-budget", "300" if tier == "quick" else "2000"], 680 if tier == "quick" else 3000, env, 24)
        if rc not in (0, 1) or not os.path.exists(out):
            failed = [{"func": "(all)", "obligation": "verification conditions of %s" % pid, "why": "the verifier gave no answer (exit %s)" % rc, "output": (o + e)[-4000:]}]
            proof = {"results": [], "seconds": 0, "trusted": {}, "axioms": []}
        else:
            proof = json.load(open(out))
            for r in proof["results"] or []:
                if r["status"] == "verified" or r["status"] == "unused": continue
                if r.get("failed"):
                    for f in r["failed"]:
                        failed.append({"func": r["func"], "obligation": f["obligation"], "why": "not discharged: " + f["solver"], "pos": f["pos"], "goal": f["goal"], "query": f["query"]})
                else:
                    failed.append({"func": r["func"], "obligation": r["func"], "why": r["status"] + ": " + r.get("message", "")})
    cover, fails = [], []
    for h in hs:
        js, f = H.finish(h)
        if js: cover.append(js)
        if f:
            if f.get("error"): die("harness: " + f["got"])
            fails.append(f)
    searched = 0
    if failed and not fails:
        # an obligation failed: look for a concrete input with more effort
        s2 = 60 if tier == "quick" else 300
        more = [H.start(seed * 31 + 17 * k + 5, "thorough" if k % 2 else "quick", s2) for k in range(4)]
        for h in more:
            js, f = H.finish(h)
            if js: searched += js["evaluations"]
            if f and not f.get("error"): fails.append(f)
    return report(pid, tier, seed, meta, proof, failed, cover, fails, searched)

def report(pid, tier, seed, meta, proof, failed, cover, fails, searched):
    rep = os.path.join(V, "evidence")
    os.makedirs(rep, exist_ok=True)
    known = []
    kf = os.path.join(V, "KNOWN_FINDINGS")
    if os.path.exists(kf):
        for ln in open(kf):
            m = re.match(r"finding: property=(\S+) case=(.*)", ln.strip())
            if m and m.group(1) == pid: known.append(m.group(2))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    fails = [f for f in fails if f["case"] not in known]
    res = (proof["results"] or []) if proof else []
    obl = sum(r["obligations"] for r in res)
    dis = sum(r["discharged"] for r in res)
    backends, kinds = {}, {}
    for r in res:
        for k, v in (r.get("backends") or {}).items(): backends[k] = backends.get(k, 0) + v
        for k, v in (r.get("by_kind") or {}).items(): kinds[k] = kinds.get(k, 0) + v
    used = sorted({t for r in res for t in (r.get("trusted") or [])})
    trusted = (proof or {}).get("trusted") or {}
    cov = {}
    if proof is not None:
        cov.update({
            "functions_under_contract": [{k: r.get(k) for k in ("func", "status", "obligations", "discharged", "loops", "paths", "solver_s", "inlined", "loops_without_variant", "message") if r.get(k) not in (None, [], "")} for r in res],
            "obligations": obl, "discharged": dis, "obligations_by_kind": kinds,
            "discharged_by_backend": backends,
            "solver_s": round(sum(r["solver_s"] for r in res), 2),
            "slowest_query_s": round(max([r["max_query_s"] for r in res] or [0]), 2),
            "checker_cmd": "govc -prop %s (SSA of /repo's working tree -> SMT-LIB2 -> z3 5.3.2, z3 4.8.12, cvc5 1.1.2)" % pid,
            "trusted_base": ["%s (%s)" % (t, trusted.get(t, "")) for t in used] + ["axiom %s: %s" % (a["name"], a["text"]) for a in (proof.get("axioms") or []) if a["name"] in {x for r in res for x in (r.get("axioms") or [])}] + ["govc (generator), go/ssa, the solvers"],
        })
    if cover:
        cov.update({
            "evaluations": sum(c["evaluations"] for c in cover),
            "distinct_nontrivial": max(c["distinct_nontrivial"] for c in cover),
            "rule": "bounded stand-in on the real code (never counted as proved): " + cover[0]["bound"],
            "samples": (cover[0]["samples"] or [])[:4],
            "bounded": True,
        })
    cov["explanation"] = meta["note"]
    if searched: cov["extra_search_evaluations"] = searched
    ev = {"property": pid, "tier": tier, "seed": seed, "level": meta["level"], "coverage": cov,
          "assumptions": meta.get("assumptions", []) + json.load(open(os.path.join(V, "levels.json")))["_common"]["assumptions"],
          "wall_s": round(time.time() - T0, 2), "violations": len(fails) + (1 if failed and not fails else 0)}
    with open(os.path.join(rep, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    path = os.path.join(rep, pid + ".replay.json")
    if os.path.exists(path): os.remove(path)
    if fails or failed:
        with open(path, "w") as f:
            json.dump({"property": pid, "failing_inputs": fails[:3],
                       "how_to_replay": "bash harness/build.sh /tmp/h && VERIF_SEED=<seed> VERIF_TIER=<tier> HARNESS_ONLY=<case> /tmp/h " + pid,
                       "failed_obligations": failed[:25]}, f, indent=1)
    for f in failed[:10]:
        print("failed obligation: %s (%s) %s" % (f["obligation"], f["why"][:300], f.get("pos", "")))
    if fails:
        f = fails[0]
        print("failing input: %s\n  expected %s\n  got      %s" % (f["case"], f["expected"][:600], f["got"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if failed:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        return 1
    print("%s holds: %d/%d obligations of %d functions discharged; bounded: %s evaluations; %.1f s" % (pid, dis, obl, len(res), cov.get("evaluations", 0), time.time() - T0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
