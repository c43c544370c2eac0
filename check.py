#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Rebuilds the code under test from /repo, executes the property's harness functions symbolically, replays
every counterexample (and a sample of completed paths) against the native build, writes
evidence/PROPERTY.json. Exit 0: held on everything explored; 1: VIOLATION; 2: no verdict."""
import json, os, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build, plans


def log(*a):
    print(*a, flush=True)


def known_findings():
    """{(property, label): text} of recorded, unrepaired findings."""
    out = {}
    with open(os.path.join(HERE, "known-findings.jsonl")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                out[(e["property"], e["label"])] = e
    return out


class Native:
    """Runs requests through the native replay binary; restarts it when a request kills it."""

    def __init__(self, path):
        self.path = path

    def run(self, reqs, timeout=20):
        """reqs: list of (function, args, values). Returns a list of dicts."""
        res = [None] * len(reqs)
        todo = list(range(len(reqs)))
        while todo:
            text = "".join("%s %s | %s\n" % (reqs[i][0], " ".join(map(str, reqs[i][1])), " ".join(map(str, reqs[i][2]))) for i in todo)
            try:
                p = subprocess.run([self.path], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                   timeout=timeout + len(todo) * 0.05)
                out, rc = p.stdout, p.returncode
            except subprocess.TimeoutExpired as e:
                out, rc = e.stdout or b"", "timeout"
            cur, done = None, 0
            for line in out.decode("utf-8", "replace").split("\n"):
                if line.startswith("= "):
                    cur = dict(obs=[], failed=[], reached=[], panic=None, end=False, note=None)
                    res[todo[int(line[2:])]] = cur
                    done = int(line[2:])
                elif cur is None or not line:
                    continue
                elif line[0] == "O":
                    cur["obs"].append(int(line[2:]))
                elif line[0] == "F":
                    cur["failed"].append(line[2:])
                elif line[0] == "R":
                    cur["reached"].append(line[2:])
                elif line[0] == "P":
                    cur["panic"] = line[2:]
                elif line[0] in "XM":
                    cur["note"] = line[0]
                elif line == ".":
                    cur["end"] = True
            if cur is None:
                break
            if not cur["end"]:
                cur["rc"] = rc
            todo = todo[done + 1:]
        return res


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    t0 = time.time()
    plan = plans.plan(prop, tier)
    if len(sys.argv) > 3:  # development: only instances whose name contains one of these
        plan["instances"] = [i for i in plan["instances"] if any(x in i[0] for x in sys.argv[3:])]
        plan["reach"] = []
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evidence = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    roots = sorted({i[2] for i in plan["instances"]})
    try:
        with build.Lock():
            with ThreadPoolExecutor(3) as ex:
                a, b, c = ex.submit(build.engine), ex.submit(build.stdlib), ex.submit(build.harness)
                symx, stds, (bcs, replay) = a.result(), b.result(), c.result()
            tc = time.time()
            allbc = build.link(bcs, stds)
            ll, fns = build.group_ir(symx, allbc, prop, roots)
            # private copies: another check may rebuild meanwhile
            work = os.path.join(build.BUILD, "run", "%s-%d" % (prop, os.getpid()))
            os.makedirs(work, exist_ok=True)
            shutil.copy(replay, work + "/replay")
            shutil.copy(symx, work + "/symx")
            os.rename(ll, work + "/o2.ll")
            os.unlink(allbc)
    except build.BuildError as e:
        log("no verdict: build failed\n" + str(e))
        return 2
    try:
        return explore(prop, tier, plan, seed, evidence, work, fns, t0, tc)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(prop, tier, plan, seed, evidence, work, fns, t0, tc):
    tb = time.time()
    insts = plan["instances"]
    with open(work + "/plan", "w") as f:
        for n, cpu, fn, args in insts:
            f.write("%s %s %s %s\n" % (n, cpu, fn, " ".join(map(str, args))))
    env = dict(os.environ)
    env.setdefault("SYMX_AUDIT", "2000" if tier == "quick" else "1000")
    limit = plan["deadline"]
    p = subprocess.run([work + "/symx", "run", work + "/o2.ll", work + "/plan", work + "/out.json", "8", str(limit)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
    if os.environ.get("SYMX_SLOW") or os.environ.get("SYMX_DEBUG"):
        log(p.stdout[-20000:])
    if p.returncode != 0:
        log("no verdict: executor failed (%s)\n%s" % (p.returncode, p.stdout[-4000:]))
        return 2
    out = json.load(open(work + "/out.json"))
    te = time.time()
    native = Native(work + "/replay")

    # Counterexamples: replay each against the native build.
    cand = []
    for (n, cpu, fn, args), r in zip(insts, out["instances"]):
        seen = {}
        for v in r["violations"]:
            k = (v["kind"], v["label"])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= (1000 if os.environ.get("SYMX_EVERY") else 3):
                cand.append((n, fn, args, v))
    cand.sort(key=lambda c: (len(c[3]["values"]), c[0]))
    reps = native.run([(fn, args, [x for _, x in v["values"]]) for _, fn, args, v in cand])
    known = known_findings()
    confirmed, unconfirmed, findings = {}, [], {}
    for (n, fn, args, v), r in zip(cand, reps):
        label = v["label"]
        ok = False
        if r is not None and v["kind"] == "assert":
            # values end where the assertion failed: what the native run asks for after it does not matter
            ok = label in r["failed"]
        elif r is not None and not r["note"]:
            if v["kind"] == "panic":
                ok = r["panic"] is not None or (not r["end"])
            else:
                ok = not r["end"]
        rec = dict(instance=n, function=fn, args=args, kind=v["kind"], label=label, values=[x for _, x in v["values"]],
                   text="".join(chr(x) if 32 <= x < 127 else "\\x%02x" % x for w, x in v["values"] if w == 7),
                   native=r and (r["panic"] or r["failed"]), stack=v["stack"][:12])
        if not ok:
            unconfirmed.append(rec)
        elif v["kind"] == "assert" and (prop, label) in known:
            findings.setdefault(label, rec)
        else:
            every = (n, *rec["values"]) if os.environ.get("SYMX_EVERY") else ()
            confirmed.setdefault((fn, v["kind"], label, *every), rec)

    # Completed paths: replay a sample and compare what was observed.
    reqs, want = [], []
    cap = 1500 if tier == "quick" else 6000
    per = max(3, cap // max(1, len(insts)))
    for (n, cpu, fn, args), r in zip(insts, out["instances"]):
        for s in r["samples"][:per]:
            reqs.append((fn, args, [x for _, x in s["values"]]))
            want.append(s["obs"])
    got = native.run(reqs, timeout=60)
    validated, mism, samples = 0, [], []
    for q, w, g in zip(reqs, want, got):
        if g is not None and g["end"] and g["obs"] == w and not g["note"] and all((prop, l) in known for l in g["failed"]):
            validated += 1
            if len(samples) < 5 and (validated % 97 == 1):
                samples.append(dict(function=q[0], args=q[1], values=q[2][:40], observed=w[:40], native="same"))
        else:
            mism.append(dict(function=q[0], args=q[1], values=q[2], observed=w[:60], native=g))

    tot = lambda k: sum(r[k] for r in out["instances"])
    def merge(k):
        d = {}
        for r in out["instances"]:
            for a, b in r[k].items():
                d[a] = d.get(a, 0) + b
        return d
    unsupported, limits = merge("unsupported"), merge("limits")
    reached = {}
    for (n, cpu, fn, args), r in zip(insts, out["instances"]):
        for a, b in r["reached"].items():
            reached[fn + ":" + a] = reached.get(fn + ":" + a, 0) + b
    cut = {fn for (n, cpu, fn, args), r in zip(insts, out["instances"]) if r["truncated"]}
    missing = [x for x in plan["reach"] if x not in reached and x.split(":")[0] not in cut]
    executed = out["functions"]
    crate = sorted(f for f in executed if "compose_spec" in f)
    trunc = [dict(instance=n, cut_subtrees=r["truncated"], paths=r["paths"]) for (n, _, _, _), r in zip(insts, out["instances"]) if r["truncated"]]
    empty = [n for (n, _, _, _), r in zip(insts, out["instances"]) if r["paths"] == 0 and not r["violations"] and not r["truncated"]]
    if tot("paths") == 0 and not cand:
        empty.append("(every instance)")

    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=max(1, tot("paths")), transitions=max(1, tot("decisions") + tot("steps")), traces_validated_against_impl=max(0, validated),
            samples=samples,
            explored=dict(instances=len(insts), paths=tot("paths"), infeasible=tot("infeasible"), instructions=tot("steps"),
                          decisions=tot("decisions"), forks=tot("forks"), max_symbolic_inputs_on_a_path=max([r["maxvars"] for r in out["instances"]] + [0])),
            queries=dict(assertions_constant=tot("asserts_const"), assertions_solved_by_z3=tot("asserts_smt"), assertions_decided_by_domains=tot("asserts_domain"), assertions_unknown=tot("asserts_unknown"),
                         answered_by_model=tot("q_model"), answered_by_domain=tot("q_domain"), answered_by_cache=tot("q_cache"),
                         z3=tot("q_z3"), z3_sat=tot("q_z3_sat"), z3_unsat=tot("q_z3_unsat"), z3_unknown=tot("q_z3_unknown"),
                         z3_seconds=round(tot("z3_s"), 3), audited_against_z3=tot("audited"), audit_disagreements=tot("audit_bad")),
            functions_encoded=dict(in_ir=len(fns), executed=len(executed), of_crate_executed=len(crate), crate_functions=crate),
            bounds=plan["bounds"],
            instances=[dict(name=n, function=fn, args=args, paths=r["paths"], asserts=r["asserts_const"] + r["asserts_domain"] + r["asserts_smt"], truncated=r["truncated"])
                       for (n, _, fn, args), r in zip(insts, out["instances"])],
            truncated=trunc, unsupported=unsupported, limits=limits, reached=reached,
            sample_mismatches=len(mism), unconfirmed_counterexamples=len(unconfirmed),
            known_findings_seen=sorted(findings),
            seconds=dict(compile=round(tc - t0, 2), ir=round(tb - tc, 2), explore=round(te - tb, 2), replay=round(time.time() - te, 2)),
        ),
        assumptions=plan["assumptions"],
        violations=[rec for rec in confirmed.values()],
        wall_s=round(time.time() - t0, 2),
    )
    with open(evidence, "w") as f:
        json.dump(ev, f, indent=1)

    log("%s %s: %d paths, %d assertions (%d by z3), %d unsupported, %d limits, %d truncated, %d/%d replays agree, %.1fs" % (
        prop, tier, tot("paths"), tot("asserts_const") + tot("asserts_domain") + tot("asserts_smt"), tot("asserts_smt"), sum(unsupported.values()),
        sum(limits.values()), len(trunc), validated, len(reqs), time.time() - t0))
    for k, v in sorted(unsupported.items(), key=lambda x: -x[1])[:8]:
        log("  unsupported %d: %s" % (v, k))
    if os.environ.get("SYMX_TOP"):
        for r in sorted(out["instances"], key=lambda r: -r["cpu_s"])[:int(os.environ["SYMX_TOP"])]:
            log("  top %-30s cpu %.1f z3 %.1f (%d queries) paths %d asserts %d+%d+%d" % (r["name"], r["cpu_s"], r["z3_s"], r["q_z3"], r["paths"], r["asserts_const"], r["asserts_domain"], r["asserts_smt"]))
    for k, v in limits.items():
        log("  limit %d: %s" % (v, k))
    for t in trunc[:12]:
        log("  truncated %(instance)s: %(cut_subtrees)d subtrees, %(paths)d paths" % t)
    for m in mism[:3]:
        log("  MISMATCH (executor and native run differ; not a verdict): %s" % json.dumps(m)[:1500])
    for u in unconfirmed[:5]:
        log("  unconfirmed counterexample (not reported): %s" % json.dumps(u)[:1500])
    for label, rec in sorted(findings.items()):
        log("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, label)]["what"]))
    if tot("audit_bad"):
        log("  AUDIT: %d built-in verdicts disagree with z3" % tot("audit_bad"))
        return 2
    if confirmed:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for j, rec in enumerate(confirmed.values()):
            path = os.path.join(rd, "%s-%d.json" % (prop, j))
            json.dump(rec, open(path, "w"), indent=1)
            log("VIOLATION property=%s replay=%s" % (prop, path))
            log("  %s %s in %s%s input %r values %s native: %s" % (rec["kind"], rec["label"], rec["function"], tuple(rec["args"]), rec["text"], rec["values"][:40], rec["native"]))
            if j >= 9:
                break
        return 1
    if unconfirmed:
        log("no verdict: %d counterexamples did not reproduce natively" % len(unconfirmed))
        return 2
    if missing or empty:
        log("no verdict: expected points not reached: %s; instances without a completed path: %s" % (missing, empty))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
