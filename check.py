#!/usr/bin/env python3-vt
"""check.py <property> : decides one property on /repo's current tree (see DESIGN.md)."""
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vc"))
sys.setrecursionlimit(10000)
from build import Build, BuildError, parallel
from exec import Prog
from native import Runner, evaluate, parse_out, fmt, gen_args
from unit import verify, count_parts
import props

T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
PROGS = {}
CFG = None
# a quick check answers within 900 s whatever happens
BUDGET = 640 if TIER == "quick" else 6 * 3600


def vtask(t):
    """one verification unit (in a worker process)"""
    pk, root, part, scale, dl = t
    prog = PROGS[pk]
    try:
        spec, kw = CFG.unit(pk, prog, root)
        for k in ("t1", "t2", "t3", "feas_timeout"):
            d = {"t1": 8000, "t2": 16000, "t3": 20000, "feas_timeout": 4000}[k]
            kw.setdefault(k, d)
            kw[k] = int(kw[k] * scale)
        kw["deadline"] = min(time.time() + dl, T0 + BUDGET)
        alts = kw.pop("alts", ())
        r = verify(prog, prog.roots.get(root, root), spec, name=CFG.unit_name(pk, root), part=part, **kw)
        # other loop invariants for the same contract
        for alt in alts:
            if not r["error"] and all(o["status"] == "proved" for o in r["obls"]):
                break
            spec, kw2 = CFG.unit(pk, prog, root)
            kw2.pop("alts", None)
            r2 = verify(prog, prog.roots.get(root, root), spec, name=CFG.unit_name(pk, root), part=part, **dict(kw, **alt))
            if not r2["error"] and all(o["status"] == "proved" for o in r2["obls"]):
                r = r2
    except Exception as e:
        r = {"unit": CFG.unit_name(pk, root), "obls": [], "error": f"internal: {type(e).__name__}: {e}", "trace": traceback.format_exc(), "samples": [],
             "paths": 0, "returns": 0, "asserts": 0, "q": {}, "t": {}, "inlined": {}, "contracts": {}, "wall": 0}
    r["task"] = (pk, root, part)
    return r


def ntask(t):
    """native executions of one operation checked against its contract"""
    pk, root, n, seed = t
    rng = random.Random(seed)
    nat = CFG.native(pk, root)
    if nat is None:
        return (t, 0, 0, [])
    runner, prefix, spec, mk, kind = nat
    args = mk(rng, n)
    lines = [prefix + "".join(" " + fmt(x) for x in a) for a in args]
    bad = []
    ok = 0
    try:
        outs = Runner(runner).run(lines)
    except Exception as e:
        return (t, 0, 0, [{"root": root, "line": lines[0], "args": args[0], "got": f"runner failed: {e}", "failed": ["runner"]}])
    for a, l, o in zip(args, lines, outs):
        if o == "skipped":
            continue
        f = evaluate(spec, a, parse_out(o, kind))
        if f is None:
            continue
        ok += 1
        if f:
            bad.append({"root": root, "line": l, "args": a, "got": o, "failed": f})
            if len(bad) >= 5:
                break
    return (t, len(lines), ok, bad)


def replay(pk, root, args):
    nat = CFG.native(pk, root)
    if nat is None or args is None or any(x is None or x == "?" for x in args):
        return None
    runner, prefix, spec, mk, kind = nat
    line = prefix + "".join(" " + fmt(x) for x in args)
    try:
        out = Runner(runner).run([line])[0]
    except Exception as e:
        return None
    f = evaluate(spec, args, parse_out(out, kind))
    return {"root": root, "line": line, "args": args, "got": out, "failed": f}


def known(pid):
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                d = json.loads(l[7:])
                if d["property"] == pid:
                    out.append(d)
    return out


def is_known(ks, line):
    for k in ks:
        if any(line.startswith(x) for x in k["lines"]):
            return k
    return None


def write_replay(pid, n, data):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"replay_{pid}_{n}.json")
    json.dump(data, open(p, "w"), indent=1, default=str)
    return p


def evidence(pid, d):
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": CFG.level if CFG else "proof", **d}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)


def main():
    global CFG
    pid = sys.argv[1]
    b = Build()
    try:
        return check(pid, b)
    except BuildError as e:
        print(e)
        if e.harness and b.crate_builds():
            # the crate compiles, its public operations do not for some layout and precision
            p = write_replay(pid, 1, {"property": pid, "failed_obligations": ["every public operation compiles for every layout and precision"], "verifier_output": [str(e)]})
            evidence(pid, {"wall_s": round(time.time() - T0, 1), "violations": 1, "assumptions": [], "coverage": {
                "obligations": 1, "discharged": 0, "checker_cmd": f"python3-vt check.py {pid}", "trusted_base": ["rustc"], "evaluations": 1, "samples": [str(e)[-300:]]}})
            print(f"VIOLATION property={pid} replay={p} no-failing-input-found")
            return 1
        print(f"ERROR: {pid}: could not build the checked program")
        return 2
    finally:
        b.close()


def check(pid, b):
    global CFG
    CFG = props.config(pid, TIER)
    CFG.build(b, PROGS, parallel)
    tb = time.time() - T0
    tasks = []
    for pk, prog in PROGS.items():
        for root in CFG.roots(pk, prog):
            parts = count_parts(prog, prog.roots.get(root, root)) if CFG.split_parts else 1
            for i in range(parts):
                tasks.append((pk, root, i if parts > 1 else None, 1.0, CFG.unit_limit))
    if not tasks:
        print("ERROR: no verification units")
        return 2
    random.Random(SEED).shuffle(tasks)
    tasks.sort(key=lambda t: -CFG.weight(t[0], t[1]))
    njobs = os.cpu_count() or 4
    results = {}
    natives = []
    nres = []
    with mp.Pool(njobs) as pool:
        found = []
        ks = known(pid)

        def concrete(r):
            """a refuted obligation whose input fails on the real code as well"""
            for o in [o for o in r["obls"] if o["status"] != "proved" and o.get("args")][:10]:
                if time.time() - T0 < BUDGET:
                    x = replay(r["task"][0], r["task"][1], o["args"])
                    if x and x["failed"] and not is_known(ks, x["line"]):
                        return True
            return False

        for r in pool.imap_unordered(vtask, tasks, 1):
            results[r["task"]] = r
            if concrete(r):
                found.append(r["unit"])
                break
        if not found:
            # native executions against the contracts
            seen = set()
            inner = any((r["error"] or any(o["status"] != "proved" for o in r["obls"])) and CFG.native(*t[:2]) is None for t, r in results.items())
            for t in tasks:
                if (t[0], t[1]) not in seen and CFG.native(t[0], t[1]) is not None:
                    seen.add((t[0], t[1]))
                    bad = any(results[x[:3]]["error"] or any(o["status"] != "proved" for o in results[x[:3]]["obls"]) for x in tasks if x[:2] == t[:2])
                    n = CFG.native_n if not bad and not inner else CFG.native_n * 10
                    natives.append((t[0], t[1], n, SEED * 7919 + len(natives)))
            natives.sort(key=lambda t: -t[2])
            for r in pool.imap_unordered(ntask, natives, 1):
                nres.append(r)
            found = [x["root"] for r in nres for x in r[3] if not is_known(ks, x["line"])]
        if not found:
            # undecided obligations: once more with more time
            again = [t for t in tasks if results[t[:3]]["error"] is None and any(o["status"] == "unknown" for o in results[t[:3]]["obls"])]
            if again and len(again) <= 60 and time.time() - T0 < BUDGET * 0.7:
                for r in pool.imap_unordered(vtask, [(t[0], t[1], t[2], 3.0, CFG.unit_limit) for t in again], 1):
                    results[r["task"]] = r
    extra_bad, extra_cov = CFG.extra(b)
    # ---- judge
    rs = [results[t[:3]] for t in tasks if t[:3] in results]  # all of them, unless a failing input was found
    viol = []
    open_obls = []
    nobl = ndis = 0
    methods = {}
    samples_checked = sample_mismatch = 0
    vac = []
    for r in rs:
        for o in r["obls"]:
            nobl += 1
            if o["status"] == "proved":
                ndis += 1
                methods[o["method"]] = methods.get(o["method"], 0) + 1
            else:
                open_obls.append((r, o))
        if r["error"]:
            open_obls.append((r, {"name": r["unit"] + "/whole-unit", "status": "unsupported", "detail": r["error"], "args": None, "env": None}))
        elif r["returns"] == 0 and not CFG.may_never_return(r["task"][1]):
            vac.append(r["unit"])
        for s in r["samples"]:
            nat = CFG.native(*r["task"][:2])
            if nat is None:
                continue
            x = replay(r["task"][0], r["task"][1], s["args"])
            if x is None:
                continue
            samples_checked += 1
            exp = s["out"]
            got = parse_out(x["got"], nat[4])
            from native import lift
            if CFG.comparable(exp) and (got.kind != "ret" or got.val != lift2(exp)):
                sample_mismatch += 1
                open_obls.append((r, {"name": r["unit"] + "/model-fidelity", "status": "mismatch", "detail": f"symbolic outcome {exp} native {x['got']} on {x['line']}", "args": None, "env": None}))
    for t, n, ok, bad in nres:
        for x in bad:
            viol.append(("native", None, x))
    viol += extra_bad
    replays = 0
    for r, o in open_obls:
        if o.get("args") and replays < 300:
            replays += 1
            x = replay(r["task"][0], r["task"][1], o["args"])
            if x and x["failed"]:
                viol.append((o["name"], o, x))
    shown = set()
    real = []
    for nm, o, x in viol:
        k = is_known(ks, x["line"])
        if k:
            shown.add(k["what"])
            continue
        real.append((nm, o, x))
    for k in ks:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    lines = []
    knownroots = {x["root"] for nm, o, x in viol if is_known(ks, x["line"])}
    if real:
        real.sort(key=lambda v: (v[0] == "native", v[0] or ""))
        nm, o, x = real[0]
        failed = sorted({o["name"] for r, o in open_obls})[:40]
        p = write_replay(pid, 1, {"property": pid, "obligation": nm, "failing_input": x, "how": f"echo '{x['line']}' | <harness runner>; built by vc/build.py from {HERE}/harness", "failed_obligations": failed, "others": [v[2] for v in real[1:10]]})
        lines.append(f"VIOLATION property={pid} replay={p}")
        print(f"  failed: {x['failed']} on `{x['line']}` -> {x['got']}")
    else:
        rest = [(r, o) for r, o in open_obls if r["task"][1] not in knownroots]
        if rest or vac:
            p = write_replay(pid, 1, {"property": pid, "failed_obligations": [o["name"] for r, o in rest] + [v + "/vacuous" for v in vac],
                                      "verifier_output": [dict(o, unit=r["unit"]) for r, o in rest[:20]]})
            for r, o in rest[:5]:
                print(f"  open: {o['name']} {o['status']} {o['detail'][:300]}")
            lines.append(f"VIOLATION property={pid} replay={p} no-failing-input-found")
    q, tt = {}, {}
    inl, con = {}, {}
    for r in rs:
        for k, v in r["q"].items():
            q[k] = q.get(k, 0) + v
        for k, v in r["t"].items():
            tt[k] = round(tt.get(k, 0) + v, 2)
        for k, v in r["inlined"].items():
            inl[k] = inl.get(k, 0) + v
        for k, v in r["contracts"].items():
            con[k] = con.get(k, 0) + v
    runs = sum(r[1] for r in nres)
    evidence(pid, {"wall_s": round(time.time() - T0, 1), "violations": len(lines),
          "assumptions": CFG.assumptions(),
          "coverage": {
              "obligations": nobl, "discharged": ndis, "checker_cmd": f"python3-vt check.py {pid}", "trusted_base": CFG.trusted(),
              "functions_under_contract": sorted({CFG.unit_name(t[0], t[1]) for t in tasks}), "units": len(tasks),
              "unit_errors": [f"{r['unit']}: {r['error']}" for r in rs if r["error"]],
              "open_obligations": [o["name"] for r, o in open_obls][:50],
              "discharged_by": methods, "solver_queries": q, "solver_time_s": tt, "build_time_s": round(tb, 1),
              "paths": sum(r["paths"] for r in rs), "returning_paths": sum(r["returns"] for r in rs), "compiler_assertions_discharged": sum(r["asserts"] for r in rs),
              "repo_functions_verified_inline": sorted(k for k in inl if "fixnum" in k)[:400], "library_functions_inlined": len([k for k in inl if "fixnum" not in k]),
              "contracts_used_at_call_sites": con,
              "evaluations": runs + samples_checked, "symbolic_samples_replayed": samples_checked, "samples": [s for r in rs[:5] for s in r["samples"][:1]] or [str(x) for x in nres[:2]],
              **extra_cov}})
    slow = sorted(rs, key=lambda r: -r["wall"])[:3]
    print(f"{pid}: {ndis}/{nobl} obligations discharged, {len(tasks)} units, {runs} native runs, {samples_checked} samples replayed, build {tb:.0f}s, total {time.time()-T0:.0f}s; slowest " + ", ".join(f"{r['unit']} {r['wall']:.0f}s" for r in slow))
    for l in lines:
        print(l)
    return 1 if lines else 0


def lift2(x):
    from native import lift
    if isinstance(x, bool):
        from terms import K
        return K(int(x))
    if isinstance(x, int):
        return lift(x)
    if isinstance(x, tuple):
        return tuple(lift2(y) if not isinstance(y, str) else y for y in x)
    return x


if __name__ == "__main__":
    sys.exit(main())
