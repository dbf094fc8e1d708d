"""Command line of the static checks:  python3-vt -m vsa.check C05 [--tier quick|thorough]

Exit 0: no obligation refuted.  Exit 1: an obligation is refuted (VIOLATION line).
Exit 2: the public interface the property is anchored in is gone, nothing was decided.
"""
import argparse
import ast
import hashlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
from . import rt, interp
from .extra import EXTRA

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VSA_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def _task(t):
    mod, scn, k, wide, seed, over, want = t
    r = rt.run_cell(mod, scn, k, wide=wide, seed=seed, over=over, want=want,
                    max_traces=64 if wide else 16, max_forks=10 if wide else 8)
    r["want"] = None
    return r


def harness_decl(mod):
    """CELLS and WIDE of a harness file, read from its syntax tree."""
    tree = ast.parse(open(os.path.join(rt.SCEN_DIR, mod + ".py")).read())
    out = {"CELLS": {}, "WIDE": []}
    for s in tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id in out:
            out[s.targets[0].id] = ast.literal_eval(s.value)
    return out


def load_known():
    known = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.append((m.group(1), m.group(2), m.group(3)))
    return known


def fkey(scn, key):
    return scn + "/" + re.sub(r"[^A-Za-z0-9]+", "-", key).strip("-")


def rel(p):
    return os.path.relpath(p, rt.REPO) if p.startswith(rt.REPO) else p


def anchor_str(a):
    if not a:
        return "module level"
    return "%s:%s %s" % (rel(a[0]), a[1], a[2])


def package_inventory():
    """All functions and executable lines of the analysed package (from its syntax trees)."""
    funcs, lines = set(), set()
    d = os.path.join(rt.REPO, rt.PKG)
    for base, _, names in os.walk(d):
        for n in sorted(names):
            if not n.endswith(".py"):
                continue
            p = os.path.join(base, n)
            tree = interp.parse_file(p)

            def walk(node, pre):
                for c in ast.iter_child_nodes(node):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        if isinstance(c, ast.FunctionDef):
                            funcs.add((p, pre + c.name))
                        walk(c, pre + c.name + "." if isinstance(c, ast.ClassDef) else "")
                    else:
                        walk(c, pre)
            walk(tree, "")
            for c in ast.walk(tree):
                if isinstance(c, ast.stmt) and not (isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant)):
                    lines.add((p, c.lineno))
    return funcs, lines


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    prop = a.prop
    mod = prop.lower()
    if not os.path.isdir(os.path.join(rt.REPO, rt.PKG)):
        print("ERROR: package %s not found under %s" % (rt.PKG, rt.REPO))
        return 2
    decl = harness_decl(mod)
    tasks = []
    for scn, (nq, nt) in decl["CELLS"].items():
        if a.only and scn not in a.only.split(","):
            continue
        n = max(1, int((nq * 8 if tier == "quick" else max(nt * 6, nq * 40)) * a.scale))
        for k in range(n):
            tasks.append((mod, scn, k, False, seed, None, None))
    for scn in decl["WIDE"]:
        if a.only and scn not in a.only.split(","):
            continue
        for k in range(4 if tier == "quick" else 12):
            tasks.append((mod, scn, k, True, seed, None, None))
    # interleave so that chunks have similar cost
    tasks.sort(key=lambda t: (hashlib.md5(repr(t[:4]).encode()).hexdigest()))
    results = []
    pool = mp.Pool(a.j)
    try:
        cap = 420 if tier == "quick" else 780
        for r in pool.imap_unordered(_task, tasks, chunksize=2):
            results.append(r)
            if time.time() - t0 > cap:
                print("note: time budget reached after %d of %d cells" % (len(results), len(tasks)))
                break
        refuted = any(r["refuted"] for r in results)
        rounds = 1 if tier == "quick" else 3
        tried = set()
        directed = 0
        if not refuted:
            for _ in range(rounds):
                if time.time() - t0 > cap:
                    break
                new = directed_cells(results, pool, seed, tried, 80 if tier == "quick" else 400)
                if not new:
                    break
                directed += len(new)
                for r in pool.imap_unordered(_task, new, chunksize=1):
                    results.append(r)
    finally:
        pool.terminate()
        pool.join()
    extra = []
    for f in EXTRA.get(prop, []):
        extra.extend(f(rt.REPO, rt.PKG))
    return report(prop, tier, seed, results, extra, directed, t0, a.v, decl)


def directed_cells(results, pool, seed, tried, limit):
    """Cells that push one-sided comparisons of the analysed code to their other side."""
    sides = {}
    where = {}
    for r in results:
        if r["wide"]:
            continue
        for g, v in r["guards"].items():
            s = sides.setdefault(g, [0, 0])
            s[0] += v[0]
            s[1] += v[1]
            where.setdefault(g, []).append(r)
    want = {}
    for g, s in sides.items():
        if s[0] and s[1]:
            continue
        if g in tried:
            continue
        tried.add(g)
        rs = where[g]
        per = {}
        for r in rs:
            per.setdefault(r["scn"], []).append(r)
        for scn, lst in per.items():
            for r in lst[:3]:
                want.setdefault((r["mod"], scn, r["k"], json.dumps(r["over"], sort_keys=True)), (r, set()))[1].add(g)
    jobs = [(r["mod"], r["scn"], r["k"], False, seed, r["over"], gs) for (r, gs) in list(want.values())[:limit]]
    new = []
    seen = set()
    for r in pool.imap_unordered(_task, jobs, chunksize=1):
        got = {}
        for site, side, over in r["cands"]:
            have = sides.get(site, [0, 0])
            if have[0 if side else 1]:
                continue
            got.setdefault((site, side), []).append(over)
        for sk, overs in got.items():
            for over in overs[:3]:
                key = (r["scn"], r["k"], json.dumps(over, sort_keys=True))
                if key in seen or len(new) >= limit * 3:
                    continue
                seen.add(key)
                o = dict(r["over"] or {})
                o.update(over)
                new.append((r["mod"], r["scn"], r["k"], False, seed, o, None))
    return new


def report(prop, tier, seed, results, extra, directed, t0, verbose, decl):
    known = load_known()
    obl = {}
    violations = {}
    und = {}
    anchors_gone = {}
    ncell = ntrace = nwide = wide_proved = wide_total = 0
    lines, funcs, guards = set(), set(), {}
    samples = []
    per_scn = {}
    for r in sorted(results, key=lambda r: (r["scn"], r["wide"], r["k"])):
        ncell += 1
        ntrace += r["n"]
        nwide += r["wide"]
        lines |= r["lines"]
        funcs |= r["funcs"]
        ps = per_scn.setdefault(r["scn"], {"cells": 0, "undecided": 0, "infeasible": 0})
        ps["cells"] += 1
        if r["live"] == 0:
            ps["infeasible"] += 1
        for g, v in r["guards"].items():
            o = guards.setdefault(g, [0, 0, 0])
            for j in range(3):
                o[j] += v[j]
        for key, v in r["res"].items():
            o = obl.setdefault((r["scn"], key), {"P": 0, "B": 0, "U": 0, "R": 0, "wideP": 0})
            o[v[0]] += 1
            if r["wide"]:
                wide_total += 1
                if v[0] == "P":
                    wide_proved += 1
                    o["wideP"] += 1
        gone = [x for x in r["refuted"] if gone_anchor(x)]
        real = [x for x in r["refuted"] if not gone_anchor(x)]
        for x in gone:
            anchors_gone.setdefault(r["scn"], x[1])
        if real:
            for key, d, anchor in real:
                violations.setdefault((r["scn"], key), (d, anchor, r))
        if r["und"]:
            ps["undecided"] += 1
            for u_ in r["und"]:
                und[u_] = und.get(u_, 0) + 1
        if len(samples) < 6 and not r["wide"] and r["k"] == 0:
            samples.append({"harness": r["scn"], "cell": {n: [c[0], c[1]] for n, c in sorted(r["box"].items())[:12]},
                            "choices": {str(k): str(v) for k, v in r["choices"].items()}, "traces": r["n"],
                            "obligations": {k: v[0] for k, v in list(r["res"].items())[:8]}})
    for e in extra:
        o = obl.setdefault((e["rule"], e["key"]), {"P": 0, "B": 0, "U": 0, "R": 0, "wideP": 0})
        o[e["status"]] += 1
        if e["status"] == "R":
            violations.setdefault((e["rule"], e["key"]), (e["detail"], e.get("anchor"), None))
    allf, alll = package_inventory()
    fcov = sorted({(rel(p), q) for p, q in funcs if (p, q) in allf})
    lcov = lines & alll
    print("property %s, tier %s: %d input cells (%d whole-box, %d guard-directed), %d abstract traces, %d obligations" % (
        prop, tier, ncell, nwide, directed, ntrace, len(obl)))
    print("analysed %d functions and %d statements of %s; %d comparison sites (%d decided both ways)" % (
        len(fcov), len(lcov), rt.PKG, len(guards), sum(1 for v in guards.values() if v[0] and v[1])))
    tot = {"P": 0, "B": 0, "U": 0, "R": 0}
    for (scn, key), o in sorted(obl.items()):
        for s in tot:
            tot[s] += o[s]
        if verbose or o["R"] or not (o["P"] or o["B"]):
            print("  %-12s %-75s proved %d bounded %d undecided %d refuted %d whole-box %d" % (
                scn, key[:75], o["P"], o["B"], o["U"], o["R"], o["wideP"]))
    if verbose:
        for k, v in sorted(und.items(), key=lambda kv: -kv[1])[:25]:
            print("  undecided x%d: %s" % (v, k[:300]))
        print("  per harness:", per_scn)
        one = [g for g, v in guards.items() if not (v[0] and v[1])]
        for g in sorted(one):
            print("  one-sided comparison %s:%s %s %s" % (rel(g[0]), g[1], g[2], guards[g]))
    new = []
    for (scn, key), (d, anchor, r) in sorted(violations.items()):
        fk = fkey(scn, key)
        kn = [x for x in known if x[0] == prop and x[1] == fk]
        if kn:
            print("KNOWN-FINDING: property=%s %s" % (prop, kn[0][2]))
        else:
            new.append((scn, key, d, anchor, r, fk))
    os.makedirs(EVID, exist_ok=True)
    undec_cells = sum(p["undecided"] for p in per_scn.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the current source of %s (interval x symbolic term x unit x NaN x "
                           "provenance domain, abstract heap). Every harness states obligations; an obligation is refuted only if it "
                           "is definitely false on a whole input cell in every feasible abstract trace. 'proved' = the two sides are "
                           "the same symbolic term or the bound holds for the whole cell, 'bounded' = enclosures agree to 0.2%%, "
                           "'undecided' = the abstraction is too coarse there (no alarm)." % rt.PKG,
            "rule": "one cell = one box of inputs of one harness; non-trivial = at least one obligation decided on it",
            "evaluations": ncell,
            "distinct_nontrivial": sum(1 for r in results if any(v[0] in "PBR" for v in r["res"].values())),
            "whole_box_cells": nwide, "guard_directed_cells": directed, "abstract_traces": ntrace,
            "obligations": len(obl),
            "obligation_instances": tot,
            "discharged": sum(1 for o in obl.values() if o["R"] == 0 and (o["P"] or o["B"])),
            "whole_box_instances": wide_total, "whole_box_proved": wide_proved,
            "undecided_cells": undec_cells,
            "functions_analysed": ["%s %s" % f for f in fcov],
            "statements_analysed": len(lcov),
            "comparison_sites": len(guards),
            "comparison_sites_both_sides": sum(1 for v in guards.values() if v[0] and v[1]),
            "obligation_table": [{"harness": s, "obligation": k, "proved": o["P"], "bounded": o["B"], "undecided": o["U"],
                                  "refuted": o["R"], "whole_box_proved": o["wideP"]} for (s, k), o in sorted(obl.items())],
            "checker_cmd": "python3-vt -m vsa.check %s --tier %s" % (prop, tier),
            "trusted_base": ["vsa abstract interpreter and its models of numpy/astropy/jax/tinygp", "harness vsa/scen/%s.py" % prop.lower()],
            "samples": samples,
        },
        "assumptions": ["library functions behave as modelled in vsa/npmodel.py", "real arithmetic up to rounding tolerance"],
        "wall_s": round(time.time() - t0, 3), "violations": len(new),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if anchors_gone and not new:
        for s, d in anchors_gone.items():
            print("ERROR: anchor of harness %s is gone: %s" % (s, d))
        if not (tot["P"] or tot["B"]):
            print("no verdict")
            return 2
    nothing = [s for s in decl["CELLS"] if s in per_scn and not any(o["P"] or o["B"] or o["R"] for (ss, k), o in obl.items() if ss == s)]
    for s in nothing:
        print("note: harness %s decided nothing on this tree" % s)
    if not new:
        print("no obligation refuted (%.1f s)" % (time.time() - t0))
        return 0
    path = os.path.join(EVID, prop + ".violation.json")
    rec = []
    for scn, key, d, anchor, r, fk in new:
        print("  REFUTED [%s] %s" % (scn, key))
        print("     construct: %s" % anchor_str(anchor))
        print("     %s" % d)
        e = {"harness": scn, "obligation": key, "detail": d, "construct": anchor_str(anchor), "finding_key": fk}
        if r is not None:
            e.update({"cell": {n: list(c) for n, c in r["box"].items()}, "cell_index": r["k"], "overrides": r["over"],
                      "choices": {str(k): str(v) for k, v in r["choices"].items()},
                      "replay": "cd /verif && VERIF_SEED=%d python3-vt -m vsa.dev %s %s %d" % (seed, r["mod"], scn, r["k"]),
                      "functions_on_path": ["%s %s" % (rel(p), q) for p, q in sorted(r["funcs"])]})
        rec.append(e)
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, default=str)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def gone_anchor(x):
    key, d, anchor = x
    return key == "the operation completes" and "/scen/" in d and (
        "raised AttributeError: module" in d or "raised AttributeError: type object" in d or "raised ImportError" in d or
        "raised ModuleNotFoundError" in d or ("raised AttributeError: '" in d and "object has no attribute" in d) or
        "unexpected keyword argument" in d or "positional argument" in d or "missing required" in d)


if __name__ == "__main__":
    sys.exit(main())
