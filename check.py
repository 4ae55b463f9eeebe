#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

Runs the static analysis that decides one property on /repo's current working tree.
exit 0: holds on everything analysed; exit 1 + VIOLATION line: broken; exit 2: the analysis itself failed."""
import argparse, hashlib, importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.setrecursionlimit(20000)
import registry


def known(prop):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                d = json.loads(ln)
                if d.get("status") == "known" and d["property"] == prop:
                    out.append(d)
    return out


def matches(kf, v):
    m = kf["match"]
    return all(s in v["entry"] for s in m.get("entry", [])) and all(s in v["msg"] for s in m.get("msg", [])) and \
        all(s in v["loc"] for s in m.get("loc", []))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    ent = registry.CHECKS[a.prop]
    ev = os.path.join(HERE, "evidence", a.prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    try:
        viol, cov = importlib.import_module(ent["module"]).check(tier, **ent.get("args", {}))
        short = [f"{k}: {cov['events'].get(k, 0)} < {n}" for k, n in ent["floor"].items()
                 if cov["events"].get(k, 0) < n]
        if short and not viol:
            raise RuntimeError("the rule matched fewer sites than the property needs (vacuous analysis): "
                               + "; ".join(short))
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-ERROR property={a.prop}")
        sys.exit(2)
    ks = known(a.prop)
    seen, fresh = [], []
    for v in viol:
        k = next((k for k in ks if matches(k, v)), None)
        if k is not None:
            if k not in seen:
                seen.append(k)
        else:
            fresh.append(v)
    cov["rule"] = ent["rule"]
    cov["explanation"] = ent["explanation"]
    cov["known_findings"] = [k["what"] for k in seen]
    d = {"property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
         "coverage": cov, "assumptions": ent["assumptions"], "wall_s": round(time.time() - t0, 2),
         "violations": len(fresh)}
    json.dump(d, open(ev, "w"), indent=1, default=str)
    print(f"{a.prop} [{tier}] analysed {len(cov.get('functions', []))} functions; sites: {json.dumps(cov['events'])}; "
          f"{d['wall_s']} s")
    for k in seen:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    if fresh:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, a.prop + ".json")
        json.dump({"property": a.prop, "rule": ent["rule"], "violations": fresh}, open(rp, "w"), indent=1, default=str)
        for v in fresh[:20]:
            print(f"  {v['loc']}: [{v['entry'][:110]}] {v['msg']}")
            for t in v.get("trail", [])[-6:]:
                print(f"      via {t}")
        print(f"VIOLATION property={a.prop} replay={rp}")
        sys.exit(1)
    sys.exit(0)


main()
