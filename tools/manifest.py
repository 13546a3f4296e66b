#!/usr/bin/env python3
"""Writes MANIFEST.json and verus/props.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
exec(open(os.path.join(HERE, "tools/table.py")).read())
import glob, re
PROOFS = set(re.findall(r"proof fn (\w+)", "".join(open(f).read() for f in glob.glob(os.path.join(HERE, "verus/prelude/*.rs")))))
spec, checks, na = {}, [], []
for p in props:
    i = p["id"]
    if i in NOT_APPLICABLE:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
        continue
    t = TABLE[i]
    fns, lem = [], []
    for g in t.get("groups", []):
        fns += GROUPS[g][0]
        lem += GROUPS[g][1]
    fns += t.get("functions", [])
    lem += t.get("lemmas", [])
    assert all(l in PROOFS for l in lem), [l for l in lem if l not in PROOFS]
    dd = lambda l: list(dict.fromkeys(l))
    asm = [a for g in t.get("groups", []) for a in ASSUME[g]]
    level = "proof" if fns else "exploration"
    spec[i] = {"level": level, "functions": dd(fns), "lemmas": dd(lem), "bounded": t["bounded"], "trusted": t.get("trusted", []), "assumptions": dd(asm)}
    checks.append({
        "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
        "technique": "contract-based deductive verification (Verus contracts on functions extracted from the real source)" + ("" if level == "proof" else "; not within its reach yet: bounded check of the real code"),
        "level": level, "level_note": t["note"] + " " + t["bounded"],
    })
json.dump(spec, open(os.path.join(HERE, "verus/props.json"), "w"), indent=1)
json.dump({
    "version": 1, "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "haproxy_verif", "enable": 'RUSTFLAGS="--cfg haproxy_verif --cfg tokio_unstable" (checks: feature hook of /verif/refute)', "source_commits": ["866a678"]},
    "checks": checks, "not_applicable": na,
    "notes": "Defects repaired and known findings are in known-findings. See DESIGN.md.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
