"""Write properties.jsonl and MANIFEST.json from props.py (run by hand; the results are committed)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import props
V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=p["hook"])),
                           ensure_ascii=False) + "\n")
hook = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.split("\n") if "Guarded access" in l]
NOTE = ("Every function of the property's cone is extracted from /repo's source on each run and verified by Verus against its contract, for all inputs; "
        "assumed: the contracts of std and external-crate functions in spec/vx.rs and spec/ext.rs, the extraction's rewrites (DESIGN.md), the SMT solver. "
        "The real crate is also executed against an independent oracle (bounded), which tests those assumptions and supplies failing inputs.")
checks = [dict(property=p["id"], quick_cmd="VERIF_TIER=quick python3 lib/check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 lib/check.py " + p["id"],
               evidence_file="evidence/%s.json" % p["id"],
               technique="contract-based deductive verification (Verus) of the extracted code; witness search on the real crate",
               level=p["level"], level_note=p.get("note") or NOTE, theorems=[x for x in p.get("theorems", [])]) for p in props.P]
json.dump(dict(version=1, setup_cmd="sh setup.sh", hooks=dict(guard="chanoma_verif", enable='RUSTFLAGS="--cfg chanoma_verif" cargo build', source_commits=hook),
               checks=checks, not_applicable=props.NOT_APPLICABLE if hasattr(props, "NOT_APPLICABLE") else [],
               notes="lib/check.py ID decides one property; see DESIGN.md"), open(os.path.join(V, "MANIFEST.json"), "w"), ensure_ascii=False, indent=1)
