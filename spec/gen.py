"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402

TECH = "whole-program dataflow over typed MIR (abstract values, path conditions, effects, panic sites) against confirmed rule instances"
NOTE = ("Static: decides, for every path of the listed functions, the conditions each outcome requires, the returned and written values, effects and undischarged panic sites, "
        "against instances confirmed on today's tree. Trusts the MIR extractor, the std and third-party models, and that today's confirmed instances are right; does not bound loops by execution.")


def main():
    with open(f"{VERIF}/properties.jsonl", "w") as f:
        for p in props.P + props.NA:
            q = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"], "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}}
            f.write(json.dumps(q) + "\n")
    m = {"version": 1, "setup_cmd": "python3 sa/build.py",
         "checks": [{"property": p["id"], "quick_cmd": f"python3 sa/check.py {p['id']}", "thorough_cmd": f"python3 sa/check.py {p['id']} --thorough",
                     "technique": p.get("technique") or TECH, "level": "other", "level_note": p.get("level_note") or NOTE} for p in props.P],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.NA],
         "notes": "Checks bootstrap themselves: extractor (driver/), engine (engine/), facts of /repo's current tree. See DESIGN.md."}
    with open(f"{VERIF}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
