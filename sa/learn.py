"""Writes the committed references (spec/ref/CRATE.json.gz) from the current
tree.  Run by hand after reading what changed; never run by a check.
    learn.py [CRATE...]"""
import gzip, io, json, os, re, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE) + "/spec")
import build, core, props  # noqa: E402

DERIVED = ("Debug", "Clone", "PartialEq", "Eq", "Default", "thiserror::Error", "Hash", "Error", "PartialOrd", "Ord", "Copy")
INLINE = {"grovedb_costs", "sa_models"}
SAME = ("grovedb", "grovedb_merk", "grovedb_query")


def eligible(n, x):
    return not (x["mac"] in DERIVED or n.endswith("::fmt") or n.endswith("::visualize") or "debugger" in n or "::debug::" in n or "visualize" in x["file"] or "test_utils" in x["file"])


def bounds_of(L, c):
    b = [n for n, x in L.items() if x["crate"] not in INLINE and x["nb"] > 6 and (x["crate"] != c or (c in SAME and x["reach"]))]
    return b + [n for n in props.BOUNDS if n in L and L[n]["nb"] > 6 and n not in b]


def main():
    env = build.ensure()
    assert env["ok"], env["log"]
    L = core.functions(env)
    crates = sorted({x["crate"] for x in L.values()} - {"sa_models", "grovedb_visualize", "grovedb_version"})
    levels = [a for a in sys.argv[1:] if a in ("0", "1")] or ["0", "1"]
    want = [a for a in sys.argv[1:] if a not in ("0", "1")] or crates
    mod = sorted(n for n, x in L.items() if x["crate"] not in INLINE and x["nb"] > 6)
    names = sorted(n for n, x in L.items() if x["crate"] not in INLINE)
    core.save_ref("_names", {"modular": mod, "names": names, "sig": {n: core.sig(L[n]) for n in names}})
    for c in want:
        t = time.time()
        R = core.load_ref(c) if os.path.exists(core.ref_file(c)) else {}
        G = core.load_gates(c)
        if "0" in levels:
            ents = [core.entry(n, x, 0, gate=True, secs=100, w=4000 if x["nb"] > 150 else 300)
                    for n, x in L.items() if x["crate"] == c and eligible(n, x)]
            r = core.run(env, ents, {"m": mod}, None, timeout=6000)
            bad = sorted(n for n, v in r.items() if "must" not in v)
            for n in bad:
                print("  level 0 leaves out", n, r[n].get("engine_error") or f"aborted after {r[n].get('nodes')} nodes")
            R["l0"] = {n: core.strip(v) for n, v in r.items() if "must" in v}
            R["left_out0"] = bad
            G["l0"] = {n: v["gate"] for n, v in r.items() if v.get("gate")}
            print("  level 0 without gated form:", [n for n, v in r.items() if "must" in v and not v.get("gate")][:20], "lossy", sum(1 for g in G["l0"].values() if g["lossy"]))
        if "1" in levels:
            used = {n for p in props.P for n, x in L.items() if x["crate"] == c and eligible(n, x) and (x["reach"] or n in props.BOUNDS) and core.selected(p, n, x)}
            ents = [core.entry(n, L[n], 1, gate=True, secs=props.LEARN_SECS, w=4000 if c in ("grovedb", "grovedb_merk") else 500) for n in sorted(used)]
            bounds = bounds_of(L, c)
            r = core.run(env, ents, {c: bounds}, None, timeout=6000)
            bad = sorted(n for n, v in r.items() if "must" not in v)
            for n in bad:
                print("  level 1 leaves out", n, r[n].get("engine_error") or f"aborted after {r[n].get('nodes')} nodes")
            R["l1"] = {}
            for n, v in r.items():
                if "must" in v:
                    R["l1"][n] = core.strip(v)
                    R["l1"][n]["inl"] = sorted(x for x in v["inlined"] if not x.startswith("grovedb_costs") and "{closure" not in x)
            R["bounds"] = sorted(bounds)
            R["left_out1"] = bad
            G["l1"] = {n: v["gate"] for n, v in r.items() if v.get("gate")}
            print("  level 1 without gated form:", [n for n, v in r.items() if "must" in v and not v.get("gate")][:20], "lossy", sum(1 for g in G["l1"].values() if g["lossy"]))
        if c != "grovedb_costs":
            C = core.load_gates(c, "cost")
            for lv, l in (("0", "l0"), ("1", "l1")):
                if lv in levels:
                    ents = [core.entry(n, L[n], int(lv), gate=True, cost=True, only="cost", secs=100, w=v["ms"] + 20) for n, v in R[l].items()]
                    r = core.run(env, ents, {"m": mod, c: R["bounds"]}, None, timeout=6000)
                    C[l] = {n: v["gate"] for n, v in r.items() if core.costs(v.get("gate"))}
                    print("  costs", l, len(C[l]), "without:", [n for n, v in r.items() if not v.get("gate")][:20])
            core.save_ref(c + ".cost", C)
        core.save_ref(c, {k: R[k] for k in ("bounds", "l0", "l1", "left_out0", "left_out1") if k in R})
        core.save_ref(c + ".gate", G)
        print(c, len(R.get("l0", [])), "functions,", len(R.get("l1", [])), "entries, %.1fs" % (time.time() - t), os.path.getsize(core.ref_file(c)) // 1000, "kB")


main()
