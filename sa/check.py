"""check.py PROPERTY: decides one property on /repo's current tree.

exit 0: held on everything analysed; exit 1 with
VIOLATION property=<id> replay=<path> otherwise."""
import hashlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF + "/spec")
import build, core, props  # noqa: E402

CRATE_OF = [("grovedb/", "grovedb"), ("merk/", "grovedb_merk"), ("storage/", "grovedb_storage"), ("costs/", "grovedb_costs"), ("path/", "grovedb_path"),
            ("grovedb-query/", "grovedb_query"), ("grovedb-element/", "grovedb_element"), ("grovedb-version/", "grovedb_version"),
            ("grovedb-merkle-mountain-range/", "grovedb_merkle_mountain_range"), ("grovedb-bulk-append-tree/", "grovedb_bulk_append_tree"),
            ("grovedb-dense-fixed-sized-merkle-tree/", "grovedb_dense_fixed_sized_merkle_tree"), ("grovedb-commitment-tree/", "grovedb_commitment_tree"),
            ("grovedb-epoch-based-storage-flags/", "grovedb_epoch_based_storage_flags")]
DBCRATES = {"grovedb", "grovedb_merk", "grovedb_storage", "grovedb_commitment_tree"}


def known():
    """exact keys of the recorded findings: {property: {key: text}}"""
    out = {}
    f = f"{VERIF}/spec/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("finding: property="):
                head, key, text = l[len("finding: property="):].rstrip("\n").split(" :: ", 2)
                out.setdefault(head.strip(), {})[key.strip()] = text
    return out


def main():
    pid = sys.argv[1]
    p = props.BY_ID[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    problems = []  # (rule, key, text)
    cov = {"explanation": "", "functions_analysed": 0, "functions_inlined": 0, "program_points": 0, "outcomes": 0, "requirements_checked": 0,
           "values_checked": 0, "effects_checked": 0, "panic_sites": 0, "panic_sites_unproven_in_reference": 0, "rule_instances": {}, "samples": [], "left_out": []}
    try:
        env = build.ensure()
    except build.BuildError as e:
        env = None
        problems.append(("build", "build", "the tree cannot be analysed: " + str(e)[-1500:]))
    if env:
        t1 = time.time()
        L = core.functions(env)
        R = {"_names": core.load_ref("_names")}
        names = []
        for c in sorted({b for _, b in CRATE_OF}):
            if not any(core.touches(s[0], c, CRATE_OF) for s in p["select"]):
                continue
            if not os.path.exists(core.ref_file(c)):
                continue
            R[c] = core.load_ref(c)
            if not env["ok"] and c in DBCRATES:
                continue
            names += [n for n, v in R[c]["l0"].items() if core.selected(p, n, v)]
            cov["left_out"] += [n for n in R[c]["left_out0"] if n in L and core.selected(p, n, L[n])]
        if not env["ok"] and p["db"]:
            problems.append(("build", "build", "the database crates do not type-check, nothing can be established: " + env["log"][-1500:]))
        if p.get("costs"):
            out, cur, st = core.judge_costs(env, L, names, R)
            names = list(cur)
        else:
            out, cur, st = core.judge(env, L, names, R, thorough=tier == "thorough")
        if p.get("kinds"):
            out = [x for x in out if x[0] in p["kinds"] + ("anchor", "analysis", "build")]
        problems += out
        refs = {n: v for r in R.values() if "l0" in r for n, v in r["l0"].items()}
        inl = set()
        for n in names:
            v, r = cur.get(n, {}), refs[n]
            if "must" not in v:
                continue
            inl |= set(v["inlined"]) if isinstance(v["inlined"], list) else set()
            cov["functions_analysed"] += 1
            cov["program_points"] += v["nodes"]
            cov["outcomes"] += len(v["classes"])
            cov["requirements_checked"] += sum(len(xs) for ks in r["must"].values() for xs in ks.values())
            cov["values_checked"] += sum(len(ls) for ls in r["vals"].values())
            cov["effects_checked"] += len(r["calls"])
            cov["panic_sites"] += sum(x[0] for x in v["nsites"].values())
            cov["panic_sites_unproven_in_reference"] += len(r["sites"])
            if len(cov["samples"]) < 6 and r["must"].get(""):
                k = sorted(r["must"][""])[0]
                if r["must"][""][k]:
                    cov["samples"].append(f"{n}: outcome {k} only after {core.cut(r['must'][''][k][0], 160)}")
        cov["functions_inlined"] = len(inl)
        cov["analysed_with_all_they_call"] = st["level1"]
        cov["settled_together_with_callers_or_callees"] = st["settled_at_level1"]
        if p["rules"] and (env["ok"] or not p["db"]):
            import rules
            for name in p["rules"]:
                n, probs = rules.RULES[name](env, L)
                cov["rule_instances"][name] = n
                problems += probs
        if cov["functions_analysed"] + sum(cov["rule_instances"].values()) == 0 and not problems:
            problems.append(("anchor", "floor", "nothing was analysed"))
        cov["bootstrap_s"] = round(t1 - t0, 1)
    cov["explanation"] = p["note"] or (
        "Every listed function of the property was analysed from its typed MIR by a dataflow over all paths (callees inlined up to the module boundary): "
        "the conditions every outcome needs, the values returned or written back, the effects and the panic sites that cannot be discharged were derived from the current source "
        "and compared with the confirmed ones; a lost requirement, a changed value or a new undischarged panic site is a violation.")
    cov["left_out"] = sorted(set(cov["left_out"]))
    kn = known().get(pid, {})
    hits, fresh, seen = [], [], set()
    for rule, key, text in problems:
        if key in seen:
            continue
        seen.add(key)
        (hits if key in kn else fresh).append((rule, key, text))
    for rule, key, text in hits:
        print(f"KNOWN-FINDING: property={pid} {kn[key]}")
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
          "assumptions": ["the models of std and of third-party crates in /verif/models and /verif/stubs", "the confirmed reference in /verif/spec/ref describes correct behaviour"],
          "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True)
        rp = f"{VERIF}/evidence/replay/{pid}.txt"
        with open(rp, "w") as f:
            for rule, key, text in fresh:
                f.write(f"[{rule}] {text}\n    key: {key}\n")
        for rule, key, text in fresh[:12]:
            print(f"[{rule}] {core.cut(text, 700)}")
        if len(fresh) > 12:
            print(f"... {len(fresh) - 12} more in {rp}")
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    print(f"OK property={pid} functions={cov['functions_analysed']} requirements={cov['requirements_checked']} values={cov['values_checked']} panic_sites={cov['panic_sites']} rules={cov['rule_instances']} {ev['wall_s']}s")


try:
    main()
except SystemExit:
    raise
except Exception:
    traceback.print_exc()
    sys.exit(3)
