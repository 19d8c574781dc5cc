"""Runs the engine on the entry points of a property and compares what it finds
with the committed reference."""
import concurrent.futures as cf
import json, os, re, subprocess, sys, tempfile, time, gzip

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build  # noqa: E402

JOBS = int(os.environ.get("SA_JOBS", "8"))
BAD = lambda k: k == "Err" or k.startswith("Ok(Err")  # noqa: E731


def functions(env):
    """every function of the workspace (without closures and promoted constants)"""
    f = env["facts"] + "/list.jsonl"
    if not os.path.exists(f):
        out = subprocess.run([env["engine"], "list", env["facts"]], stdout=subprocess.PIPE, text=True, check=True).stdout
        with open(f + ".tmp", "w") as o:
            o.write(out)
        os.rename(f + ".tmp", f)
    r = {}
    for l in open(f):
        x = json.loads(l)
        if "{promoted" in x["id"] or "{closure" in x["name"] or "{constant" in x["id"]:
            continue
        if x["name"] not in r or r[x["name"]]["nb"] < x["nb"]:
            r[x["name"]] = x
    return r


def run(env, entries, bounds, refs, jobs=JOBS, timeout=840, quiet=True):
    """entries: [{id, fn, w, ...}] -> {id: summary}"""
    entries = sorted(entries, key=lambda e: -e.get("w", 1000))
    # one queue, small batches: big entries alone
    batches, cur, w = [], [], 0
    for e in entries:
        cur.append(e)
        w += e.get("w", 200)
        if w >= 4000 or len(cur) >= 40:
            batches.append(cur)
            cur, w = [], 0
    if cur:
        batches.append(cur)
    out = {}
    d = tempfile.mkdtemp(prefix="sa", dir=build.WORK)
    t0 = time.time()

    def one(i):
        b = batches[i]
        ef, rf, of = f"{d}/e{i}", f"{d}/r{i}", f"{d}/o{i}"
        used = {e.get("bounds") for e in b}
        with open(ef, "w") as f:
            json.dump({"entries": b, "bounds": {k: v for k, v in bounds.items() if k in used}}, f)
        with open(rf, "w") as f:
            json.dump({e["id"]: refs[e["id"]] for e in b if refs and e["id"] in refs}, f)
        left = timeout - (time.time() - t0)
        try:
            p = subprocess.run([env["engine"], "run", env["facts"], ef, rf, of], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=max(left, 1))
            err = p.stdout[-600:] if p.returncode else None
        except subprocess.TimeoutExpired:
            err = "timeout"
        r = {}
        if os.path.exists(of) and err is None:
            r = json.load(open(of))
        elif len(b) > 1 and err != "timeout":
            for e in b:  # isolate the one that fails
                r.update(single(e, i))
        else:
            r = {e["id"]: {"engine_error": err} for e in b}
        return r

    def single(e, i):
        ef, rf, of = f"{d}/se{i}", f"{d}/sr{i}", f"{d}/so{i}"
        json.dump({"entries": [e], "bounds": {k: v for k, v in bounds.items() if k == e.get("bounds")}}, open(ef, "w"))
        json.dump({e["id"]: refs[e["id"]]} if refs and e["id"] in refs else {}, open(rf, "w"))
        try:
            p = subprocess.run([env["engine"], "run", env["facts"], ef, rf, of], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=max(timeout - (time.time() - t0), 1))
            if p.returncode == 0:
                return json.load(open(of))
            return {e["id"]: {"engine_error": p.stdout[-600:]}}
        except subprocess.TimeoutExpired:
            return {e["id"]: {"engine_error": "timeout"}}

    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, range(len(batches))):
            out.update(r)
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return out


def sig(x):
    return f"{x['args']} -> {x['ret']}"


def entry(n, x, level, **kw):
    """x: record of the function (crate)"""
    e = {"id": n, "fn": n, "bounds": "m" if level == 0 else x["crate"], "auto": level == 0, "cost": x["crate"] == "grovedb_costs"}
    e.update(kw)
    return e


# gate-only differences that mean nothing: loops only one side has (what they yield shows elsewhere), and which of several refusals comes first
COUNTER = re.compile(r"loop (?:(?:phi|cnt|[*@0-9+\-|(){} ,])+|\*\(.*\)|cnt\{.*\}) = |other loop")
DECISIONS = ("decision", "outcome", "condition", "condition-gone", "value", "selection", "effect", "rejects")


# ---- reference ------------------------------------------------------------
def strip(s):
    """what is kept of a summary as reference"""
    r = {k: s[k] for k in ("fn", "file", "nodes", "ms", "errs", "must")}
    r["classes"] = sorted(s["classes"])
    r["vals"] = {p: {l: g["d"] for l, g in ls.items()} for p, ls in s["vals"].items()}
    r["phis"] = {p: {l: g["d"] for l, g in ls.items()} for p, ls in s["phis"].items()}
    r["calls"] = {c: g["f"] for c, g in s["calls"].items()}
    r["sites"] = [[x["kind"], x["what"], x["fn"]] for x in s["sites"]]
    r["commits"] = [c[0] for c in s["commits"]]
    r["must"] = {a: {k: x for k, x in ks.items() if not BAD(k)} for a, ks in s["must"].items()}
    r["must"] = {a: ks for a, ks in r["must"].items() if ks}
    r["nsites"] = s["nsites"]
    return r


def cut(s, n=300):
    return s if len(s) <= n else s[:n] + "..."


def sort_of(kind, what):
    """what kind of panic: an overflow by operation and type"""
    m = re.search(r" (Add|Sub|Mul|Shl|Shr) .* : (\w+)$", what) if kind == "overflow" else None
    if m:
        return (kind, m[1], m[2])
    return (kind,)


def compare(i, ref, cur, opts=None):
    """-> [(rule, key, text)]"""
    P = []
    add = lambda rule, key, text: P.append((rule, f"{i}|{rule}|{key}", text))  # noqa: E731
    fn = ref["fn"]
    if cur.get("missing"):
        add("anchor", "", f"{fn} ({ref['file']}) no longer exists")
        return P
    if cur.get("engine_error"):
        add("analysis", "", f"{fn}: the analysis did not finish: {cur['engine_error']}")
        return P
    if cur["aborted"]:
        add("analysis", "", f"{fn} ({cur['file']}): the analysis exceeds its bounds, nothing can be established")
        return P
    where = f"{cur['fn']} ({cur['file']}:{cur['line']})"
    kc = set(cur["classes"])
    for k in ref["classes"]:
        if k not in kc:
            add("outcome", "-" + k, f"{where}: outcome {k} is no longer possible")
    for k in sorted(kc - set(ref["classes"])):
        add("outcome", "+" + k, f"{where}: new outcome {k}")
    must = cur["must"]
    atoms = cur["atoms"]
    calls = cur["calls"]
    for s, ks in ref["must"].items():
        for k, xs in ks.items():
            if k not in kc:
                continue
            have = set(must.get("", {}).get(k, []))
            if s:
                have |= set(must.get(s, {}).get(k, []))
            lost = [x for x in xs if x not in have]
            if not lost:
                continue
            if s and s not in atoms:
                gone = [x for x in lost if x not in atoms and not x.startswith("call ") and not x.startswith("each ")]
                if gone:
                    add("condition-gone", f"{k}|{s}", f"{where}: outcome {k}: the case `{cut(s)}` in which `{cut(gone[0])}` was required is no longer told apart")
                continue
            for x in lost:
                if s:
                    add("condition", f"{k}|{s}|{x}", f"{where}: outcome {k} is reached when `{cut(s)}` without requiring `{cut(x)}`")
                else:
                    add("condition", f"{k}||{x}", f"{where}: outcome {k} is reached without requiring `{cut(x)}`")
    for p, ls in ref["vals"].items():
        k = p.split(" ")[0]
        if k not in kc:
            continue
        if p not in cur["vals"]:
            add("value", f"{p}|-", f"{where}: {p} is no longer set ({cut(' / '.join(ls))})")
            continue
        c = cur["vals"][p]
        for l, d in ls.items():
            if l not in c:
                add("value", f"{p}|-{l}", f"{where}: {p} is no longer `{cut(l)}`")
                continue
            for x in d:
                if x not in c[l]["f"] and x not in c[l].get("e", []):
                    add("selection", f"{p}|{l}|{x}", f"{where}: {p} is `{cut(l)}` without `{cut(x)}`")
        for l in c:
            if l not in ls:
                add("value", f"{p}|+{l}", f"{where}: {p} may now be `{cut(l)}`")
    for p in cur["vals"]:
        if p not in ref["vals"] and p.split(" ")[0] in ref["classes"]:
            add("value", f"{p}|new", f"{where}: {p} is newly set to {cut(' / '.join(cur['vals'][p]))}")
    for p, ls in ref["phis"].items():
        c = cur["phis"].get(p)
        if c is None:
            continue
        for l, d in ls.items():
            if l in c:
                for x in d:
                    if x not in c[l]["f"] and x not in c[l].get("e", []):
                        add("selection", f"phi {p}|{l}|{x}", f"{where}: in `{cut(p)}`, `{cut(l)}` is chosen without `{cut(x)}`")
    for c, f in ref["calls"].items():
        if c not in calls:
            add("effect", "-" + c, f"{where}: `{cut(c)}` is no longer done")
            continue
        for x in f:
            if x not in calls[c]["f"]:
                add("effect", f"{c}|{x}", f"{where}: `{cut(c)}` is done without `{cut(x)}` before it")
    for c in calls:
        if c not in ref["calls"]:
            a = calls[c]["at"]
            add("effect", "+" + c, f"{where}: new effect `{cut(c)}` at {a[1]}:{a[2]}")
    # places that may panic: no more of a kind than there were, the same ones first
    rs = {}
    for kind, what, f in ref["sites"]:
        rs[(kind, what)] = rs.get((kind, what), 0) + 1
    more = []
    for x in cur["sites"]:
        q = (x["kind"], x["what"])
        if rs.get(q):
            rs[q] -= 1
        else:
            more.append(x)
    spare = {}
    for q, n in rs.items():
        spare[sort_of(*q)] = spare.get(sort_of(*q), 0) + n
    at = set()
    for x in more:
        q = sort_of(x["kind"], x["what"])
        # one operation, however many ways to reach it
        if (q, x["file"], x["line"], x["fn"]) in at:
            continue
        at.add((q, x["file"], x["line"], x["fn"]))
        if spare.get(q):
            spare[q] -= 1
        else:
            add("panic", f"{(x['kind'], x['what'])}", f"{x['file']}:{x['line']} in {x['fn']}, reached from {where}: {x['kind']} of `{cut(x['what'])}` cannot be shown safe")
    rc = set(ref["commits"])
    for c in cur["commits"]:
        if not c[4] and c[0] not in rc and c[0] != "(unconditional)":
            add("rejects", c[0], f"{c[2]}:{c[3]} in {c[1]}, reached from {where}: newly fails when `{cut(c[0])}`")
    return P


def ref_file(crate):
    return f"{VERIF}/spec/ref/{crate}.json.gz"


def load_ref(crate):
    with gzip.open(ref_file(crate), "rt") as f:
        return json.load(f)


def costs(g):
    """whether a gated form of costs says anything"""
    return bool(g) and any(not k.startswith("loop ") for k in g["r"])


def judge_costs(env, L, names, R, timeout=760):
    """What every function reports as its cost, as a sum over the steps it
    takes, against the reference: by itself first, together with what it
    calls where that differs.  -> (problems, results, stats)"""
    mod = [n for n in R["_names"]["modular"] if n in L]
    crate = {n: c for c, r in R.items() if not c.startswith("_") for n in r["l0"]}
    ref0 = {n: v for c, r in R.items() if not c.startswith("_") for n, v in r["l0"].items()}
    ref1 = {n: v for c, r in R.items() if not c.startswith("_") for n, v in r["l1"].items()}
    G = {c: load_gates(c, "cost") for c in set(crate.values())}
    alias = renamed(env, L, R, ref0)
    back = {o: n for n, o in alias.items()}
    mod += list(alias)
    bounds = {"m": mod, **{c: r["bounds"] for c, r in R.items() if not c.startswith("_")}}
    st = {"level0": 0, "level1": 0, "settled_at_level1": [], "same_decisions": []}
    t0 = time.time()

    def run_level(ns, lv):
        v = ref0 if lv == 0 else ref1
        ents = [entry(n, {"crate": crate[n]}, lv, gate=True, cost=True, only="cost", fn=back.get(n, n), secs=300, nodes=max(60000, 6 * v[n]["nodes"]), w=v[n]["ms"] + 20,
                      **({"alias": alias} if lv == 0 else {})) for n in ns]
        r = run(env, ents, bounds, {n: {"gate": G[crate[n]]["l%d" % lv][n]} for n in ns}, timeout=max(30, timeout - (time.time() - t0))) if ents else {}
        bad = {}
        for n in ns:
            c = r.get(n) or {}
            d = c.get("gdiff")
            where = f"{c.get('fn', n)} ({c.get('file', ref0[n]['file'])}:{c.get('line', 0)})"
            if d is None or isinstance(d, str):
                if L.get(back.get(n, n)):
                    bad[n] = ("analysis", f"{n}|analysis|", f"{where}: its cost cannot be established: {c.get('engine_error') or ('aborted' if c.get('aborted') else d)}")
                continue
            d = [x for x in d if not COUNTER.match(x)]
            if d:
                bad[n] = ("cost", f"{n}|cost|{d[0].split(' = ')[0][:120]}", f"{where}: reports a different cost: {d[0]}")
        return r, bad

    todo = [n for n in names if n in G[crate[n]]["l0"]]
    gone = [n for n in todo if n not in L and n not in back]
    cur, bad0 = run_level([n for n in todo if n not in gone], 0)
    st["level0"] = len(cur)
    for n in gone:
        bad0[n] = ("anchor", f"{n}|anchor|", f"{n} ({ref0[n]['file']}) no longer exists")
    users = {}
    for e, v in ref1.items():
        for x in v.get("inl", []):
            users.setdefault(x, set()).add(e)
    has1 = lambda n: n in L and n in G[crate[n]]["l1"]  # noqa: E731
    need = {n: ({n} if n in ref1 else set(users.get(canon(n), ()))) for n in bad0}
    ents = sorted({e for es in need.values() for e in es if has1(e)})
    cur1, bad1 = run_level(ents, 1)
    st["level1"] = len(cur1)
    out = []
    for n, b in bad0.items():
        es = [e for e in need[n] if has1(e)]
        if es and not any(e in bad1 for e in es):
            st["settled_at_level1"].append(n)
        else:
            out.append(b)
    for n in cur:
        cur[n]["gate"] = None
    return out, cur, st


def load_gates(crate, what="gate"):
    """gated forms: {"l0": {fn: form}, "l1": {fn: form}}"""
    f = ref_file(crate + "." + what)
    if not os.path.exists(f):
        return {"l0": {}, "l1": {}}
    with gzip.open(f, "rt") as h:
        return json.load(h)


def save_ref(crate, ref):
    os.makedirs(f"{VERIF}/spec/ref", exist_ok=True)
    with open(ref_file(crate), "wb") as o, gzip.GzipFile(fileobj=o, mode="wb", mtime=0, filename="") as z:
        z.write(json.dumps(ref, sort_keys=True, separators=(",", ":")).encode())


def selected(p, name, x):
    return any(re.search(f, x["file"]) and re.search(n, name) for f, n in p["select"])


def verdict(n, ref, cur, g, st=None):
    """the gated form settles what the decisions are; without one the requirements do"""
    p = compare(n, ref, cur or {"engine_error": "no result"})
    d = (cur or {}).get("gdiff")
    if not g or d is None or d == "none":
        return p
    dec = [x for x in p if x[0] in DECISIONS]
    if not d:
        if dec and st is not None:
            st["same_decisions"].append(n)
        return [x for x in p if x[0] not in DECISIONS]
    if os.environ.get("SA_GDIFF"):
        print("GDIFF", n, json.dumps(d)[:int(os.environ["SA_GDIFF"])])
    d = [x for x in d if not COUNTER.match(x)]
    if not dec and d:
        p.append(("decision", f"{n}|decision|{d[0].split(' = ')[0][:120]}", f"{cur['fn']} ({cur['file']}:{cur['line']}): decides differently: {d[0]}"))
    return p


def judge(env, L, names, R, thorough=False, timeout=760, quick_ms=10**9):
    """Decides the functions `names` (they exist in the reference R[crate]).

    Level 0: every function by itself, calls to other functions of the
    workspace stand for themselves (small ones are read in).  When every
    function does what it did, their composition does.
    Level 1: a function that differs at level 0 is looked at again together
    with all it calls, from the places it can be reached from: a public one
    itself, a private one through those that use it.  Only what differs
    there too is reported.
    -> (problems, results {name: summary}, stats)"""
    N = R["_names"]
    mod = [n for n in N["modular"] if n in L]
    ref0, ref1, crate = {}, {}, {}
    for c, r in R.items():
        if c.startswith("_"):
            continue
        for n, v in r["l0"].items():
            ref0[n] = v
            crate[n] = c
        for n, v in r["l1"].items():
            ref1[n] = v
    alias = renamed(env, L, R, ref0)
    for new, old in alias.items():
        mod.append(new)
    back = {o: n for n, o in alias.items()}
    st = {"level0": 0, "level1": 0, "settled_at_level1": [], "same_decisions": []}
    t0 = time.time()

    def ent0(n):
        v = ref0[n]
        return entry(n, {"crate": crate[n]}, 0, fn=back.get(n, n), alias=alias, secs=300, nodes=max(60000, 6 * v["nodes"]), w=v["ms"] + 20, gate=bool(gated(crate[n], "l0", n)))

    gates = {}

    def gated(c, lv, n):
        if c not in gates:
            gates[c] = load_gates(c)
        return gates[c][lv].get(n)

    def with_gates(ns, lv, refs):
        """what each function is compared with: its requirements and, where there is one, its gated form"""
        return {n: {"gate": g, **refs[n]} if (g := gated(crate[n], lv, n)) else refs[n] for n in ns}

    gone = [n for n in names if n not in L and n not in back]
    todo = [n for n in names if n in ref0 and n not in gone]
    g0 = with_gates(todo, "l0", ref0)
    cur0 = run(env, [ent0(n) for n in todo], {"m": mod}, g0, timeout=timeout)
    st["level0"] = len(cur0)
    out, failed = [], {}
    for n in todo:
        p = verdict(n, ref0[n], cur0.get(n), "gate" in g0[n], st)
        if p:
            failed[n] = p
    for n in gone:
        failed[n] = [("anchor", f"{n}|anchor|", f"{n} ({ref0[n]['file']}) no longer exists")]
    # level 1
    users = {}
    for e, v in ref1.items():
        for x in v.get("inl", []):
            users.setdefault(x, set()).add(e)
    need = {}
    for n in failed:
        reach = n in ref1
        need[n] = {n} if reach else {e for e in users.get(canon(n), ())}
    ents = sorted(set().union(*need.values()) if need else set())
    if thorough:
        ents = sorted(set(ents) | {n for n in names if n in ref1})
    bounds = {c: r["bounds"] for c, r in R.items() if not c.startswith("_")}
    ent1 = lambda n: entry(n, {"crate": crate[n]}, 1, secs=300, nodes=max(60000, 6 * ref1[n]["nodes"]), w=ref1[n]["ms"] + 30, gate=bool(gated(crate[n], "l1", n)))  # noqa: E731
    todo1 = [ent1(n) for n in ents]
    g1 = with_gates(ents, "l1", ref1)
    cur1 = run(env, todo1, bounds, g1, timeout=max(30, timeout - (time.time() - t0))) if todo1 else {}
    st["level1"] = len(cur1)
    p1 = {n: verdict(n, ref1[n], cur1.get(n), "gate" in g1[n], st) for n in ents}
    for n in failed:
        es = need[n]
        if n in ref1 and not p1[n]:
            st["settled_at_level1"].append(n)
        elif n not in ref1 and es and not any(p1[e] for e in es):
            st["settled_at_level1"].append(n)
        else:
            # show the smaller account
            a = failed[n]
            b = p1[n] if n in ref1 else a
            out += a if len(a) <= len(b) else b
    return out, cur0, st


def renamed(env, L, R, ref0):
    """private functions that were renamed: {new name: old name}"""
    N = R["_names"]
    known = set(N["names"])
    gone = [n for n in N["names"] if n not in L and n in ref0]
    new = [n for n, x in L.items() if n not in known and x["crate"] in R]
    out = {}
    for g in gone:
        for n in new:
            if n in out or sig(L[n]) != N["sig"][g]:
                continue
            e = [entry(g, L[n], 0, fn=n, alias={n: g}, secs=60)]
            r = run(env, e, {"m": [x for x in N["modular"] if x in L] + [n]}, ref0, jobs=1)
            if not compare(g, ref0[g], r.get(g) or {"engine_error": "-"}):
                out[n] = g
                break
    return out


def canon(n):
    """as sa-engine prints function names"""
    if n.startswith("<"):
        d = 1
        for i, c in enumerate(n[1:], 1):
            d += (c == "<") - (c == ">" and n[i - 1] != "-")
            if d == 0:
                return norm(n[1:i].split(" as ")[0]) + norm("x" + n[i + 1:])[1:]
    return norm(n)


def norm(n):
    o, d = [], 0
    for i, c in enumerate(n):
        if c == "<":
            d += 1
        elif c == ">" and n[i - 1] != "-":
            d -= 1
        elif d == 0:
            o.append(c)
    return "".join(o).replace("::::", "::").strip(":")


def touches(pat, crate, crate_of):
    """does a file pattern lie in the crate?"""
    return any(c == crate and pat.startswith(d) for d, c in crate_of)
