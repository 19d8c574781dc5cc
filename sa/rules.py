"""Structural rules over the call graph and the facts.  RULES[name](env, L) ->
(instances looked at, [(rule, key, text)]); a key listed in
spec/known_findings.txt is reported as KNOWN-FINDING."""
import json, os, re


def facts(env, crate):
    with open(f"{env['facts']}/{crate}.json") as f:
        return json.load(f)


def named(d, tail):
    return [b for b in d["bodies"] if b.get("name", "").endswith(tail)]


# ---- predicates over an enum, evaluated on its variants ---------------------
def holds(bodies, b, state, depth=4):
    """what a `fn(&self) -> bool` can return on a value of the given variant
    whose first optional field is present (1), absent (0) or not optional
    (None): a set of booleans, None when it depends on more than that"""
    var, opt = state
    out, seen, work = set(), set(), [(0, ())]
    while work:
        i, env = work.pop()
        if (i, env) in seen:
            continue
        seen.add((i, env))
        if len(seen) > 400:
            return None
        v = dict(env)
        blk = b["blocks"][i]
        if blk is None:
            return None

        def opnd(o):
            if o[0] == "k":
                return o[1].get("int")
            pl = o[1]
            return v.get(pl[0]) if len(pl) == 1 else None
        for st in blk["s"]:
            pl, rv = st[1], st[2]
            if len(pl) != 1:
                return None
            x = None
            if rv[0] == "use":
                x = opnd(rv[1])
            elif rv[0] == "discr":
                src = [e for e in rv[1][1:] if e != ["d"]]
                if rv[1][0] != 1:
                    x = None
                elif not src:
                    x = var
                elif len(src) == 2 and src[0][0] == "v" and src[1][:2] == ["f", 0]:
                    x = opt
            elif rv[0] == "un" and rv[1] == "Not":
                y = opnd(rv[2])
                x = None if y is None else 1 - y
            v[pl[0]] = x
        t = blk["t"]
        env = tuple(sorted((k, x) for k, x in v.items() if x is not None))
        if t["k"] == "goto":
            work.append((t["to"], env))
        elif t["k"] == "ret":
            if v.get(0) is None:
                return None
            out.add(bool(v[0]))
        elif t["k"] == "switch":
            x = opnd(t["op"])
            if x is None:
                return None
            work.append((dict(map(tuple, t["ts"])).get(x, t["else"]), env))
        elif t["k"] == "call" and depth:
            fn = (t["f"][1] if t["f"][0] == "k" else {}).get("fn", {})
            c = bodies.get(fn.get("id"))
            if c is None or len(t["a"]) != 1:
                return None
            r = holds(bodies, c, state, depth - 1)
            if r is None:
                return None
            for y in r:
                work.append((t["to"], tuple(sorted({**dict(env), t["d"][0]: int(y)}.items()))))
        elif t["k"] != "unreach":
            return None
    return out


def unbound(env, L):
    """C08: in a V1 proof, an element of a tree kind that stands for something
    below it must be bound to the root: by its child hash, by a lower layer, or
    by being empty.  The verifier asks for the child hash only of the kinds
    `is_non_empty_merk_tree` accepts and for emptiness only of those
    `is_non_empty_tree` refuses: what is a tree to the first predicate and not
    to the second is returned with nothing that binds its value bytes."""
    d = facts(env, "grovedb_element")
    bodies = {b["id"]: b for b in d["bodies"]}
    pr = {}
    for n in ("is_any_tree", "is_non_empty_tree", "is_non_empty_merk_tree"):
        bs = [b for b in d["bodies"] if b.get("name", "").endswith(f"Element>::{n}")]
        if len(bs) != 1:
            return 0, []
        pr[n] = bs[0]
    adt = [a for a in d["adts"] if a["name"] == "grovedb_element::element::Element"]
    if not adt:
        return 0, []
    n, out = 0, []
    for v in adt[0]["variants"]:
        f0 = v["fields"][0][1] if v["fields"] else ""
        for opt in ((0, 1) if f0.startswith("core::option::Option") else (None,)):
            r = {k: holds(bodies, b, (v["discr"], opt)) for k, b in pr.items()}
            if None in r.values():
                continue
            n += 1
            if True in r["is_non_empty_tree"] and False in r["is_non_empty_merk_tree"]:
                out.append(("unbound", f"C08|unbound|{v['name']}",
                            f"grovedb/src/operations/proof/verify.rs verify_layer_proof_v1: Element::{v['name']} counts as a non-empty tree (is_non_empty_tree) but not as one whose child hash "
                            "must be shown (is_non_empty_merk_tree): queried without a subquery, its value bytes are returned with nothing that binds them to the root"))
    return n, out


def keeps_default(env, L):
    """C17: what the receiver of a merge selects by its default branch must
    still be selected where the other query adds a conditional branch: the
    merge has to look at the receiver's default branch."""
    d = facts(env, "grovedb_query")
    bodies = {b["id"]: b for b in d["bodies"]}
    n, out = 0, []

    def reads(b, roots, seen):
        """does b use .default_subquery_branch of a query held in a local of `roots`"""
        if (b["id"], roots) in seen:
            return False
        seen.add((b["id"], roots))
        al = set(roots)
        for _ in range(3):  # references and copies of the whole value
            for blk in filter(None, b["blocks"]):
                for st in blk["s"]:
                    rv = st[2]
                    src = rv[1][1] if rv[0] == "use" and rv[1][0] in "cm" else rv[1] if rv[0] == "ref" else None
                    if src and src[0] in al and all(e == ["d"] for e in src[1:]) and len(st[1]) == 1:
                        al.add(st[1][0])
        def hit(x):
            if isinstance(x, list):
                if x and isinstance(x[0], int) and x[0] in al and any(isinstance(e, list) and e[:1] == ["f"] and len(e) > 2 and e[2] == "default_subquery_branch" for e in x[1:]):
                    return True
                return any(map(hit, x))
            return isinstance(x, dict) and any(map(hit, x.values()))
        for blk in filter(None, b["blocks"]):
            if hit([s[2] for s in blk["s"]]) or hit(blk["t"]):
                return True
            t = blk["t"]
            if t["k"] == "call" and t["f"][0] == "k":
                c = bodies.get(t["f"][1].get("fn", {}).get("id"))
                a = frozenset(i + 1 for i, o in enumerate(t["a"]) if o[0] in "cm" and o[1][0] in al and all(e == ["d"] for e in o[1][1:]))
                if c and a and reads(c, a, seen):
                    return True
        return False

    for fn, loc in (("merge_with", lambda b: 1), ("merge_multiple", lambda b: next((i for i, l in enumerate(b["locals"]) if len(l) > 1 and l[1] == "merged_query"), None))):
        for b in named(d, f"Query>::{fn}"):
            if "grovedb_query::merge::" not in b["name"]:
                continue
            l = loc(b)
            if l is None:
                continue
            n += 1
            if not reads(b, frozenset([l]), set()):
                out.append(("merge-keeps-default", f"C17|merge-keeps-default|{fn}",
                            f"{b['file']} {fn}: never looks at the receiver's default_subquery_branch: a key both queries select keeps only the other query's branch, so what the receiver's default branch selected below it is lost"))
    return n, out


def moved_unpositioned(env, L):
    """C35: `prev` on a storage iterator moves it only when it stands on an
    entry (rust-rocksdb ignores it otherwise).  After a seek it may stand
    behind the last entry, so whether it is valid has to be asked first."""
    n, out = 0, []
    for crate in ("grovedb_query", "grovedb_merk", "grovedb"):
        if not os.path.exists(f"{env['facts']}/{crate}.json"):
            continue
        d = facts(env, crate)
        seekers = {b["name"] for b in d["bodies"] if any(_m(t) and _m(t).startswith("seek") for t in _terms(b))}
        for b in d["bodies"]:
            sites = [i for i, blk in enumerate(b["blocks"]) if blk and _m(blk["t"]) == "prev"]
            if not sites:
                continue
            pred = {}
            for i, blk in enumerate(b["blocks"]):
                for j in _succ(blk["t"]) if blk else []:
                    pred.setdefault(j, set()).add(i)
            clo = "{closure" in b["name"]
            for s in sites:
                n += 1
                seen, work, bad = {s}, [s], False
                while work:
                    x = work.pop()
                    if x == 0 and clo and b["name"].split("::{closure")[0] in seekers:
                        bad = True
                    for q in pred.get(x, ()):
                        m = _m(b["blocks"][q]["t"])
                        if m and m.startswith("seek"):
                            bad = True
                        elif m not in ("valid", "key", "iter_is_valid_for_type") and q not in seen:
                            seen.add(q)
                            work.append(q)
                if bad:
                    out.append(("moved-unpositioned", f"C35|moved-unpositioned|{b['file']}",
                                f"{b['file']}:{b['blocks'][s]['t'].get('ln', b['line'])} {b['name']}: prev() right after a seek, which may have left the iterator behind the last entry: then prev() does nothing and a descending "
                                "range with an exclusive end finds no key at all"))
    return n, out


def _terms(b):
    return [blk["t"] for blk in b["blocks"] if blk]


def _m(t):
    """the storage iterator's method a call names"""
    if t["k"] != "call" or t["f"][0] != "k":
        return None
    f = t["f"][1].get("fn", {})
    if "RawIterator" in f.get("trait", "") or "RawIterator" in f.get("name", ""):
        return f.get("m") or f["name"].rsplit("::", 1)[-1]
    return "iter_is_valid_for_type" if f.get("name", "").endswith("iter_is_valid_for_type") else None


def _succ(t):
    r = [t[k] for k in ("to", "else") if isinstance(t.get(k), int)]
    return r + [x[1] for x in t.get("ts", [])]


RULES = {"unbound": unbound, "merge-keeps-default": keeps_default, "moved-unpositioned": moved_unpositioned}
