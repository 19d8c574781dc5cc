#!/usr/bin/env python3
"""Lay out a Cargo workspace whose members' sources are /repo's own files (by
symlink), with the two git dependencies that cannot be fetched offline (rocksdb,
orchard) replaced by the type stubs in /verif/stubs, so that the *whole* of
grovedb (not only the part the offline build covers) can be type-checked."""
import json, os, shutil, sys, tomllib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TABLES = ("dependencies", "build-dependencies", "dev-dependencies")
STUBS = {"rocksdb": f"{VERIF}/stubs/rocksdb", "orchard": f"{VERIF}/stubs/orchard"}


def emit(value):
    if isinstance(value, bool):
        return "true" if value else "false"
    if isinstance(value, (int, float)):
        return repr(value)
    if isinstance(value, str):
        return json.dumps(value, ensure_ascii=False).replace("\x7f", "\\u007f")
    if isinstance(value, list):
        return "[" + ", ".join(map(emit, value)) + "]"
    if isinstance(value, dict):
        return "{" + ", ".join(f"{json.dumps(k)} = {emit(v)}" for k, v in value.items()) + "}"
    raise TypeError(type(value))


def dump(doc):
    out = [f"{json.dumps(k)} = {emit(v)}" for k, v in doc.items()
           if not isinstance(v, dict) and not (isinstance(v, list) and v and isinstance(v[0], dict))]
    for k, v in doc.items():
        if isinstance(v, dict):
            out.append(f"\n[{json.dumps(k)}]")
            out += [f"{json.dumps(a)} = {emit(b)}" for a, b in v.items()]
    return "\n".join(out) + "\n"


def write(path, text):
    try:
        with open(path, encoding="utf-8") as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def make(repo, ws):
    os.makedirs(ws, exist_ok=True)
    with open(f"{repo}/Cargo.toml", "rb") as f:
        root = tomllib.load(f)
    wsd = root["workspace"]
    members = list(dict.fromkeys(os.path.normpath(m) for m in wsd["members"]))
    wsd["members"] = members
    inherited = wsd.get("dependencies", {})

    def fix(holder, name, spec):
        if isinstance(spec, dict) and "git" in spec:
            if name in STUBS:
                new = {k: v for k, v in spec.items() if k not in ("git", "rev", "branch", "tag", "version")}
                new["path"] = STUBS[name]
                holder[name] = new
            else:
                del holder[name]
                return name
        return None
    gone_ws = set()
    for n, s in list(inherited.items()):
        if fix(inherited, n, s):
            gone_ws.add(n)
    write(f"{ws}/Cargo.toml", dump(root))
    lock = "/opt/vp/ws/Cargo.lock"
    for m in members:
        with open(f"{repo}/{m}/Cargo.toml", "rb") as f:
            doc = tomllib.load(f)
        doc.pop("bench", None)
        gone = set()
        for holder in [doc, *doc.get("target", {}).values()]:
            for table in TABLES:
                for name, spec in list(holder.get(table, {}).items()):
                    if fix(holder[table], name, spec):
                        gone.add(name)
                    elif isinstance(spec, dict) and spec.get("workspace") and name in gone_ws:
                        del holder[table][name]
                        gone.add(name)
        for feature, items in doc.get("features", {}).items():
            doc["features"][feature] = [
                i for i in items if i.removeprefix("dep:").split("/")[0].rstrip("?") not in gone]
        dst = f"{ws}/{m}"
        os.makedirs(dst, exist_ok=True)
        want = {n for n in os.listdir(f"{repo}/{m}") if n not in ("Cargo.toml", "target")}
        for n in os.listdir(dst):
            p = os.path.join(dst, n)
            if os.path.islink(p) and (n not in want or os.readlink(p) != f"{repo}/{m}/{n}"):
                os.unlink(p)
        for n in want:
            p = os.path.join(dst, n)
            if not os.path.lexists(p):
                os.symlink(f"{repo}/{m}/{n}", p)
        write(f"{dst}/Cargo.toml", dump(doc))
    for extra in ("README.md", "docs", "adr", "tutorials"):
        if os.path.exists(f"{repo}/{extra}") and not os.path.lexists(f"{ws}/{extra}"):
            os.symlink(f"{repo}/{extra}", f"{ws}/{extra}")
    if os.path.exists(lock) and not os.path.exists(f"{ws}/Cargo.lock"):
        shutil.copy(lock, f"{ws}/Cargo.lock")


if __name__ == "__main__":
    make(sys.argv[1], sys.argv[2])
