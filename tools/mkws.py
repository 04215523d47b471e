#!/usr/bin/env python3
import json, os, shutil, sys, tomllib
"""Lay out a Cargo workspace whose member sources are symlinks into /repo, with the
unfetchable git dependencies removed from the regenerated Cargo.toml files."""

REPO = os.environ.get("VERIF_REPO", "/repo")
WS = os.environ["VERIF_WS"]
TABLES = ("dependencies", "dev-dependencies", "build-dependencies")


def emit(value):
    if isinstance(value, bool):
        return "true" if value else "false"
    if isinstance(value, (int, float)):
        return repr(value)
    if isinstance(value, str):
        return json.dumps(value, ensure_ascii=False).replace("\x7f", "\\u007f")
    if isinstance(value, list):
        return "[" + ", ".join(map(emit, value)) + "]"
    if isinstance(value, dict):
        return "{" + ", ".join(f"{json.dumps(k)} = {emit(v)}" for k, v in value.items()) + "}"
    raise TypeError(type(value))


def dump(doc):
    out = [f"{json.dumps(k)} = {emit(v)}" for k, v in doc.items() if not isinstance(v, dict)]
    for k, v in doc.items():
        if isinstance(v, dict):
            out.append(f"\n[{json.dumps(k)}]")
            out += [f"{json.dumps(a)} = {emit(b)}" for a, b in v.items()]
    return "\n".join(out) + "\n"


def write(path, text):
    try:
        with open(path, encoding="utf-8") as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def strip_git(doc, git_inherited):
    holders = [doc, *doc.get("target", {}).values()]
    gone = set()
    for holder in holders:
        for table in TABLES:
            for name, spec in list(holder.get(table, {}).items()):
                if isinstance(spec, dict) and (
                    "git" in spec or spec.get("workspace") and name in git_inherited
                ):
                    del holder[table][name]
                    gone.add(name)
    for feature, items in doc.get("features", {}).items():
        doc["features"][feature] = [
            i for i in items if i.removeprefix("dep:").split("/")[0].rstrip("?") not in gone
        ]
    return gone


def links(src, dst, skip):
    os.makedirs(dst, exist_ok=True)
    want = {n for n in os.listdir(src) if n not in skip}
    for n in os.listdir(dst):
        p = os.path.join(dst, n)
        if os.path.islink(p) and (n not in want or os.readlink(p) != os.path.join(src, n)):
            os.unlink(p)
    for n in want:
        p = os.path.join(dst, n)
        if not os.path.lexists(p):
            os.symlink(os.path.join(src, n), p)


def main():
    os.makedirs(WS, exist_ok=True)
    with open(f"{REPO}/Cargo.toml", "rb") as f:
        root = tomllib.load(f)
    ws = root["workspace"]
    members = list(dict.fromkeys(os.path.normpath(m) for m in ws["members"]))
    inherited = ws.get("dependencies", {})
    git = {n for n, s in inherited.items() if isinstance(s, dict) and "git" in s}
    for n in git:
        del inherited[n]
    write(f"{WS}/Cargo.toml", dump(root))
    links(REPO, WS, {".git", "target", "Cargo.toml", "Cargo.lock", "rust-toolchain.toml",
                     *(m.split("/")[0] for m in members)})
    for name in os.listdir(WS):
        p = os.path.join(WS, name)
        if os.path.isdir(p) and not os.path.islink(p) and name not in {"target", *(m.split("/")[0] for m in members)}:
            shutil.rmtree(p)
    for m in members:
        with open(f"{REPO}/{m}/Cargo.toml", "rb") as f:
            doc = tomllib.load(f)
        gone = strip_git(doc, git)
        links(f"{REPO}/{m}", f"{WS}/{m}", {"Cargo.toml", "target"})
        write(f"{WS}/{m}/Cargo.toml", dump(doc))
        if gone:
            print(f"{m}: without git dependencies: {', '.join(sorted(gone))}", file=sys.stderr)


main()
