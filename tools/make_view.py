#!/usr/bin/env python3
"""Lays out a cargo-loadable view of /repo's hun_law package (arguments: destination directory, ["full"]).

/repo's own Cargo.toml cannot be loaded offline: its workspace member hun_law_grammar needs the
`peginator` crate, which does not exist in this sandbox. Every file of the view is a symlink into
/repo's working tree, except two small ones that are rewritten from /repo's own at each run:
  Cargo.toml           without [workspace], the hun_law_grammar dependency, dev-dependencies, tests
  src/parser/mod.rs    without "mod semantic_info;" (the only user of hun_law_grammar)
The full view has the semantic parser too, with hun_law_grammar's parser generated from /repo's grammar by
tools/standin/peggen.py, a stand-in for the missing code generator.
A generated file is rewritten only when its text changes, so cargo stays incremental."""

import glob
import hashlib
import os
import re
import shutil
import sys

REPO = os.environ.get("HV_REPO", "/repo")
VIEW = os.path.abspath(sys.argv[1])
FULL = sys.argv[2:] == ["full"]
STANDIN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "standin")
OMIT = {
    "src/parser/semantic_info", "src/bin", "hun_law_grammar", "target", "cache", ".git", ".gitignore",
    "Cargo.lock", "tests", "README.md", "LICENSE",
}


def drop_mod(text, names):
    return re.sub(rf"(?m)^\s*(pub(\([^)]*\))?\s+)?mod\s+({'|'.join(names)})\s*;[^\n]*\n?", "", text)


def manifest(text):
    text = re.sub(r"(?ms)^\[workspace\]\n.*?(?=^\[)", "", text)
    text = re.sub(r"(?ms)^\[dev-dependencies\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[profile[^\]]*\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[\[test\]\]\n.*?(?=^\[|\Z)", "", text)
    return text if FULL else re.sub(r"(?m)^hun_law_grammar\s*=[^\n]*\n", "", text)


GENERATED = {
    "Cargo.toml": manifest,
    "src/parser/mod.rs": lambda t: drop_mod(t, ["semantic_info"]),
}
if FULL:
    OMIT.remove("src/parser/semantic_info")
    del GENERATED["src/parser/mod.rs"]


def remove(path):
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.unlink(path)


def write(path, text):
    if os.path.isfile(path) and not os.path.islink(path):
        with open(path, encoding="utf-8") as f:
            if f.read() == text:
                return
    else:
        remove(path)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def layout(rel):
    src, dst = os.path.join(REPO, rel), os.path.join(VIEW, rel)
    if os.path.islink(dst) or os.path.isfile(dst):
        os.unlink(dst)
    os.makedirs(dst, exist_ok=True)
    names = set()
    for name in sorted(os.listdir(src)):
        r = os.path.join(rel, name)
        if r in OMIT:
            continue
        names.add(name)
        s, d = os.path.join(REPO, r), os.path.join(VIEW, r)
        if r in GENERATED:
            with open(s, encoding="utf-8") as f:
                write(d, GENERATED[r](f.read()))
        elif os.path.isdir(s) and r.split("/")[0] == "src":
            layout(r)
        elif not (os.path.islink(d) and os.readlink(d) == s):
            remove(d)
            os.symlink(s, d)
    for name in os.listdir(dst):
        if name not in names and not (FULL and rel == "" and name == "hun_law_grammar"):
            remove(os.path.join(dst, name))


def grammar():
    src, dst = os.path.join(REPO, "hun_law_grammar"), os.path.join(VIEW, "hun_law_grammar")
    os.makedirs(os.path.join(dst, "src"), exist_ok=True)
    with open(os.path.join(src, "Cargo.toml"), encoding="utf-8") as f:
        text = f.read()
    text = re.sub(r"(?ms)^\[build-dependencies\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?m)^peginator\s*=[^\n]*\n", f'peginator = {{ path = "{STANDIN}/peginator" }}\n', text)
    write(os.path.join(dst, "Cargo.toml"), text)
    for name in os.listdir(os.path.join(src, "src")):
        s, d = os.path.join(src, "src", name), os.path.join(dst, "src", name)
        if name != "grammar_generated.rs" and not (os.path.islink(d) and os.readlink(d) == s):
            remove(d)
            os.symlink(s, d)
    sys.path.insert(0, STANDIN)
    sys.dont_write_bytecode = True
    import peggen
    with open(os.path.join(src, "grammar.ebnf"), encoding="utf-8") as f:
        write(os.path.join(dst, "src", "grammar_generated.rs"), peggen.generate(f.read()))


layout("")
if FULL:
    grammar()

# The command line tool's own sources, for the checks that include or build them
BIN = VIEW + "_bin"
if not (os.path.islink(BIN) and os.readlink(BIN) == os.path.join(REPO, "src/bin")):
    remove(BIN)
    os.symlink(os.path.join(REPO, "src/bin"), BIN)

# Cargo goes by the files' times; what decides here is what is in them
digest = hashlib.sha256(REPO.encode())
for top in ["Cargo.toml", "src", "hun_law_grammar"]:
    top = os.path.join(REPO, top)
    for d, dirs, names in [(REPO, [], ["Cargo.toml"])] if os.path.isfile(top) else os.walk(top):
        dirs[:] = sorted(x for x in dirs if x != "target")
        for name in sorted(names):
            with open(os.path.join(d, name), "rb") as f:
                digest.update(f"{d}/{name}\0".encode() + hashlib.sha256(f.read()).digest())
digest, stamp = digest.hexdigest(), VIEW + ".digest"
if not os.path.isfile(stamp) or open(stamp).read() != digest:
    for f in glob.glob(os.path.join(os.environ.get("CARGO_TARGET_DIR", "/nonexistent"), "debug/.fingerprint/*")):
        if re.fullmatch(r"(hun_law|hun_law_grammar|hv|hvs)-[0-9a-f]+", os.path.basename(f)):
            shutil.rmtree(f)
    with open(stamp, "w") as f:
        f.write(digest)
