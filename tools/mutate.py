#!/usr/bin/env python3
"""Mutation campaign: small syntactic changes of /repo's code, one at a time, in a scratch copy; which are not noticed?

mutate.py list [FILE..]                 all mutants
mutate.py run WORKDIR N SEED K/M [FILE..]   N random mutants (K-th of M workers), results to WORKDIR/results.jsonl
Not a check: survivors are read by a human (many change nothing that can be observed)."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CHECKS = [
    (r"src/parser/structure/block_amendment", ["C04", "C22"]),
    (r"src/parser/structure/", ["C01", "C02", "C03", "C04"]),
    (r"src/parser/pdf/", ["C12", "C13"]),
    (r"src/parser/mk_act_section", ["C14"]),
    (r"src/parser/semantic_info/|hun_law_grammar", ["C20", "C21", "C22"]),
    (r"src/identifier/", ["C05", "C06", "C07", "C08", "C19"]),
    (r"src/reference/", ["C07", "C08", "C10", "C09"]),
    (r"src/fixups", ["C15", "C16"]),
    (r"src/bin/hun_law/fixup_editor", ["C16", "C23"]),
    (r"src/bin/hun_law/main", ["C23"]),
    (r"src/output/", ["C11", "C10"]),
    (r"src/util/indentedline", ["C17", "C01", "C14", "C12"]),
    (r"src/util/walker|src/structure.rs", ["C09", "C10", "C11"]),
    (r"src/util/hun_str", ["C19", "C01"]),
    (r"src/util/(compact|singleton)", ["C10", "C07"]),
    (r"src/util/mod", ["C17", "C01", "C19", "C11"]),
    (r"src/util/quote", ["C17", "C01"]),
    (r"src/cache|src/mk_downloader", ["C18"]),
    (r"src/semantic_info", ["C10", "C22"]),
    (r"", ["C01", "C10"]),
]
SUBS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\bif !", "if "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "),
    (r" \+= ", " -= "), (r" -= ", " += "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.rev\(\)", ""), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
    (r"starts_with\(", "ends_with("), (r"ends_with\(", "starts_with("), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
    (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.trim_end\(\)", ".trim()"),
    (r"\.trim_start\(\)", ".trim()"), (r"\.trim\(\)", ""), (r"\.position\(", ".rposition("), (r"\.find\(", ".rfind("), (r"\.rfind\(", ".find("),
    (r"\.is_empty\(\)", ".is_empty() == false"), (r"\.take\(\)", ".clone()"), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
    (r"\.\.=", ".."), (r"Some\((\w+)\) => ", r"Some(\1) if false => "), (r"\.next\(\)", ".nth(1)"), (r"\.next_back\(\)", ".next()"),
    (r"\.to_lowercase\(\)", ".to_string()"), (r"unwrap_or_default\(\)", "unwrap()"), (r"\.saturating_sub\(", ".wrapping_sub("),
    (r"(?<![\w.])(\d+)(?![\w.\]])", lambda m: str(int(m[1]) + 1)), (r"(?<![\w.])([1-9]\d*)(?![\w.\]])", lambda m: str(int(m[1]) - 1)),
    (r"(?<![\w.])(\d+\.\d+)(?![\w])", lambda m: str(float(m[1]) * 1.25 + (1 if float(m[1]) == 0 else 0))),
]
REGEX_SUBS = [(r"\*", "+"), (r"\+", ""), (r"\?", ""), (r"\^", ""), (r"\$", ""), (r"\[0-9\]", "[1-9]"), (r"\|", "||")]

def mutants(files):
    out = []
    for f in files:
        text = open(f"{REPO}/{f}", encoding="utf-8").read()
        lines = text.split("\n")
        end = next((i for i, l in enumerate(lines) if l.strip().startswith("#[cfg(test)]")), len(lines))
        for i, l in enumerate(lines[:end]):
            s = l.strip()
            if not s or s.startswith(("//", "use ", "#[", "pub use", "mod ", "pub mod", "impl", "}")):
                continue
            code = l.split("//")[0] if "//" in l and '"' not in l else l
            def add(new, why):
                if new != l:
                    out.append(dict(file=f, line=i + 1, old=l, new=new, why=why))
            for pat, rep in SUBS:
                for m in re.finditer(pat, code):
                    inside = code[: m.start()].count('"') % 2
                    if inside:
                        continue
                    add(code[: m.start()] + (m.expand(rep) if isinstance(rep, str) else rep(m)) + code[m.end():], pat)
            if "regex" in l or re.search(r'r"', l):
                q = l.find('"')
                if q >= 0:
                    for pat, rep in REGEX_SUBS:
                        for m in re.finditer(pat, l[q:]):
                            add(l[: q + m.start()] + rep + l[q + m.end():], "regex " + pat)
            if s.endswith(";") and not re.match(r"(let|return|use|pub|const|static|type|break|continue|bail!|fn)\b", s) and s.count("(") == s.count(")") and not s.startswith((".", ")", "]", "}")):
                prev = lines[i - 1].strip() if i else ""
                if prev.endswith((";", "{", "}", "")) :
                    add(l[: len(l) - len(l.lstrip())] + "// removed", "statement removed")
            m = re.match(r"^(\s*(?:\} else )?if )(?!let)([^{]*[^{ ])( \{)$", l)
            if m:
                add(m[1] + "false && (" + m[2] + ")" + m[3], "if false")
                add(m[1] + "true || (" + m[2] + ")" + m[3], "if true")
            m = re.match(r"^(\s*)(ensure!\(.*\);)$", l)
            if m:
                add(m[1] + "// removed", "ensure removed")
    return out

def all_files():
    r = subprocess.check_output(["git", "-C", REPO, "ls-files", "src"], text=True).split()
    return [f for f in r if f.endswith(".rs") and not f.endswith("tests.rs")]

def main():
    if sys.argv[1] == "list":
        for m in mutants(sys.argv[2:] or all_files()):
            print(m["file"], m["line"], m["why"], "|", m["new"].strip())
        return
    work, n, seed, part = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    k, total = map(int, part.split("/"))
    global REPO
    pristine = f"{work}/pristine"
    if not os.path.exists(pristine):
        os.makedirs(work, exist_ok=True)
        subprocess.check_call(["git", "clone", "-q", REPO, pristine])
    REPO = pristine
    ms = mutants(sys.argv[6:] or all_files())
    random.Random(seed).shuffle(ms)
    ms = ms[k::total][:n]
    repo, ver = f"{work}/repo", f"{work}/verif"
    if not os.path.exists(ver):
        shutil.copytree(REPO, repo, symlinks=True, ignore=shutil.ignore_patterns("target", ".git"))
        os.makedirs(ver)
        for d in ["tools", "harness", "harness_sem", "run.sh", "known_findings.json"]:
            subprocess.check_call(["cp", "-a", f"{HERE}/{d}", ver])
    # Only absolute paths in env
    env = dict(os.environ, HV_REPO=repo, HV_SHRINK_SECS="0")
    log = open(f"{work}/results.jsonl", "a")
    for m in ms:
        path = f"{repo}/{m['file']}"
        lines = open(f"{REPO}/{m['file']}", encoding="utf-8").read().split("\n")
        assert lines[m["line"] - 1] == m["old"], m
        lines[m["line"] - 1] = m["new"]
        open(path, "w", encoding="utf-8").write("\n".join(lines))
        checks = next(c for p, c in CHECKS if re.search(p, m["file"]))
        t, res, by = time.time(), "SURVIVED", None
        for c in checks:
            try:
                r = subprocess.run(["bash", f"{ver}/run.sh", c, "quick"], env=env, capture_output=True, timeout=900)
                rc, err = r.returncode, r.stderr.decode(errors="replace")[-300:]
            except subprocess.TimeoutExpired:
                rc, err = "timeout", ""
            if rc == 0:
                continue
            res, by = ("KILLED" if rc == 1 else f"rc {rc}"), c
            break
        m.update(result=res, by=by, secs=round(time.time() - t, 1))
        if res not in ("KILLED", "SURVIVED"):
            m["err"] = err
        log.write(json.dumps(m, ensure_ascii=False) + "\n")
        log.flush()
        shutil.copyfile(f"{REPO}/{m['file']}", path)

main()
