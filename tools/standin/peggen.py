#!/usr/bin/env python3
"""peggen.py GRAMMAR OUT: generates the parser module of a peginator grammar.

peginator itself does not exist in this sandbox. This is a stand-in for the part of it that hun_law_grammar uses:
the same types (structs, enums, aliases, field arities), the same PEG semantics (ordered choice, greedy closures,
no backtracking into a finished part), the same whitespace rule (skipped before every literal, range and rule call
of a rule that is not @no_skip_ws), and @export, @string, @char, @position, @memoize, @check, @extern and >includes."""

import os
import sys

KEYWORDS = {"type", "from", "to", "in", "ref"}


class Lexer:
    def __init__(self, text):
        self.t, self.i, self.toks = text, 0, []
        while True:
            self.skip()
            if self.i >= len(self.t):
                break
            self.toks.append(self.next())
        self.p = 0

    def skip(self):
        while self.i < len(self.t):
            c = self.t[self.i]
            if c.isspace():
                self.i += 1
            elif c == "#":
                while self.i < len(self.t) and self.t[self.i] != "\n":
                    self.i += 1
            else:
                return

    def next(self):
        c = self.t[self.i]
        if c in "\"'":
            out, i = "", self.i + 1
            while self.t[i] != c:
                if self.t[i] == "\\":
                    i += 1
                    esc = {"n": "\n", "r": "\r", "t": "\t", "\\": "\\", "'": "'", '"': '"'}
                    if self.t[i] not in esc:
                        raise SystemExit(f"peggen: escape \\{self.t[i]} is not supported")
                    out += esc[self.t[i]]
                else:
                    out += self.t[i]
                i += 1
            self.i = i + 1
            return ("str", out)
        if c.isalpha() or c == "_":
            i = self.i
            while i < len(self.t) and (self.t[i].isalnum() or self.t[i] == "_"):
                i += 1
            w, self.i = self.t[self.i:i], i
            return ("id", w)
        for op in ("..", "@:", "::", "->"):
            if self.t.startswith(op, self.i):
                self.i += len(op)
                return ("op", op)
        self.i += 1
        return ("op", c)

    def peek(self, k=0):
        return self.toks[self.p + k] if self.p + k < len(self.toks) else ("end", "")

    def take(self):
        t = self.peek()
        self.p += 1
        return t

    def accept(self, op):
        if self.peek() == ("op", op):
            self.p += 1
            return True
        return False

    def expect(self, op):
        if not self.accept(op):
            raise SystemExit(f"peggen: expected {op!r}, found {self.peek()} (token {self.p})")


def parse_choice(lx):
    alts = [parse_seq(lx)]
    while lx.accept("|"):
        alts.append(parse_seq(lx))
    return alts[0] if len(alts) == 1 else ("choice", alts)


def parse_seq(lx):
    parts = []
    while True:
        k, v = lx.peek()
        if k == "end" or (k == "op" and v in "|)]};"):
            break
        parts.append(parse_part(lx))
    return parts[0] if len(parts) == 1 else ("seq", parts)


def parse_part(lx):
    k, v = lx.take()
    if k == "str":
        if lx.accept(".."):
            k2, hi = lx.take()
            assert k2 == "str" and len(v) == 1 and len(hi) == 1
            return ("range", v, hi)
        return ("lit", v)
    if k == "id":
        if lx.accept(":"):
            lx.accept("*")
            return ("field", v, lx.take()[1])
        return ("call", v)
    if v == "@:":
        lx.accept("*")
        return ("field", "@", lx.take()[1])
    if v == ">":
        return ("include", lx.take()[1])
    if v == "$":
        return ("eoi",)
    if v == "(":
        e = parse_choice(lx)
        lx.expect(")")
        return e
    if v == "[":
        e = parse_choice(lx)
        lx.expect("]")
        return ("opt", e)
    if v == "{":
        e = parse_choice(lx)
        lx.expect("}")
        return ("many", e, lx.accept("+"))
    if v == "!":
        return ("not", parse_part(lx))
    if v == "&":
        return ("and", parse_part(lx))
    raise SystemExit(f"peggen: unexpected {v!r} (token {lx.p})")


def parse_path(lx):
    out = ""
    while True:
        out += lx.take()[1]
        if not lx.accept("::"):
            return out
        out += "::"


class Rule:
    pass


def parse_grammar(text):
    lx, rules = Lexer(text), {}
    while lx.peek()[0] != "end":
        r = Rule()
        r.dirs, r.check, r.extern, r.extern_type = set(), [], None, "String"
        while lx.accept("@"):
            d = lx.take()[1]
            if d in ("check", "extern"):
                lx.expect("(")
                path = parse_path(lx)
                if d == "check":
                    r.check.append(path)
                else:
                    r.extern = path
                    if lx.accept("->"):
                        r.extern_type = parse_path(lx)
                lx.expect(")")
            elif d in ("export", "string", "char", "position", "memoize", "no_skip_ws"):
                r.dirs.add(d)
            else:
                raise SystemExit(f"peggen: directive @{d} is not supported")
        r.name = lx.take()[1]
        r.body = None
        if lx.accept("="):
            r.body = parse_choice(lx)
        lx.expect(";")
        if r.body is None and r.extern is None:
            raise SystemExit(f"peggen: rule {r.name} has no body")
        rules[r.name] = r
    return rules


def merge_seq(a, b):
    out = dict(a)
    for k, (ar, ts) in b.items():
        out[k] = ("many", out[k][1] + [t for t in ts if t not in out[k][1]]) if k in out else (ar, ts)
    return out


def fields_of(rules, e):
    k = e[0]
    if k == "field":
        return {e[1]: ("one", [e[2]])}
    if k == "include":
        return fields_of(rules, rules[e[1]].body)
    if k == "seq":
        out = {}
        for p in e[1]:
            out = merge_seq(out, fields_of(rules, p))
        return out
    if k == "choice":
        alts, out = [fields_of(rules, p) for p in e[1]], {}
        for f in alts:
            for n, (ar, ts) in f.items():
                old = out.get(n, (ar, []))
                types = old[1] + [t for t in ts if t not in old[1]]
                arities = {old[0], ar}
                out[n] = ("many" if "many" in arities else "opt" if "opt" in arities else "one", types)
        for n, (ar, ts) in out.items():
            if ar == "one" and not all(n in f for f in alts):
                out[n] = ("opt", ts)
        return out
    if k == "opt":
        return {n: ("opt" if ar == "one" else ar, ts) for n, (ar, ts) in fields_of(rules, e[1]).items()}
    if k == "many":
        return {n: ("many", ts) for n, (_, ts) in fields_of(rules, e[1]).items()}
    return {}


WRAP = {"one": "{}", "opt": "Option<{}>", "many": "Vec<{}>"}


def esc(s):
    return '"' + "".join(f"\\u{{{ord(c):x}}}" if ord(c) > 126 or c in '"\\' or ord(c) < 32 else c for c in s) + '"'


def ident(n):
    return "r#" + n if n in KEYWORDS - {"from", "to"} else n


class Gen:
    def __init__(self, rules):
        self.rules, self.out, self.n = rules, [], 0

    def w(self, s):
        self.out.append(s)

    def var(self):
        self.n += 1
        return f"v{self.n}"

    def elem_type(self, r, name, types):
        if len(types) == 1:
            return types[0]
        return r.name if name == "@" else f"{r.name}_{name}"

    def expr(self, r, e, pos, skip, acc):
        """Writes code for an expression of type Option<usize>: the end position. Fields are pushed to acc."""
        k = e[0]
        ws = f"skip_ws(p.s, {pos})" if skip else pos
        if k == "lit":
            return f"literal(p, {ws}, {esc(e[1])})"
        if k == "range":
            return f"range(p, {ws}, '\\u{{{ord(e[1]):x}}}', '\\u{{{ord(e[2]):x}}}')"
        if k == "eoi":
            return f"eoi(p, {ws})"
        if k == "call":
            if e[1] == "char":
                return f"any_char(p, {ws})"
            if e[1] == "Whitespace" and "Whitespace" not in self.rules:
                return f"Some(skip_ws(p.s, {pos}))"
            if e[1] not in self.rules:
                raise SystemExit(f"peggen: no rule {e[1]}")
            return f"parse_{e[1]}(p, {ws}).map(|(_, e)| e)"
        if k == "field":
            ar, types = acc[e[1]]
            val = "x" if len(types) == 1 else f"{self.elem_type(r, e[1], types)}::{e[2]}(x)"
            f = "f_override" if e[1] == "@" else f"f_{e[1]}"
            return f"parse_{e[2]}(p, {ws}).map(|(x, e)| {{ {f}.push({val}); e }})"
        if k == "include":
            inc = self.rules[e[1]]
            return self.expr(r, inc.body, pos, "no_skip_ws" not in inc.dirs, acc)
        if k == "seq":
            if not e[1]:
                return f"Some({pos})"
            out, cur = "(|| { ", pos
            # closures cannot borrow the accumulators twice: use labelled blocks instead
            lab = self.var()
            out = f"'{lab}: {{ "
            for p in e[1]:
                v = self.var()
                out += f"let {v} = match {self.expr(r, p, cur, skip, acc)} {{ Some(e) => e, None => break '{lab} None }}; "
                cur = v
            return out + f"Some({cur}) }}"
        saved, restore = "", ""
        for f in fields_of(self.rules, e):
            n = "f_override" if f == "@" else f"f_{f}"
            v = self.var()
            saved += f"let {v} = {n}.len(); "
            restore += f"{n}.truncate({v}); "
        if k == "choice":
            lab = self.var()
            out = f"'{lab}: {{ {saved}"
            for a in e[1]:
                out += f"if let Some(e) = {self.expr(r, a, pos, skip, acc)} {{ break '{lab} Some(e); }} {restore}"
            return out + "None }"
        if k == "opt":
            return f"{{ {saved}match {self.expr(r, e[1], pos, skip, acc)} {{ Some(e) => Some(e), None => {{ {restore}Some({pos}) }} }} }}"
        if k == "many":
            cur, cnt = self.var(), self.var()
            body = self.expr(r, e[1], cur, skip, acc)
            end = f"if {cnt} == 0 {{ None }} else {{ Some({cur}) }}" if e[2] else f"Some({cur})"
            return (f"{{ let mut {cur} = {pos}; let mut {cnt} = 0usize; loop {{ {saved}match {body} {{ "
                    f"Some(e) if e > {cur} || {cnt} == 0 => {{ let stuck = e == {cur}; {cur} = e; {cnt} += 1; if stuck {{ break; }} }} "
                    f"_ => {{ {restore}break; }} }} }} let _ = {cnt}; {end} }}")
        if k in ("not", "and"):
            v = self.var()
            inner = self.expr(r, e[1], pos, skip, acc)
            return f"{{ {saved}let {v} = {inner}; {restore}if {v}.is_{'none' if k == 'not' else 'some'}() {{ Some({pos}) }} else {{ None }} }}"
        raise AssertionError(k)

    def rule(self, r):
        n = r.name
        if r.extern:
            self.w(f"pub type {n} = {r.extern_type};")
            self.w(f"fn parse_{n}(p: &mut P, pos: usize) -> Option<({n}, usize)> {{ "
                   f"match {r.extern}(&p.s[pos..], p.ctx) {{ Ok((x, l)) => Some((x.into(), pos + l)), Err(_) => {{ p.fail(pos); None }} }} }}")
            return
        skip = "no_skip_ws" not in r.dirs and "char" not in r.dirs
        fields = fields_of(self.rules, r.body)
        acc = fields
        if "char" in r.dirs or "string" in r.dirs:
            ty = "char" if "char" in r.dirs else "String"
            self.w(f"pub type {n} = {ty};")
            make = "p.s[pos..end].chars().next().unwrap()" if ty == "char" else "p.s[pos..end].to_string()"
            fields = {}
        elif "@" in fields:
            ar, types = fields["@"]
            el = self.elem_type(r, "@", types)
            if len(types) > 1:
                if ar != "one":
                    raise SystemExit(f"peggen: {n}: override enums with this arity are not supported")
                self.w(f"#[derive(Debug, Clone, Drive)] pub enum {n} {{ " + ", ".join(f"{t}({t})" for t in types) + " }")
            else:
                self.w(f"pub type {n} = {WRAP[ar].format(el)};")
            make = {"one": "f_override.pop().unwrap()", "opt": "f_override.pop()", "many": "f_override"}[ar]
            if set(fields) != {"@"} or "position" in r.dirs:
                raise SystemExit(f"peggen: {n}: override and other fields are not supported together")
        else:
            decl, init = [], []
            for f, (ar, types) in fields.items():
                el = self.elem_type(r, f, types)
                if len(types) > 1:
                    self.w(f"#[derive(Debug, Clone, Drive)] #[allow(non_camel_case_types)] pub enum {el} {{ "
                           + ", ".join(f"{t}({t})" for t in types) + " }")
                decl.append(f"pub {ident(f)}: {WRAP[ar].format(el)}")
                init.append(f"{ident(f)}: " + {"one": f"f_{f}.pop().unwrap()", "opt": f"f_{f}.pop()", "many": f"f_{f}"}[ar])
            if "position" in r.dirs:
                decl.append("#[drive(skip)] pub position: std::ops::Range<usize>")
                init.append("position: pos..end")
            if decl:
                self.w(f"#[derive(Debug, Clone, Drive)] pub struct {n} {{ {', '.join(decl)} }}")
                make = f"{n} {{ {', '.join(init)} }}"
            else:
                self.w(f"#[derive(Debug, Clone, Drive)] pub struct {n};")
                make = n
        body = ""
        for f, (ar, types) in fields_of(self.rules, r.body).items():
            v = "f_override" if f == "@" else f"f_{f}"
            body += f"let mut {v}: Vec<{self.elem_type(r, f, types)}> = Vec::new(); "
        body += f"let end = {self.expr(r, r.body, 'pos', skip, acc)}?; let result = {make}; "
        for c in r.check:
            body += f"if !{c}(&result, p.ctx) {{ p.fail(pos); return None; }} "
        body += "Some((result, end))"
        if "memoize" in r.dirs:
            self.w(f"fn parse_{n}(p: &mut P, pos: usize) -> Option<({n}, usize)> {{ "
                   f"if let Some(x) = p.memo_{n}.get(&pos) {{ return x.clone(); }} let x = parse_raw_{n}(p, pos); "
                   f"p.memo_{n}.insert(pos, x.clone()); x }}")
            self.w(f"fn parse_raw_{n}(p: &mut P, pos: usize) -> Option<({n}, usize)> {{ {body} }}")
        else:
            self.w(f"fn parse_{n}(p: &mut P, pos: usize) -> Option<({n}, usize)> {{ {body} }}")

    def module(self, ctx):
        memo = [r.name for r in self.rules.values() if "memoize" in r.dirs]
        self.w("// Generated by tools/standin/peggen.py")
        self.w("#![allow(unused, non_snake_case, unused_labels, clippy::all)]")
        self.w("use derive_visitor::{Drive, Visitor};")
        self.w(f"struct P<'a> {{ s: &'a str, ctx: &'a mut {ctx}, furthest: usize, "
               + ", ".join(f"memo_{m}: std::collections::HashMap<usize, Option<({m}, usize)>>" for m in memo) + " }")
        self.w("impl P<'_> { fn fail(&mut self, pos: usize) { self.furthest = self.furthest.max(pos); } }")
        self.w("fn skip_ws(s: &str, mut pos: usize) -> usize { let b = s.as_bytes(); "
               "while pos < b.len() && b[pos].is_ascii_whitespace() { pos += 1; } pos }")
        self.w("fn literal(p: &mut P, pos: usize, l: &str) -> Option<usize> { "
               "if p.s[pos..].starts_with(l) { Some(pos + l.len()) } else { p.fail(pos); None } }")
        self.w("fn range(p: &mut P, pos: usize, lo: char, hi: char) -> Option<usize> { match p.s[pos..].chars().next() { "
               "Some(c) if c >= lo && c <= hi => Some(pos + c.len_utf8()), _ => { p.fail(pos); None } } }")
        self.w("fn any_char(p: &mut P, pos: usize) -> Option<usize> { match p.s[pos..].chars().next() { "
               "Some(c) => Some(pos + c.len_utf8()), None => { p.fail(pos); None } } }")
        self.w("fn eoi(p: &mut P, pos: usize) -> Option<usize> { if pos == p.s.len() { Some(pos) } else { p.fail(pos); None } }")
        for r in self.rules.values():
            self.rule(r)
            if "export" in r.dirs:
                self.w(f"impl<'a> peginator::PegParserAdvanced<&'a mut {ctx}> for {r.name} {{ "
                       f"fn parse_advanced<TT: peginator::ParseTracer>(s: &str, _: &peginator::ParseSettings, ctx: &'a mut {ctx}) "
                       f"-> Result<Self, peginator::ParseError> {{ let mut p = P {{ s, ctx, furthest: 0, "
                       + ", ".join(f"memo_{m}: Default::default()" for m in memo) +
                       f" }}; match parse_{r.name}(&mut p, 0) {{ Some((x, _)) => Ok(x), "
                       f"None => Err(peginator::ParseError {{ position: p.furthest }}) }} }} }}")
        return "\n".join(self.out) + "\n"


def generate(text, ctx="crate::CustomParseState"):
    return Gen(parse_grammar(text)).module(ctx)


if __name__ == "__main__":
    with open(sys.argv[1], encoding="utf-8") as f:
        code = generate(f.read())
    old = None
    if os.path.exists(sys.argv[2]):
        with open(sys.argv[2], encoding="utf-8") as f:
            old = f.read()
    if old != code:
        with open(sys.argv[2], "w", encoding="utf-8") as f:
            f.write(code)
