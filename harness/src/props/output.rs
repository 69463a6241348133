//! C11: text output
use std::io::Write;

use hun_law::{
    identifier::ActIdentifier,
    output::{
        quick_display_indented_line,
        text::{TextOutput, TextOutputParams},
        CliOutput, OutputFormat,
    },
    parser::{mk_act_section::ActRawText, pdf::PageOfLines},
    semantic_info::OutgoingReference,
    structure::*,
    util::indentedline::IndentedLine,
};

use super::{
    lines::{gen_mline, MLine},
    refs::gen_valid,
};
use crate::{
    actgen::*,
    check, check_eq,
    engine::{fail, no_panic, Arm, Case, CaseResult, Kind as K, Prop, Src},
    model::*,
};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C11",
        level: "exploration",
        rule: "Random acts (nested lists, quoted blocks, amendments in amendments, texts with hyphens, wide and combining characters, line feeds) are written at random widths (0-250) as plain and colored text. A model predicts the sequence of blocks (header, column, text) and the output is matched line by line: the first line starts with the header at its column, continuation lines start at the column, the characters of the text follow in order, no line is longer than the space available and none is broken while the next word would fit. Colors: stripped output has the same blocks, exactly the reference texts are highlighted. Raw acts and pages likewise, with the test marks read back. Non-trivial: at least two levels of nesting, or a quotation, or a width below 40.",
        assumptions: &[
            "reference offsets lie on character boundaries, in order, without overlap (what the semantic parser produces)",
            "the act title line and quoted lines are not wrapped",
            "blank lines between blocks are free",
        ],
        arms: vec![
            Arm { name: "act", kind: K::Random(30_000, 1_000_000), f: c11_act },
            Arm { name: "parts", kind: K::Random(60_000, 2_000_000), f: c11_parts },
            Arm { name: "colors", kind: K::Random(40_000, 1_500_000), f: c11_colors },
            Arm { name: "lines", kind: K::Random(60_000, 2_000_000), f: c11_lines },
            Arm { name: "raw", kind: K::Random(30_000, 1_000_000), f: c11_raw },
            Arm { name: "full_disk", kind: K::Random(10_000, 300_000), f: c11_full_disk },
        ],
    }]
}

// ---------------- model ----------------

#[derive(Debug, Clone)]
struct Seg {
    prefix: String,
    /// column of the continuation lines
    col: usize,
    text: String,
    /// space available for the text; None: not wrapped
    avail: Option<usize>,
    /// highlighted characters (indices of non white characters in text)
    marks: Vec<bool>,
}

struct Pred {
    width: usize,
    segs: Vec<Seg>,
    /// a header which is not yet followed by its text
    pending: Option<String>,
    /// some header cannot be written at all
    error: bool,
}

fn spaces(n: usize) -> String {
    " ".repeat(n)
}

impl Pred {
    fn new(width: usize) -> Self {
        Pred { width, segs: Vec::new(), pending: None, error: false }
    }
    fn header(&mut self, level: usize, h: &str) {
        match &mut self.pending {
            Some(p) => p.push_str(h),
            None => self.pending = Some(spaces(level * 5) + h),
        }
    }
    fn text_marked(&mut self, level: usize, text: &str, marks: Vec<bool>) {
        let prefix = self.pending.take().unwrap_or_else(|| spaces(level * 5));
        self.segs.push(Seg {
            prefix,
            col: level * 5,
            text: text.to_string(),
            avail: Some(self.width.saturating_sub(level * 5)),
            marks,
        });
    }
    fn text(&mut self, level: usize, text: &str) {
        let n = text.chars().filter(|c| !c.is_whitespace()).count();
        self.text_marked(level, text, vec![false; n]);
    }
    fn unwrapped(&mut self, col: usize, text: &str) {
        let n = text.chars().filter(|c| !c.is_whitespace()).count();
        self.segs.push(Seg { prefix: spaces(col), col, text: text.to_string(), avail: None, marks: vec![false; n] });
    }

    fn act(&mut self, level: usize, a: &MAct) {
        let id = format!("{}. évi {}. törvény", a.year, roman(a.number as u32).unwrap());
        self.unwrapped(level * 5, &format!("{id} {}", a.subject));
        self.text(level, &plain(&a.preamble));
        self.children(level, &a.children);
    }
    fn children(&mut self, level: usize, ch: &[MChild]) {
        for c in ch {
            self.child(level, c);
        }
    }
    fn child(&mut self, level: usize, c: &MChild) {
        match c {
            MChild::Se { ty, num, title, .. } => {
                let Some(h) = se_header_written(*ty, *num) else {
                    self.error = true;
                    return;
                };
                self.text(level, &h);
                self.text(level, &plain(title));
            }
            MChild::Sub { num, title, .. } => {
                let t = plain(title);
                self.text(level, &match num {
                    Some(n) => format!("{}. {t}", n.slash()),
                    None => t,
                });
            }
            MChild::Art(a) => self.article(level, a),
        }
    }
    fn article(&mut self, level: usize, a: &MArt) {
        self.header(level, &format!("{:<10}", format!("{}. §", a.id.display())));
        if let Some(t) = &a.title {
            self.text(level + 2, &format!("     [{}]", plain(t)));
        }
        for p in &a.paras {
            self.el(level + 2, Kind::Para, p);
        }
        if self.pending.is_some() {
            self.text(level + 2, "");
        }
    }
    fn el(&mut self, level: usize, k: Kind, e: &El) {
        let h = match k {
            Kind::Para if e.id.is_empty() => String::new(),
            Kind::Para => format!("({})", e.id),
            Kind::Num | Kind::NumSub => format!("{}.", e.id),
            Kind::Alpha | Kind::AlphaSub => format!("{})", e.id),
        };
        self.header(level, &format!("{h:<5}"));
        let own = match &e.body {
            Body::Text(t) => plain(t),
            Body::Ch { intro, .. } => plain(intro),
        };
        let marks = own
            .char_indices()
            .filter(|(_, c)| !c.is_whitespace())
            .map(|(i, _)| e.sem.outgoing_references.iter().any(|r| i >= r.start && i < r.end))
            .collect();
        self.text_marked(level + 1, &own, marks);
        if let Body::Ch { ch, wrap, .. } = &e.body {
            self.ch(level + 1, ch);
            if let Some(w) = wrap {
                self.text(level + 1, &plain(w));
            }
        }
    }
    fn ch(&mut self, level: usize, ch: &Ch) {
        match ch {
            Ch::Els(k, els) => {
                for e in els {
                    self.el(level, *k, e);
                }
            }
            Ch::Quoted(qs) => {
                for q in qs {
                    if let Some(i) = &q.intro {
                        self.text(level, &plain(i));
                    }
                    self.text(level, "„");
                    let min = q.lines.iter().map(mline_indent).filter(|i| *i > 0.0).fold(1000.0, f64::min);
                    for l in &q.lines {
                        let extra = ((mline_indent(l) - min) * 0.2) as usize;
                        self.unwrapped(level * 5 + 5 + extra, &l.text());
                    }
                    self.text(level, "”");
                    if let Some(i) = &q.wrap {
                        self.text(level, &plain(i));
                    }
                }
            }
            Ch::Ba { intro, kind, els, wrap, .. } => {
                self.bracketed(level, intro);
                self.text(level, "„");
                for e in els {
                    self.el(level + 1, *kind, e);
                }
                self.text(level, "”");
                self.bracketed(level, wrap);
            }
            Ch::Sba { intro, children, wrap, .. } => {
                self.bracketed(level, intro);
                self.text(level, "„");
                self.children(level + 1, children);
                self.text(level, "”");
                self.bracketed(level, wrap);
            }
        }
    }
    fn bracketed(&mut self, level: usize, t: &Option<String>) {
        if let Some(t) = t {
            self.text(level, &format!("({})", plain(t)));
        }
    }
}

fn mline_indent(l: &MLine) -> f64 {
    l.build().indent()
}

fn se_header_written(ty: StructuralElementType, num: Num) -> Option<String> {
    let suffix = num.suffix.map(|s| format!("/{}", ALPHABET[s])).unwrap_or_default();
    match ty {
        StructuralElementType::Part { is_special: true } => match (num.num, num.suffix) {
            (1, None) => Some("ÁLTALÁNOS RÉSZ".into()),
            (2, None) => Some("KÜLÖNÖS RÉSZ".into()),
            (3, None) => Some("ZÁRÓ RÉSZ".into()),
            _ => None,
        },
        StructuralElementType::Book => Some(format!("{}{suffix} KÖNYV", hungarian_ordinal(num.num)?).to_uppercase()),
        StructuralElementType::Part { is_special: false } => {
            Some(format!("{}{suffix} RÉSZ", hungarian_ordinal(num.num)?).to_uppercase())
        }
        StructuralElementType::Title => Some(format!("{}{suffix}. CÍM", roman(num.num as u32)?)),
        StructuralElementType::Chapter => Some(format!("{}{suffix}. FEJEZET", roman(num.num as u32)?)),
    }
}

// ---------------- matching ----------------

/// Characters with their highlight state
type Line = Vec<(char, u32)>;

/// Splits the written bytes into lines; strips and interprets color codes
fn read_output(s: &str) -> Result<Vec<Line>, String> {
    let mut lines = vec![Vec::new()];
    let mut it = s.chars();
    let mut color = 0;
    while let Some(c) = it.next() {
        match c {
            '\u{1b}' => {
                if it.next() != Some('[') {
                    return Err("broken color code".into());
                }
                let mut n = String::new();
                loop {
                    match it.next() {
                        Some('m') => break,
                        Some(d) if d.is_ascii_digit() => n.push(d),
                        other => return Err(format!("broken color code: {other:?}")),
                    }
                }
                color = n.parse().map_err(|_| "broken color code".to_string())?;
            }
            '\n' => lines.push(Vec::new()),
            c => lines.last_mut().unwrap().push((c, color)),
        }
    }
    if color != 0 {
        return Err("color is left on".into());
    }
    Ok(lines)
}

fn blank(l: &[(char, u32)]) -> bool {
    l.iter().all(|(c, _)| c.is_whitespace())
}
fn text_of(l: &[(char, u32)]) -> String {
    l.iter().map(|c| c.0).collect()
}
fn wide(c: char) -> usize {
    if c < '\u{1100}' {
        1
    } else {
        2
    }
}

fn match_output(lines: &[Line], segs: &[Seg], colored: bool) -> CaseResult {
    let mut at = 0;
    let err = |sig: &str, at: usize, seg: &Seg| {
        let from = at.saturating_sub(2);
        fail(
            format!("output: {sig}"),
            format!(
                "{sig}: line {} does not fit block {seg:?}\n{}",
                at + 1,
                lines[from..(at + 3).min(lines.len())].iter().map(|l| format!("|{}|\n", text_of(l))).collect::<String>()
            ),
        )
    };
    for seg in segs {
        let want: Vec<char> = seg.text.chars().filter(|c| !c.is_whitespace()).collect();
        let prefix: Vec<char> = seg.prefix.chars().collect();
        if want.is_empty() && seg.prefix.trim().is_empty() {
            continue;
        }
        while at < lines.len() && blank(&lines[at]) {
            at += 1;
        }
        if at >= lines.len() {
            return err("text is missing", at, seg);
        }
        let free_breaks = seg.text.contains('\n') || colored;
        let odd_spaces = seg.text.chars().any(|c| c.is_whitespace() && c != ' ');
        let mut done = 0;
        let mut first = true;
        loop {
            if at >= lines.len() {
                return err("text is missing", at, seg);
            }
            let line = &lines[at];
            let start = if first {
                let trimmed = seg.prefix.trim_end().chars().count();
                let have: Vec<char> = line.iter().take(prefix.len()).map(|c| c.0).collect();
                if have != prefix && !(want.is_empty() && have == prefix[..trimmed]) {
                    return err("header or indentation", at, seg);
                }
                have.len()
            } else if blank(line) {
                if !free_breaks && !odd_spaces {
                    return err("blank line inside a text", at, seg);
                }
                at += 1;
                continue;
            } else {
                let lead = line.iter().take_while(|c| c.0 == ' ').count();
                if seg.avail.is_some() && !(lead == seg.col || (free_breaks && lead > seg.col)) {
                    return err("indentation of a continued line", at, seg);
                }
                if seg.avail.is_some() {
                    seg.col
                } else {
                    0
                }
            };
            let rest = &line[start..];
            for (c, color) in rest.iter().filter(|c| !c.0.is_whitespace()) {
                if want.get(done) != Some(c) {
                    return err("text differs", at, seg);
                }
                if colored && (*color == 36) != seg.marks[done] {
                    return err("highlighting differs", at, seg);
                }
                done += 1;
            }
            if let Some(avail) = seg.avail {
                let trimmed = text_of(rest).trim_end().chars().count();
                if trimmed > avail.max(1) {
                    return err("line is too long", at, seg);
                }
                if done < want.len() && !free_breaks && !odd_spaces && avail > 0 {
                    // The next word must not have fitted
                    let rest_w: usize = text_of(rest).trim_end().chars().map(wide).sum();
                    let mut n = 0;
                    let mut it = seg.text.chars().peekable();
                    while n < done {
                        if !it.next().unwrap().is_whitespace() {
                            n += 1;
                        }
                    }
                    let mut sep = 0;
                    while it.peek() == Some(&' ') {
                        it.next();
                        sep += 1;
                    }
                    let word: usize = it.take_while(|c| *c != ' ').map(wide).sum();
                    if rest_w + sep + word <= avail {
                        return err("line is broken too early", at, seg);
                    }
                }
            }
            at += 1;
            first = false;
            if done == want.len() {
                break;
            }
        }
    }
    while at < lines.len() {
        if !blank(&lines[at]) {
            return fail("output: additional text", format!("line {}: {}", at + 1, text_of(&lines[at])));
        }
        at += 1;
    }
    Ok(())
}

// ---------------- generation ----------------

fn set_refs(src: &mut Src, e: &mut El) {
    let own = match &e.body {
        Body::Text(t) => plain(t),
        Body::Ch { intro, .. } => plain(intro),
    };
    let bounds: Vec<usize> = own.char_indices().map(|x| x.0).chain([own.len()]).collect();
    let mut refs = Vec::new();
    let mut at = 0usize;
    while src.chance(1, 2) && refs.len() < 4 {
        let start = at + src.small(0, 6);
        let end = start + src.small(0, 10);
        if end >= bounds.len() {
            break;
        }
        refs.push(OutgoingReference { start: bounds[start], end: bounds[end], reference: gen_valid(src).build().unwrap() });
        at = end;
    }
    e.sem.outgoing_references = refs;
    if let Body::Ch { ch, .. } = &mut e.body {
        match ch {
            Ch::Els(_, els) | Ch::Ba { els, .. } => els.iter_mut().for_each(|e| set_refs(src, e)),
            // Lines have no line feeds in them
            Ch::Quoted(qs) => {
                for q in qs {
                    for l in &mut q.lines {
                        l.chars.iter_mut().filter(|c| c.1 == '\n').for_each(|c| c.1 = ' ');
                    }
                }
            }
            Ch::Sba { children, .. } => set_refs_children(src, children),
        }
    }
}
fn set_refs_children(src: &mut Src, ch: &mut [MChild]) {
    for c in ch {
        if let MChild::Art(a) = c {
            a.paras.iter_mut().for_each(|e| set_refs(src, e));
        }
    }
}
/// Rarely a number without written form
fn odd_headers(src: &mut Src, ch: &mut [MChild]) {
    for c in ch {
        if let MChild::Se { num, .. } = c {
            *num = match src.below(8) {
                0 => Num::plain(0),
                1 => Num::plain(src.range(95, 105) as u16),
                2 => Num::plain(src.range(3995, 4005) as u16),
                3 => Num { num: src.range(1, 4) as u16, suffix: Some(src.below(34) as usize) },
                _ => *num,
            };
        }
    }
}

fn gen_width(src: &mut Src) -> usize {
    match src.weighted(&[3, 3, 2, 1]) {
        0 => src.usize(60, 130),
        1 => src.usize(10, 60),
        2 => src.usize(0, 40),
        _ => src.usize(100, 250),
    }
}

fn gen_opts(src: &mut Src) -> Opts {
    Opts { layout: !src.chance(1, 3), amend: src.bool(), quotes: true, ba: false, sem: src.bool(), nested_amend: src.chance(1, 3) }
}

fn gen(src: &mut Src) -> MAct {
    let o = gen_opts(src);
    let mut m = gen_act(src, &o);
    set_refs_children(src, &mut m.children);
    m.subject = m.subject.replace('\n', " ");
    if src.chance(1, 12) {
        odd_headers(src, &mut m.children);
    }
    m
}

fn stats(c: &mut Case, p: &Pred) {
    let deep = p.segs.iter().map(|s| s.col).max().unwrap_or(0);
    let quote = p.segs.iter().any(|s| s.text == "„");
    c.nontrivial = deep >= 20 || quote || p.width < 40;
    c.label_if(quote, "quotation");
    c.label_if(p.width <= deep, "narrower than the indentation");
    c.label_if(p.width < 40, "narrow");
    c.label_if(p.error, "no written form");
}

fn write_cli(act: Act, width: usize, f: OutputFormat) -> Result<Option<String>, crate::engine::Fail> {
    let mut v = Vec::new();
    let r = no_panic("text output", || act.cli_output(width, f, &mut v))?;
    match r {
        Ok(()) => match String::from_utf8(v) {
            Ok(s) => Ok(Some(s)),
            Err(e) => fail("output: not UTF-8", format!("{e:?}")),
        },
        Err(_) => Ok(None),
    }
}

fn judge(s: Option<String>, p: &Pred, colored: bool) -> CaseResult {
    match (s, p.error) {
        (None, true) => Ok(()),
        (Some(s), true) => fail("output: impossible header written", s),
        (None, false) => fail("output: error", ""),
        (Some(s), false) => {
            if !colored && s.contains('\u{1b}') {
                return fail("output: color codes in plain output", s);
            }
            let lines = match read_output(&s) {
                Ok(l) => l,
                Err(e) => return fail("output: color codes", format!("{e}: {s:?}")),
            };
            match_output(&lines, &p.segs, colored)
        }
    }
}

fn c11_act(c: &mut Case) -> CaseResult {
    let m = gen(&mut c.src);
    let width = gen_width(&mut c.src);
    let mut p = Pred::new(width);
    p.act(1, &m);
    let act = to_act(&m);
    c.input(format!("{width}{act:?}"));
    stats(c, &p);
    let f = *c.src.pick(&[OutputFormat::Plain, OutputFormat::TestPlain]);
    let s = write_cli(act, width, f)?;
    c.describe(|| format!("width {width}\n{}", s.clone().unwrap_or_default()));
    judge(s, &p, false)
}

fn c11_colors(c: &mut Case) -> CaseResult {
    let m = gen(&mut c.src);
    let width = gen_width(&mut c.src);
    let mut p = Pred::new(width);
    p.act(1, &m);
    let act = to_act(&m);
    c.input(format!("{width}{act:?}"));
    stats(c, &p);
    c.nontrivial = p.segs.iter().any(|s| s.marks.iter().any(|m| *m));
    let s = write_cli(act, width, OutputFormat::Colored)?;
    c.describe(|| format!("width {width}\n{}", s.clone().unwrap_or_default()));
    judge(s, &p, true)
}

fn c11_parts(c: &mut Case) -> CaseResult {
    let o = gen_opts(&mut c.src);
    let a = gen_art(&mut c.src);
    let mut m = gen_article(&mut c.src, &o, a);
    m.paras.iter_mut().for_each(|e| set_refs(&mut c.src, e));
    let colored = c.src.chance(1, 3);
    let width = gen_width(&mut c.src);
    let level = c.src.small(0, 3);
    let mut params = TextOutputParams::new(width, colored);
    for _ in 0..level {
        params = params.indented();
    }
    let mut p = Pred::new(width);
    let mut v = Vec::new();
    let which = c.src.below(4);
    let i = c.src.below(m.paras.len().max(1) as u64) as usize;
    let r = match which {
        0 => {
            p.article(level, &m);
            let x = to_article(&m);
            no_panic("text output", || x.write_as_text(&mut v, params))?
        }
        1 => {
            m.paras.iter().for_each(|e| p.el(level, Kind::Para, e));
            let x = to_article(&m).children;
            no_panic("text output", || x.write_as_text(&mut v, params))?
        }
        2 => {
            let Some(e) = m.paras.get(i) else { return Ok(()) };
            p.el(level, Kind::Para, e);
            let x = to_para(e);
            no_panic("text output", || x.write_as_text(&mut v, params))?
        }
        _ => {
            let Some(El { body: Body::Ch { ch, .. }, .. }) = m.paras.get(i) else { return Ok(()) };
            p.ch(level, ch);
            let SAEBody::Children { children, .. } = to_para(&m.paras[i]).body else { unreachable!() };
            no_panic("text output", || children.write_as_text(&mut v, params))?
        }
    };
    c.input(format!("{width}{level}{which}{m:?}"));
    stats(c, &p);
    let s = String::from_utf8_lossy(&v).to_string();
    c.describe(|| format!("width {width} level {level}\n{s}"));
    judge(r.ok().map(|_| s), &p, colored)
}

fn c11_full_disk(c: &mut Case) -> CaseResult {
    struct Full(Vec<u8>, usize);
    impl Write for Full {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            let n = b.len().min(self.1 - self.0.len());
            if n == 0 && !b.is_empty() {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
            }
            self.0.extend_from_slice(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let m = gen(&mut c.src);
    let width = gen_width(&mut c.src).max(60);
    let f = *c.src.pick(&[OutputFormat::Plain, OutputFormat::Colored, OutputFormat::Json, OutputFormat::Yaml]);
    let act = to_act(&m);
    let Some(whole) = write_cli(act.clone(), width, f)? else { return Ok(()) };
    let room = c.src.below(whole.len() as u64 + 20) as usize;
    c.input(format!("{act:?}{room}{width}"));
    c.nontrivial = room < whole.len();
    c.label_if(room < whole.len(), "does not fit");
    c.describe(|| format!("{room} of {} bytes as {f:?}", whole.len()));
    let mut w = Full(Vec::new(), room);
    let r = no_panic("output to a full disk", || act.cli_output(width, f, &mut w))?;
    check_eq!(r.is_ok(), room >= whole.len(), "output: write errors are reported", "{room} of {} bytes, {f:?}", whole.len());
    check!(whole.as_bytes().starts_with(&w.0), "output: what was written before the error", "");
    Ok(())
}

// ---------------- lines, raw acts, pages ----------------

fn expected_line(l: &MLine, tags: bool) -> String {
    let col = (mline_indent(l) * 0.2) as usize;
    let bold = l.build().is_bold();
    let mut s = String::new();
    let mut width = 0;
    if tags && bold {
        s.push_str("<BOLD>");
        width += 6;
    }
    if tags && !l.justified {
        s.push_str("<NJ>");
        width += 4;
    }
    // The marks take the place of the indentation as far as it goes
    let left = if tags && bold && !l.justified {
        col.saturating_sub(6).saturating_sub(4)
    } else {
        col.saturating_sub(width)
    };
    s + &spaces(left) + &l.text()
}

fn gen_doc_line(src: &mut Src) -> MLine {
    match src.below(4) {
        0 => MLine::default(),
        1 => gen_mline(src, 30),
        _ => {
            let t = plain(&gen_text(src, &Opts::layout(), Role::Point));
            let bold = src.chance(1, 3);
            let just = src.bool();
            let x = src.range(0, 80) as f64 * 2.5;
            mline(x, &t, |_| bold, just)
        }
    }
}

fn c11_lines(c: &mut Case) -> CaseResult {
    let l = gen_doc_line(&mut c.src);
    let line = l.build();
    let tags = c.src.bool();
    c.input(format!("{line:?}{tags}"));
    c.nontrivial = !l.chars.is_empty();
    c.label_if(tags, "marks");
    let s = no_panic("line output", || quick_display_indented_line(&line, tags))?;
    c.describe(|| s.clone());
    check_eq!(s, expected_line(&l, tags), "line output", "{}", show_lines(&[l.clone()]));
    // A line of the column grid written with marks reads back
    let n = c.src.small(2, 20);
    let words: Vec<String> = (0..n).map(|_| plain(&gen_text(&mut c.src, &Opts::layout(), Role::Simple))).collect();
    let text = words.join(" ");
    let lead = c.src.range(11, 40);
    let bold = c.src.bool();
    let just = c.src.bool();
    let grid = MLine {
        chars: text.chars().enumerate().map(|(i, ch)| ((lead as f64 + i as f64) * 5.0, ch, bold)).collect(),
        justified: just,
    };
    let built = grid.build();
    let s = quick_display_indented_line(&built, true);
    let back = IndentedLine::from_test_str(&s);
    check_eq!(back.content(), built.content(), "marked line read back: text", "{s}");
    check_eq!(back.is_bold(), bold, "marked line read back: bold", "{s}");
    check_eq!(back.is_justified(), just, "marked line read back: justified", "{s}");
    // from_test_str counts the margin from 10 points
    check!(
        (back.indent() - built.indent() - 10.0).abs() < 1e-6,
        "marked line read back: indentation",
        "{s}: {} and {}",
        back.indent(),
        built.indent()
    );
    Ok(())
}

fn c11_raw(c: &mut Case) -> CaseResult {
    let n = c.src.usize(0, 8);
    let lines: Vec<MLine> = (0..n).map(|_| gen_doc_line(&mut c.src)).collect();
    let f = *c.src.pick(&[OutputFormat::Plain, OutputFormat::TestPlain, OutputFormat::Colored]);
    let tags = f == OutputFormat::TestPlain;
    let width = gen_width(&mut c.src);
    let body: Vec<String> = lines.iter().map(|l| expected_line(l, tags)).collect();
    let mut v = Vec::new();
    c.nontrivial = n > 0;
    let mut want: Vec<String> = Vec::new();
    if c.src.bool() {
        let (y, num) = (c.src.range(1950, 2050) as i16, c.src.range(1, 300) as i32);
        let subject = plain(&gen_text(&mut c.src, &Opts::layout(), Role::Title));
        let date = gen_date(&mut c.src);
        let raw = ActRawText {
            identifier: ActIdentifier { year: y, number: num },
            subject: subject.clone(),
            publication_date: date,
            body: build_lines(&lines),
        };
        c.input(format!("{raw:?}"));
        no_panic("raw output", || raw.cli_output(width, f, &mut v))?.map_err(|e| crate::engine::Fail { sig: "raw output".into(), msg: format!("{e:?}") })?;
        want.push(format!("Act ID: {y}. évi {}. törvény - {subject}", roman(num as u32).unwrap()));
        want.push(format!("Pub date: {date}"));
        want.push(String::new());
        want.extend(body);
        c.label("raw act");
    } else {
        let pages = c.src.usize(1, 4);
        let cut: Vec<usize> = {
            let mut x: Vec<usize> = (0..pages - 1).map(|_| c.src.below(n as u64 + 1) as usize).collect();
            x.sort_unstable();
            x.push(n);
            x
        };
        let mut at = 0;
        let mut out = Vec::new();
        for (i, to) in cut.iter().enumerate() {
            want.push(String::new());
            want.push(format!("------- page {}/{pages} -------", i + 1));
            want.push(String::new());
            want.extend_from_slice(&body[at..*to]);
            out.push(PageOfLines { lines: build_lines(&lines[at..*to]) });
            at = *to;
        }
        c.input(format!("{out:?}"));
        no_panic("page output", || out.cli_output(width, f, &mut v))?.map_err(|e| crate::engine::Fail { sig: "raw output".into(), msg: format!("{e:?}") })?;
        c.label("pages");
    }
    let s = String::from_utf8_lossy(&v).to_string();
    c.describe(|| s.clone());
    let want = want.into_iter().map(|l| l + "\n").collect::<String>();
    check_eq!(s, want, "raw output", "{f:?}");
    Ok(())
}
