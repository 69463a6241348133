//! C17: text lines: slicing, joining, boldness, quoting
use hun_law::util::{
    indentedline::{IndentedLine, IndentedLinePart, EMPTY_LINE},
    QuoteCheck,
};

use crate::{
    check, check_eq,
    engine::{Arm, Case, CaseResult, Kind, Prop, Src},
};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        level: "exploration",
        rule: "Random lines (0-25 characters of 1-4 byte length, random widths, random boldness) are sliced and concatenated by random operation sequences and compared after every step with a model that stores absolute positions. Non-trivial: at least one operation acts on a line of 2+ characters; quoting: at least one quotation mark.",
        assumptions: &["positions are compared with a tolerance of 1e-6 points", "slice_bytes is only called on character boundaries"],
        arms: vec![
            Arm { name: "history", kind: Kind::Random(400_000, 20_000_000), f: c17_history },
            Arm { name: "slice", kind: Kind::Random(400_000, 20_000_000), f: c17_slice },
            Arm { name: "append", kind: Kind::Random(200_000, 10_000_000), f: c17_append },
            Arm { name: "header", kind: Kind::Random(100_000, 4_000_000), f: c17_header },
            Arm { name: "quoting", kind: Kind::Random(200_000, 10_000_000), f: c17_quoting },
        ],
    }]
}

#[derive(Debug, Clone, Default)]
pub struct MLine {
    /// absolute x position, character, bold
    pub chars: Vec<(f64, char, bool)>,
    pub justified: bool,
}

impl MLine {
    pub fn build(&self) -> IndentedLine {
        let mut x = 0.0;
        let parts = self
            .chars
            .iter()
            .map(|(ax, c, b)| {
                let dx = ax - x;
                x = *ax;
                IndentedLinePart { dx, content: *c, bold: *b }
            })
            .collect();
        IndentedLine::from_parts(parts, self.justified)
    }
    pub fn text(&self) -> String {
        self.chars.iter().map(|c| c.1).collect()
    }
    fn slice(&self, from: i64, to: Option<i64>) -> MLine {
        let n = self.chars.len() as i64;
        let conv = |i: i64| if i < 0 { (n + i).max(0) } else { i.min(n) };
        let from = conv(from);
        let to = to.map(conv).unwrap_or(n);
        if to <= from {
            return MLine::default();
        }
        MLine {
            chars: self.chars[from as usize..to as usize].to_vec(),
            justified: self.justified && to == n,
        }
    }
    fn concat(lines: &[&MLine]) -> MLine {
        MLine {
            chars: lines.iter().flat_map(|l| l.chars.iter().copied()).collect(),
            justified: lines.iter().rev().find(|l| !l.chars.is_empty()).map(|l| l.justified).unwrap_or(false),
        }
    }
}

const CHARS: [char; 24] = [
    'a', 'b', ' ', 'é', 'ő', '1', '.', ')', '(', '§', '-', '„', '”', '“', '–', 'Z', '/', '𝄞', 'ű', 'x', '«', '»', '"',
    '’',
];

pub fn gen_mline(src: &mut Src, max: usize) -> MLine {
    let n = src.usize(0, max);
    let mut x = src.range(0, 4000) as f64 / 16.0;
    let mode = src.below(3);
    let mut chars = Vec::new();
    for _ in 0..n {
        let bold = match mode {
            0 => false,
            1 => true,
            _ => src.bool(),
        };
        let c = *src.pick(&CHARS);
        chars.push((x, c, bold));
        x += src.range(1, 160) as f64 / 16.0;
    }
    MLine { chars, justified: src.bool() }
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-6
}

/// Everything observable about a line
pub fn same(l: &IndentedLine, m: &MLine, what: &str, justified: bool) -> CaseResult {
    let text = m.text();
    check_eq!(l.content(), text, format!("{what}: content"), "");
    check_eq!(l.len(), m.chars.len(), format!("{what}: length"), "{text:?}");
    check_eq!(l.is_empty(), m.chars.is_empty(), format!("{what}: emptiness"), "{text:?}");
    let first = m.chars.first().map(|c| c.0).unwrap_or(0.0);
    check!(close(l.indent(), first), format!("{what}: indent"), "{text:?}: {} instead of {first}", l.indent());
    for (i, c) in m.chars.iter().enumerate() {
        let got = l.indent_at(i as i64);
        check!(close(got, c.0), format!("{what}: position"), "{text:?} char {i}: {got} instead of {}", c.0);
        let got = l.indent_at(i as i64 - m.chars.len() as i64);
        check!(close(got, c.0), format!("{what}: position from the end"), "{text:?} char {i}: {got} instead of {}", c.0);
    }
    if let Some(c) = m.chars.last() {
        let got = l.indent_at(10000);
        check!(close(got, c.0), format!("{what}: position past the end"), "{text:?}: {got} instead of {}", c.0);
    }
    // Bold: more than two thirds of the characters
    let bold = m.chars.iter().filter(|c| c.2).count();
    check_eq!(l.is_bold(), bold * 3 > m.chars.len() * 2, format!("{what}: boldness"), "{m:?}");
    if justified {
        check_eq!(l.is_justified(), m.justified, format!("{what}: justified"), "{text:?}");
    }
    Ok(())
}

fn c17_slice(c: &mut Case) -> CaseResult {
    let m = gen_mline(&mut c.src, 12);
    let l = m.build();
    let n = m.chars.len() as i64;
    let from = c.src.range(-n - 2, n + 2);
    let to = if c.src.bool() { Some(c.src.range(-n - 2, n + 2)) } else { None };
    c.input(format!("{m:?}{from}{to:?}"));
    c.nontrivial = n >= 2;
    c.describe(|| format!("{:?}[{from}..{to:?}]", m.text()));
    same(&l, &m, "line", true)?;
    let s = l.slice(from, to);
    let ms = m.slice(from, to);
    c.label_if(ms.chars.is_empty(), "empty slice");
    same(&s, &ms, "slice", true)?;
    // Slicing at byte positions is the same thing
    if !ms.chars.is_empty() {
        let conv = |i: i64| if i < 0 { (n + i).max(0) } else { i.min(n) } as usize;
        let text = m.text();
        let byte = |i: usize| text.char_indices().nth(i).map(|x| x.0).unwrap_or(text.len());
        let (bf, bt) = (byte(conv(from)), to.map(|t| byte(conv(t))));
        let sb = l.slice_bytes(bf, bt);
        same(&sb, &ms, "slice_bytes", true)?;
        let sb = l.slice_bytes(bf, None);
        same(&sb, &m.slice(from, None), "slice_bytes to the end", true)?;
    }
    // The two halves make up the whole
    let k = c.src.range(0, n.max(1));
    let (a, b) = (l.slice(0, Some(k)), l.slice(k, None));
    let whole = IndentedLine::from_multiple(&[&a, &b]);
    same(&whole, &MLine { justified: m.justified && n > 0, ..m.clone() }, "halves", true)?;
    check_eq!(whole, l, "halves: equality", "{:?} at {k}", m.text());
    // An empty tail at the end of the text is a legal slice too
    let tail = l.slice_bytes(m.text().len(), None);
    check!(tail.is_empty(), "slice_bytes: empty tail", "{:?}", m.text());
    let eq = m.chars.len() == ms.chars.len() || (m.chars.is_empty() && ms.chars.is_empty());
    check_eq!(s == l, eq, "equality", "{:?} and {:?}", m.text(), ms.text());
    Ok(())
}

fn c17_history(c: &mut Case) -> CaseResult {
    let mut pool: Vec<(IndentedLine, MLine)> = vec![(EMPTY_LINE, MLine::default())];
    for _ in 0..c.src.usize(1, 3) {
        let m = gen_mline(&mut c.src, 10);
        pool.push((m.build(), m));
    }
    let mut ops = Vec::new();
    for _ in 0..c.src.usize(1, 7) {
        let i = c.src.usize(0, pool.len() - 1);
        let (l, m) = pool[i].clone();
        let n = m.chars.len() as i64;
        let (nl, nm, op) = match c.src.below(4) {
            0 | 1 => {
                let from = c.src.range(-n - 1, n + 1);
                let to = if c.src.bool() { Some(c.src.range(-n - 1, n + 1)) } else { None };
                (l.slice(from, to), m.slice(from, to), format!("slice {i} {from} {to:?}"))
            }
            2 => {
                let k = c.src.usize(0, 3);
                let idx: Vec<usize> = (0..k).map(|_| c.src.usize(0, pool.len() - 1)).collect();
                let ls: Vec<&IndentedLine> = idx.iter().map(|i| &pool[*i].0).collect();
                let ms: Vec<&MLine> = idx.iter().map(|i| &pool[*i].1).collect();
                (IndentedLine::from_multiple(&ls), MLine::concat(&ms), format!("concat {idx:?}"))
            }
            _ => {
                if n == 0 {
                    continue;
                }
                let mut nm = m.clone();
                nm.chars.iter_mut().for_each(|c| c.2 = true);
                (l.as_bold(), nm, format!("bold {i}"))
            }
        };
        c.nontrivial |= n >= 2;
        ops.push(op);
        if nm.chars.len() > 200 {
            break;
        }
        same(&nl, &nm, "history", true)?;
        pool.push((nl, nm));
    }
    c.input(&ops);
    c.input(format!("{:?}", pool[1].1.text()));
    c.describe(|| format!("{:?}; {ops:?}", pool.iter().map(|p| p.1.text()).collect::<Vec<_>>()));
    Ok(())
}

fn c17_append(c: &mut Case) -> CaseResult {
    const WORDS: [&str; 12] = [
        "a törvény", "köz-", "-", "és más", "vagy egyéb", "ésszerű", "vagyon", "", "lét-", "és", "vagy", "X",
    ];
    let n = c.src.usize(0, 6);
    let words: Vec<&str> = (0..n).map(|_| *c.src.pick(&WORDS)).collect();
    let lines: Vec<IndentedLine> = words
        .iter()
        .map(|w| {
            MLine {
                chars: w.chars().enumerate().map(|(i, c)| (i as f64, c, false)).collect(),
                justified: true,
            }
            .build()
        })
        .collect();
    c.input(&words);
    c.describe(|| format!("{words:?}"));
    c.nontrivial = n >= 2;
    // Model: words separated by one space, but a line ending in a hyphen continues without a space, unless the
    // hyphen is a suspended one ("köz- és magánterület")
    let mut want = String::new();
    for w in &words {
        if w.is_empty() {
            continue;
        }
        if !want.is_empty() && (!want.ends_with('-') || w.starts_with("és ") || w.starts_with("vagy ")) {
            want.push(' ');
        }
        want.push_str(w);
    }
    c.label_if(want.contains('-'), "hyphen");
    check_eq!(IndentedLine::join(&lines), want, "join", "{words:?}");
    let mut s = String::new();
    lines.iter().for_each(|l| l.append_to(&mut s));
    check_eq!(s, want, "append", "{words:?}");
    Ok(())
}

fn c17_header(c: &mut Case) -> CaseResult {
    use std::sync::OnceLock;
    static RE: OnceLock<regex::Regex> = OnceLock::new();
    let re = RE.get_or_init(|| regex::Regex::new(r"^\(([0-9]+[a-z]?)\) +(.*)$").unwrap());
    let id = c.src.range(1, 99999);
    let suffix = if c.src.chance(1, 4) { "b" } else { "" };
    let spaces = c.src.usize(0, 3);
    let body = gen_mline(&mut c.src, 10);
    let bad_start = c.src.chance(1, 6);
    let text = format!("({id}{suffix}){}{}{}", " ".repeat(spaces), if bad_start { "és " } else { "" }, body.text());
    let mut m = gen_mline(&mut c.src, 0);
    let mut x = 10.0;
    for ch in text.chars() {
        m.chars.push((x, ch, false));
        x += 2.5;
    }
    let l = m.build();
    c.input(&text);
    c.describe(|| text.clone());
    let got = l.parse_header::<hun_law::identifier::NumericIdentifier>(re, &["és "]);
    let fits = id <= 65535;
    let rest_all: String = text[text.find(')').unwrap() + 1..].to_string();
    let rest = rest_all.trim_start_matches(' ').to_string();
    let has_space = rest_all.starts_with(' ');
    let want = fits && has_space && !rest.starts_with("és ");
    c.nontrivial = true;
    c.label_if(want, "header");
    c.label_if(rest.is_empty(), "empty rest");
    match got {
        Some((gid, gl)) => {
            check!(want, "header: accepted", "{text:?}");
            check_eq!(gid.to_string(), format!("{id}{suffix}"), "header: identifier", "{text:?}");
            check_eq!(gl.content(), rest, "header: rest", "{text:?}");
            if !rest.is_empty() {
                let want_x = 10.0 + 2.5 * (text.chars().count() - rest.chars().count()) as f64;
                check!(close(gl.indent(), want_x), "header: rest position", "{text:?}: {}", gl.indent());
            }
        }
        None => check!(!want, "header: rejected", "{text:?}"),
    }
    Ok(())
}

fn c17_quoting(c: &mut Case) -> CaseResult {
    let mut q = QuoteCheck::default();
    let mut level = 0i64;
    let mut texts = Vec::new();
    for _ in 0..c.src.usize(1, 8) {
        let m = gen_mline(&mut c.src, 8);
        let t = m.text();
        let open = t.chars().filter(|c| *c == '„' || *c == '“').count() as i64;
        let close = t.chars().filter(|c| *c == '”').count() as i64;
        c.nontrivial |= open + close > 0;
        texts.push(t.clone());
        let before = level;
        level += open - close;
        let r = q.update(&m.build());
        check_eq!(r.is_err(), level < 0, "quoting: error", "{texts:?}");
        check_eq!(q.beginning_is_quoted, before > 0, "quoting: beginning", "{texts:?}");
        check_eq!(q.end_is_quoted, level > 0, "quoting: end", "{texts:?}");
        check_eq!(q.quote_level, level, "quoting: level", "{texts:?}");
        if level < 0 {
            break;
        }
    }
    c.input(&texts);
    c.describe(|| format!("{texts:?}"));
    check_eq!(q.check_end().is_err(), level != 0, "quoting: end of text", "{texts:?}");
    Ok(())
}
