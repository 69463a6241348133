//! C01, C02, C03: parsing the structure of acts
use hun_law::{
    identifier::{ActIdentifier, IdentifierCommon, NumericIdentifier},
    parser::{mk_act_section::ActRawText, structure::parse_act_structure},
    structure::*,
};

use super::lines::MLine;
use crate::{
    actgen::*,
    check, check_eq,
    engine::{fail, no_panic, Arm, Case, CaseResult, Kind as K, Prop, Src},
    model::{hungarian_ordinal, latin, letter_follows, roman, Art, Num, ALPHABET},
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: "A random act tree (structural elements, subtitles, articles, paragraphs, points, subpoints, wrap-ups, quoted blocks, inserted identifiers, header-like text in citations and quotations) is typeset with random line breaks, hyphenation, indentation, boldness and empty lines; the parser must return the same tree. Non-trivial: at least two of {list, quoted block, several paragraphs, structural element, subtitle, article title, multi-line text}.",
            assumptions: &[
                "headers of siblings are aligned within 0.5 points, continuation lines of list items hang by at least 2.5 points",
                "whether empty lines inside quoted blocks are kept is not specified",
                "texts do not start with what the official drafting rules reserve (quotation mark at the start of a paragraph line, 'pont', 'bekezdés' right after a header)",
            ],
            arms: vec![
                Arm { name: "act", kind: K::Random(200_000, 6_000_000), f: c01_act },
                Arm { name: "article", kind: K::Random(300_000, 10_000_000), f: c01_article },
                Arm { name: "long", kind: K::Random(30_000, 1_000_000), f: c01_long },
            ],
        },
        Prop {
            id: "C02",
            level: "exploration",
            rule: "Typeset acts with 1-5 random damages (lines lost, doubled, swapped, re-indented, emboldened, cut, joined, quotation marks added or removed) and random sequences of header-like lines are parsed; whenever the parser accepts, the result read in document order must spell the input (ignoring white space, letter case, quotation marks, brackets and the slash of suffixes). Non-trivial: accepted, with 3+ lines.",
            assumptions: &["only canonical numerals are generated (no leading zeros)"],
            arms: vec![
                Arm { name: "clean", kind: K::Random(40_000, 1_500_000), f: c02_clean },
                Arm { name: "damaged", kind: K::Random(200_000, 6_000_000), f: c02_damaged },
                Arm { name: "wild", kind: K::Random(400_000, 20_000_000), f: c02_wild },
            ],
        },
        Prop {
            id: "C03",
            level: "exploration",
            rule: "Damaged acts, random sequences of header-like lines and lines of random characters are parsed; there must be no panic, and every accepted act must be numbered consecutively by an independent model. Non-trivial: 2+ lines, or an accepted act with 2+ siblings.",
            assumptions: &["positions are finite numbers"],
            arms: vec![
                Arm { name: "damaged", kind: K::Random(200_000, 6_000_000), f: c03_damaged },
                Arm { name: "wild", kind: K::Random(600_000, 30_000_000), f: c03_wild },
                Arm { name: "characters", kind: K::Random(400_000, 20_000_000), f: c03_characters },
            ],
        },
    ]
}

pub fn raw_act(m: &MAct, lines: &[MLine]) -> ActRawText {
    ActRawText {
        identifier: ActIdentifier { year: m.year, number: m.number },
        subject: m.subject.clone(),
        publication_date: m.date,
        body: build_lines(lines),
    }
}

/// Compare, and report the first difference only
/// The neighbourhood of the first difference of long texts
fn excerpts(a: &str, b: &str) -> (String, String) {
    if a.len().max(b.len()) < 2000 {
        return (a.to_string(), b.to_string());
    }
    let same = a.chars().zip(b.chars()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| {
        let t: String = s.chars().skip(same.saturating_sub(300)).take(800).collect();
        format!("[...]{t}[...]")
    };
    (cut(a), cut(b))
}

pub fn compare(got: &Act, want: &Act, lines: &[MLine]) -> CaseResult {
    if got == want {
        return Ok(());
    }
    let txt = show_lines(lines);
    check_eq!(got.identifier, want.identifier, "act identifier", "");
    check_eq!(got.subject, want.subject, "subject", "");
    check_eq!(got.publication_date, want.publication_date, "publication date", "");
    check_eq!(got.contained_abbreviations, want.contained_abbreviations, "abbreviations", "");
    check_eq!(got.preamble, want.preamble, "preamble", "{txt}");
    let name = |c: &ActChild| match c {
        ActChild::StructuralElement(_) => "structural element",
        ActChild::Subtitle(_) => "subtitle",
        ActChild::Article(_) => "article",
    };
    for (g, w) in got.children.iter().zip(&want.children) {
        if g != w {
            if let (ActChild::Article(ga), ActChild::Article(wa)) = (g, w) {
                for (gp, wp) in ga.children.iter().zip(&wa.children) {
                    if gp != wp {
                        let (g, w) = excerpts(&format!("{gp:?}"), &format!("{wp:?}"));
                        return fail(format!("{} differs", "paragraph"), format!("\n  got:      {g}\n  expected: {w}\n{txt}"));
                    }
                }
            }
            let label = name(w);
            let (g, w) = excerpts(&format!("{g:?}"), &format!("{w:?}"));
            return fail(format!("{label} differs"), format!("\n  got:      {g}\n  expected: {w}\n{txt}"));
        }
    }
    fail(
        "number of children",
        format!("got {} children, expected {}\n{txt}", got.children.len(), want.children.len()),
    )
}

fn features(c: &mut Case, a: &MAct, lines: &[MLine]) {
    let mut n = 0;
    let mut add = |c: &mut Case, cond: bool, l: &'static str| {
        if cond {
            c.label(l);
            n += 1;
        }
    };
    let arts: Vec<&MArt> = a.children.iter().filter_map(|c| if let MChild::Art(a) = c { Some(a) } else { None }).collect();
    add(c, a.children.iter().any(|c| matches!(c, MChild::Se { .. })), "structural element");
    add(c, a.children.iter().any(|c| matches!(c, MChild::Sub { .. })), "subtitle");
    add(c, arts.iter().any(|a| a.title.is_some()), "article title");
    add(c, arts.iter().any(|a| a.paras.len() > 1), "several paragraphs");
    let bodies: Vec<&Body> = arts.iter().flat_map(|a| &a.paras).map(|p| &p.body).collect();
    add(c, bodies.iter().any(|b| matches!(b, Body::Ch { ch: Ch::Els(..), .. })), "list");
    add(c, bodies.iter().any(|b| matches!(b, Body::Ch { ch: Ch::Quoted(..), .. })), "quoted block");
    add(c, bodies.iter().any(|b| matches!(b, Body::Ch { wrap: Some(_), .. })), "wrap-up");
    add(
        c,
        bodies.iter().any(|b| match b {
            Body::Ch { ch: Ch::Els(_, e), .. } => e.iter().any(|e| matches!(e.body, Body::Ch { .. })),
            _ => false,
        }),
        "sublist",
    );
    add(c, arts.iter().any(|a| a.id.id.suffix.is_some()), "inserted article");
    add(c, lines.len() > a.children.len() * 3, "multi-line text");
    c.nontrivial_if(n >= 2);
}

fn parse(c: &mut Case, m: &MAct, lines: &[MLine]) -> Result<anyhow::Result<Act>, crate::engine::Fail> {
    let raw = raw_act(m, lines);
    c.input(show_lines(lines));
    c.describe(|| show_lines(lines));
    no_panic("parse_act_structure", || parse_act_structure(&raw))
}

fn roundtrip(c: &mut Case, m: &MAct, lines: &[MLine]) -> CaseResult {
    match parse(c, m, lines)? {
        Ok(mut got) => {
            let mut want = to_act(m);
            drop_empty_quoted(&mut got);
            drop_empty_quoted(&mut want);
            compare(&got, &want, lines)
        }
        Err(e) => fail("act rejected", format!("{e:?}\n{}", show_lines(lines))),
    }
}

fn c01_act(c: &mut Case) -> CaseResult {
    let m = gen_act(&mut c.src, &Opts::layout());
    let lines = {
        let mut l = Lay::new(&mut c.src, false);
        l.act(&m);
        l.out
    };
    features(c, &m, &lines);
    roundtrip(c, &m, &lines)
}

/// One article only: deeper, and shrinks better
fn c01_article(c: &mut Case) -> CaseResult {
    let o = Opts::layout();
    let id = Art { book: if c.src.chance(1, 6) { Some(1) } else { None }, id: Num::plain(1) };
    let a = gen_article(&mut c.src, &o, id);
    let m = MAct {
        year: 2000,
        number: 1,
        subject: "Tárgy".into(),
        preamble: String::new(),
        date: chrono::NaiveDate::from_ymd_opt(2000, 1, 2).unwrap(),
        children: vec![MChild::Art(a)],
    };
    let lines = {
        let mut l = Lay::new(&mut c.src, false);
        l.act(&m);
        l.out
    };
    features(c, &m, &lines);
    roundtrip(c, &m, &lines)
}

/// Long lists: many articles, books, paragraphs, points, or the whole alphabet
fn c01_long(c: &mut Case) -> CaseResult {
    let o = Opts::layout();
    let src = &mut c.src;
    let huge = src.chance(1, 250);
    let n = if huge {
        src.usize(999, 1030)
    } else if src.chance(1, 4) {
        src.usize(97, 140)
    } else {
        src.usize(9, 60)
    };
    // (generated texts cite articles from 900 on, which must not look like the next one)
    let text = |src: &mut Src, role: Role| if !huge && src.chance(1, 12) { gen_text(src, &o, role) } else { src.pick(&["az ügy,", "a hatóság és", "szöveg."]).to_string() };
    let el = |id: String, body: Body| El { id, body, sem: Default::default(), change: None };
    let list = |kind: Kind, els: Vec<El>| Body::Ch { intro: "Az eljárás:".into(), ch: Ch::Els(kind, els), wrap: None };
    // (without inserted identifiers up to there, so that a thousand is reached)
    let straight = huge && src.chance(3, 4);
    let ids = |src: &mut Src| -> Vec<Num> {
        if !straight {
            return gen_num_ids(src, Num::plain(1), n);
        }
        let mut v: Vec<Num> = (1..990).map(Num::plain).collect();
        v.extend(gen_num_ids(src, Num::plain(990), 40));
        v
    };
    let nums = |src: &mut Src| -> Vec<El> {
        ids(src).into_iter().map(|i| el(i.compact(), Body::Text(text(src, Role::Point)))).collect()
    };
    let para = |body: Body| vec![el(String::new(), body)];
    let first = Art { book: None, id: Num::plain(1) };
    let what = src.below(6);
    let children = match what {
        0 => {
            let book = if src.bool() { Some(1) } else { None };
            let arts: Vec<Art> = if straight {
                ids(src).into_iter().map(|id| Art { book, id }).collect()
            } else {
                let mut art = Art { book, id: Num::plain(1) };
                (0..n)
                    .map(|_| {
                        let a = art;
                        art = next_art(src, art);
                        a
                    })
                    .collect()
            };
            arts.into_iter()
                .map(|id| {
                    let t = format!("Az {}", text(src, Role::Point));
                    MChild::Art(MArt { id, title: None, paras: para(Body::Text(t)), change: None })
                })
                .collect()
        }
        1 => {
            let paras = ids(src)
                .into_iter()
                .map(|i| {
                    let t = format!("Az {}", text(src, Role::Point));
                    el(i.compact(), Body::Text(t))
                })
                .collect();
            vec![MChild::Art(MArt { id: first, title: None, paras, change: None })]
        }
        k => {
            let body = match k {
                2 => list(Kind::Num, nums(src)),
                3 => {
                    let ids = gen_alpha_ids(src, 0, 40, true);
                    list(Kind::Alpha, ids.into_iter().map(|i| el(ALPHABET[i].to_string(), Body::Text(text(src, Role::Point)))).collect())
                }
                4 => {
                    let subs = nums(src);
                    let b = Body::Text(text(src, Role::Point));
                    list(Kind::Alpha, vec![el("a".into(), list(Kind::NumSub, subs)), el("b".into(), b)])
                }
                _ => {
                    let subs = gen_alpha_ids(src, 0, 40, false);
                    let subs = subs.into_iter().map(|i| el(ALPHABET[i].to_string(), Body::Text(text(src, Role::Point)))).collect();
                    let b = Body::Text(text(src, Role::Point));
                    list(Kind::Num, vec![el("1".into(), list(Kind::AlphaSub, subs)), el("2".into(), b)])
                }
            };
            vec![MChild::Art(MArt { id: first, title: None, paras: para(body), change: None })]
        }
    };
    let m = MAct {
        year: 2000,
        number: 1,
        subject: "Tárgy".into(),
        preamble: String::new(),
        date: chrono::NaiveDate::from_ymd_opt(2000, 1, 2).unwrap(),
        children,
    };
    let lines = {
        let mut l = Lay::new(&mut c.src, false);
        l.act(&m);
        l.out
    };
    features(c, &m, &lines);
    c.nontrivial = true;
    c.label(["articles", "paragraphs", "points", "lettered points", "numbered subpoints", "lettered subpoints"][what as usize]);
    c.label_if(n > 99 && what != 3 && what != 5, "three digits");
    roundtrip(c, &m, &lines)
}

// ---------------- reading an act as a text ----------------

pub fn loose(s: &str) -> String {
    s.chars()
        .filter(|c| !c.is_whitespace() && !"„“”()[]/".contains(*c))
        .flat_map(|c| c.to_lowercase())
        .collect()
}

pub fn parse_num(s: &str) -> Num {
    let s = s.to_lowercase().replace('/', "");
    let cut = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    Num {
        num: s[..cut].parse().unwrap_or(0),
        suffix: ALPHABET.iter().position(|a| *a == &s[cut..]),
    }
}

fn nid(n: &NumericIdentifier) -> Num {
    parse_num(&n.to_string())
}

macro_rules! linear_sae {
    ($fn:ident, $T:ty, $open:expr, $close:expr, $children:expr) => {
        pub fn $fn(e: &$T) -> String {
            let id = e.identifier.to_string();
            let mut s = if id.is_empty() { String::new() } else { format!("{}{}{}", $open, id, $close) };
            match &e.body {
                SAEBody::Text(t) => s.push_str(t),
                SAEBody::Children { intro, children, wrap_up } => {
                    s.push_str(intro);
                    #[allow(clippy::redundant_closure_call)]
                    s.push_str(&($children)(children));
                    s.push_str(wrap_up.as_deref().unwrap_or(""));
                }
            }
            s
        }
    };
}
linear_sae!(linear_num_sub, NumericSubpoint, "", ". ", |c: &NumericSubpointChildren| -> String { match *c {} });
linear_sae!(linear_alpha_sub, AlphabeticSubpoint, "", ") ", |c: &AlphabeticSubpointChildren| -> String { match *c {} });
linear_sae!(linear_num, NumericPoint, "", ". ", |c: &NumericPointChildren| match c {
    NumericPointChildren::AlphabeticSubpoint(v) => v.iter().map(linear_alpha_sub).collect::<String>(),
});
linear_sae!(linear_alpha, AlphabeticPoint, "", ") ", |c: &AlphabeticPointChildren| match c {
    AlphabeticPointChildren::AlphabeticSubpoint(v) => v.iter().map(linear_alpha_sub).collect::<String>(),
    AlphabeticPointChildren::NumericSubpoint(v) => v.iter().map(linear_num_sub).collect::<String>(),
});
linear_sae!(linear_para, Paragraph, "(", ") ", |c: &ParagraphChildren| match c {
    ParagraphChildren::AlphabeticPoint(v) => v.iter().map(linear_alpha).collect::<String>(),
    ParagraphChildren::NumericPoint(v) => v.iter().map(linear_num).collect::<String>(),
    ParagraphChildren::QuotedBlock(v) => v
        .iter()
        .map(|q| format!(
            "{}{}{}",
            q.intro.as_deref().unwrap_or(""),
            q.lines.iter().map(|l| l.content()).collect::<String>(),
            q.wrap_up.as_deref().unwrap_or("")
        ))
        .collect::<String>(),
    ParagraphChildren::BlockAmendment(b) => format!(
        "{}{}{}",
        b.intro.as_deref().unwrap_or(""),
        linear_el_ba(&b.children),
        b.wrap_up.as_deref().unwrap_or("")
    ),
    ParagraphChildren::StructuralBlockAmendment(b) => format!(
        "{}{}{}",
        b.intro.as_deref().unwrap_or(""),
        b.children.iter().map(linear_child).collect::<String>(),
        b.wrap_up.as_deref().unwrap_or("")
    ),
});

pub fn linear_el_ba(b: &BlockAmendmentChildren) -> String {
    match b {
        BlockAmendmentChildren::Paragraph(v) => v.iter().map(linear_para).collect(),
        BlockAmendmentChildren::AlphabeticPoint(v) => v.iter().map(linear_alpha).collect(),
        BlockAmendmentChildren::NumericPoint(v) => v.iter().map(linear_num).collect(),
        BlockAmendmentChildren::AlphabeticSubpoint(v) => v.iter().map(linear_alpha_sub).collect(),
        BlockAmendmentChildren::NumericSubpoint(v) => v.iter().map(linear_num_sub).collect(),
    }
}

pub fn se_name(e: &StructuralElement) -> String {
    let n = nid(&e.identifier);
    let ord = || hungarian_ordinal(n.num).unwrap_or_default().to_uppercase();
    let rom = || {
        format!(
            "{}{}",
            roman(n.num as u32).unwrap_or_default(),
            n.suffix.map(|s| format!("/{}", ALPHABET[s].to_uppercase())).unwrap_or_default()
        )
    };
    match e.element_type {
        StructuralElementType::Book => format!("{} KÖNYV", ord()),
        StructuralElementType::Part { is_special: true } => {
            format!("{} RÉSZ", ["?", "ÁLTALÁNOS", "KÜLÖNÖS", "ZÁRÓ"].get(n.num as usize).unwrap_or(&"?"))
        }
        StructuralElementType::Part { is_special: false } => format!("{} RÉSZ", ord()),
        StructuralElementType::Title => format!("{}. CÍM", rom()),
        StructuralElementType::Chapter => format!("{}. FEJEZET", rom()),
    }
}

pub fn linear_child(c: &ActChild) -> String {
    match c {
        ActChild::StructuralElement(e) => format!("{}{}", se_name(e), e.title),
        ActChild::Subtitle(s) => match s.identifier {
            Some(i) => format!("{}. {}", i, s.title),
            None => s.title.clone(),
        },
        ActChild::Article(a) => format!(
            "{}. §{}{}",
            a.identifier,
            a.title.as_deref().unwrap_or(""),
            a.children.iter().map(linear_para).collect::<String>()
        ),
    }
}

pub fn linear_act(a: &Act) -> String {
    format!("{}{}", a.preamble, a.children.iter().map(linear_child).collect::<String>())
}

pub fn linear_lines(l: &[MLine]) -> String {
    l.iter().map(|l| l.text()).collect()
}

fn conserved(c: &mut Case, m: &MAct, lines: &[MLine]) -> CaseResult {
    match parse(c, m, lines)? {
        Err(_) => {
            c.label("rejected");
            Ok(())
        }
        Ok(a) => {
            c.label("accepted");
            c.nontrivial_if(lines.len() >= 3);
            let (got, want) = (loose(&linear_act(&a)), loose(&linear_lines(lines)));
            if got != want {
                let at = got.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| s.chars().skip(at.saturating_sub(10)).take(60).collect::<String>();
                return fail(
                    "text not conserved",
                    format!("from character {at}\n  got:      …{}\n  expected: …{}\n{}\n{a:?}", cut(&got), cut(&want), show_lines(lines)),
                );
            }
            check_eq!(a.identifier, ActIdentifier { year: m.year, number: m.number }, "act identifier", "");
            check_eq!(a.subject, m.subject, "subject", "");
            check_eq!(a.publication_date, m.date, "publication date", "");
            Ok(())
        }
    }
}

fn no_act() -> MAct {
    MAct {
        year: 2000,
        number: 1,
        subject: "Tárgy".into(),
        preamble: String::new(),
        date: chrono::NaiveDate::from_ymd_opt(2000, 1, 2).unwrap(),
        children: vec![],
    }
}

fn laid_out(c: &mut Case) -> (MAct, Vec<MLine>) {
    let amend = c.src.chance(1, 3);
    let mut o = Opts::layout();
    o.amend = amend;
    let m = gen_act(&mut c.src, &o);
    let mut l = Lay::new(&mut c.src, false);
    l.act(&m);
    (m, l.out)
}

fn c02_clean(c: &mut Case) -> CaseResult {
    let (m, lines) = laid_out(c);
    conserved(c, &m, &lines)
}

/// `chars`: also damage inside lines freely
pub fn damage(src: &mut Src, lines: &mut Vec<MLine>, chars: bool) {
    let n = 1 + src.small(0, 4);
    for _ in 0..n {
        if lines.is_empty() {
            return;
        }
        let i = src.below(lines.len() as u64) as usize;
        let j = src.below(lines.len() as u64) as usize;
        match src.below(14) {
            0 => {
                lines.remove(i);
            }
            1 => {
                let l = lines[i].clone();
                lines.insert(i + 1, l);
            }
            2 => lines.swap(i, j),
            3 => {
                if i + 1 < lines.len() {
                    lines.swap(i, i + 1);
                }
            }
            4 => {
                let dx = src.range(-12, 12) as f64 * 0.75;
                lines[i].chars.iter_mut().for_each(|c| c.0 += dx);
            }
            5 => {
                let b = src.bool();
                lines[i].chars.iter_mut().for_each(|c| c.2 = b);
            }
            6 => lines[i].justified = !lines[i].justified,
            7 => {
                let w = wild_lines(src, 1, false);
                lines.splice(i..i, w);
            }
            8 => lines.insert(i, MLine::default()),
            9 | 10 => {
                // Quotation marks and brackets appear or disappear
                let k = src.usize(0, lines[i].chars.len());
                let ch = *src.pick(&['„', '”', '“', '(', ')', '[', ']', ':', '-']);
                let x = lines[i].chars.get(k.saturating_sub(1)).map_or(10.0, |c| c.0 + 1.0);
                if src.bool() {
                    lines[i].chars.insert(k, (x, ch, false));
                } else {
                    let pos: Vec<usize> =
                        (0..lines[i].chars.len()).filter(|k| "„”“()[]:-".contains(lines[i].chars[*k].1)).collect();
                    if !pos.is_empty() {
                        let p = *src.pick(&pos);
                        lines[i].chars.remove(p);
                    }
                }
            }
            11 => {
                // Move a block
                let k = (i + src.usize(1, 5)).min(lines.len());
                let block: Vec<MLine> = lines.drain(i..k).collect();
                let at = src.usize(0, lines.len());
                lines.splice(at..at, block);
            }
            12 => {
                // Cut a line in two at a space
                let sp: Vec<usize> = (0..lines[i].chars.len()).filter(|k| lines[i].chars[*k].1 == ' ').collect();
                if !sp.is_empty() {
                    let p = *src.pick(&sp);
                    let rest = lines[i].chars.split_off(p + 1);
                    lines[i].chars.pop();
                    let just = lines[i].justified;
                    lines.insert(i + 1, MLine { chars: rest, justified: just });
                }
            }
            _ => {
                if chars && !lines[i].chars.is_empty() {
                    let k = src.below(lines[i].chars.len() as u64) as usize;
                    if src.bool() {
                        lines[i].chars.remove(k);
                    } else {
                        let ch = *src.pick(&['a', 'A', '1', '.', '§', ' ', ')', '(', '„', '”', ':', '-', 'É']);
                        let x = lines[i].chars[k].0;
                        lines[i].chars.insert(k, (x, ch, false));
                    }
                }
            }
        }
    }
}

fn c02_damaged(c: &mut Case) -> CaseResult {
    let (m, mut lines) = laid_out(c);
    damage(&mut c.src, &mut lines, false);
    conserved(c, &m, &lines)
}

/// Lines that look like headers and texts, in an order that is often but not always sensible
pub fn wild_lines(src: &mut Src, n: usize, start_inside: bool) -> Vec<MLine> {
    let mut art = 1u16;
    let mut par = 1u16;
    let mut num = 1u16;
    let mut al = 0usize;
    let mut sub = 0usize;
    let mut level = 0i32;
    let mut out = Vec::new();
    for i in 0..n {
        if src.chance(1, 10) {
            out.push(MLine::default());
            continue;
        }
        let mut s = String::new();
        let mut bold = src.chance(1, 8);
        let mut kind = src.weighted(&[4, 4, 4, 4, 3, 2, 1, 1]);
        if i == 0 && !start_inside && src.chance(3, 4) {
            kind = 0;
        }
        match kind {
            0 => {
                s.push_str(&format!("{art}. § "));
                if src.chance(3, 4) {
                    art += 1;
                    par = 1;
                    num = 1;
                    al = 0;
                }
                if src.chance(1, 6) {
                    s.push('[');
                }
                if src.chance(1, 2) {
                    s.push_str(&format!("({par}) "));
                    par += 1;
                }
            }
            1 => {
                s.push_str(&format!("({par}) "));
                if src.chance(3, 4) {
                    par += 1;
                    num = 1;
                    al = 0;
                }
            }
            2 => {
                s.push_str(&format!("{num}. "));
                if src.chance(3, 4) {
                    num += 1;
                    sub = 0;
                }
            }
            3 => {
                s.push_str(&format!("{}) ", ALPHABET[al.min(33)]));
                if src.chance(3, 4) {
                    al += 1;
                    sub = 0;
                    if src.bool() {
                        num = 1;
                    }
                }
            }
            4 => {
                let p = al.saturating_sub(1).min(33);
                s.push_str(&format!("{}{}) ", ALPHABET[p], ALPHABET[latin(sub.min(25))]));
                if src.chance(3, 4) {
                    sub += 1;
                }
            }
            5 => {}
            6 => {
                let n = src.range(1, 12) as u16;
                s = match src.below(4) {
                    0 => format!("{}. FEJEZET", roman(n as u32).unwrap()),
                    1 => format!("{} RÉSZ", hungarian_ordinal(n).unwrap().to_uppercase()),
                    2 => "ZÁRÓ RÉSZ".into(),
                    _ => format!("{}. CÍM", roman(n as u32).unwrap()),
                };
                bold = src.bool();
            }
            _ => {
                s.push_str(*src.pick(&["", "3. ", "4/A. "]));
                bold = true;
            }
        }
        if kind != 6 || src.chance(1, 8) {
            let words = src.small(0, 4);
            let mut t: Vec<String> = Vec::new();
            for _ in 0..words {
                t.push(
                    src.pick(&["szöveg", "Szöveg", "a", "pont", "bekezdés", "közép-", "és", "vagy", "x:", "(y)", "[z]", "„q”", "törvény.", "§"])
                        .to_string(),
                );
            }
            s.push_str(&t.join(" "));
        }
        // Quotation marks, mostly balanced
        if src.chance(1, 8) {
            s.insert(0, *src.pick(&['„', '“']));
            level += 1;
        }
        if src.chance(1, 24) {
            s.push('„');
            level += 1;
        }
        if level > 0 && (src.chance(1, 2) || i + 1 == n) {
            for _ in 0..(if i + 1 == n { level } else { 1 }) {
                s.push('”');
                level -= 1;
            }
        }
        if src.chance(1, 10) {
            s.insert(0, *src.pick(&['(', '[']));
        }
        if src.chance(1, 8) {
            s.push_str(*src.pick(&[":", ")", "]", "-", ".", ";"]));
        }
        let s = s.trim().to_string();
        let x = match src.below(4) {
            0 => 0.0,
            1 => 10.0,
            2 => src.range(0, 30) as f64,
            _ => src.range(0, 120) as f64 * 0.5,
        };
        // A header needs its separating space even if nothing follows
        let s = if src.chance(1, 16) { format!("{s} ") } else { s };
        let j = src.bool();
        out.push(mline(x, &s, |_| bold, j));
    }
    out
}

fn c02_wild(c: &mut Case) -> CaseResult {
    let n = 1 + c.src.small(0, 3) + c.src.usize(0, 14);
    let lines = wild_lines(&mut c.src, n, false);
    conserved(c, &no_act(), &lines)
}

// ---------------- numbering ----------------

fn consecutive<T: std::fmt::Debug>(ids: &[T], first: impl Fn(&T) -> bool, follows: impl Fn(&T, &T) -> bool, what: &str) -> CaseResult {
    check!(!ids.is_empty(), format!("{what}: no elements"), "");
    check!(first(&ids[0]), format!("{what}: does not start with the first"), "{ids:?}");
    for w in ids.windows(2) {
        check!(follows(&w[1], &w[0]), format!("{what}: not consecutive"), "{ids:?}");
    }
    Ok(())
}

fn nums(ids: Vec<String>, what: &str) -> CaseResult {
    let v: Vec<Num> = ids.iter().map(|s| parse_num(s)).collect();
    consecutive(&v, |f| *f == Num::plain(1), |b, a| b.follows(*a), what)
}
fn letters(ids: Vec<String>, what: &str) -> CaseResult {
    let v: Vec<usize> = ids.iter().map(|s| ALPHABET.iter().position(|a| a == s).unwrap_or(99)).collect();
    check!(v.iter().all(|l| *l < 34), format!("{what}: not a letter"), "{ids:?}");
    consecutive(&v, |f| *f == 0, |b, a| letter_follows(*b, *a), what)
}
fn pref(ids: Vec<String>, prefix: &str, what: &str) -> CaseResult {
    let mut v = Vec::new();
    for i in &ids {
        match i.strip_prefix(prefix) {
            Some(r) => v.push(r.to_string()),
            None => return fail(format!("{what}: wrong prefix"), format!("{ids:?} under {prefix}")),
        }
    }
    letters(v, what)
}
fn ids<I: IdentifierCommon + ToString, C: ChildrenCommon>(v: &[SubArticleElement<I, C>]) -> Vec<String> {
    v.iter().map(|e| e.identifier.to_string()).collect()
}

pub fn check_paragraph_numbering(p: &Paragraph) -> CaseResult {
    let SAEBody::Children { children, .. } = &p.body else { return Ok(()) };
    match children {
        ParagraphChildren::NumericPoint(v) => {
            check!(v.len() >= 2, "single numeric point", "{v:?}");
            nums(ids(v), "numeric points")?;
            for e in v {
                if let SAEBody::Children { children: NumericPointChildren::AlphabeticSubpoint(s), .. } = &e.body {
                    check!(s.len() >= 2, "single subpoint", "{v:?}");
                    pref(ids(s), "", "subpoints of a numeric point")?;
                }
            }
        }
        ParagraphChildren::AlphabeticPoint(v) => {
            check!(v.len() >= 2, "single alphabetic point", "{v:?}");
            letters(ids(v), "alphabetic points")?;
            for e in v {
                match &e.body {
                    SAEBody::Children { children: AlphabeticPointChildren::AlphabeticSubpoint(s), .. } => {
                        check!(s.len() >= 2, "single subpoint", "{v:?}");
                        pref(ids(s), &e.identifier.to_string(), "subpoints of an alphabetic point")?;
                    }
                    SAEBody::Children { children: AlphabeticPointChildren::NumericSubpoint(s), .. } => {
                        check!(s.len() >= 2, "single subpoint", "{v:?}");
                        nums(ids(s), "numeric subpoints")?;
                    }
                    _ => (),
                }
            }
        }
        ParagraphChildren::QuotedBlock(q) => check!(!q.is_empty(), "no quoted block", "{p:?}"),
        other => return fail("amendment out of the structure parser", format!("{other:?}")),
    }
    Ok(())
}

pub fn check_numbering(act: &Act) -> CaseResult {
    let mut prev: Option<Art> = None;
    for a in act.articles() {
        let s = a.identifier.to_string();
        let id = match s.split_once(':') {
            Some((b, r)) => Art { book: Some(b.parse().unwrap()), id: parse_num(r) },
            None => Art { book: None, id: parse_num(&s) },
        };
        match prev {
            None => check!(
                id.id == Num::plain(1) && id.book.map_or(true, |b| b == 1),
                "articles: first",
                "the first article is {s}"
            ),
            Some(p) => check!(id.follows(p), "articles: not consecutive", "{} follows {}", s, p.display()),
        }
        prev = Some(id);
        let pids = ids(&a.children);
        if a.children.len() == 1 {
            check_eq!(pids[0], "", "single paragraph with a number", "article {s}");
        } else {
            nums(pids, "paragraphs")?;
        }
        for p in &a.children {
            check_paragraph_numbering(p)?;
        }
    }
    Ok(())
}

fn numbered(c: &mut Case, lines: &[MLine]) -> CaseResult {
    match parse(c, &no_act(), lines)? {
        Err(_) => {
            c.label("rejected");
            c.nontrivial_if(lines.len() >= 2);
            Ok(())
        }
        Ok(a) => {
            c.label("accepted");
            c.nontrivial_if(lines.len() >= 2);
            if let Err(mut f) = check_numbering(&a) {
                f.msg = format!("{}\n{}\n{a:?}", f.msg, show_lines(lines));
                return Err(f);
            }
            // The act can be printed
            no_panic("header strings", || {
                for ch in &a.children {
                    if let ActChild::StructuralElement(e) = ch {
                        let _ = e.header_string();
                    }
                }
            })?;
            Ok(())
        }
    }
}

fn c03_damaged(c: &mut Case) -> CaseResult {
    let (_, mut lines) = laid_out(c);
    damage(&mut c.src, &mut lines, true);
    numbered(c, &lines)
}
fn c03_wild(c: &mut Case) -> CaseResult {
    let n = 1 + c.src.small(0, 3) + c.src.usize(0, 14);
    let mut lines = wild_lines(&mut c.src, n, false);
    if c.src.bool() {
        damage(&mut c.src, &mut lines, true);
    }
    numbered(c, &lines)
}
fn c03_characters(c: &mut Case) -> CaseResult {
    let n = c.src.usize(0, 10);
    let first = c.src.chance(3, 4);
    let lines: Vec<MLine> = (0..n)
        .map(|i| {
            let src = &mut c.src;
            let mut s = String::new();
            if first && i == 0 {
                s.push_str("1. § ");
            }
            let k = src.usize(0, 10);
            for _ in 0..k {
                s.push_str(*src.pick(&[
                    "1", "2", "9", "0", ". ", "§ ", " §", "(", ")", "[", "]", "„", "”", "“", "a", "b", "c", "cs", "á", "Á", "/", "A", ":", "-",
                    " ", "I", "V", ". FEJEZET", " RÉSZ", " KÖNYV", ". CÍM", "ELSŐ", "𝄞", "\u{a0}", "\u{301}", "*", "99999999999", "és ", "bekezdés",
                    "pont", "\t", "ſ", "K",
                ]));
            }
            let bold = src.chance(1, 5);
            let x = *src.pick(&[0.0, 5.0, -5.0, 0.5, 1000.0, 5.9, 6.1, 1e300]);
            mline(x, &s, |_| bold, src.bool())
        })
        .collect();
    numbered(c, &lines)
}
