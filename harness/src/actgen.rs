//! Generated acts: an own tree model, its conversion to the library's types, and its typesetting into lines.
use chrono::NaiveDate;
use hun_law::{
    identifier::{ActIdentifier, NumericIdentifier, ParagraphIdentifier},
    reference::{structural::StructuralReference, Reference},
    semantic_info::{SemanticInfo, SpecialPhrase},
    structure::*,
    util::indentedline::IndentedLine,
};

use crate::{
    engine::Src,
    model::{hungarian_ordinal, is_digraph, latin, next_letter, roman, Art, Num, Pref, ALPHABET},
    props::lines::MLine,
};

/// A forced line break inside a text; reads as a space
pub const BREAK: char = '\u{1}';
pub fn plain(s: &str) -> String {
    s.replace(BREAK, " ")
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Para,
    Num,
    Alpha,
    NumSub,
    AlphaSub,
}

#[derive(Debug, Clone)]
pub struct El {
    /// "", "1", "2a", "cs", "ba"
    pub id: String,
    pub body: Body,
    pub sem: SemanticInfo,
    pub change: Option<LastChange>,
}

#[derive(Debug, Clone)]
pub enum Body {
    Text(String),
    Ch {
        intro: String,
        ch: Ch,
        wrap: Option<String>,
    },
}

#[derive(Debug, Clone)]
pub enum Ch {
    Els(Kind, Vec<El>),
    Quoted(Vec<MQuote>),
    Ba {
        intro: Option<String>,
        kind: Kind,
        els: Vec<El>,
        wrap: Option<String>,
        position: Reference,
        /// laid out with the article header in front
        article_header: Option<String>,
    },
    Sba {
        intro: Option<String>,
        children: Vec<MChild>,
        wrap: Option<String>,
        position: StructuralReference,
        /// title only amendments: laid out without the header line
        headless: bool,
    },
}

#[derive(Debug, Clone)]
pub struct MQuote {
    pub intro: Option<String>,
    pub lines: Vec<MLine>,
    pub wrap: Option<String>,
}

#[derive(Debug, Clone)]
pub struct MArt {
    pub id: Art,
    pub title: Option<String>,
    pub paras: Vec<El>,
    pub change: Option<LastChange>,
}

#[derive(Debug, Clone)]
pub enum MChild {
    Se {
        ty: StructuralElementType,
        num: Num,
        title: String,
        change: Option<LastChange>,
    },
    Sub {
        num: Option<Num>,
        title: String,
        change: Option<LastChange>,
    },
    Art(MArt),
}

#[derive(Debug, Clone)]
pub struct MAct {
    pub year: i16,
    pub number: i32,
    pub subject: String,
    pub preamble: String,
    pub date: NaiveDate,
    pub children: Vec<MChild>,
}

// ---------------- conversion to the library types ----------------

fn num_id(s: &str) -> NumericIdentifier {
    s.parse().unwrap()
}

macro_rules! to_sae {
    ($fn:ident, $T:ty, $id:expr, $children:expr) => {
        #[allow(unreachable_code, unused_variables)]
        pub fn $fn(e: &El) -> $T {
            #[allow(clippy::redundant_closure_call)]
            SubArticleElement {
                identifier: ($id)(&e.id),
                body: match &e.body {
                    Body::Text(t) => SAEBody::Text(plain(t)),
                    Body::Ch { intro, ch, wrap } => SAEBody::Children {
                        intro: plain(intro),
                        children: ($children)(ch),
                        wrap_up: wrap.as_deref().map(plain),
                    },
                },
                semantic_info: e.sem.clone(),
                last_change: e.change.clone(),
            }
        }
    };
}
fn each<T>(els: &[El], f: fn(&El) -> T) -> Vec<T> {
    els.iter().map(f).collect()
}
to_sae!(to_num_sub, NumericSubpoint, num_id, |_: &Ch| -> NumericSubpointChildren { unreachable!() });
to_sae!(to_alpha_sub, AlphabeticSubpoint, |s: &str| s.parse().unwrap(), |_: &Ch| -> AlphabeticSubpointChildren {
    unreachable!()
});
to_sae!(to_num, NumericPoint, num_id, |c: &Ch| match c {
    Ch::Els(Kind::AlphaSub, e) => NumericPointChildren::AlphabeticSubpoint(each(e, to_alpha_sub)),
    _ => unreachable!(),
});
to_sae!(to_alpha, AlphabeticPoint, |s: &str| s.parse().unwrap(), |c: &Ch| match c {
    Ch::Els(Kind::AlphaSub, e) => AlphabeticPointChildren::AlphabeticSubpoint(each(e, to_alpha_sub)),
    Ch::Els(Kind::NumSub, e) => AlphabeticPointChildren::NumericSubpoint(each(e, to_num_sub)),
    _ => unreachable!(),
});
to_sae!(
    to_para,
    Paragraph,
    |s: &str| if s.is_empty() {
        ParagraphIdentifier::default()
    } else {
        num_id(s).into()
    },
    |c: &Ch| match c {
        Ch::Els(Kind::Num, e) => ParagraphChildren::NumericPoint(each(e, to_num)),
        Ch::Els(Kind::Alpha, e) => ParagraphChildren::AlphabeticPoint(each(e, to_alpha)),
        Ch::Els(..) => unreachable!(),
        Ch::Quoted(qs) => ParagraphChildren::QuotedBlock(qs.iter().map(to_quote).collect()),
        Ch::Ba { intro, kind, els, wrap, .. } => ParagraphChildren::BlockAmendment(BlockAmendment {
            intro: intro.as_deref().map(plain),
            children: match kind {
                Kind::Para => BlockAmendmentChildren::Paragraph(each(els, to_para)),
                Kind::Num => BlockAmendmentChildren::NumericPoint(each(els, to_num)),
                Kind::Alpha => BlockAmendmentChildren::AlphabeticPoint(each(els, to_alpha)),
                Kind::NumSub => BlockAmendmentChildren::NumericSubpoint(each(els, to_num_sub)),
                Kind::AlphaSub => BlockAmendmentChildren::AlphabeticSubpoint(each(els, to_alpha_sub)),
            },
            wrap_up: wrap.as_deref().map(plain),
        }),
        Ch::Sba { intro, children, wrap, .. } => {
            ParagraphChildren::StructuralBlockAmendment(StructuralBlockAmendment {
                intro: intro.as_deref().map(plain),
                children: children.iter().map(to_child).collect(),
                wrap_up: wrap.as_deref().map(plain),
            })
        }
    }
);

pub fn to_quote(q: &MQuote) -> QuotedBlock {
    QuotedBlock {
        intro: q.intro.as_deref().map(plain),
        lines: q.lines.iter().map(|l| l.build()).collect(),
        wrap_up: q.wrap.as_deref().map(plain),
    }
}

pub fn to_article(a: &MArt) -> Article {
    Article {
        identifier: a.id.id(),
        title: a.title.as_deref().map(plain),
        children: each(&a.paras, to_para),
        last_change: a.change.clone(),
    }
}

pub fn to_child(c: &MChild) -> ActChild {
    match c {
        MChild::Se { ty, num, title, change } => ActChild::StructuralElement(StructuralElement {
            identifier: num.id(),
            title: plain(title),
            element_type: *ty,
            last_change: change.clone(),
        }),
        MChild::Sub { num, title, change } => ActChild::Subtitle(Subtitle {
            identifier: num.map(|n| n.id()),
            title: plain(title),
            last_change: change.clone(),
        }),
        MChild::Art(a) => ActChild::Article(to_article(a)),
    }
}

pub fn to_act(a: &MAct) -> Act {
    Act {
        identifier: ActIdentifier {
            year: a.year,
            number: a.number,
        },
        subject: a.subject.clone(),
        preamble: plain(&a.preamble),
        publication_date: a.date,
        contained_abbreviations: Default::default(),
        children: a.children.iter().map(to_child).collect(),
    }
}

// ---------------- generation ----------------

const WORDS: &[&str] = &[
    "törvény", "a", "az", "személy", "hatóság", "szerint", "eljárás", "jog", "kötelezett", "év", "ügy", "állam",
    "és", "vagy", "nem", "kell", "lehet", "határidő", "üzlet", "szűk", "őr", "irat", "felügyelet", "közlöny",
    "igazgatás", "illetve", "ha", "valamint", "díj", "adó",
];
const CAPS: &[&str] = &[
    "A", "Az", "Ha", "Törvény", "Eljárás", "Állam", "Őrzés", "Ügyész", "E", "Ezt", "Írásban", "Magyarország",
];
const COMPOUND: &[&str] = &["magyar-angol", "adó-visszatérítés", "jogszabály-előkészítés", "2012-es", "§-a", "ÁFA-törvény"];
const HYPHEN_AND: &[&str] = &["közép- és felsőfokú", "víz- vagy gázmű", "kis- és középvállalkozás"];

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Role {
    /// Text of paragraphs: never starts with a quotation mark
    Para,
    Point,
    Title,
    Simple,
}

#[derive(Debug, Clone)]
pub struct Opts {
    /// Texts are only made of what the official layout can carry without ambiguity
    pub layout: bool,
    /// Quoted blocks may be amendments (with the semantic information that says so)
    pub amend: bool,
    /// Quoted blocks are allowed at all
    pub quotes: bool,
    /// Layout within quotes: indentation carries no information
    pub ba: bool,
    /// Random semantic information and last changes everywhere
    pub sem: bool,
    pub nested_amend: bool,
}

impl Opts {
    pub fn layout() -> Self {
        Opts {
            layout: true,
            amend: false,
            quotes: true,
            ba: false,
            sem: false,
            nested_amend: false,
        }
    }
    pub fn inner(&self) -> Self {
        Opts {
            ba: true,
            amend: self.nested_amend,
            nested_amend: false,
            ..self.clone()
        }
    }
}

pub fn gen_text(src: &mut Src, o: &Opts, role: Role) -> String {
    if !o.layout && src.chance(1, 6) {
        return gen_wild_text(src);
    }
    let n = match src.weighted(&[4, 4, 1]) {
        0 => src.usize(1, 4),
        1 => src.usize(1, 12),
        _ => {
            let hi = if src.chance(1, 12) { 160 } else { 40 };
            src.usize(1, hi)
        }
    };
    let mut out = String::new();
    for i in 0..n {
        // Titles are not longer than this
        if role == Role::Title && out.len() > 1300 {
            break;
        }
        if i > 0 {
            out.push(' ');
        }
        if i == 0 && role != Role::Point {
            out.push_str(*src.pick(CAPS));
            continue;
        }
        if role == Role::Simple {
            out.push_str(*src.pick(WORDS));
            continue;
        }
        match src.weighted(&[24, 2, 1, 2, 2, 1, 1]) {
            0 => out.push_str(*src.pick(WORDS)),
            1 => out.push_str(*src.pick(COMPOUND)),
            2 => out.push_str(*src.pick(HYPHEN_AND)),
            3 => {
                if i == 0 {
                    out.push_str("az ");
                }
                let r = gen_inline_ref(src);
                out.push_str(&r)
            }
            4 => {
                if i == 0 {
                    out.push_str("az ");
                }
                out.push_str(*src.pick(&["(zárójelben)", "100", "(Ket.)", "1,5%", "–", "Kft.", "t.,"]))
            }
            5 => {
                if role == Role::Title {
                    out.push_str("„szó”");
                } else {
                    if i == 0 && role != Role::Point {
                        out.push_str("az ");
                    }
                    let q = gen_inline_quote(src);
                    out.push_str(&q);
                }
            }
            _ => out.push_str(*src.pick(CAPS)),
        }
    }
    if role == Role::Para || role == Role::Point {
        out.push_str(*src.pick(&["", ".", ";", ",", " és", "; vagy"]));
    }
    // Would read as a citation instead of a header
    for bad in ["pont", "alpont", "bekezdés"] {
        if out.starts_with(bad) {
            out.insert_str(0, "e ");
        }
    }
    out
}

fn gen_inline_ref(src: &mut Src) -> String {
    let n = src.range(1, 12);
    let l = ALPHABET[src.below(34) as usize];
    match src.below(9) {
        0 => format!("({n}) bekezdése"),
        1 => format!("{l}) pontja"),
        2 => format!("a{}) alpontja", ALPHABET[latin(src.below(26) as usize)]),
        3 => format!("{n}. pontjában"),
        4 => format!("{n}. alpont"),
        5 => format!("{n}. §-a"),
        6 => format!("{}. évi V. törvény", 2000 + n),
        7 => format!("({}) szerint", 900 + n),
        _ => format!("{}. § szerint", 900 + n),
    }
}

/// A quotation within a text. It may contain lines that look exactly like headers.
fn gen_inline_quote(src: &mut Src) -> String {
    let w = *src.pick(WORDS);
    let n = src.range(1, 6);
    let l = ALPHABET[src.below(10) as usize];
    let m = latin(src.below(4) as usize);
    match src.weighted(&[4, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 => format!("„{w}”"),
        1 => format!("„{w}{BREAK}({n}) {w}” {w}"),
        2 => format!("„{w}{BREAK}{l}) {w}” {w}"),
        3 => format!("„{w}{BREAK}{n}. {w} {w}” {w}"),
        4 => format!("„{w}{BREAK}{n}. § {w} {w}” {w}"),
        5 => format!("„{w}{BREAK}{}. FEJEZET{BREAK}{w}” {w}", roman(n as u32).unwrap()),
        6 => format!("„{w}{BREAK}ÁLTALÁNOS RÉSZ{BREAK}{w}” {w}"),
        7 => format!("„{w}{BREAK}{}{}) {w}” {w}", ALPHABET[m], ALPHABET[latin(n as usize - 1)]),
        _ => format!("„{w} „{w}{BREAK}{l}) {w}”{BREAK}({n}) {w}” {w}"),
    }
}

pub fn gen_wild_text(src: &mut Src) -> String {
    match src.below(6) {
        0 => src
            .pick(&[
                "", "null", "~", "yes", "NO", "true", "1", "1.5", "0x1F", "2012-01-01", "- a", "a: b", "#c", "'", "\"",
                "{}", "[]", "&a", "*a", "!t", "|", ">", "%", "@", "`", " a", "a ", "  ", "a  b", "?", "key:", "1e3", ".inf",
                "---", "...", "12:30:45", "0o7", "<<", "=",
            ])
            .to_string(),
        1 => src.pick(&["a\nb", "\n", "a\tb", "\u{a0}x", "é\u{301}", "\u{2028}", "\\n", "a\r\nb", "\u{feff}a", "𝄞 zene", "\u{7f}", "\u{85}x"]).to_string(),
        _ => {
            let n = src.usize(1, 12);
            (0..n)
                .map(|_| {
                    *src.pick(&[
                        'a', 'é', 'ő', ' ', '-', '„', '”', '“', ':', '#', '\'', '"', '(', ')', '[', ']', '1', '.', '§',
                        '{', ',', '/', '_', '𝄞', '\n', '\\', '*', 'Z',
                    ])
                })
                .collect()
        }
    }
}

/// Numeric succession without digraph suffixes
pub fn next_num(src: &mut Src, n: Num) -> Num {
    match n.suffix {
        None if src.chance(1, 8) => Num { num: n.num, suffix: Some(0) },
        Some(s) if s < 30 && src.bool() => {
            let mut l = s + 1;
            if is_digraph(l) {
                l += 1;
            }
            if ALPHABET[l] == "q" && src.bool() {
                l += 1;
            }
            Num { num: n.num, suffix: Some(l) }
        }
        _ => Num::plain(n.num + 1),
    }
}

fn list_len(src: &mut Src, min: usize, o: &Opts) -> usize {
    if src.chance(1, 40) {
        let hi = if o.ba { 14 } else if src.chance(1, 4) { 40 } else { 22 };
        src.usize(10, hi)
    } else {
        min + src.small(0, 4)
    }
}

pub fn gen_num_ids(src: &mut Src, first: Num, n: usize) -> Vec<Num> {
    let mut v = vec![first];
    while v.len() < n {
        let nx = next_num(src, *v.last().unwrap());
        v.push(nx);
    }
    v
}

pub fn gen_alpha_ids(src: &mut Src, first: usize, n: usize, digraphs: bool) -> Vec<usize> {
    let mut v = vec![first];
    while v.len() < n {
        let l = *v.last().unwrap();
        if l >= 31 {
            break;
        }
        let mut nx = if digraphs {
            next_letter(l, src)
        } else if is_digraph(l + 1) {
            l + 2
        } else {
            l + 1
        };
        if ALPHABET[nx] == "q" && src.bool() {
            nx += 1;
        }
        v.push(nx);
    }
    v
}

fn gen_sem(src: &mut Src, o: &Opts) -> SemanticInfo {
    if o.sem && src.chance(1, 3) {
        crate::props::serial::gen_semantic_info(src)
    } else {
        SemanticInfo::default()
    }
}
pub fn gen_change(src: &mut Src, o: &Opts) -> Option<LastChange> {
    if o.sem && src.chance(1, 6) {
        Some(crate::props::serial::gen_last_change(src))
    } else {
        None
    }
}

pub fn gen_wrap(src: &mut Src, o: &Opts) -> Option<String> {
    if src.chance(1, 3) {
        let mut t = gen_text(src, o, Role::Point);
        if o.layout {
            t.insert_str(0, *src.pick(&["", "mindezt ", "Mindezt "]));
            if t.starts_with(['„', '(', '[']) {
                t.insert_str(0, "az ");
            }
        }
        Some(t)
    } else {
        None
    }
}

fn has_wrap(els: &[El]) -> bool {
    els.last().map_or(false, |e| matches!(&e.body, Body::Ch { wrap: Some(_), .. }))
}
fn nested(els: &[El]) -> bool {
    els.last().map_or(false, |e| matches!(&e.body, Body::Ch { .. }))
}

fn gen_intro(src: &mut Src, o: &Opts, role: Role) -> String {
    if src.chance(1, 12) {
        return String::new();
    }
    let mut t = gen_text(src, o, role);
    if src.chance(2, 3) {
        t.push(':');
    }
    t
}

fn point_text(src: &mut Src, o: &Opts) -> String {
    gen_text(src, o, Role::Point)
}

pub fn gen_alpha_sub(src: &mut Src, o: &Opts, id: Pref) -> El {
    El { id: id.display(), body: Body::Text(point_text(src, o)), sem: gen_sem(src, o), change: gen_change(src, o) }
}
pub fn gen_num_sub(src: &mut Src, o: &Opts, id: Num) -> El {
    El { id: id.compact(), body: Body::Text(point_text(src, o)), sem: gen_sem(src, o), change: gen_change(src, o) }
}
fn min_list(o: &Opts) -> usize {
    if o.layout {
        2
    } else {
        1
    }
}
pub fn gen_alpha_subs(src: &mut Src, o: &Opts, prefix: Option<usize>) -> Vec<El> {
    let n = list_len(src, min_list(o), o);
    gen_alpha_ids(src, 0, n, false)
        .into_iter()
        .map(|chr| gen_alpha_sub(src, o, Pref { prefix, chr }))
        .collect()
}

fn wrap_for(src: &mut Src, o: &Opts, els: &[El]) -> Option<String> {
    // In quotes only justification tells where the wrap-up starts: an inner list would take the wrap-up of the outer one
    if o.ba && o.layout && nested(els) && !has_wrap(els) {
        None
    } else {
        gen_wrap(src, o)
    }
}

pub fn gen_num_point(src: &mut Src, o: &Opts, id: Num) -> El {
    let body = if src.chance(1, 4) {
        let intro = gen_intro(src, o, Role::Point);
        let els = gen_alpha_subs(src, o, None);
        let wrap = wrap_for(src, o, &els);
        Body::Ch { intro, ch: Ch::Els(Kind::AlphaSub, els), wrap }
    } else {
        Body::Text(point_text(src, o))
    };
    El { id: id.compact(), body, sem: gen_sem(src, o), change: gen_change(src, o) }
}

pub fn gen_alpha_point(src: &mut Src, o: &Opts, id: usize) -> El {
    let body = if src.chance(1, 4) {
        let intro = gen_intro(src, o, Role::Point);
        let (kind, els) = if is_digraph(id) || src.bool() {
            let n = list_len(src, min_list(o), o);
            let ids = gen_num_ids(src, Num::plain(1), n);
            (Kind::NumSub, ids.into_iter().map(|i| gen_num_sub(src, o, i)).collect())
        } else {
            (Kind::AlphaSub, gen_alpha_subs(src, o, Some(id)))
        };
        let wrap = wrap_for(src, o, &els);
        Body::Ch { intro, ch: Ch::Els(kind, els), wrap }
    } else {
        Body::Text(point_text(src, o))
    };
    El { id: ALPHABET[id].to_string(), body, sem: gen_sem(src, o), change: gen_change(src, o) }
}

pub fn gen_para(src: &mut Src, o: &Opts, id: Option<Num>) -> El {
    let mut sem = gen_sem(src, o);
    let body = match src.weighted(&[6, 2, 2, if !o.quotes { 0 } else if o.amend { 8 } else { 2 }]) {
        0 => Body::Text(gen_text(src, o, Role::Para)),
        1 => {
            let intro = gen_intro(src, o, Role::Para);
            let n = list_len(src, min_list(o), o);
            let ids = gen_num_ids(src, Num::plain(1), n);
            let els: Vec<El> = ids.into_iter().map(|i| gen_num_point(src, o, i)).collect();
            let wrap = wrap_for(src, o, &els);
            Body::Ch { intro, ch: Ch::Els(Kind::Num, els), wrap }
        }
        2 => {
            let intro = gen_intro(src, o, Role::Para);
            let n = list_len(src, min_list(o), o);
            let ids = gen_alpha_ids(src, 0, n, true);
            let els: Vec<El> = ids.into_iter().map(|i| gen_alpha_point(src, o, i)).collect();
            let wrap = wrap_for(src, o, &els);
            Body::Ch { intro, ch: Ch::Els(Kind::Alpha, els), wrap }
        }
        _ => gen_quoting_body(src, o, &mut sem),
    };
    El { id: id.map(|i| i.compact()).unwrap_or_default(), body, sem, change: gen_change(src, o) }
}

fn gen_bracketed(src: &mut Src, o: &Opts, possible: bool) -> Option<String> {
    if possible && src.chance(1, 3) {
        let mut t = gen_text(src, o, if o.layout { Role::Simple } else { Role::Para });
        if o.layout && src.chance(1, 4) {
            // A bracket at the end of a line that does not close the text, because it is quoted
            let (a, b) = *src.pick(&[('(', ')'), ('[', ']')]);
            let (v, w) = (*src.pick(WORDS), *src.pick(WORDS));
            t.push_str(&format!(" „{v} {a}{w}{b}{BREAK}{v}” {w}"));
        }
        Some(t)
    } else {
        None
    }
}

pub fn gen_quote_lines(src: &mut Src, o: &Opts) -> Vec<MLine> {
    match src.weighted(&[2, 2]) {
        0 => {
            let n = src.usize(1, 5);
            (0..n)
                .map(|i| {
                    if i > 0 && src.chance(1, 8) {
                        return MLine::default();
                    }
                    let t = gen_text(src, o, Role::Point);
                    let t = if src.chance(1, 3) {
                        let n = src.range(1, 5);
                        format!("{}{}", src.pick(&[format!("{n}. § "), format!("({n}) "), "b) ".into(), format!("{n}. "), "aa) ".into()]), t)
                    } else {
                        t
                    };
                    let bold = src.chance(1, 4);
                    let x = src.range(0, 40) as f64 * 2.5;
                    let just = src.bool();
                    mline(x, &plain(&t), |_| bold, just)
                })
                .collect()
        }
        _ => {
            // What is quoted is a piece of a law itself
            let oi = Opts { amend: false, nested_amend: false, quotes: false, ba: true, ..o.clone() };
            let oi = Opts { layout: true, sem: false, ..oi };
            let ch = gen_children(src, &oi, 2, src_first_art);
            let mut l = Lay::new(src, true);
            l.children(&ch);
            l.out
        }
    }
}

fn gen_quoting_body(src: &mut Src, o: &Opts, sem: &mut SemanticInfo) -> Body {
    let mut intro = gen_text(src, o, Role::Para);
    let colon = src.chance(3, 4);
    if colon {
        intro.push(':');
    }
    if o.amend && src.chance(2, 3) {
        let (ch, phrase) = crate::props::amend::gen_amendment(src, o, colon || !o.layout);
        sem.special_phrase = Some(phrase);
        return Body::Ch { intro, ch, wrap: gen_wrap(src, o) };
    }
    let n = 1 + src.small(0, 2);
    let mut qs = Vec::new();
    for i in 0..n {
        qs.push(MQuote {
            intro: gen_bracketed(src, o, !o.layout || (i == 0 && colon)),
            lines: gen_quote_lines(src, o),
            wrap: gen_bracketed(src, o, !o.layout || i == n - 1),
        });
    }
    if o.amend {
        // Quoted, but no amendment
        if matches!(
            sem.special_phrase,
            Some(SpecialPhrase::BlockAmendment(_)) | Some(SpecialPhrase::StructuralBlockAmendment(_))
        ) {
            sem.special_phrase = None;
        }
    }
    Body::Ch { intro, ch: Ch::Quoted(qs), wrap: gen_wrap(src, o) }
}

pub fn gen_article(src: &mut Src, o: &Opts, id: Art) -> MArt {
    let title = if src.chance(1, 5) {
        Some(gen_text(src, o, Role::Title))
    } else {
        None
    };
    let paras = if src.chance(1, 2) {
        let n = list_len(src, min_list(o), o);
        let ids = gen_num_ids(src, Num::plain(1), n);
        ids.into_iter().map(|i| gen_para(src, o, Some(i))).collect()
    } else {
        vec![gen_para(src, o, None)]
    };
    MArt { id, title, paras, change: gen_change(src, o) }
}

pub fn next_art(src: &mut Src, a: Art) -> Art {
    if let Some(b) = a.book {
        if src.chance(1, 5) {
            return Art { book: Some(b + 1), id: Num::plain(1) };
        }
    }
    Art { book: a.book, id: next_num(src, a.id) }
}

pub fn gen_se(src: &mut Src, o: &Opts) -> MChild {
    let ty = *src.pick(&[
        StructuralElementType::Chapter,
        StructuralElementType::Part { is_special: false },
        StructuralElementType::Part { is_special: true },
        StructuralElementType::Title,
        StructuralElementType::Book,
    ]);
    let num = match ty {
        StructuralElementType::Part { is_special: true } => Num::plain(src.range(1, 3) as u16),
        StructuralElementType::Book | StructuralElementType::Part { .. } => {
            {
                let hi = if src.chance(1, 4) { 99 } else { 9 };
                Num::plain(src.range(1, hi) as u16)
            }
        }
        _ => Num {
            num: {
                let hi = if src.chance(1, 4) { 120 } else { 12 };
                src.range(1, hi) as u16
            },
            suffix: if src.chance(1, 6) { Some(src.below(34) as usize) } else { None },
        },
    };
    let title = if src.chance(1, 8) { String::new() } else { gen_text(src, o, Role::Title) };
    MChild::Se { ty, num, title, change: gen_change(src, o) }
}

pub fn gen_subtitle(src: &mut Src, o: &Opts) -> MChild {
    let num = if src.bool() {
        let hi = if src.chance(1, 8) { 1200 } else { 60 };
        let mut num = Num::plain(src.range(1, hi) as u16);
        if src.chance(1, 5) {
            num.suffix = Some(latin(src.below(26) as usize));
        }
        Some(num)
    } else {
        None
    };
    let mut title = gen_text(src, o, Role::Title);
    if num.is_some() && src.chance(1, 8) {
        title = format!("{}{title}", src.pick(&["2012 és ", "100 napos ", "3/A-s ", "(Új) ", "„Új” ", "- ", "egyes ", "ß "]));
    }
    MChild::Sub { num, title, change: gen_change(src, o) }
}

pub fn src_first_art(src: &mut Src) -> Art {
    Art {
        book: if src.chance(1, 5) {
            let hi = if src.chance(1, 4) { 40 } else { 9 };
            Some(src.range(1, hi) as u8)
        } else {
            None
        },
        id: Num {
            num: {
                let hi = if src.chance(1, 6) { 2000 } else { 30 };
                // (texts cite articles from 900 on, which must not look like the next one)
                match src.range(1, hi) as u16 {
                    n @ 850..=999 => n - 800,
                    n => n,
                }
            },
            suffix: if src.chance(1, 5) { Some(latin(src.below(20) as usize)) } else { None },
        },
    }
}

pub fn gen_children(src: &mut Src, o: &Opts, max_articles: usize, first: fn(&mut Src) -> Art) -> Vec<MChild> {
    let mut v = Vec::new();
    let mut art = first(src);
    let n = src.usize(if o.layout { 1 } else { 0 }, max_articles);
    for i in 0..n {
        while src.chance(1, 4) {
            v.push(gen_se(src, o));
        }
        while src.chance(1, 5) {
            v.push(gen_subtitle(src, o));
        }
        if i > 0 {
            art = next_art(src, art);
        }
        v.push(MChild::Art(gen_article(src, o, art)));
    }
    if src.chance(1, 10) {
        v.push(gen_se(src, o));
    }
    if src.chance(1, 10) {
        v.push(gen_subtitle(src, o));
    }
    v
}

pub fn gen_date(src: &mut Src) -> NaiveDate {
    NaiveDate::from_ymd_opt(src.range(1950, 2050) as i32, src.range(1, 12) as u32, src.range(1, 28) as u32).unwrap()
}

pub fn gen_act(src: &mut Src, o: &Opts) -> MAct {
    fn first(src: &mut Src) -> Art {
        Art { book: if src.chance(1, 4) { Some(1) } else { None }, id: Num::plain(1) }
    }
    let max = match src.weighted(&[3, 3, 1]) {
        0 => 2,
        1 => 5,
        _ => 12,
    };
    MAct {
        year: src.range(1950, 2050) as i16,
        number: src.range(1, 300) as i32,
        subject: gen_text(src, o, Role::Title),
        preamble: if src.bool() {
            let end = *src.pick(&["", ":", ".", ",", " a következő törvényt alkotja:", "–"]);
            format!("{}{end}", gen_text(src, o, Role::Simple))
        } else {
            String::new()
        },
        date: gen_date(src),
        children: gen_children(src, o, max, first),
    }
}

// ---------------- typesetting ----------------

pub fn mline(x: f64, s: &str, bold: impl Fn(usize) -> bool, justified: bool) -> MLine {
    MLine {
        chars: s.chars().enumerate().map(|(i, c)| (x + 5.0 * i as f64, c, bold(i))).collect(),
        justified,
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Mode {
    /// text of articles
    Para,
    /// text of points
    Point,
    /// bold titles
    Bold,
    /// bold titles in quotes: a line starting with a capital letter starts a new one
    BoldBa,
    Simple,
}

fn line_start(words: &[&str], i: usize, mode: Mode) -> Option<bool> {
    let w = words[i];
    let prev = words[i - 1];
    let next = words.get(i + 1).copied().unwrap_or("");
    let mut glue = false;
    if prev.ends_with('-') {
        if (w == "és" || w == "vagy") && !next.is_empty() {
            glue = true;
        } else {
            return None;
        }
    }
    let f = w.chars().next()?;
    if mode == Mode::BoldBa && f.is_uppercase() {
        return None;
    }
    let bold = mode == Mode::Bold || mode == Mode::BoldBa;
    if f == '„' || f == '“' {
        return if mode == Mode::Point { Some(glue) } else { None };
    }
    let danger = f.is_ascii_digit() || f == '(' || f == '[' || w.ends_with(')');
    if !danger {
        return Some(glue);
    }
    if mode == Mode::Simple || next.is_empty() || prev.ends_with(':') {
        return None;
    }
    let cites = next.starts_with("pont") || next.starts_with("alpont");
    let big = w.trim_matches(['(', ')', '.']).parse::<u32>().map_or(false, |n| n > 900);
    if w.starts_with('(') {
        if !bold && (next.starts_with("bekezdés") || (big && next == "szerint")) {
            return Some(true);
        }
    } else if f.is_ascii_digit() && w.ends_with('.') {
        if (!bold && (cites || big)) || (bold && (next == "évi" || (big && next == "§" && mode == Mode::Bold))) {
            return Some(true);
        }
    } else if w.ends_with(')') && !bold && cites {
        return Some(true);
    }
    None
}

fn break_text(src: &mut Src, text: &str, prob: u64, mode: Mode) -> Vec<String> {
    let mut lines = Vec::new();
    for seg in text.split(BREAK) {
        let words: Vec<&str> = seg.split(' ').collect();
        let mut cur = String::new();
        let mut glue = false;
        for (i, w) in words.iter().enumerate() {
            if i > 0 {
                let can = if glue { None } else { line_start(&words, i, mode) };
                glue = false;
                match can {
                    Some(g) if src.chance(prob, 16) => {
                        lines.push(std::mem::take(&mut cur));
                        glue = g;
                    }
                    _ => cur.push(' '),
                }
            }
            let h = w.find('-').map(|h| h + 1).filter(|h| {
                let rest = &w[*h..];
                rest.chars().next().map_or(false, |c| c.is_lowercase())
                    && rest != "és"
                    && rest != "vagy"
                    && !rest.ends_with(')')
                    && !rest.contains('-')
            });
            match h {
                Some(h) if src.chance(prob, 16) => {
                    cur.push_str(&w[..h]);
                    lines.push(std::mem::take(&mut cur));
                    cur.push_str(&w[h..]);
                    glue = false;
                }
                _ => cur.push_str(w),
            }
        }
        lines.push(cur);
    }
    lines
}

pub struct Lay<'a> {
    pub src: &'a mut Src,
    pub out: Vec<MLine>,
    /// Typeset as the contents of a quoted block
    pub ba: bool,
    prob: u64,
    prefix: Option<(f64, String)>,
    base: f64,
    /// BA only: the last lines of texts must not be justified because a wrap-up follows somewhere
    ragged: bool,
    pub labels: Vec<&'static str>,
}

impl<'a> Lay<'a> {
    pub fn new(src: &'a mut Src, ba: bool) -> Self {
        let prob = *src.pick(&[0, 1, 2, 4, 8]);
        let base = src.range(0, 30) as f64 * 2.5;
        Lay { src, out: Vec::new(), ba, prob, prefix: None, base, ragged: false, labels: Vec::new() }
    }

    fn raw(&mut self, x: f64, s: &str, bold: bool, justified: bool) {
        let partial = if !bold && self.src.chance(1, 16) { self.src.usize(1, 6) } else { 0 };
        let n = s.chars().count();
        let partial = partial.min(n / 2); // the line as a whole does not count as bold
        self.out.push(mline(x, s, |i| bold || i < partial, justified));
    }

    /// Put a line out. Returns the position of the text itself
    fn line(&mut self, x: f64, s: &str, bold: bool, justified: bool) -> f64 {
        match self.prefix.take() {
            Some((px, p)) => {
                self.raw(px, &format!("{p}{s}"), bold, justified);
                px + 5.0 * p.chars().count() as f64
            }
            None => {
                self.raw(x, s, bold, justified);
                x
            }
        }
    }

    fn header(&mut self, x: f64, s: &str) -> f64 {
        let sp = if self.src.chance(1, 16) { "  " } else { " " };
        match &mut self.prefix {
            Some((px, p)) => {
                let at = *px + 5.0 * p.chars().count() as f64;
                p.push_str(s);
                p.push_str(sp);
                at
            }
            None => {
                self.prefix = Some((x, format!("{s}{sp}")));
                x
            }
        }
    }

    fn empty(&mut self, den: u64) {
        if self.prefix.is_none()
            && self.out.last().map_or(false, |l| !l.chars.is_empty())
            && self.src.chance(1, den)
        {
            self.out.push(MLine::default());
        }
    }

    fn text(&mut self, t: &str, mode: Mode, mut x: impl FnMut(&mut Src, usize) -> f64) {
        let lines = break_text(self.src, t, self.prob, mode);
        let n = lines.len();
        for (i, l) in lines.iter().enumerate() {
            let xx = x(self.src, i);
            if i > 0 {
                self.empty(40);
            }
            let j = if self.ba {
                i + 1 < n || (!self.ragged && self.src.bool())
            } else {
                self.src.bool()
            };
            self.line(xx, l, false, j);
        }
    }

    /// `hang`: lines must not be to the left of this. In quotes everything is at the same position
    fn body(&mut self, b: &Body, kind: Kind, hang: f64) {
        let mode = if kind == Kind::Para { Mode::Para } else { Mode::Point };
        let (ba, base) = (self.ba, self.base);
        let cont = move |src: &mut Src, _: usize| {
            if ba {
                base
            } else {
                hang + src.range(0, 12) as f64 * 2.5
            }
        };
        match b {
            Body::Text(t) => self.text(t, mode, cont),
            Body::Ch { intro, ch, wrap } => {
                if !intro.is_empty() {
                    self.text(intro, mode, cont);
                }
                match ch {
                    Ch::Els(k, els) => {
                        let mut h = 0.0;
                        for (i, e) in els.iter().enumerate() {
                            self.empty(30);
                            let mut x = if ba {
                                base
                            } else if i == 0 {
                                hang + self.src.range(0, 8) as f64 * 2.5
                            } else {
                                (h + self.src.range(-2, 2) as f64 * 0.25).max(hang)
                            };
                            if !ba && x > h + 0.5 && i > 0 {
                                x = h;
                            }
                            let hs = sae_header(self.src, *k, &e.id);
                            let at = self.header(x, &hs);
                            if i == 0 {
                                h = at;
                            }
                            self.body(&e.body, *k, h + 2.5);
                        }
                        if let Some(w) = wrap {
                            self.empty(30);
                            self.text(w, mode, move |src, i| {
                                if ba {
                                    base
                                } else if i == 0 {
                                    hang + src.below(((h - hang) / 0.5) as u64 + 1) as f64 * 0.5
                                } else {
                                    hang + src.range(0, 20) as f64 * 2.5
                                }
                            });
                        }
                    }
                    Ch::Quoted(qs) => {
                        for (i, q) in qs.iter().enumerate() {
                            self.quoted(q, i == 0);
                        }
                        if let Some(w) = wrap {
                            self.empty(20);
                            self.text(w, mode, cont);
                        }
                    }
                    Ch::Ba { intro, kind, els, wrap: qwrap, article_header, .. } => {
                        let lines = {
                            let mut l = Lay::new(self.src, true);
                            if let Some(h) = article_header {
                                l.prefix = Some((l.base, format!("{h} ")));
                            }
                            l.elements(*kind, els);
                            l.out
                        };
                        self.quoted(&MQuote { intro: intro.clone(), lines, wrap: qwrap.clone() }, true);
                        if let Some(w) = wrap {
                            self.text(w, mode, cont);
                        }
                    }
                    Ch::Sba { intro, children, wrap: qwrap, headless, .. } => {
                        let lines = {
                            let mut l = Lay::new(self.src, true);
                            if *headless {
                                l.headless(&children[0]);
                            } else {
                                l.children(children);
                            }
                            l.out
                        };
                        self.quoted(&MQuote { intro: intro.clone(), lines, wrap: qwrap.clone() }, true);
                        if let Some(w) = wrap {
                            self.text(w, mode, cont);
                        }
                    }
                }
            }
        }
    }

    fn bracketed(&mut self, t: &str) {
        let (a, b) = *self.src.pick(&[('(', ')'), ('[', ']')]);
        let s = format!("{a}{t}{b}");
        self.empty(20);
        self.text(&s, Mode::Simple, |src, _| src.range(0, 40) as f64 * 2.5);
    }

    fn quoted(&mut self, q: &MQuote, _first: bool) {
        if let Some(t) = &q.intro {
            self.bracketed(t);
        }
        self.empty(20);
        let open = *self.src.pick(&['„', '„', '„', '“']);
        let n = q.lines.len();
        for (i, l) in q.lines.iter().enumerate() {
            let mut l = l.clone();
            if i == 0 {
                let x = l.chars.first().map_or(10.0, |c| c.0);
                let b = l.chars.first().map_or(false, |c| c.2);
                // The opening mark is in front of the text
                l.chars.insert(0, (x - 5.0, open, b));
            }
            if i == n - 1 {
                let x = l.chars.last().map_or(10.0, |c| c.0 + 5.0);
                let b = l.chars.last().map_or(false, |c| c.2);
                l.chars.push((x, '”', b));
            }
            self.out.push(l);
        }
        if let Some(t) = &q.wrap {
            self.bracketed(t);
        }
    }

    /// A bare sequence of sibling elements (in quotes)
    pub fn elements(&mut self, kind: Kind, els: &[El]) {
        for e in els {
            self.empty(30);
            let hs = sae_header(self.src, kind, &e.id);
            self.header(self.base, &hs);
            self.ragged = any_wrap(e) || self.src.chance(3, 4);
            self.body(&e.body, kind, 0.0);
        }
    }

    pub fn article(&mut self, a: &MArt, x: f64) {
        let gap = if self.src.chance(1, 16) { "" } else { " " };
        self.header(x, &format!("{}.{}§", a.id.display(), gap));
        if let Some(t) = &a.title {
            let base = self.base;
            let ba = self.ba;
            self.text(&format!("[{t}]"), Mode::Para, move |src, _| {
                if ba {
                    base
                } else {
                    src.range(0, 40) as f64 * 2.5
                }
            });
            self.empty(8);
        }
        let mut h = 0.0;
        for (i, p) in a.paras.iter().enumerate() {
            self.ragged = any_wrap(p) || self.src.chance(3, 4);
            if i > 0 {
                self.empty(20);
            }
            if !p.id.is_empty() {
                let x = if self.ba {
                    self.base
                } else if i == 0 {
                    self.src.range(0, 20) as f64 * 2.5
                } else {
                    (h - self.src.range(-2, 20) as f64 * 0.25).max(0.0)
                };
                let hx = self.header(x, &format!("({})", p.id));
                if i == 0 {
                    h = hx;
                }
            }
            self.body(&p.body, Kind::Para, 0.0);
        }
    }

    fn title_lines(&mut self, t: &str, bold: bool) {
        let mode = match (bold, self.ba) {
            (true, false) => Mode::Bold,
            (true, true) => Mode::BoldBa,
            (false, false) => Mode::Para,
            // In quotes any article may be the first one
            (false, true) => Mode::Simple,
        };
        let lines = break_text(self.src, t, self.prob, mode);
        for (i, l) in lines.iter().enumerate() {
            if !bold && i > 0 {
                self.empty(30);
            }
            let x = self.src.range(0, 60) as f64 * 2.5;
            let j = self.src.bool();
            match self.prefix.take() {
                Some((px, p)) => self.out.push(mline(px, &format!("{p}{l}"), |_| bold, j)),
                None => self.out.push(mline(x, l, |_| bold, j)),
            };
        }
    }

    pub fn headless(&mut self, c: &MChild) {
        match c {
            MChild::Se { title, .. } => self.title_lines(title, false),
            _ => unreachable!(),
        }
    }

    pub fn child(&mut self, c: &MChild, art_x: f64) {
        match c {
            MChild::Se { ty, num, title, .. } => {
                self.empty(2);
                let h = se_header(self.src, *ty, *num);
                let bold = self.src.bool();
                let x = self.src.range(0, 60) as f64 * 2.5;
                self.out.push(mline(x, &h, |_| bold, false));
                if !title.is_empty() {
                    let bold = !self.ba && self.src.bool();
                    if !bold {
                        self.empty(10);
                    }
                    self.title_lines(title, bold);
                }
            }
            MChild::Sub { num, title, .. } => {
                match num {
                    Some(n) => {
                        self.empty(2);
                        let x = self.src.range(0, 60) as f64 * 2.5;
                        self.prefix = Some((x, format!("{}. ", n.slash())));
                    }
                    None => {
                        if !self.ba || self.src.bool() {
                            self.empty(1);
                        }
                    }
                }
                self.title_lines(title, true);
            }
            MChild::Art(a) => {
                self.empty(2);
                self.article(a, art_x);
            }
        }
    }

    pub fn children(&mut self, ch: &[MChild]) {
        for c in ch {
            let x = if self.ba { self.base } else { self.base + self.src.range(0, 2) as f64 * 0.25 };
            self.child(c, x);
        }
    }

    pub fn act(&mut self, a: &MAct) {
        if !a.preamble.is_empty() {
            let ls = break_text(self.src, &a.preamble, self.prob, Mode::Para);
            for l in ls {
                self.empty(30);
                self.raw(10.0, &l, false, true);
            }
            self.empty(2);
        }
        self.children(&a.children);
        self.empty(3);
    }
}

fn any_wrap(e: &El) -> bool {
    match &e.body {
        Body::Ch { wrap, ch, .. } => {
            wrap.is_some()
                || match ch {
                    Ch::Els(_, els) => els.iter().any(any_wrap),
                    _ => false,
                }
        }
        _ => false,
    }
}

pub fn sae_header(src: &mut Src, k: Kind, id: &str) -> String {
    match k {
        Kind::Para => {
            if id.is_empty() {
                String::new()
            } else {
                format!("({id})")
            }
        }
        Kind::Num | Kind::NumSub => {
            let cut = id.find(|c: char| !c.is_ascii_digit());
            match cut {
                Some(c) if src.chance(1, 3) => format!("{}/{}.", &id[..c], &id[c..]),
                _ => format!("{id}."),
            }
        }
        Kind::Alpha | Kind::AlphaSub => format!("{id})"),
    }
}

pub fn se_header(src: &mut Src, ty: StructuralElementType, num: Num) -> String {
    let ord = |src: &mut Src| {
        let o = hungarian_ordinal(num.num).unwrap();
        match src.below(4) {
            0 | 1 => o.to_uppercase(),
            2 => crate::model::capitalize(&o),
            _ => o,
        }
    };
    let rom = || {
        let r = roman(num.num as u32).unwrap();
        match num.suffix {
            Some(s) => format!("{r}/{}", ALPHABET[s].to_uppercase()),
            None => r,
        }
    };
    match ty {
        StructuralElementType::Book => format!("{} KÖNYV", ord(src)),
        StructuralElementType::Part { is_special: false } => format!("{} RÉSZ", ord(src)),
        StructuralElementType::Part { is_special: true } => {
            format!("{} RÉSZ", ["ÁLTALÁNOS", "KÜLÖNÖS", "ZÁRÓ"][num.num as usize - 1])
        }
        StructuralElementType::Title => format!("{}. CÍM", rom()),
        StructuralElementType::Chapter => format!("{}. {}", rom(), src.pick(&["FEJEZET", "Fejezet", "fejezet"])),
    }
}

pub fn build_lines(l: &[MLine]) -> Vec<IndentedLine> {
    l.iter().map(|l| l.build()).collect()
}

/// For messages
pub fn show_lines(l: &[MLine]) -> String {
    l.iter()
        .map(|l| {
            format!(
                "    {:>6.2}{}{}|{}",
                l.chars.first().map_or(0.0, |c| c.0),
                if !l.chars.is_empty() && l.chars.iter().all(|c| c.2) { " B" } else { "  " },
                if l.justified { "J" } else { " " },
                l.text()
            )
        })
        .collect::<Vec<_>>()
        .join("\n")
}

/// Remove empty lines from quoted blocks: whether they are kept is not specified
pub fn drop_empty_quoted(act: &mut Act) {
    for a in act.articles_mut() {
        for p in &mut a.children {
            drop_empty_quoted_para(p);
        }
    }
}
pub fn drop_empty_quoted_para(p: &mut Paragraph) {
    if let SAEBody::Children { children, .. } = &mut p.body {
        match children {
            ParagraphChildren::QuotedBlock(qs) => {
                for q in qs {
                    q.lines.retain(|l| !l.is_empty());
                }
            }
            ParagraphChildren::BlockAmendment(b) => {
                if let BlockAmendmentChildren::Paragraph(ps) = &mut b.children {
                    ps.iter_mut().for_each(drop_empty_quoted_para);
                }
            }
            ParagraphChildren::StructuralBlockAmendment(b) => {
                for c in &mut b.children {
                    if let ActChild::Article(a) = c {
                        a.children.iter_mut().for_each(drop_empty_quoted_para);
                    }
                }
            }
            _ => (),
        }
    }
}
