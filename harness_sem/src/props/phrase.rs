//! A model of the official phrasing of references: generates text together with what it cites and where.
use hun_law::{
    identifier::{range::IdentifierRangeFrom, ActIdentifier},
    reference::{
        builder::{ReferenceBuilder, ReferenceBuilderSetPart},
        parts::{RefPartArticle, RefPartParagraph, RefPartPoint, RefPartSubpoint},
        Reference,
    },
    semantic_info::OutgoingReference,
};

use crate::{
    engine::Src,
    model::{latin, roman, Alpha, Art, Num, Pref, ALPHABET},
};

/// What has been said so far: a reference in the making
#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub struct Cur {
    pub act: Option<ActIdentifier>,
    pub art: Option<RefPartArticle>,
    pub par: Option<RefPartParagraph>,
    pub pt: Option<RefPartPoint>,
    pub sub: Option<RefPartSubpoint>,
}

impl Cur {
    pub fn act(act: ActIdentifier) -> Self {
        Cur { act: Some(act), ..Default::default() }
    }
    pub fn reference(&self) -> Reference {
        let mut b = ReferenceBuilder::new();
        if let Some(x) = self.act {
            b.set_part(x);
        }
        if let Some(x) = self.art {
            b.set_part(x);
        }
        if let Some(x) = self.par {
            b.set_part(x);
        }
        if let Some(x) = self.pt {
            b.set_part(x);
        }
        if let Some(x) = self.sub {
            b.set_part(x);
        }
        b.build().expect("model reference")
    }
}

/// A cited element and where its citation is
#[derive(Debug, Clone, PartialEq)]
pub struct Cited {
    pub start: usize,
    pub end: usize,
    pub what: Cur,
}

impl Cited {
    pub fn outgoing(&self) -> OutgoingReference {
        OutgoingReference { start: self.start, end: self.end, reference: self.what.reference() }
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Part {
    Art(Art, Option<Art>),
    Par(Num, Option<Num>),
    NPt(Num, Option<Num>),
    APt(Alpha, Option<Alpha>),
    NSub(Num, Option<Num>),
    ASub(Pref, Option<Pref>),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Lv {
    Art,
    Par,
    NPt,
    APt,
    NSub,
    ASub,
}

pub fn dash(src: &mut Src) -> &'static str {
    ["–", "–", "-", "−"][src.below(4) as usize]
}

fn slash_upper(n: Num) -> String {
    match n.suffix {
        Some(s) => format!("{}/{}", n.num, ALPHABET[s].to_uppercase()),
        None => n.num.to_string(),
    }
}

fn range<T: IdentifierRangeFrom<I>, I: hun_law::identifier::IdentifierCommon>(a: I, b: Option<I>) -> T {
    match b {
        Some(b) => T::from_range(a, b),
        None => T::from_single(a),
    }
}

impl Part {
    pub fn set(&self, c: &mut Cur) {
        match *self {
            Part::Art(a, b) => {
                *c = Cur { act: c.act, art: Some(range(a.id(), b.map(|b| b.id()))), ..Default::default() };
            }
            Part::Par(a, b) => {
                *c = Cur { act: c.act, art: c.art, par: Some(range(a.id(), b.map(|b| b.id()))), ..Default::default() };
            }
            Part::NPt(a, b) => {
                c.pt = Some(range(a.id(), b.map(|b| b.id())));
                c.sub = None;
            }
            Part::APt(a, b) => {
                c.pt = Some(range(a.id(), b.map(|b| b.id())));
                c.sub = None;
            }
            Part::NSub(a, b) => c.sub = Some(range(a.id(), b.map(|b| b.id()))),
            Part::ASub(a, b) => c.sub = Some(range(a.id(), b.map(|b| b.id()))),
        }
    }

    pub fn is_range(&self) -> bool {
        match *self {
            Part::Art(_, b) => b.is_some(),
            Part::Par(_, b) | Part::NPt(_, b) | Part::NSub(_, b) => b.is_some(),
            Part::APt(_, b) => b.is_some(),
            Part::ASub(_, b) => b.is_some(),
        }
    }

    pub fn render(&self, src: &mut Src) -> String {
        match *self {
            Part::Art(a, None) => match a.book {
                Some(b) => format!("{b}:{}.", slash_upper(a.id)),
                None => format!("{}.", slash_upper(a.id)),
            },
            Part::Art(a, Some(e)) => {
                let book = a.book.map(|b| format!("{b}:")).unwrap_or_default();
                let book2 = if src.bool() { book.clone() } else { String::new() };
                let mid = if src.chance(1, 4) { ". §" } else { "" };
                format!("{book}{}{mid}{}{book2}{}.", slash_upper(a.id), dash(src), slash_upper(e.id))
            }
            Part::Par(a, None) => format!("({})", a.compact()),
            Part::Par(a, Some(b)) => format!("({}){}({})", a.compact(), dash(src), b.compact()),
            Part::NPt(a, None) => format!("{}.", num_point(src, a)),
            Part::NPt(a, Some(b)) => format!("{}{}{}.", num_point(src, a), dash(src), num_point(src, b)),
            Part::APt(a, None) => format!("{})", a.display()),
            Part::APt(a, Some(b)) => {
                let paren = if src.chance(1, 4) { "" } else { ")" };
                format!("{}{paren}{}{})", a.display(), dash(src), b.display())
            }
            Part::NSub(a, None) => format!("{}.", a.num),
            Part::NSub(a, Some(b)) => format!("{}{}{}.", a.num, dash(src), b.num),
            Part::ASub(a, None) => format!("{})", a.display()),
            Part::ASub(a, Some(b)) => format!("{}){}{})", a.display(), dash(src), b.display()),
        }
    }
}

fn num_point(src: &mut Src, n: Num) -> String {
    match n.suffix {
        Some(s) if src.bool() => format!("{}/{}", n.num, ALPHABET[s]),
        _ => n.compact(),
    }
}

/// Strictly ascending numbers; 0: no suffixes, 1: single letters, 2: any letter
pub fn nums(src: &mut Src, n: usize, suffixes: u8) -> Vec<Num> {
    let mut num = match src.weighted(&[6, 3, 1]) {
        0 => src.range(1, 9) as u16,
        1 => src.range(1, 130) as u16,
        _ => src.range(100, 900) as u16,
    };
    let mut suffix: Option<usize> = None;
    let mut out: Vec<Num> = vec![];
    for i in 0..n {
        let step = |suffix: Option<usize>, by: usize| -> usize {
            // The next letter that may be written
            let mut s = suffix.map(|s| s + 1).unwrap_or(0) + by;
            while suffixes == 1 && s < 34 && ALPHABET[s].len() > 1 {
                s += 1;
            }
            s
        };
        if suffixes > 0 && src.chance(1, 4) {
            let by = if src.chance(1, 5) { src.usize(0, 33) } else { src.small(0, 20) as usize };
            let s = step(suffix, by);
            if s < 34 {
                suffix = Some(s);
            } else {
                num += 1;
                suffix = None;
            }
        } else if i > 0 {
            num += src.small(1, 5) as u16;
            suffix = None;
        }
        out.push(Num { num, suffix });
    }
    out
}

pub fn letters(src: &mut Src, n: usize, digraphs: bool) -> Vec<usize> {
    let all: Vec<usize> = if digraphs { (0..34).collect() } else { (0..26).map(latin).collect() };
    let top = if src.chance(3, 4) { 5 } else { all.len() - 1 };
    let mut i = src.usize(0, top);
    let mut out = vec![];
    for _ in 0..n {
        if i >= all.len() {
            break;
        }
        out.push(all[i]);
        i += src.small(1, 4);
    }
    out
}

fn pair_up<T: Copy>(src: &mut Src, ids: &[T], mk: impl Fn(T, Option<T>) -> Part, ranges: bool) -> Vec<Part> {
    let mut out = vec![];
    let mut i = 0;
    while i < ids.len() {
        if ranges && i + 1 < ids.len() && src.chance(1, 2) {
            out.push(mk(ids[i], Some(ids[i + 1])));
            i += 2;
        } else {
            out.push(mk(ids[i], None));
            i += 1;
        }
    }
    out
}

/// A list of elements of a level, `n` ids, in ascending order
pub fn parts(src: &mut Src, lv: Lv, n: usize, ranges: bool) -> Vec<Part> {
    match lv {
        Lv::Art => {
            let book = if src.chance(1, 4) { Some(src.range(1, 9) as u8) } else { None };
            let ids: Vec<Art> = nums(src, n, 1).into_iter().map(|id| Art { book, id }).collect();
            pair_up(src, &ids, Part::Art, ranges)
        }
        Lv::Par => {
            let ids = nums(src, n, 2);
            pair_up(src, &ids, Part::Par, ranges)
        }
        Lv::NPt => {
            let ids = nums(src, n, 2);
            pair_up(src, &ids, Part::NPt, ranges)
        }
        Lv::NSub => {
            let ids = nums(src, n, 0);
            pair_up(src, &ids, Part::NSub, ranges)
        }
        Lv::APt => {
            let ids: Vec<Alpha> = letters(src, n, true).into_iter().map(Alpha).collect();
            pair_up(src, &ids, Part::APt, ranges)
        }
        Lv::ASub => {
            let prefix = if src.chance(3, 4) { Some(latin(src.below(26) as usize)) } else { None };
            let ids: Vec<Pref> = letters(src, n, false).into_iter().map(|chr| Pref { prefix, chr }).collect();
            pair_up(src, &ids, Part::ASub, ranges)
        }
    }
}

/// One reference: levels from the top, each a list of elements
pub type RefM = Vec<(Lv, Vec<Part>)>;

pub fn gen_point_lv(src: &mut Src) -> Lv {
    if src.chance(1, 3) {
        Lv::NPt
    } else {
        Lv::APt
    }
}
pub fn gen_sub_lv(src: &mut Src) -> Lv {
    if src.chance(1, 3) {
        Lv::NSub
    } else {
        Lv::ASub
    }
}

/// Levels of a reference that starts at `top` (1 article .. 4 subpoint)
pub fn gen_levels(src: &mut Src, top: u8) -> Vec<Lv> {
    let mut v = vec![];
    let chain: &[&[u8]] = match top {
        1 => &[&[1], &[1, 2], &[1, 2, 3], &[1, 3], &[1, 2, 3, 4], &[1, 3, 4]],
        2 => &[&[2], &[2, 3], &[2, 3, 4]],
        3 => &[&[3], &[3, 4]],
        _ => &[&[4]],
    };
    for l in *src.pick(chain) {
        v.push(match l {
            1 => Lv::Art,
            2 => Lv::Par,
            3 => gen_point_lv(src),
            _ => gen_sub_lv(src),
        });
    }
    v
}

pub fn gen_ref(src: &mut Src, levels: &[Lv], lists: bool) -> RefM {
    let mut out = vec![];
    for (i, lv) in levels.iter().enumerate() {
        let last = i + 1 == levels.len();
        let list = lists && src.chance(if last { 2 } else { 1 }, if last { 5 } else { 12 });
        let n = if list { src.usize(2, 4) } else { 1 };
        let mut p = parts(src, *lv, n, lists);
        // What has parts cited is a single element
        while !last && p.last().map_or(false, |p| p.is_range()) {
            p.pop();
        }
        if p.is_empty() {
            p = parts(src, *lv, 1, false);
        }
        out.push((*lv, p));
    }
    out
}

pub fn separator(src: &mut Src) -> String {
    let mut s = src.pick(&[", ", ", ", " és ", " és ", "; ", ", és ", " valamint ", ", valamint ", " illetve ", " vagy ", "; illetve "]).to_string();
    if src.chance(1, 4) {
        s.push_str(*src.pick(&["a ", "az "]));
    }
    s
}

pub fn suffix(src: &mut Src, lv: Lv, last: bool) -> String {
    let plain = if last { 2 } else { 8 };
    let e = |src: &mut Src, v: &[&str]| {
        if src.below(10) < plain {
            String::new()
        } else {
            src.pick(v).to_string()
        }
    };
    match lv {
        Lv::Art => format!(" §{}", e(src, &["-a", "-ában", "-t", "-át", "-ának", "-sal", "-ban", "-ra"])),
        Lv::Par => format!(" bekezdés{}", e(src, &["e", "ében", "ek", "ének", "t", "sel", "ben", "ét"])),
        Lv::NPt | Lv::APt => format!(" pont{}", e(src, &["ja", "jában", "jai", "jának", "tal", "ban", "t", "ját"])),
        Lv::NSub | Lv::ASub => format!(" alpont{}", e(src, &["ja", "jában", "jai", "tal", "ban", "ját"])),
    }
}

/// Writes a reference, recording everything it cites
pub fn write_ref(src: &mut Src, out: &mut String, r: &RefM, cur: &mut Cur, cited: &mut Vec<Cited>) {
    let mut start = None;
    for (li, (lv, ps)) in r.iter().enumerate() {
        if li > 0 {
            out.push(' ');
        }
        for (i, p) in ps.iter().enumerate() {
            if i > 0 {
                cited.push(Cited { start: start.take().unwrap(), end: out.len(), what: *cur });
                out.push_str(&separator(src));
            }
            start.get_or_insert(out.len());
            out.push_str(&p.render(src));
            p.set(cur);
        }
        out.push_str(&suffix(src, *lv, li + 1 == r.len()));
    }
    cited.push(Cited { start: start.unwrap(), end: out.len(), what: *cur });
}

pub const ABBREVIATIONS: [&str; 18] = [
    "Ptk.", "Btk.", "Eva tv.", "Tv.", "Bv. tv.", "új Be.", "Be.", "Art.", "Art. vhr.", "Kttv.", "Kttv.2", "Törvény", "Mt.", "Szja tv.",
    "Bv. Sztv.", "Nkt", "régi Jöt.", "Eurt.tv.",
];

pub fn gen_act(src: &mut Src) -> ActIdentifier {
    ActIdentifier {
        year: src.range(1900, 2030) as i16,
        number: match src.below(3) {
            0 => src.range(1, 10),
            1 => src.range(1, 250),
            _ => *src.pick(&[1, 4, 5, 9, 10, 40, 49, 50, 90, 99, 100, 101, 149, 190, 200, 204]),
        } as i32,
    }
}

pub fn act_text(act: ActIdentifier) -> String {
    format!("{}. évi {}. ", act.year, roman(act.number as u32).unwrap())
}

/// Abbreviations in force
pub type Abbr = Vec<(String, ActIdentifier)>;

/// Writes a mention of an act. A plain one ends in a form that a reference may follow.
pub fn write_act(src: &mut Src, out: &mut String, known: &mut Abbr, new: &mut Abbr, cited: &mut Vec<Cited>) -> Cur {
    if !known.is_empty() && src.chance(1, 2) {
        let (a, act) = src.pick(known).clone();
        let start = out.len();
        out.push_str(&a);
        cited.push(Cited { start, end: out.len(), what: Cur::act(act) });
        return Cur::act(act);
    }
    let act = gen_act(src);
    let start = out.len();
    out.push_str(&act_text(act));
    if src.chance(1, 10) {
        out.push_str("tv.");
    } else {
        out.push_str("törvény");
        out.push_str(*src.pick(&["", "", "", "", "nek", "ről", "ben", "e"]));
    }
    cited.push(Cited { start, end: out.len(), what: Cur::act(act) });
    if src.chance(2, 5) {
        let free: Vec<&&str> = ABBREVIATIONS.iter().filter(|a| known.iter().all(|(k, _)| k != *a)).collect();
        let intro = if src.chance(5, 6) { "(a továbbiakban: " } else { "(a továbbiakban " };
        if free.is_empty() || src.chance(1, 8) {
            out.push_str(&format!(" {intro}{}törvény)", act_text(act)));
        } else {
            let a = src.pick(&free).to_string();
            out.push_str(&format!(" {intro}{a})"));
            known.push((a.clone(), act));
            new.push((a, act));
        }
    }
    Cur::act(act)
}

/// Text that cites nothing. Neither starts nor ends with anything that could continue a reference.
pub fn filler(src: &mut Src) -> String {
    const WORDS: [&str; 40] = [
        "szabály", "alkalmazandó", "esetén", "személy", "szerinti", "foglalt", "rendelkezés", "alapján", "kell", "jogosult", "hatóság",
        "kötelezett", "ügyfél", "határidő", "kivételével", "megállapított", "értelemszerűen", "tekintettel", "adóalap-csökkentő", "ötvenezer",
        "naptári", "törvény", "törvényben", "paragrafus", "jogszabály", "miniszter", "előírás", "támogatás", "ellátás", "eljárás", "bíróság",
        "köteles", "tilos", "lehet", "eltérő", "vonatkozó", "összeg", "részére", "szervezet", "nyilvántartás",
    ];
    let n = src.usize(1, 3);
    let mut v = vec![];
    for _ in 0..n {
        let w = src.pick(&WORDS).to_string();
        v.push(match src.weighted(&[24, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]) {
            0 => w,
            1 => format!("{w}, {}", src.pick(&WORDS)),
            2 => format!("{w} és a {}", src.pick(&WORDS)),
            3 => format!("{w} ({}) {}", src.pick(&WORDS), src.pick(&WORDS)),
            4 => format!("{w} 25 §-a {}", src.pick(&WORDS)),
            5 => format!("{w} ({}) {}", src.range(1, 12), src.pick(&WORDS)),
            6 => format!("{w} {}. {}", src.range(1, 99), src.pick(&WORDS)),
            7 => format!("{w} {} napon belül {}", src.range(1, 99), src.pick(&WORDS)),
            8 => format!("{w} 2012. január 5-én {}", src.pick(&WORDS)),
            9 => format!("{w} III. {}", src.pick(&WORDS)),
            10 => format!("{w} a {} értelemszerűen", src.pick(&ATTACHMENTS)),
            11 => format!("{w} a „{}” {}", src.pick(&QUOTED), src.pick(&WORDS)),
            _ => format!("{w} – {} –", src.pick(&WORDS)) + " " + *src.pick(&WORDS),
        });
    }
    v.join(" ")
}

pub const ATTACHMENTS: [&str; 9] = [
    "1. melléklet", "2. és 3. mellékletben", "1–4. melléklet", "6. számú melléklet", "1. melléklet 8. pontjában",
    "2. melléklet 8., 9. és 11. pontjában", "1., 2. és 5. melléklet", "3. melléklet II. fejezet 6. pontjában", "1. melléklet a) pont 3.4. alpontja",
];

pub const QUOTED: [&str; 7] = [
    "közérdekű adat", "a 25. § (1) bekezdésének c)–d) pontjában", "(4)–(5a) bekezdésben", "2012. évi C. törvény 5. §",
    "idézőjelek „5. § (2) bekezdés” jellegű", "", "1. melléklet",
];

/// Places where a reference list begins
pub fn gen_refs(src: &mut Src, cur: &mut Cur, first_top: u8, max: usize) -> Vec<RefM> {
    let n = 1 + if src.chance(1, 3) { src.usize(1, max) } else { 0 };
    let mut out: Vec<RefM> = vec![];
    let mut c = *cur;
    for i in 0..n {
        let top = if i == 0 {
            first_top
        } else {
            // What comes below something must still make sense
            let mut tops = vec![1];
            let range_above = |l: u8| match l {
                2 => c.art.map_or(false, |a| a.is_range()),
                3 => c.art.map_or(false, |a| a.is_range()) || c.par.map_or(false, |a| a.is_range()),
                _ => c.pt.map_or(true, |a| a.is_range()),
            };
            for l in [2, 3, 4] {
                if !range_above(l) && (l < 4 || c.pt.is_some()) && (c.act.is_none() || c.art.is_some()) {
                    tops.push(l);
                }
            }
            *src.pick(&tops)
        };
        let levels = gen_levels(src, top);
        let r = gen_ref(src, &levels, true);
        for (_, ps) in &r {
            for p in ps {
                p.set(&mut c);
            }
        }
        out.push(r);
    }
    out
}

pub struct Sentence {
    pub text: String,
    pub cited: Vec<Cited>,
    pub new: Abbr,
}

/// Citations with words in between; begins with a space and ends with a word that cites nothing
pub fn write_body(src: &mut Src, n: usize, text: &mut String, known: &mut Abbr, new: &mut Abbr, cited: &mut Vec<Cited>) {
    for _ in 0..n {
        text.push_str(*src.pick(&[" a ", " az ", " ", " (", " – a "]));
        let mut cur = Cur::default();
        let with_act = src.chance(2, 5);
        if with_act {
            cur = write_act(src, text, known, new, cited);
        }
        if !with_act || src.chance(3, 4) {
            if with_act {
                text.push(' ');
            }
            let top = if with_act { 1 } else { *src.pick(&[1, 1, 1, 2, 2, 3, 4]) };
            for (i, r) in gen_refs(src, &mut cur.clone(), top, 3).iter().enumerate() {
                if i > 0 {
                    text.push_str(&separator(src));
                }
                write_ref(src, text, r, &mut cur, cited);
            }
        } else if src.chance(1, 4) {
            text.push_str(*src.pick(&["-ban", "-nak", "-ra"]));
        }
        text.push_str(*src.pick(&[" ", " ", " ", ") ", ", "]));
        text.push_str(&filler(src));
    }
}

/// A sentence without special meaning
pub fn gen_sentence(src: &mut Src, known: &mut Abbr) -> Sentence {
    let mut text = src.pick(&["Ha", "A", "Az", "Minden", "E", "Ez a"]).to_string();
    let (mut cited, mut new) = (vec![], vec![]);
    text.push(' ');
    text.push_str(&filler(src));
    let n = src.usize(1, 3);
    write_body(src, n, &mut text, known, &mut new, &mut cited);
    text.push_str(*src.pick(&[".", ".", ".", "", ":", "?", "!", ";", ",", ", és", ", valamint", " és a", ", illetve", " vagy", ", továbbá"]));
    Sentence { text, cited, new }
}
