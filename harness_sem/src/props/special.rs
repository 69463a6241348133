//! C21: the phrases that change the law: amendments, repeals, enforcement dates
use std::collections::BTreeMap;

use chrono::NaiveDate;
use hun_law::{
    identifier::{
        range::{IdentifierRange, IdentifierRangeFrom},
        ActIdentifier, NumericIdentifier,
    },
    parser::semantic_info::{abbreviation::AbbreviationCache, sae::SemanticInfoAdder},
    reference::structural::{StructuralReference, StructuralReferenceElement as El, StructuralReferenceParent as Pa},
    semantic_info::{
        BlockAmendment, EnforcementDate, EnforcementDateType, RepealReference, SpecialPhrase, StructuralBlockAmendment, TextAmendment,
        TextAmendmentReference as TaRef, TextAmendmentSAEPart as SaePart,
    },
};

use super::{
    phrase::*,
    semantic::{extract, gen_known, same_refs},
};
use crate::{
    check, check_eq,
    engine::{no_panic, Arm, Case, CaseResult, Kind, Prop, Src},
    model::{roman, Art, Num, ALPHABET},
};

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        level: "exploration",
        rule: "Sentences are generated from a model of the official phrases (block amendments and insertions of every level and their combination, amendments of structural elements, subtitles and articles, text amendments, repeals, enforcement dates) together with what they order; the special phrase, the references and the abbreviations found must be exactly those. Non-trivial: more than one element or text is affected, or the position is described by more than an act and a plain element.",
        assumptions: &[
            "the code generator peginator is not available: the parser is generated from /repo's grammar by a stand-in (tools/standin), with which all data tests of the repository pass",
            "the phrases are worded as in official gazettes, as in the repository's own examples",
        ],
        arms: vec![
            Arm { name: "block", kind: Kind::Random(60_000, 1_500_000), f: c21_block },
            Arm { name: "structural", kind: Kind::Random(60_000, 1_500_000), f: c21_structural },
            Arm { name: "enforcement", kind: Kind::Random(60_000, 1_500_000), f: c21_enforcement },
            Arm { name: "text", kind: Kind::Random(60_000, 1_500_000), f: c21_text },
            Arm { name: "repeal", kind: Kind::Random(60_000, 1_500_000), f: c21_repeal },
            Arm { name: "inexpressible", kind: Kind::Random(30_000, 800_000), f: c21_inexpressible },
        ],
    }
}

pub struct Phrase {
    pub text: String,
    pub cited: Vec<Cited>,
    pub new: Abbr,
    pub special: SpecialPhrase,
    pub nontrivial: bool,
}

/// Text in the making
#[derive(Clone)]
pub struct Out {
    pub text: String,
    pub cited: Vec<Cited>,
    pub new: Abbr,
    pub cur: Cur,
}

impl Out {
    pub fn put(&mut self, s: &str) {
        self.text.push_str(s);
    }
}

pub fn act_title(src: &mut Src, out: &mut String, known: &Abbr) {
    const TITLES: [&str; 8] = [
        "egyes adótörvények módosításáról szóló ", "bírósági eljárásról szóló ", "közúti közlekedésről, valamint a vasútról szóló ",
        "nemzeti – állami – vagyonról szóló ", "mező- és erdőgazdasági földek forgalmáról szóló ", "2014. évi költségvetésről szóló ",
        "helyi önkormányzatokról (is) szóló ", "„legjobb” gyakorlatról szóló ",
    ];
    if src.chance(1, 5) {
        if known.is_empty() || src.bool() {
            out.push_str(&act_text(gen_act(src)));
            if src.chance(1, 4) {
                out.push_str(*src.pick(&["törvénnyel összefüggő szabályokról szóló ", "törvénnyel összefüggő módosításokról szóló "]));
                return;
            }
            out.push_str("törvény ");
        } else {
            out.push_str(&src.pick(known).0);
            out.push(' ');
        }
        out.push_str(*src.pick(&["módosításáról szóló ", "hatálybalépésével összefüggő szabályokról szóló ", "hatálybalépéséről szóló "]));
    } else {
        out.push_str(*src.pick(&TITLES));
    }
}

/// The act that is changed
pub fn lead(src: &mut Src, known: &mut Abbr, prefix: &[&str]) -> Out {
    let mut o = Out { text: src.pick(prefix).to_string(), cited: vec![], new: vec![], cur: Cur::default() };
    if src.chance(1, 3) {
        act_title(src, &mut o.text, known);
    }
    o.cur = write_act(src, &mut o.text, known, &mut o.new, &mut o.cited);
    o
}

const AZ: [&str; 2] = ["A ", "Az "];

fn arts(src: &mut Src, n: usize) -> Vec<Art> {
    let book = if src.chance(1, 4) { Some(src.range(1, 9) as u8) } else { None };
    nums(src, n, 1).into_iter().map(|id| Art { book, id }).collect()
}

fn upper_num(src: &mut Src, roman_numeral: bool) -> (String, NumericIdentifier) {
    let max = if src.chance(3, 4) { 12 } else { 89 };
    let num = src.range(1, max) as u16;
    let suffix = if src.chance(1, 4) { Some(*src.pick(&(0..34).filter(|i| ALPHABET[*i].len() == 1).collect::<Vec<_>>())) } else { None };
    let n = if roman_numeral { roman(num as u32).unwrap() } else { num.to_string() };
    let text = match suffix {
        Some(s) => {
            let l = ALPHABET[s].to_uppercase();
            // Without a slash it could be a numeral
            let slash = if roman_numeral && "IVXLCDM".contains(&l) || src.chance(2, 3) { "/" } else { "" };
            format!("{n}{slash}{l}")
        }
        None => n,
    };
    (text, Num { num, suffix }.id())
}

pub const ORDINALS: [&str; 19] = [
    "Első", "Második", "Harmadik", "Negyedik", "Ötödik", "Hatodik", "Hetedik", "Nyolcadik", "Kilencedik", "Tizedik", "Tizenegyedik",
    "Tizenkettedik", "Tizenharmadik", "Tizennegyedik", "Tizenötödik", "Tizenhatodik", "Tizenhetedik", "Tizennyolcadik", "Tizenkilencedik",
];

fn ordinal(src: &mut Src) -> (String, NumericIdentifier) {
    let n = src.range(1, 19);
    let t = ORDINALS[n as usize - 1];
    (if src.chance(1, 3) { t.to_uppercase() } else { t.to_string() }, Num { num: n as u16, suffix: None }.id())
}

pub fn book(src: &mut Src, ending: &str) -> (String, NumericIdentifier) {
    let (t, id) = ordinal(src);
    let w = if t == t.to_uppercase() { "KÖNYV" } else { *src.pick(&["Könyv", "könyv"]) };
    (format!("{t} {w}{ending}"), id)
}

fn subtitle_title(src: &mut Src) -> String {
    let n = src.usize(1, 4);
    let mut t = src.pick(&["A tevékenység", "Kézbesítés", "Emberkereskedelem", "Az ügyvezető", "Terrorizmus finanszírozása", "Értelmező rendelkezések", "Nem-vagyoni jogok", "Állat-egészségügy"]).to_string();
    for _ in 1..n {
        t.push(' ');
        t.push_str(*src.pick(&["és", "a", "postai", "úton,", "rendje", "– kivételek –", "E-számlák", "szabályai", "kötelezettségei", "részére"]));
    }
    if t.ends_with([',']) {
        t.pop();
    }
    t
}

/// Cases of a structural element's name: bare, possessed, with the inflections used in amendments
#[derive(Clone, Copy, PartialEq)]
pub enum Form {
    Bare,
    Possessed,
    With,
}

fn ending(src: &mut Src, f: Form, forms: [&[&str]; 3]) -> String {
    src.pick(match f {
        Form::Bare => forms[0],
        Form::Possessed => forms[1],
        Form::With => forms[2],
    })
    .to_string()
}

/// 0 chapter, 1 part, 2 title, 3 subtitle, 4 subtitles, 5 titled subtitle
pub fn structural(src: &mut Src, kind: usize, f: Form) -> (String, Pa) {
    match kind {
        0 => {
            let (t, id) = upper_num(src, true);
            let w = *src.pick(&["Fejezet", "fejezet", "FEJEZET"]);
            let e = if w == "FEJEZET" { ending(src, f, [&[""], &["E", "ÉNEK"], &["TEL"]]) } else { ending(src, f, [&[""], &["e", "ében", "ének"], &["tel"]]) };
            (format!("{t}. {w}{e}"), Pa::Chapter(id))
        }
        1 => {
            let (t, id) = ordinal(src);
            let up = t == t.to_uppercase();
            let w = if up { "RÉSZ" } else { *src.pick(&["Rész", "rész"]) };
            let e = if up { ending(src, f, [&[""], &["E"], &["SZEL"]]) } else { ending(src, f, [&[""], &["e", "ében", "ének"], &["szel"]]) };
            (format!("{t} {w}{e}"), Pa::Part(id))
        }
        2 => {
            let (t, id) = upper_num(src, true);
            let w = *src.pick(&["Cím", "cím", "CÍM"]);
            let e = if w == "CÍM" { ending(src, f, [&[""], &["E"], &["MEL"]]) } else { ending(src, f, [&[""], &["e", "ében", "ének"], &["mel"]]) };
            (format!("{t}. {w}{e}"), Pa::Title(id))
        }
        3 => {
            let (t, id) = upper_num(src, false);
            let e = ending(src, f, [&[""], &["e", "ében", "ének"], &["mel"]]);
            (format!("{t}. alcím{e}"), Pa::SubtitleId(id))
        }
        4 => {
            let n = nums(src, 2, 1);
            let e = ending(src, f, [&[""], &["e", "ei"], &["mel"]]);
            let w = |n: Num| n.suffix.map_or(n.num.to_string(), |s| format!("{}/{}", n.num, ALPHABET[s].to_uppercase()));
            let dot = if src.chance(1, 5) { "." } else { "" };
            (
                format!("{}{dot}{}{}. alcím{e}", w(n[0]), dash(src), w(n[1])),
                Pa::SubtitleRange(IdentifierRange::from_range(n[0].id(), n[1].id())),
            )
        }
        _ => {
            let t = subtitle_title(src);
            if f == Form::Possessed && src.chance(1, 3) {
                // Without quotation marks
                let t2 = format!("{t}{} alcím{}", src.pick(&["", "", " című"]), src.pick(&["e", "ében"]));
                return (t2, Pa::SubtitleTitle(t));
            }
            let e = ending(src, f, [&[""], &["e"], &["mel"]]);
            let c = if f == Form::Possessed && src.bool() { " című" } else { "" };
            (format!("„{t}”{c} alcím{e}"), Pa::SubtitleTitle(t))
        }
    }
}

/// The structural element that encloses the affected one, perhaps with its book
fn enclosing(src: &mut Src, o: &mut Out, kind: usize, f: Form) -> (Option<NumericIdentifier>, Option<Pa>) {
    let mut b = None;
    if kind < 3 && src.chance(1, 3) {
        let (t, id) = book(src, "");
        o.put(&t);
        o.put(" ");
        b = Some(id);
    }
    let (t, p) = structural(src, kind, f);
    o.put(&t);
    o.put(" ");
    (b, Some(p))
}

fn the_following(src: &mut Src) -> &'static str {
    *src.pick(&["a következő", "a következő", "a következő", "az alábbi", "következő"])
}

fn amended(src: &mut Src) -> String {
    match src.below(6) {
        0 => " a következő szöveggel lép hatályba".into(),
        1 => " az alábbiak szerint módosul".into(),
        2 => format!(" helyébe {} rendelkezések lépnek", the_following(src)),
        _ => format!(" helyébe {} rendelkezés lép", the_following(src)),
    }
}

fn inserted(src: &mut Src) -> &'static str {
    *src.pick(&[" egészül ki:", " egészül ki:", " kiegészülve lép hatályba:"])
}

fn levels(l: &[Lv]) -> Lv {
    *l.last().unwrap()
}

fn with_suffix(lv: Lv) -> &'static str {
    match lv {
        Lv::Art => " §-sal",
        Lv::Par => " bekezdéssel",
        Lv::NPt | Lv::APt => " ponttal",
        Lv::NSub | Lv::ASub => " alponttal",
    }
}

/// A list of elements; records all but the last one
fn put_list(src: &mut Src, o: &mut Out, ps: &[Part], start: &mut Option<usize>) {
    for (i, p) in ps.iter().enumerate() {
        if i > 0 {
            o.cited.push(Cited { start: start.take().unwrap(), end: o.text.len(), what: o.cur });
            let s = separator(src);
            o.put(&s);
        }
        start.get_or_insert(o.text.len());
        let t = p.render(src);
        o.put(&t);
        p.set(&mut o.cur);
    }
}

/// The whole of some parts
fn hull(ps: &[Part]) -> Part {
    macro_rules! h {
        ($v:ident) => {{
            let mut all = vec![];
            for p in ps {
                if let Part::$v(a, b) = *p {
                    all.push(a);
                    all.extend(b);
                }
            }
            let key = |i: usize| i;
            let _ = key;
            let mut order: Vec<usize> = (0..all.len()).collect();
            order.sort_by(|x, y| all[*x].id().cmp(&all[*y].id()));
            let (first, last) = (all[order[0]], all[*order.last().unwrap()]);
            Part::$v(first, if first == last { None } else { Some(last) })
        }};
    }
    match ps[0] {
        Part::Art(..) => h!(Art),
        Part::Par(..) => h!(Par),
        Part::NPt(..) => h!(NPt),
        Part::APt(..) => h!(APt),
        Part::NSub(..) => h!(NSub),
        Part::ASub(..) => h!(ASub),
    }
}

/// Elements of one level in two lists that may interleave
fn two_lists(src: &mut Src, lv: Lv) -> (Vec<Part>, Vec<Part>) {
    let n = src.usize(2, 5);
    let all = parts(src, lv, n, true);
    if all.len() == 1 {
        let Part::Art(..) = all[0] else {
            return (vec![], all);
        };
    }
    let (mut a, mut b) = (vec![], vec![]);
    for p in all {
        if src.bool() {
            a.push(p)
        } else {
            b.push(p)
        }
    }
    if a.is_empty() && b.len() > 1 {
        a.push(b.remove(0));
    }
    if b.is_empty() && a.len() > 1 {
        b.push(a.pop().unwrap());
    }
    (a, b)
}

pub fn gen_block(src: &mut Src, known: &mut Abbr) -> Phrase {
    let mut o = lead(src, known, &AZ);
    o.put(" ");
    let act = o.cur.act;
    let (mut book, mut parent) = (None, None);
    if src.chance(1, 6) {
        let k = *src.pick(&[0, 1, 2, 3, 5]);
        let f = if src.chance(2, 3) { Form::Possessed } else { Form::Bare };
        (book, parent) = enclosing(src, &mut o, k, f);
    }
    let base = match src.below(5) {
        0 => vec![Lv::Art],
        1 => vec![Lv::Art, Lv::Par],
        2 => vec![Lv::Art, Lv::Par, gen_point_lv(src)],
        3 => vec![Lv::Art, gen_point_lv(src)],
        _ => {
            let (p, s) = (gen_point_lv(src), gen_sub_lv(src));
            if src.bool() {
                vec![Lv::Art, Lv::Par, p, s]
            } else {
                vec![Lv::Art, p, s]
            }
        }
    };
    let last = levels(&base);
    let (list_a, list_b) = match src.below(3) {
        0 => {
            let n = src.usize(1, 4);
            (parts(src, last, n, true), vec![])
        }
        1 => {
            let n = src.usize(1, 4);
            (vec![], parts(src, last, n, true))
        }
        // Subpoints can not be inserted along with an amendment without naming their article again
        _ => two_lists(src, last),
    };
    let (list_a, list_b) = if list_a.is_empty() && list_b.is_empty() { (parts(src, last, 1, false), vec![]) } else { (list_a, list_b) };
    let above: Vec<(Lv, Part)> = base[..base.len() - 1].iter().map(|lv| (*lv, parts(src, *lv, 1, false)[0])).collect();
    let mut start = None;
    if !list_a.is_empty() {
        for (lv, p) in &above {
            put_list(src, &mut o, &[*p], &mut start);
            let s = suffix(src, *lv, false);
            o.put(&s);
            o.put(" ");
        }
        put_list(src, &mut o, &list_a, &mut start);
        let s = suffix(src, last, true);
        o.put(&s);
        o.cited.push(Cited { start: start.take().unwrap(), end: o.text.len(), what: o.cur });
        let s = amended(src);
        o.put(&s);
    }
    if !list_b.is_empty() {
        let both = !list_a.is_empty();
        let mut bare = false;
        if both {
            o.put(*src.pick(&[", és ", " és ", ", valamint ", ", egyidejűleg ", ", ezzel egyidejűleg ", " és ezzel egyidejűleg ", ", "]));
            bare = src.chance(2, 3) && !matches!(last, Lv::NSub | Lv::ASub);
            let again = known.iter().find(|(_, i)| Some(*i) == act);
            match again {
                // The act again
                Some((a, _)) if !bare && src.chance(1, 2) => {
                    let a = format!("{} {a} ", src.pick(&["a", "az"]));
                    o.put(&a);
                    if last == Lv::Art && src.bool() {
                        let (t, _) = structural(src, 3, Form::Possessed);
                        o.put(&t);
                        o.put(" ");
                    }
                }
                _ if !bare && last != Lv::Art => o.put(*src.pick(&["a ", "az "])),
                _ => (),
            }
        }
        match last {
            Lv::Art => {
                o.put(the_following(src));
                o.put(" ");
                if list_b.len() == 2 && src.chance(1, 3) {
                    put_list(src, &mut o, &list_b[..1], &mut start);
                    // Two articles, both with their sign
                    let end = o.text.len();
                    o.put(" §-sal és ");
                    o.cited.push(Cited { start: start.take().unwrap(), end, what: o.cur });
                    put_list(src, &mut o, &list_b[1..], &mut start);
                } else {
                    put_list(src, &mut o, &list_b, &mut start);
                }
            }
            Lv::Par if !both && src.chance(1, 4) => {
                o.put(the_following(src));
                o.put(" ");
                put_list(src, &mut o, &[above[0].1], &mut start);
                o.put(" § ");
                put_list(src, &mut o, &list_b, &mut start);
            }
            _ => {
                if bare {
                    let what = match last {
                        Lv::Par => *src.pick(&["a § ", "a § ", ""]),
                        _ => *src.pick(&["a § ", "a bekezdés ", ""]),
                    };
                    // The act's abbreviation may not be followed by "a §"
                    o.put(what);
                } else {
                    for (i, (lv, p)) in above.iter().enumerate() {
                        put_list(src, &mut o, &[*p], &mut start);
                        let s = suffix(src, *lv, i + 1 == above.len());
                        o.put(&s);
                        o.put(" ");
                    }
                }
                if both && src.chance(1, 6) {
                    o.put("ezzel egyidejűleg ");
                }
                o.put(the_following(src));
                o.put(" ");
                put_list(src, &mut o, &list_b, &mut start);
            }
        }
        o.put(with_suffix(last));
        o.cited.push(Cited { start: start.take().unwrap(), end: o.text.len(), what: o.cur });
        o.put(inserted(src));
    } else {
        o.put(":");
    }
    let all: Vec<Part> = list_a.iter().chain(&list_b).copied().collect();
    let mut pos = Cur { act, ..Default::default() };
    for (_, p) in &above {
        p.set(&mut pos);
    }
    hull(&all).set(&mut pos);
    let pure_insertion = list_a.is_empty();
    let special = if last == Lv::Art {
        SpecialPhrase::StructuralBlockAmendment(StructuralBlockAmendment {
            position: StructuralReference { act, book, parent: parent.clone(), structural_element: El::Article(pos.art.unwrap()), title_only: false },
            pure_insertion,
        })
    } else {
        SpecialPhrase::BlockAmendment(BlockAmendment { position: pos.reference(), pure_insertion })
    };
    let nontrivial = all.len() > 1 || all[0].is_range() || parent.is_some();
    Phrase { text: o.text, cited: o.cited, new: o.new, special, nontrivial }
}

fn single_article(src: &mut Src, o: &mut Out, a: Art, sfx: &[&str]) {
    let start = o.text.len();
    let t = Part::Art(a, None).render(src);
    o.put(&t);
    o.put(*src.pick(sfx));
    o.cur = Cur { act: o.cur.act, art: Some(IdentifierRangeFrom::from_single(a.id())), ..Default::default() };
    o.cited.push(Cited { start, end: o.text.len(), what: o.cur });
}

/// "a 12. §-t megelőző": true if before
fn relative(src: &mut Src, o: &mut Out, a: Art, adverb: bool) -> El {
    let before = src.bool();
    single_article(src, o, a, &[" §-t", " §-át", " §"]);
    o.put(match (before, adverb) {
        (true, true) => " megelőzően ",
        (false, true) => " követően ",
        (true, false) => *src.pick(&[" megelőző ", " előtti "]),
        (false, false) => " követő ",
    });
    if before {
        El::SubtitleBeforeArticle(a.id())
    } else {
        El::SubtitleAfterArticle(a.id())
    }
}

pub fn gen_structural(src: &mut Src, known: &mut Abbr) -> Phrase {
    let mut o = lead(src, known, &AZ);
    o.put(" ");
    let act = o.cur.act;
    let done = |o: Out, book: Option<NumericIdentifier>, parent: Option<Pa>, element: El, title_only: bool, pure_insertion: bool| {
        let nontrivial = book.is_some() || parent.is_some() || title_only || o.cited.len() > 1;
        Phrase {
            text: o.text,
            cited: o.cited,
            new: o.new,
            special: SpecialPhrase::StructuralBlockAmendment(StructuralBlockAmendment {
                position: StructuralReference { act, book, parent, structural_element: element, title_only },
                pure_insertion,
            }),
            nontrivial,
        }
    };
    match src.below(7) {
        // Amendment of structural elements
        0 | 1 => {
            let k = src.usize(0, 5);
            let (mut b, mut parent) = (None, None);
            if src.chance(1, 4) && k < 3 {
                let (t, id) = book(src, "");
                o.put(&t);
                o.put(" ");
                b = Some(id);
            } else if src.chance(1, 3) {
                let pk = match k {
                    0 => 2,
                    1 => 0,
                    2 => 1,
                    _ => src.usize(0, 2),
                };
                let pf = if src.bool() { Form::Bare } else { Form::Possessed };
                (b, parent) = enclosing(src, &mut o, pk, pf);
            }
            let title_only = k < 5 && src.chance(1, 4);
            let f = if title_only && src.bool() { Form::Bare } else { Form::Possessed };
            let (t, el) = structural(src, k, f);
            o.put(&t);
            let what = match k {
                0 => *src.pick(&["fejezet", "Fejezet"]),
                1 => "rész",
                2 => "cím",
                _ => "alcím",
            };
            if title_only {
                o.put(if k == 4 { " címei" } else { " címe" });
            }
            // The title of a subtitle can only be told from the subtitle by what replaces it
            let own = src.bool() || title_only;
            if own {
                let w = if title_only { "cím" } else { what };
                let t = format!(" helyébe {} {w} lép:", the_following(src));
                o.put(&t);
            } else {
                let t = amended(src);
                o.put(&t);
                o.put(":");
            }
            done(o, b, parent, el.into(), title_only, false)
        }
        // Insertion of structural elements
        2 | 3 => {
            let k = src.usize(0, 2);
            let (mut b, mut parent) = (None, None);
            match src.below(4) {
                0 => {
                    let (t, id) = book(src, "e");
                    let t = if t.contains("KÖNYVe") { t.replace("KÖNYVe", "KÖNYVE") } else { t };
                    o.put(&t);
                    o.put(" ");
                    b = Some(id);
                }
                1 => {
                    let pk = [2, 0, 1][k];
                    (b, parent) = enclosing(src, &mut o, pk, Form::Possessed);
                }
                2 => {
                    let a = arts(src, 1)[0];
                    o.put(*src.pick(&["a ", "az "]));
                    let n = o.cited.len();
                    relative(src, &mut o, a, true);
                    o.cited.truncate(n);
                }
                _ => (),
            }
            o.put(the_following(src));
            o.put(" ");
            let (t, el) = structural(src, k, Form::With);
            o.put(&t);
            o.put(inserted(src));
            done(o, b, parent, el.into(), false, true)
        }
        // Subtitles, amended
        4 | 5 => {
            let (mut b, mut parent) = (None, None);
            if src.chance(1, 4) {
                let pk = src.usize(0, 2);
                (b, parent) = enclosing(src, &mut o, pk, Form::Possessed);
            }
            let a = arts(src, 1)[0];
            let element = match src.below(3) {
                0 => {
                    single_article(src, &mut o, a, &[" §-a", " §"]);
                    o.put(*src.pick(&[" és az azt megelőző alcím", " és a megelőző alcím", " és a §-t megelőző alcím címe", " és az azt megelőző alcím-megjelölése"]));
                    El::SubtitleBeforeArticleInclusive(a.id())
                }
                1 => {
                    let r = loop {
                        let r = relative(src, &mut o, a, false);
                        break r;
                    };
                    o.put(*src.pick(&["alcím", "alcíme", "alcím címe"]));
                    r
                }
                _ => {
                    relative(src, &mut o, a, false);
                    o.put("alcím címe és ");
                    let b = if src.bool() { a } else { arts(src, 1)[0] };
                    single_article(src, &mut o, b, &[" §-a", " §"]);
                    El::SubtitleBeforeArticleInclusive(b.id())
                }
            };
            if src.bool() {
                let t = amended(src);
                o.put(&t);
            } else {
                o.put(*src.pick(&[
                    " helyébe a következő alcím lép", " helyébe a következő rendelkezés és alcím lép", " helyébe a következő alcím és rendelkezés lép",
                    " helyébe a következő alcím cím lép", " helyébe az alábbi rendelkezés és alcím lépnek", " helyébe a következő alcímcím lép",
                ]));
            }
            o.put(":");
            done(o, b, parent, element, false, false)
        }
        // Subtitles, inserted
        _ => {
            let (mut b, mut parent) = (None, None);
            if src.chance(1, 4) {
                let pk = src.usize(0, 2);
                (b, parent) = enclosing(src, &mut o, pk, Form::Possessed);
            }
            let mut rel = None;
            if src.bool() {
                let a = arts(src, 1)[0];
                o.put(*src.pick(&["a ", "az ", ""]));
                rel = Some(relative(src, &mut o, a, true));
            }
            o.put(the_following(src));
            o.put(" ");
            let element = if src.chance(1, 5) {
                let a = arts(src, 2);
                let range = src.bool();
                let p = Part::Art(a[0], range.then_some(a[1]));
                let start = o.text.len();
                let t = p.render(src);
                o.put(&t);
                p.set(&mut o.cur);
                o.put(" §-sal");
                o.cited.push(Cited { start, end: o.text.len(), what: o.cur });
                o.put(if range { " és az azokat megelőző alcímekkel" } else { " és az azt megelőző alcímmel" });
                El::SubtitleBeforeArticleInclusive(a[0].id())
            } else {
                let named = match src.below(3) {
                    0 => {
                        let t = subtitle_title(src);
                        let s = format!("„{t}” ");
                        o.put(&s);
                        El::SubtitleTitle(t)
                    }
                    1 => {
                        let (t, id) = upper_num(src, false);
                        let s = format!("{t}. ");
                        o.put(&s);
                        El::SubtitleId(id)
                    }
                    _ => El::SubtitleUnknown,
                };
                o.put(*src.pick(&["alcímmel", "alcímmel", "alcím címmel"]));
                if src.chance(1, 3) {
                    o.put(" és ");
                    let a = arts(src, 1)[0];
                    single_article(src, &mut o, a, &[" §-sal"]);
                    El::SubtitleBeforeArticleInclusive(a.id())
                } else if let Some(r) = rel {
                    r
                } else {
                    named
                }
            };
            o.put(inserted(src));
            done(o, b, parent, element, false, true)
        }
    }
}

const MONTHS: [&str; 12] =
    ["január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december"];

fn date(src: &mut Src) -> (String, NaiveDate) {
    let y = src.range(1990, 2060) as i32;
    let m = src.range(1, 12) as u32;
    let d: u32 = [31, if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1];
    let d = if src.chance(1, 5) { d } else { src.range(1, d as i64) as u32 };
    let s = *src.pick(&["-án", "-jén", "-én", ". napján"]);
    (format!("{y}. {} {d}{s}", MONTHS[m as usize - 1]), NaiveDate::from_ymd_opt(y, m, d).unwrap())
}

fn small_ordinal(src: &mut Src) -> (String, u16) {
    const TENS: [&str; 8] = ["huszadik", "harmincadik", "negyvenedik", "ötvenedik", "hatvanadik", "hetvenedik", "nyolcvanadik", "kilencvenedik"];
    if src.chance(3, 4) {
        let n = src.usize(1, 19);
        (ORDINALS[n - 1].to_lowercase(), n as u16)
    } else {
        let n = src.usize(2, 9);
        (TENS[n - 2].into(), n as u16 * 10)
    }
}

pub fn gen_enforcement(src: &mut Src) -> Phrase {
    let mut o = Out { text: String::new(), cited: vec![], new: vec![], cur: Cur::default() };
    let this = src.bool();
    o.put(if this { *src.pick(&["Ez a törvény ", "E törvény "]) } else { *src.pick(&AZ) });
    if this && src.bool() {
        let d = if src.chance(3, 4) { dash(src) } else { "" };
        let levels = gen_levels(src, 2);
        let r = gen_ref(src, &levels, true);
        let mut text = String::new();
        write_ref(src, &mut text, &r, &mut Cur::default(), &mut vec![]);
        let junk = *src.pick(&["szerinti kivétellel", "foglalt kivételekkel", "foglaltak kivételével", "meghatározott kivétellel", "meghatározottak kivételével"]);
        let t = format!("{d}{}a {text} {junk} {d}{}", if d.is_empty() { "" } else { " " }, if d.is_empty() { "" } else { " " });
        o.put(&t);
    }
    let mut structural_positions = vec![];
    let mut attachment = false;
    let with_refs = !this || src.chance(1, 3);
    if with_refs {
        let n = src.usize(1, 5);
        let mut after_plain = false;
        for i in 0..n {
            if i > 0 {
                let s = separator(src);
                o.put(&s);
            }
            match src.weighted(&[6, 2, 1, u32::from(i + 1 == n)]) {
                0 => {
                    // A reference may go on where the last one ended
                    let top = if after_plain && !o.cur.art.map_or(true, |a| a.is_range()) && src.chance(1, 3) { 2 } else { 1 };
                    let levels = gen_levels(src, top);
                    let r = gen_ref(src, &levels, true);
                    let (mut text, mut cur) = (std::mem::take(&mut o.text), o.cur);
                    write_ref(src, &mut text, &r, &mut cur, &mut o.cited);
                    (o.text, o.cur) = (text, cur);
                    after_plain = true;
                    continue;
                }
                1 => {
                    let k = src.usize(0, 5);
                    let mut b = None;
                    if k < 3 && src.chance(1, 5) {
                        let (t, id) = book(src, "");
                        o.put(&t);
                        o.put(" ");
                        b = Some(id);
                    }
                    let f = if src.bool() { Form::Bare } else { Form::Possessed };
                    let (t, p) = structural(src, k, f);
                    o.put(&t);
                    structural_positions.push(StructuralReference { act: None, book: b, parent: None, structural_element: p.into(), title_only: false });
                }
                2 => {
                    let m = src.usize(2, 3);
                    let ids: Vec<_> = (0..m).map(|_| upper_num(src, false)).collect();
                    for (j, (t, id)) in ids.iter().enumerate() {
                        if j > 0 {
                            let s = separator(src);
                            o.put(&s);
                        }
                        o.put(&format!("{t}."));
                        structural_positions.push(StructuralReference { act: None, book: None, parent: None, structural_element: El::SubtitleId(*id), title_only: false });
                    }
                    o.put(" alcím");
                }
                _ => {
                    o.put(*src.pick(&["1. melléklet", "2. és 3. melléklet", "1–4. melléklet", "6. számú melléklet"]));
                    attachment = true;
                }
            }
            after_plain = false;
        }
        o.put(" ");
    }
    let (date, repeal);
    let az = |src: &mut Src, o: &mut Out| {
        let t = *src.pick(&["a ", "e törvény ", "az e törvény ", ""]);
        o.put(t);
        o.put(*src.pick(&["kihirdetését követő ", "kihirdetést követő "]));
    };
    match src.below(3) {
        0 => {
            let (t, d) = self::date(src);
            o.put(&t);
            date = EnforcementDateType::Date(d);
        }
        1 => {
            az(src, &mut o);
            let n = match src.below(3) {
                0 => 1,
                1 => {
                    let (t, n) = small_ordinal(src);
                    o.put(&format!("{t} "));
                    n
                }
                _ => {
                    let n = src.range(1, 400) as u16;
                    o.put(&format!("{n}. "));
                    n
                }
            };
            o.put("napon");
            date = EnforcementDateType::DaysAfterPublication(n);
        }
        _ => {
            az(src, &mut o);
            let mut month = None;
            if src.bool() {
                let (t, n) = small_ordinal(src);
                o.put(&format!("{t} "));
                month = Some(n as u8);
            }
            o.put("hónap ");
            let day = if src.bool() {
                let (t, n) = small_ordinal(src);
                o.put(&t);
                n
            } else {
                let n = src.range(1, 31) as u16;
                o.put(&format!("{n}."));
                n
            };
            o.put(" napján");
            date = EnforcementDateType::DayInMonthAfterPublication { month, day };
        }
    }
    o.put(" lép hatályba");
    if src.chance(1, 4) {
        let (t, d) = self::date(src);
        let s = format!(
            "{}és {}{t} {}hatályát veszti",
            src.pick(&[" ", ", "]),
            src.pick(&["", "", "ez a törvény ", "e törvény "]),
            src.pick(&["", "a "])
        );
        o.put(&s);
        repeal = Some(d);
    } else {
        repeal = None;
    }
    o.put(".");
    let positions: Vec<_> = o.cited.iter().map(|c| c.what.reference()).collect();
    let nontrivial = positions.len() + structural_positions.len() > 1 || repeal.is_some();
    let _ = attachment;
    Phrase {
        text: o.text,
        cited: o.cited,
        new: vec![],
        special: SpecialPhrase::EnforcementDate(EnforcementDate {
            positions,
            structural_positions,
            is_default: !with_refs,
            date,
            inline_repeal: repeal,
        }),
        nontrivial,
    }
}

fn sae_part(src: &mut Src, o: &mut Out) -> SaePart {
    if src.chance(1, 4) {
        let intro = src.bool();
        o.put(if intro { " nyitó " } else { " záró " });
        o.put(*src.pick(&["szövegrészében", "szövegében", "szövegrésze"]));
        if intro {
            SaePart::IntroOnly
        } else {
            SaePart::WrapUpOnly
        }
    } else {
        SaePart::All
    }
}

/// What a text amendment or a repeal affects
pub fn targets(src: &mut Src, o: &mut Out, whole: bool) -> Vec<TaRef> {
    let act = o.cur.act;
    let mut out = vec![];
    let n = src.usize(1, 5);
    let mut after_plain = false;
    for i in 0..n {
        if i > 0 {
            let s = separator(src);
            o.put(&s);
        }
        match src.weighted(&[8, if whole { 0 } else { 2 }, 2, 1, 1, u32::from(i + 1 == n && n > 1)]) {
            0 => {
                let mut tops = vec![1];
                if after_plain && !o.cur.art.map_or(true, |a| a.is_range()) {
                    tops.push(2);
                    if !o.cur.par.map_or(false, |p| p.is_range()) {
                        tops.push(3);
                        if o.cur.pt.map_or(false, |p| !p.is_range()) {
                            tops.push(4);
                        }
                    }
                }
                let top = *src.pick(&tops);
                let levels = gen_levels(src, top);
                let r = gen_ref(src, &levels, true);
                let before = o.cited.len();
                let (mut text, mut cur) = (std::mem::take(&mut o.text), o.cur);
                write_ref(src, &mut text, &r, &mut cur, &mut o.cited);
                (o.text, o.cur) = (text, cur);
                let part = if whole { SaePart::All } else { sae_part(src, o) };
                for c in &o.cited[before..] {
                    out.push(TaRef::SAE { reference: c.what.reference(), amended_part: part.clone() });
                }
                after_plain = true;
                continue;
            }
            1 => {
                let a = arts(src, 1)[0];
                single_article(src, o, a, &[" §", " §-ának"]);
                o.put(*src.pick(&[" címében", " szakaszcímében", " címe", " szakaszcíme"]));
                out.push(TaRef::ArticleTitle(o.cur.reference()));
            }
            2 => {
                let mut parent = None;
                let k = src.usize(0, 5);
                let mut b = None;
                if src.chance(1, 4) {
                    let pk = match k {
                        0 => 2,
                        1 => 0,
                        2 => 1,
                        _ => src.usize(0, 2),
                    };
                    (b, parent) = enclosing(src, o, pk, Form::Bare);
                } else if k < 3 && src.chance(1, 4) {
                    let (t, id) = book(src, "");
                    o.put(&t);
                    o.put(" ");
                    b = Some(id);
                }
                let title_only = src.chance(1, 3);
                let (t, p) = structural(src, k, if title_only { Form::Bare } else { Form::Possessed });
                o.put(&t);
                if title_only {
                    o.put(*src.pick(if k == 4 { &[" címei", " címében"] } else { &[" címében", " címe"] }));
                }
                out.push(TaRef::Structural(StructuralReference { act, book: b, parent, structural_element: p.into(), title_only }));
            }
            3 => {
                let (mut b, mut parent) = (None, None);
                if src.chance(1, 4) {
                    let pk = src.usize(0, 2);
                    (b, parent) = enclosing(src, o, pk, Form::Bare);
                }
                let a = arts(src, 1)[0];
                let e = relative(src, o, a, false);
                if src.chance(1, 4) {
                    let t = format!("„{}” ", subtitle_title(src));
                    o.put(&t);
                }
                o.put(*src.pick(&["alcímében", "alcím címében", "alcíme"]));
                out.push(TaRef::Structural(StructuralReference { act, book: b, parent, structural_element: e, title_only: false }));
            }
            4 => {
                let m = src.usize(2, 3);
                let ids: Vec<_> = (0..m).map(|_| upper_num(src, false)).collect();
                for (j, (t, id)) in ids.iter().enumerate() {
                    if j > 0 {
                        let s = separator(src);
                        o.put(&s);
                    }
                    o.put(&format!("{t}."));
                    out.push(TaRef::Structural(StructuralReference { act, book: None, parent: None, structural_element: El::SubtitleId(*id), title_only: false }));
                }
                o.put(*src.pick(&[" alcímében", " alcíme"]));
            }
            _ => {
                o.put(*src.pick(&ATTACHMENTS));
            }
        }
        after_plain = false;
    }
    out
}

pub fn quoted(src: &mut Src) -> (String, String) {
    const TEXTS: [&str; 14] = [
        "megyei", "Megyei", "a 25. § (1) bekezdésének c)–d) pontjában", ", jogi személyiség nélküli", "9 Ft/km", "(4)–(5a) bekezdésben",
        "álláshelyi elismerés,", "köteles.", "2012. évi C. törvény", "helyébe a következő rendelkezés lép", "§", "szövegrész", "idézőjelek „idézőjelekben” jellegű",
        "egy „kettő „három” négy” öt „hat”",
    ];
    let t = src.pick(&TEXTS).to_string();
    let sp = *src.pick(&[("", ""), ("", ""), ("", ""), (" ", ""), ("", " "), (" ", " ")]);
    (format!("„{}{t}{}”", sp.0, sp.1), t)
}

pub fn gen_text_amendment(src: &mut Src, known: &mut Abbr) -> Phrase {
    let mut o = lead(src, known, &AZ);
    o.put(" ");
    let refs = targets(src, &mut o, false);
    let n = src.usize(1, 3);
    let instead = src.bool();
    if src.chance(1, 8) {
        o.put(",");
    }
    let mut parts = vec![];
    for i in 0..n {
        if i > 0 {
            let s = *src.pick(&[", a ", ", az ", ", valamint a ", " és az ", ", "]);
            o.put(s);
        } else {
            o.put(*src.pick(&[" a ", " az ", " "]));
        }
        let (f, from) = quoted(src);
        let (t, to) = quoted(src);
        let s = format!(
            "{f} {} {} {}{t}{}",
            src.pick(&["szövegrész", "szövegrészek", "szöveg"]),
            if instead { "helyett" } else { "helyébe" },
            src.pick(&["a ", "az ", ""]),
            if i + 1 < n && src.chance(1, 3) {
                ""
            } else if instead {
                " szöveggel"
            } else {
                " szöveg"
            }
        );
        o.put(&s);
        parts.push((from, to));
    }
    o.put(*src.pick(&[" lép.", " lép hatályba.", ", lép."]));
    let mut all = vec![];
    for r in &refs {
        for (from, to) in &parts {
            all.push(TextAmendment { reference: r.clone(), from: from.clone(), to: to.clone() });
        }
    }
    let nontrivial = all.len() > 1;
    Phrase { text: o.text, cited: o.cited, new: o.new, special: SpecialPhrase::TextAmendment(all), nontrivial }
}

pub fn gen_repeal(src: &mut Src, known: &mut Abbr) -> Phrase {
    const LEAD: [&str; 6] =
        ["Hatályát veszti a ", "Hatályát veszti az ", "Hatályát veszíti a ", "Nem lép hatályba az ", "Nem lép hatályba a ", "Hatályát veszti a "];
    let mut o = lead(src, known, &LEAD);
    let special = match src.below(4) {
        0 => SpecialPhrase::Repeal(vec![RepealReference::Reference(o.cur.reference())]),
        1 | 2 => {
            o.put(" ");
            let t = targets(src, &mut o, true);
            SpecialPhrase::Repeal(
                t.into_iter()
                    .map(|t| match t {
                        TaRef::SAE { reference, .. } => RepealReference::Reference(reference),
                        TaRef::Structural(s) => RepealReference::StructuralReference(s),
                        TaRef::ArticleTitle(_) => unreachable!(),
                    })
                    .collect(),
            )
        }
        _ => {
            o.put(" ");
            let t = targets(src, &mut o, false);
            let n = src.usize(1, 3);
            let mut texts = vec![];
            for i in 0..n {
                o.put(if i == 0 { *src.pick(&[" a ", " az ", " "]) } else { *src.pick(&[", a ", ", valamint az ", " és a ", ", "]) });
                let (q, from) = quoted(src);
                o.put(&q);
                if i + 1 == n || src.bool() {
                    o.put(*src.pick(&[" szövegrész", " szövegrésze", " szöveg"]));
                }
                texts.push(from);
            }
            let mut all = vec![];
            for r in &t {
                for from in &texts {
                    all.push(TextAmendment { reference: r.clone(), from: from.clone(), to: String::new() });
                }
            }
            SpecialPhrase::TextAmendment(all)
        }
    };
    o.put(".");
    let nontrivial = match &special {
        SpecialPhrase::Repeal(r) => r.len() > 1,
        SpecialPhrase::TextAmendment(r) => r.len() > 1,
        _ => false,
    };
    Phrase { text: o.text, cited: o.cited, new: o.new, special, nontrivial }
}

/// Where an element is named by its book and by another enclosing element, the book may be left out
/// (the repository's own tests expect it to be), but it must never be another one
pub fn allow_lost_books(got: &mut SpecialPhrase, expected: &SpecialPhrase) {
    let one = |g: &mut StructuralReference, e: &StructuralReference| {
        if e.parent.is_some() && g.book.is_none() {
            g.book = e.book;
        }
    };
    match (got, expected) {
        (SpecialPhrase::StructuralBlockAmendment(g), SpecialPhrase::StructuralBlockAmendment(e)) => one(&mut g.position, &e.position),
        (SpecialPhrase::TextAmendment(g), SpecialPhrase::TextAmendment(e)) => {
            for (g, e) in g.iter_mut().zip(e) {
                if let (TaRef::Structural(g), TaRef::Structural(e)) = (&mut g.reference, &e.reference) {
                    one(g, e);
                }
            }
        }
        (SpecialPhrase::Repeal(g), SpecialPhrase::Repeal(e)) => {
            for (g, e) in g.iter_mut().zip(e) {
                if let (RepealReference::StructuralReference(g), RepealReference::StructuralReference(e)) = (g, e) {
                    one(g, e);
                }
            }
        }
        _ => (),
    }
}

fn examine(case: &mut Case, before: Abbr, p: Phrase) -> CaseResult {
    let text = p.text;
    case.nontrivial_if(p.nontrivial);
    case.label_if(p.cited.len() > 3, "many references");
    case.label_if(!p.new.is_empty(), "new abbreviation");
    case.label_if(text.contains("törvénnyel összefügg"), "act in a title");
    case.label_if(text.to_lowercase().contains("könyv"), "book");
    case.input(&text);
    let cited = p.cited;
    case.describe(|| text.clone());
    let (mut info, _) = extract(&text, &before)?;
    if let Some(got) = &mut info.special_phrase {
        allow_lost_books(got, &p.special);
    }
    check_eq!(info.special_phrase, Some(p.special), "special phrase", "{text}");
    same_refs(&text, &info.outgoing_references, &cited)?;
    check_eq!(info.new_abbreviations, p.new.into_iter().collect(), "new abbreviations", "{text}");
    Ok(())
}

fn c21_block(case: &mut Case) -> CaseResult {
    let before = gen_known(&mut case.src);
    let p = gen_block(&mut case.src, &mut before.clone());
    examine(case, before, p)
}
fn c21_structural(case: &mut Case) -> CaseResult {
    let before = gen_known(&mut case.src);
    let p = gen_structural(&mut case.src, &mut before.clone());
    examine(case, before, p)
}
fn c21_enforcement(case: &mut Case) -> CaseResult {
    let before = gen_known(&mut case.src);
    let p = gen_enforcement(&mut case.src);
    examine(case, before, p)
}
fn c21_text(case: &mut Case) -> CaseResult {
    let before = gen_known(&mut case.src);
    let p = gen_text_amendment(&mut case.src, &mut before.clone());
    examine(case, before, p)
}
fn c21_repeal(case: &mut Case) -> CaseResult {
    let before = gen_known(&mut case.src);
    let p = gen_repeal(&mut case.src, &mut before.clone());
    examine(case, before, p)
}

/// Orders that no special phrase can express: refusing them or finding no phrase are both right,
/// making something else of them is not.
fn c21_inexpressible(case: &mut Case) -> CaseResult {
    let before = gen_known(&mut case.src);
    let src = &mut case.src;
    let (text, what) = match src.below(4) {
        3 => {
            // Nothing but attachments
            let mut o = lead(src, &mut before.clone(), &["Hatályát veszti a ", "Nem lép hatályba az "]);
            o.put(" ");
            o.put(*src.pick(&ATTACHMENTS));
            if src.chance(1, 3) {
                let (q, _) = quoted(src);
                o.put(&format!(" a {q} szövegrész"));
            }
            o.put(".");
            (o.text, "repeal of an attachment")
        }
        0 => {
            let mut o = lead(src, &mut before.clone(), &["Hatályát veszti a ", "Hatályát veszti az "]);
            o.put(" ");
            let t = targets(src, &mut o, false);
            let part = t.iter().any(|t| !matches!(t, TaRef::SAE { amended_part: SaePart::All, .. } | TaRef::Structural(_)));
            o.put(".");
            if !part {
                return Ok(());
            }
            (o.text, "repeal of a part of an element")
        }
        1 => {
            // A day that does not exist
            let (month, day) = *src.pick(&[("február", 30), ("február", 31), ("április", 31), ("június", 31), ("szeptember", 31), ("november", 31), ("január", 32), ("december", 0)]);
            let lead = src.pick(&["Ez a törvény", "E törvény", "A 3. §", "Az 5. § (2) bekezdése"]).to_string();
            let year = src.range(1990, 2040);
            let day = format!("{year}. {month} {day}{}", src.pick(&["-án", "-én", "-jén", ". napján"]));
            let text = if src.chance(1, 3) {
                format!("{lead} {year}. január 1-jén lép hatályba és {day} hatályát veszti.")
            } else {
                format!("{lead} {day} lép hatályba.")
            };
            (text, "day that does not exist")
        }
        _ => {
            // An act whose number is not a Roman numeral
            let n = *src.pick(&["IIII", "IIX", "VX", "IC", "XXXX", "LL"]);
            let year = src.range(1990, 2040);
            let act = format!("{year}. évi {n}. törvény");
            let text = match src.below(4) {
                0 => format!("A {act} 3. § (1) bekezdése helyébe a következő rendelkezés lép:"),
                1 => format!("Hatályát veszti a {act} 5. §-a."),
                2 => format!("Hatályát veszti a {act}."),
                _ => format!("A {act} 3. §-ában a „szó” szövegrész helyébe a „más” szöveg lép."),
            };
            (text, "act number that is no numeral")
        }
    };
    case.nontrivial_if(true);
    case.label(what);
    case.input(&text);
    case.describe(|| text.clone());
    let r = no_panic("extract_semantic_info", || {
        let known: BTreeMap<String, ActIdentifier> = before.iter().cloned().collect();
        let mut cache = AbbreviationCache::from(known);
        let r = SemanticInfoAdder::new(&mut cache).extract_semantic_info(&text);
        r
    })?;
    if let Ok(info) = r {
        // Attachments are left out of the positions
        let nothing = match &info.special_phrase {
            None => true,
            Some(SpecialPhrase::Repeal(r)) => r.is_empty(),
            Some(SpecialPhrase::TextAmendment(r)) => r.is_empty(),
            Some(_) => false,
        };
        check!(nothing, format!("{what} understood as something else"), "{text}\n{:?}", info.special_phrase);
    }
    Ok(())
}
