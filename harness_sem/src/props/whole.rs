//! C22: semantic information of whole acts
use std::collections::BTreeMap;

use hun_law::{
    identifier::{ActIdentifier, IdentifierCommon},
    parser::{semantic_info::AbbreviationsChanged, structure::parse_act_structure},
    reference::{
        parts::{AnyReferencePart, RefPartParagraph, RefPartPoint, RefPartSubpoint},
        structural::StructuralReferenceElement as Sre,
        Reference,
    },
    semantic_info::{RepealReference, SemanticInfo, SpecialPhrase, TextAmendment, TextAmendmentReference as TaRef, TextAmendmentSAEPart},
    structure::*,
    util::walker::SAEVisitor,
};

use super::{
    phrase::*,
    semantic::mark as show_refs,
    special::{gen_block, gen_enforcement, gen_repeal, gen_structural, gen_text_amendment, quoted, targets, Out, Phrase},
    structure::raw_act,
};
use crate::{
    actgen::{self, Body, Ch, El, Kind as K, MAct, MArt, MChild, MQuote, Opts},
    check, check_eq,
    engine::{fail, no_panic, Arm, Case, CaseResult, Kind, Prop, Src},
    model::{Art, Num, ALPHABET},
};

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        level: "exploration",
        rule: "Acts are generated whose sentences are spread over introductions, points, subpoints and closing texts (references continued from the introduction, phrases cut anywhere, abbreviations defined in one place and used or redefined later); the information of every element must be that of its sentence, cut to its own text. Repetition and article-wise analysis must agree with it, nothing else may change. Typeset acts with amendments worded as officially go through the parser, the analysis and the conversion of amendments and must give the generated amendments. Non-trivial: at least two elements with citations or phrases.",
        assumptions: &[
            "the code generator peginator is not available: the parser is generated from /repo's grammar by a stand-in (tools/standin), with which all data tests of the repository pass",
            "citations in closing texts belong to no element (the data model has no place for them)",
        ],
        arms: vec![
            Arm { name: "tree", kind: Kind::Random(25_000, 700_000), f: c22_tree },
            Arm { name: "split", kind: Kind::Random(40_000, 1_000_000), f: c22_split },
            Arm { name: "end_to_end", kind: Kind::Random(15_000, 400_000), f: c22_end_to_end },
        ],
    }
}

/// Marks an element whose references are not predicted
const SKIP: &str = "??";

fn skip() -> SemanticInfo {
    SemanticInfo { new_abbreviations: [(SKIP.to_string(), ActIdentifier { year: 0, number: 0 })].into(), ..Default::default() }
}

#[derive(Clone, Default)]
struct Seg {
    text: String,
    cited: Vec<Cited>,
    new: Abbr,
    /// Ends in a reference that may go on
    open: Option<Cur>,
}

fn info(cited: &[Cited], new: &[&Abbr], special: Option<SpecialPhrase>) -> SemanticInfo {
    SemanticInfo {
        outgoing_references: cited.iter().map(|c| c.outgoing()).collect(),
        new_abbreviations: new.iter().flat_map(|a| a.iter().cloned()).collect(),
        special_phrase: special,
    }
}

/// `before`: what this text may go on with
fn gen_seg(src: &mut Src, known: &mut Abbr, before: Option<Cur>, first: bool, may_open: bool) -> Seg {
    let mut s = Seg::default();
    let mut cur = Cur::default();
    let mut at_ref = false;
    match before {
        Some(b) if src.chance(2, 3) => {
            cur = b;
            if b.art.is_none() && b.par.is_none() && b.pt.is_none() {
                for (i, r) in gen_refs(src, &mut cur.clone(), 1, 2).iter().enumerate() {
                    if i > 0 {
                        s.text.push_str(&separator(src));
                    }
                    write_ref(src, &mut s.text, r, &mut cur, &mut s.cited);
                }
            } else {
                let top = if b.pt.is_some() {
                    4
                } else if b.par.is_some() {
                    3
                } else {
                    *src.pick(&[2, 3])
                };
                let lv = gen_levels(src, top);
                let r = gen_ref(src, &lv, true);
                write_ref(src, &mut s.text, &r, &mut cur, &mut s.cited);
            }
            at_ref = true;
        }
        _ if first => {
            s.text.push_str(*src.pick(&["Ha ", "A ", "Az ", "Minden "]));
            s.text.push_str(&filler(src));
        }
        _ => {
            s.text.push_str("értelemszerűen ");
            s.text.push_str(&filler(src));
        }
    }
    let go_on = may_open && at_ref && src.chance(1, 3) && !range_at_end(&cur) && cur.sub.is_none();
    if go_on {
        s.open = Some(cur);
        return s;
    }
    if at_ref {
        s.text.push(' ');
        s.text.push_str(&filler(src));
    }
    let n = src.usize(0, 2);
    write_body(src, n, &mut s.text, known, &mut s.new, &mut s.cited);
    if may_open && src.chance(1, 2) {
        s.text.push_str(*src.pick(&[" a ", " az ", " "]));
        let mut cur = Cur::default();
        let with_act = src.bool();
        if with_act {
            cur = write_act(src, &mut s.text, known, &mut s.new, &mut s.cited);
        }
        if !with_act || src.bool() {
            if with_act {
                s.text.push(' ');
            }
            let top = if with_act { 1 } else { *src.pick(&[1, 2, 3]) };
            let mut lv = gen_levels(src, top);
            lv.retain(|l| !matches!(l, Lv::NSub | Lv::ASub));
            let r = gen_ref(src, &lv, false);
            write_ref(src, &mut s.text, &r, &mut cur, &mut s.cited);
        }
        s.open = Some(cur);
    } else if may_open {
        s.text.push_str(*src.pick(&["", ":", ",", ""]));
    }
    s
}

fn range_at_end(c: &Cur) -> bool {
    c.sub.map_or(false, |x| x.is_range()) || c.pt.map_or(false, |x| x.is_range()) || c.par.map_or(false, |x| x.is_range()) || c.art.map_or(false, |x| x.is_range())
}

fn junk(src: &mut Src, last: bool, has_wrap: bool) -> &'static str {
    if last && !has_wrap {
        return ".";
    }
    *src.pick(&["", ",", ";", ", és", " és", ", valamint", ", illetve", "; továbbá", " vagy", ", és a", ","])
}

fn alpha_ids(n: usize) -> Vec<String> {
    (0..n).map(|i| ALPHABET[i].to_string()).collect()
}
fn num_ids(n: usize) -> Vec<String> {
    (1..=n).map(|i| i.to_string()).collect()
}

/// Prefix for alphabetic subpoints
fn sub_ids(src: &mut Src, kind: K, point: &str, n: usize) -> (K, Vec<String>) {
    match kind {
        K::Alpha if point.len() == 1 && src.bool() => (K::AlphaSub, (0..n).map(|i| format!("{point}{}", (b'a' + i as u8) as char)).collect()),
        K::Alpha => (K::NumSub, num_ids(n)),
        _ => (K::AlphaSub, (0..n).map(|i| ((b'a' + i as u8) as char).to_string()).collect()),
    }
}

fn el(id: &str, body: Body, sem: SemanticInfo) -> El {
    El { id: id.into(), body, sem, change: None }
}

fn gen_plain_para(src: &mut Src, known: &mut Abbr, id: &str) -> El {
    if src.chance(1, 3) {
        let s = gen_sentence(src, known);
        return el(id, Body::Text(s.text), info(&s.cited, &[&s.new], None));
    }
    let intro = gen_seg(src, known, None, true, true);
    let n = src.usize(1, 4);
    let (kind, ids) = if src.bool() { (K::Alpha, alpha_ids(n)) } else { (K::Num, num_ids(n)) };
    // The closing text comes last: what it defines must not be used before
    let mut points = vec![];
    struct P {
        head: Seg,
        subs: Option<(K, Vec<String>, Vec<(Seg, &'static str)>, Option<Seg>)>,
        junk: &'static str,
    }
    let has_wrap = src.chance(1, 2);
    for (i, pid) in ids.iter().enumerate() {
        if src.chance(1, 3) {
            let head = gen_seg(src, known, intro.open, false, true);
            let m = src.usize(1, 3);
            let (sk, sids) = sub_ids(src, kind, pid, m);
            let sub_wrap = src.chance(1, 3);
            let mut subs = vec![];
            for j in 0..m {
                let s = gen_seg(src, known, head.open, false, false);
                let jk = junk(src, j + 1 == m && i + 1 == n, sub_wrap || has_wrap);
                subs.push((s, jk));
            }
            let w = if sub_wrap {
                let mut w = gen_seg(src, known, None, false, false);
                w.text.push_str(*src.pick(&["", ",", ", és", ";"]));
                Some(w)
            } else {
                None
            };
            points.push(P { head, subs: Some((sk, sids, subs, w)), junk: "" });
        } else {
            let head = gen_seg(src, known, intro.open, false, false);
            points.push(P { head, subs: None, junk: junk(src, i + 1 == n, has_wrap) });
        }
    }
    let wrap = if has_wrap {
        let mut w = gen_seg(src, known, None, false, false);
        w.text.push('.');
        Some(w)
    } else {
        None
    };
    let none = vec![];
    let wnew = wrap.as_ref().map_or(&none, |w| &w.new);
    let mut els = vec![];
    for (p, pid) in points.into_iter().zip(&ids) {
        match p.subs {
            None => els.push(el(pid, Body::Text(p.head.text + p.junk), info(&p.head.cited, &[&intro.new, &p.head.new, wnew], None))),
            Some((sk, sids, subs, w)) => {
                let swnew = w.as_ref().map_or(&none, |w| &w.new);
                let sub_els = subs
                    .into_iter()
                    .zip(&sids)
                    .map(|((s, j), sid)| el(sid, Body::Text(s.text + j), info(&s.cited, &[&intro.new, &p.head.new, &s.new, swnew, wnew], None)))
                    .collect();
                els.push(el(
                    pid,
                    Body::Ch { intro: p.head.text, ch: Ch::Els(sk, sub_els), wrap: w.as_ref().map(|w| w.text.clone()) },
                    info(&p.head.cited, &[&intro.new, &p.head.new, wnew], None),
                ));
            }
        }
    }
    el(id, Body::Ch { intro: intro.text, ch: Ch::Els(kind, els), wrap: wrap.map(|w| w.text) }, info(&intro.cited, &[&intro.new], None))
}

fn gen_any_phrase(src: &mut Src, known: &mut Abbr) -> Phrase {
    match src.below(6) {
        0 => gen_block(src, known),
        1 => gen_structural(src, known),
        2 => gen_enforcement(src),
        3 => gen_text_amendment(src, known),
        _ => gen_repeal(src, known),
    }
}

const JUNK: [&str; 8] = [" a", " és", " valamint", " illetve", " vagy", " továbbá", ";", ","];

/// Spaces where a text may be cut
fn cuts(text: &str) -> Vec<usize> {
    let mut out = vec![];
    let (mut q, mut p) = (0i32, 0i32);
    for (i, c) in text.char_indices() {
        match c {
            '„' => q += 1,
            '”' => q -= 1,
            '(' => p += 1,
            ')' => p = (p - 1).max(0),
            ' ' if q == 0 && p == 0 => out.push(i),
            _ => (),
        }
    }
    out
}

/// Names that cite no other act (an introduction is no phrase: a citation in its name is one of its own)
fn plain_lead(src: &mut Src, known: &mut Abbr, prefix: &[&str]) -> Out {
    let mut o = Out { text: src.pick(prefix).to_string(), cited: vec![], new: vec![], cur: Cur::default() };
    if src.chance(1, 3) {
        o.put("egyes adótörvények módosításáról szóló ");
    }
    o.cur = write_act(src, &mut o.text, known, &mut o.new, &mut o.cited);
    o
}

/// A list of changes: every point with the introduction and the closing text is a phrase
fn gen_list_para(src: &mut Src, known: &mut Abbr, id: &str) -> El {
    let replacement = src.bool();
    let act_in_intro = replacement || src.bool();
    let base = if replacement {
        plain_lead(src, known, &["A ", "Az "])
    } else {
        const LEAD: [&str; 4] = ["Hatályát veszti a ", "Hatályát veszti az ", "Nem lép hatályba a ", "Hatályát veszíti a "];
        if act_in_intro {
            plain_lead(src, known, &LEAD)
        } else {
            let l = src.pick(&LEAD).trim_end_matches(' ').to_string();
            Out { text: l, cited: vec![], new: vec![], cur: Cur::default() }
        }
    };
    let n = src.usize(1, 4);
    let (kind, ids) = if src.bool() { (K::Alpha, alpha_ids(n)) } else { (K::Num, num_ids(n)) };
    let wrap = if replacement { Some(src.pick(&["lép.", "lép hatályba."]).to_string()) } else { None };
    let nested = src.chance(1, 4);
    let mut els = vec![];
    for (i, pid) in ids.iter().enumerate() {
        let mut o = base.clone();
        o.put(" ");
        let mut at = o.text.len();
        if !act_in_intro {
            if src.chance(1, 3) {
                o.put("vasútról szóló ");
            }
            o.cur = write_act(src, &mut o.text, known, &mut o.new, &mut o.cited);
            o.put(" ");
        }
        let mut whole = !replacement && src.chance(2, 3);
        let mut head = None;
        let mut refs = vec![];
        let nest = nested && !act_in_intro;
        if nest {
            // The act is in the point, the rest in subpoints
            head = Some((o.clone(), at));
        } else {
            refs = targets(src, &mut o, whole);
        }
        let m = if nest { src.usize(1, 3) } else { 1 };
        let (sk, sids) = sub_ids(src, kind, pid, m);
        let mut subs = vec![];
        for j in 0..m {
            let mut o = o.clone();
            if nest {
                at = o.text.len();
                whole = !replacement && src.chance(2, 3);
                refs = targets(src, &mut o, whole);
            }
            let special = if whole {
                SpecialPhrase::Repeal(
                    refs.iter()
                        .map(|t| match t {
                            TaRef::SAE { reference, .. } => RepealReference::Reference(reference.clone()),
                            TaRef::Structural(s) => RepealReference::StructuralReference(s.clone()),
                            TaRef::ArticleTitle(_) => unreachable!(),
                        })
                        .collect(),
                )
            } else {
                let k = src.usize(1, 2);
                let mut pairs = vec![];
                for x in 0..k {
                    o.put(if x == 0 { *src.pick(&[" a ", " az "]) } else { *src.pick(&[", a ", ", valamint az ", " és a "]) });
                    let (q, from) = quoted(src);
                    o.put(&q);
                    o.put(*src.pick(&[" szövegrész", " szöveg"]));
                    let mut to = String::new();
                    if replacement {
                        let (q, t) = quoted(src);
                        o.put(" helyébe ");
                        o.put(*src.pick(&["a ", "az "]));
                        o.put(&q);
                        o.put(" szöveg");
                        to = t;
                    }
                    pairs.push((from, to));
                }
                SpecialPhrase::TextAmendment(
                    refs.iter()
                        .flat_map(|r| pairs.iter().map(move |(from, to)| TextAmendment { reference: r.clone(), from: from.clone(), to: to.clone() }))
                        .collect(),
                )
            };
            let cited: Vec<Cited> =
                o.cited.iter().filter(|c| c.end > at).map(|c| Cited { start: c.start.max(at) - at, end: c.end - at, what: c.what }).collect();
            let mut t = o.text[at..].to_string();
            t.push_str(junk(src, i + 1 == n && j + 1 == m, wrap.is_some()));
            subs.push(el(if nest { &sids[j] } else { pid }, Body::Text(t), info(&cited, &[&o.new], Some(special))));
        }
        match head {
            None => els.append(&mut subs),
            Some((h, at)) => {
                let sem = info(
                    &h.cited.iter().map(|c| Cited { start: c.start - at, end: c.end - at, what: c.what }).collect::<Vec<_>>(),
                    &[&h.new],
                    None,
                );
                els.push(el(pid, Body::Ch { intro: h.text[at..].trim_end().to_string(), ch: Ch::Els(sk, subs), wrap: None }, sem));
            }
        }
    }
    let sem = info(&base.cited, &[&base.new], None);
    el(id, Body::Ch { intro: base.text, ch: Ch::Els(kind, els), wrap }, sem)
}

fn gen_split_para(src: &mut Src, known: &mut Abbr, id: &str) -> El {
    if src.chance(1, 3) {
        return gen_list_para(src, known, id);
    }
    let (text, cited, new, special) = if src.chance(1, 4) {
        let s = gen_sentence(src, known);
        (s.text, s.cited, s.new, None)
    } else {
        let p = gen_any_phrase(src, known);
        (p.text, p.cited, p.new, Some(p.special))
    };
    let whole = info(&cited, &[&new], special.clone());
    let mut c = cuts(&text);
    // Not within the number of an act: the parts of two of them could make up a third one
    c.retain(|x| !text[*x..].starts_with(" évi "));
    // Not within an abbreviation: its first word may be another one, defined later
    for a in ABBREVIATIONS.iter().filter(|a| a.contains(' ')) {
        for (i, _) in text.match_indices(a) {
            c.retain(|x| *x <= i || *x >= i + a.len());
        }
    }
    // The beginning of a repeal of some text in an introduction or closing text is a repeal that is refused
    let refused = match &special {
        Some(SpecialPhrase::TextAmendment(t)) if text.starts_with("Hat") || text.starts_with("Nem") => {
            t.iter().any(|t| !matches!(t.reference, TaRef::SAE { amended_part: TextAmendmentSAEPart::All, .. } | TaRef::Structural(_)))
        }
        _ => false,
    };
    if c.len() < 4 || refused || src.chance(1, 6) {
        return el(id, Body::Text(text), whole);
    }
    if src.chance(1, 8) {
        // The whole phrase is an introduction
        let quote = MQuote { intro: None, lines: vec![], wrap: None };
        let keep = matches!(special, Some(SpecialPhrase::BlockAmendment(_)) | Some(SpecialPhrase::StructuralBlockAmendment(_)));
        let sem = SemanticInfo { special_phrase: if keep { special } else { None }, ..whole };
        if src.bool() {
            return el(id, Body::Ch { intro: text, ch: Ch::Quoted(vec![quote]), wrap: None }, sem);
        }
        let own = gen_seg(src, known, None, false, false);
        let e = el("a", Body::Text(own.text + "."), info(&own.cited, &[&new, &own.new], None));
        return el(id, Body::Ch { intro: text, ch: Ch::Els(K::Alpha, vec![e]), wrap: None }, sem);
    }
    // A phrase cut anywhere makes no sense with other points
    let others = special.is_none() && src.bool();
    // With other points: the act and all definitions are in the introduction
    let mut from = 0;
    if others {
        from = cited.first().map_or(0, |c| c.end);
        if let Some(i) = text.rfind("(a továbbiakban") {
            from = from.max(i + text[i..].find(')').unwrap_or(0));
        }
    }
    let starts: Vec<usize> = c.iter().copied().filter(|i| *i >= from).collect();
    if starts.len() < 3 {
        return el(id, Body::Text(text), whole);
    }
    let nested = src.chance(1, 3);
    // intro | text | wrap, or intro | intro | text | wrap | wrap
    let n = starts.len();
    let i0 = src.usize(0, n - 3);
    let i1 = if nested { src.usize(i0 + 1, n - 2) } else { i0 };
    let s = starts[i1] + 1;
    let ends: Vec<usize> = starts[i1 + 1..].iter().copied().filter(|e| JUNK.iter().all(|j| !text[s..*e].ends_with(j))).collect();
    let mut ends_sel: Vec<usize> = vec![];
    if !ends.is_empty() && src.chance(3, 4) {
        let k = src.usize(0, ends.len() - 1);
        ends_sel.push(ends[k]);
        if nested && special.is_none() && k + 1 < ends.len() && src.bool() {
            ends_sel.push(ends[src.usize(k + 1, ends.len() - 1)]);
        }
    }
    let e = ends_sel.first().copied().unwrap_or(text.len());
    let own_cited: Vec<Cited> = cited
        .iter()
        .filter(|c| c.end > s && c.end <= e)
        .map(|c| Cited { start: c.start.max(s) - s, end: c.end - s, what: c.what })
        .collect();
    let mut leaf_text = text[s..e].to_string();
    let plain_end = special.is_none() && e == text.len();
    if e < text.len() {
        leaf_text.push_str(*src.pick(&["", "", ",", ";", ", és", " és a", "; illetve"]));
    } else if !plain_end {
        leaf_text.push_str(*src.pick(&["", "", ",", ";"]));
    }
    let leaf_info = info(&own_cited, &[&new], special);
    let wraps: Vec<String> = match ends_sel.len() {
        0 => vec![],
        1 => vec![text[e + 1..].to_string()],
        _ => vec![text[e + 1..ends_sel[1]].to_string(), text[ends_sel[1] + 1..].to_string()],
    };
    let (inner_wrap, outer_wrap) = match (nested, wraps.len()) {
        (_, 0) => (None, None),
        (false, _) => (None, Some(wraps[0].clone())),
        (true, 1) => {
            // (the introduction of a point with the closing text after the points would be another phrase)
            if leaf_info.special_phrase.is_some() || src.bool() {
                (Some(wraps[0].clone()), None)
            } else {
                (None, Some(wraps[0].clone()))
            }
        }
        (true, _) => (Some(wraps[0].clone()), Some(wraps[1].clone())),
    };
    let kind = if src.bool() { K::Alpha } else { K::Num };
    let m = if others { src.usize(1, 3) } else { 0 };
    let at = src.usize(0, m);
    let ids = if kind == K::Alpha { alpha_ids(m + 1) } else { num_ids(m + 1) };
    let intro = text[..starts[i0]].to_string();
    let other = |src: &mut Src, known: &mut Abbr, id: &str| {
        let o = gen_seg(src, known, None, false, false);
        (el(id, Body::Text(o.text), info(&o.cited, &[&new, &o.new], None)), o.new)
    };
    if !nested {
        let mut els = vec![];
        for (i, pid) in ids.iter().enumerate() {
            if i == at {
                els.push(el(pid, Body::Text(leaf_text.clone()), leaf_info.clone()));
            } else {
                els.push(other(src, known, pid).0);
            }
        }
        return el(id, Body::Ch { intro, ch: Ch::Els(kind, els), wrap: outer_wrap }, skip());
    }
    let pid = if kind == K::Alpha { "a" } else { "1" };
    let (sk, _) = sub_ids(src, kind, pid, 1);
    let sids = match sk {
        K::NumSub => num_ids(m + 1),
        _ => (0..=m).map(|i| format!("{}{}", if kind == K::Alpha { pid } else { "" }, (b'a' + i as u8) as char)).collect(),
    };
    let mut subs = vec![];
    for (i, sid) in sids.iter().enumerate() {
        if i == at {
            subs.push(el(sid, Body::Text(leaf_text.clone()), leaf_info.clone()));
        } else {
            subs.push(other(src, known, sid).0);
        }
    }
    let p = el(pid, Body::Ch { intro: text[starts[i0] + 1..starts[i1]].to_string(), ch: Ch::Els(sk, subs), wrap: inner_wrap }, skip());
    el(id, Body::Ch { intro, ch: Ch::Els(kind, vec![p]), wrap: outer_wrap }, skip())
}

struct World {
    act: MAct,
    /// Abbreviations before and after
    before: BTreeMap<String, ActIdentifier>,
    after: BTreeMap<String, ActIdentifier>,
    redefined: bool,
}

fn gen_world(src: &mut Src, para: fn(&mut Src, &mut Abbr, &str) -> El) -> World {
    let mut known = super::semantic::gen_known(src);
    let before: BTreeMap<_, _> = known.iter().cloned().collect();
    let mut after = before.clone();
    let mut redefined = false;
    let mut children = vec![];
    for i in 0..src.usize(1, 3) {
        if src.chance(1, 4) {
            children.push(MChild::Sub { num: None, title: "Alcím a 12. §-ról".into(), change: None });
        }
        let n = src.usize(1, 3);
        let numbered = n > 1 || src.bool();
        let mut paras = vec![];
        for j in 0..n {
            if !known.is_empty() && src.chance(1, 3) {
                // This one may be defined again
                let k = src.usize(0, known.len() - 1);
                known.remove(k);
            }
            let id = if numbered { (j + 1).to_string() } else { String::new() };
            paras.push(para(src, &mut known, &id));
            for (a, act) in &known {
                if after.insert(a.clone(), *act).map_or(false, |old| old != *act) {
                    redefined = true;
                }
            }
        }
        children.push(MChild::Art(MArt { id: Art { book: None, id: Num::plain(i as u16 + 1) }, title: None, paras, change: None }));
    }
    let act = MAct { year: 2020, number: 5, subject: "a 3. §-ról".into(), preamble: "A 2012. évi C. törvény 5. §".into(), date: chrono::NaiveDate::from_ymd_opt(2020, 5, 6).unwrap(), children };
    World { act, before, after, redefined }
}

#[derive(Default)]
struct Infos(Vec<(Reference, SemanticInfo, String)>);

impl SAEVisitor for Infos {
    fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, position: &Reference, element: &SubArticleElement<IT, CT>) -> anyhow::Result<()> {
        let t = match &element.body {
            SAEBody::Text(t) => t.clone(),
            SAEBody::Children { intro, .. } => intro.clone(),
        };
        self.0.push((position.clone(), element.semantic_info.clone(), t));
        Ok(())
    }
}

fn infos(a: &Act) -> Vec<(Reference, SemanticInfo, String)> {
    let mut v = Infos::default();
    a.walk_saes(&mut v).unwrap();
    v.0
}

fn strip_el(e: &mut El) {
    e.sem = SemanticInfo::default();
    if let Body::Ch { ch: Ch::Els(_, els), .. } = &mut e.body {
        els.iter_mut().for_each(strip_el);
    }
}

fn stripped(a: &MAct) -> MAct {
    let mut a = a.clone();
    for c in &mut a.children {
        if let MChild::Art(x) = c {
            x.paras.iter_mut().for_each(strip_el);
        }
    }
    a
}

pub fn clear(a: &Act) -> Act {
    // Everything but the semantic information
    let mut v = serde_json::to_value(a).unwrap();
    fn rec(v: &mut serde_json::Value) {
        match v {
            serde_json::Value::Object(m) => {
                m.remove("semantic_info");
                m.values_mut().for_each(rec);
            }
            serde_json::Value::Array(x) => x.iter_mut().for_each(rec),
            _ => (),
        }
    }
    rec(&mut v);
    serde_json::from_value(v).unwrap()
}

fn compare(got: &Act, expected: &Act, what: &str) -> CaseResult {
    let (g, e) = (infos(got), infos(expected));
    check_eq!(g.len(), e.len(), "number of elements", "{what}");
    for ((pos, gi, text), (_, ei, _)) in g.iter().zip(&e) {
        if ei.new_abbreviations.contains_key(SKIP) {
            for r in &gi.outgoing_references {
                check!(r.start < r.end && text.get(r.start..r.end).is_some(), "position of a reference", "{what}: {pos:?} {text}\n {r:?}");
            }
            check_eq!(gi.special_phrase, None, "special phrase of a cut introduction", "{what}: {pos:?} {text}");
            continue;
        }
        let mut special = gi.special_phrase.clone();
        if let (Some(g), Some(e)) = (&mut special, &ei.special_phrase) {
            super::special::allow_lost_books(g, e);
        }
        check_eq!(special, ei.special_phrase, "special phrase", "{what}: {pos:?} {text}");
        check!(
            gi.outgoing_references == ei.outgoing_references,
            "wrong references",
            "{what}: {pos:?} references found in {}\n  expected {}",
            show_refs(text, &gi.outgoing_references),
            show_refs(text, &ei.outgoing_references)
        );
        check_eq!(gi.new_abbreviations, ei.new_abbreviations, "new abbreviations", "{what}: {pos:?} {text}");
    }
    Ok(())
}

fn run_world(case: &mut Case, w: World) -> CaseResult {
    let expected = actgen::to_act(&w.act);
    let mut input = actgen::to_act(&stripped(&w.act));
    input.contained_abbreviations = w.before.clone();
    let n = infos(&expected).iter().filter(|i| !i.1.is_empty()).count();
    case.nontrivial_if(n >= 2);
    case.label_if(w.redefined, "redefinition");
    case.label_if(w.after.len() > w.before.len(), "new abbreviations");
    let text = {
        let mut t = format!("known: {:?}\n", w.before);
        for (r, i, s) in infos(&expected) {
            t.push_str(&format!("{r:?}: {s}  [{}{}]\n", i.outgoing_references.len(), if i.special_phrase.is_some() { ", phrase" } else { "" }));
        }
        t
    };
    case.input(&text);
    case.describe(|| text.clone());
    let mut act = input.clone();
    let changed = match no_panic("add_semantic_info", || act.add_semantic_info())? {
        Ok(c) => c,
        Err(e) => return fail("act rejected", format!("{text}\n{e:?}")),
    };
    compare(&act, &expected, "whole act")?;
    check_eq!(act.contained_abbreviations, w.after, "abbreviations of the act", "{text}");
    check_eq!(changed == AbbreviationsChanged::Yes, w.redefined || w.after != w.before, "whether the abbreviations changed", "{text}");
    let mut bare = clear(&act);
    bare.contained_abbreviations = w.before.clone();
    check!(bare == clear(&input), "the act itself is unchanged", "{text}");
    // Article by article
    let mut step = input.clone();
    let ids: Vec<_> = input.articles().map(|a| a.identifier).collect();
    let mut any = false;
    for (i, id) in ids.iter().enumerate() {
        let r = no_panic("add_semantic_info_to_article", || step.add_semantic_info_to_article(*id))?;
        match r {
            Ok(c) => any |= c == AbbreviationsChanged::Yes,
            Err(e) => return fail("article rejected", format!("{id}\n{text}\n{e:?}")),
        }
        for (j, a) in step.articles().enumerate() {
            let same = if j <= i { act.articles().nth(j) } else { input.articles().nth(j) };
            check!(Some(a) == same, "article analysed by itself", "article {j} after article {i}\n{text}");
        }
    }
    check!(step == act, "article by article", "{text}");
    check_eq!(any, changed == AbbreviationsChanged::Yes, "whether the abbreviations changed, article by article", "{text}");
    let r = step.add_semantic_info_to_article(Art { book: None, id: Num::plain(77) }.id());
    check!(r.is_err() && step == act, "an article that does not exist", "{text}");
    // Again
    if !w.redefined {
        let mut again = act.clone();
        let c = no_panic("add_semantic_info", || again.add_semantic_info())?;
        check!(matches!(c, Ok(AbbreviationsChanged::No)), "abbreviations changed by repetition", "{text}\n{c:?}");
        check!(again == act, "repetition", "{text}");
    }
    Ok(())
}

fn c22_tree(case: &mut Case) -> CaseResult {
    let w = gen_world(&mut case.src, gen_plain_para);
    run_world(case, w)
}

fn c22_split(case: &mut Case) -> CaseResult {
    let w = gen_world(&mut case.src, gen_split_para);
    run_world(case, w)
}

// ---------------- from lines to amendments ----------------

fn pos_part(src: &mut Src, a: String, b: String, pre: &str, mid: &str, post: &str) -> String {
    if a == b {
        format!("{pre}{a}{post}")
    } else {
        format!("{pre}{a}{mid}{}{mid2}{b}{post}", dash(src), mid2 = if mid.is_empty() { "" } else { pre })
    }
}

fn book_of(s: &str) -> Option<String> {
    s.split_once(':').map(|(b, _)| b.to_string())
}

type RefParts = (Option<RefPartParagraph>, Option<RefPartPoint>, Option<RefPartSubpoint>);

fn ref_parts(r: &Reference) -> RefParts {
    let mut result: RefParts = (None, None, None);
    let mut r = r.clone();
    loop {
        match r.get_last_part() {
            AnyReferencePart::Paragraph(p) => result.0 = Some(p),
            AnyReferencePart::Point(p) => result.1 = Some(p),
            AnyReferencePart::Subpoint(p) => result.2 = Some(p),
            _ => return result,
        }
        r = r.parent();
    }
}

/// The official wording of an amendment at a position
fn word_block(src: &mut Src, r: &Reference, pure_insertion: bool) -> Option<String> {
    let mut parts: Vec<(String, &str, &str)> = vec![];
    let art = r.article()?;
    let (f, l) = (art.first_in_range(), art.last_in_range());
    parts.push((format!("{}.", if f == l { f.to_string() } else { return None }), " §", " §-a"));
    let (rp, rpt, rs) = ref_parts(r);
    if let Some(p) = rp {
        parts.push((pos_part(src, p.first_in_range().to_string(), p.last_in_range().to_string(), "(", ")", ")"), " bekezdés", " bekezdése"));
    }
    let point = |src: &mut Src, a: &str, b: &str, sub: bool| {
        let (x, y) = if sub { (" alpont", " alpontja") } else { (" pont", " pontja") };
        if a.starts_with(|c: char| c.is_ascii_digit()) {
            (pos_part(src, a.into(), b.into(), "", "", "."), x, y)
        } else {
            (pos_part(src, a.into(), b.into(), "", ")", ")"), x, y)
        }
    };
    if let Some(p) = rpt {
        let (f, l) = match p {
            RefPartPoint::Numeric(p) => (p.first_in_range().to_string(), p.last_in_range().to_string()),
            RefPartPoint::Alphabetic(p) => (p.first_in_range().to_string(), p.last_in_range().to_string()),
        };
        parts.push(point(src, &f, &l, false));
    }
    if let Some(p) = rs {
        let (f, l) = match p {
            RefPartSubpoint::Numeric(p) => (p.first_in_range().to_string(), p.last_in_range().to_string()),
            RefPartSubpoint::Alphabetic(p) => (p.first_in_range().to_string(), p.last_in_range().to_string()),
        };
        let digit = |c: char| c.is_ascii_digit();
        if f.starts_with(digit) && !(f.chars().all(digit) && l.chars().all(digit)) {
            // The grammar knows no numbered subpoints with letters
            return None;
        }
        parts.push(point(src, &f, &l, true));
    }
    let n = parts.len();
    let mut t = String::new();
    for (i, (id, plain, poss)) in parts.into_iter().enumerate() {
        if i > 0 {
            t.push(' ');
        }
        if i + 1 == n && pure_insertion {
            t.push_str("a következő ");
            t.push_str(&id);
            t.push_str(plain);
            t.push_str(match plain {
                " pont" | " alpont" => "tal",
                _ => "sel",
            });
        } else {
            t.push_str(&id);
            t.push_str(if i + 2 == n && pure_insertion || i + 1 == n { poss } else { plain });
        }
    }
    t.push_str(if pure_insertion { " egészül ki:" } else { *src.pick(&[" helyébe a következő rendelkezés lép:", " helyébe az alábbi rendelkezések lépnek:", " a következő szöveggel lép hatályba:"]) });
    Some(t)
}

/// Gives the amendments of an act their official wording; the expected semantic information goes into the model
pub fn word_para(src: &mut Src, p: &mut El) {
    p.sem = SemanticInfo::default();
    let Body::Ch { intro, ch, .. } = &mut p.body else { return };
    let act = gen_act(src);
    let lead = format!("{} {}törvény ", src.pick(&["A", "Az", "A tesztelésről szóló", "Az egyes törvények módosításáról szóló"]), act_text(act));
    match ch {
        Ch::Ba { position, .. } => {
            let pure_insertion = src.bool();
            let Some(t) = word_block(src, position, pure_insertion) else { return give_up(p) };
            *position = position.without_act().relative_to(&act.into()).unwrap();
            *intro = lead + &t;
            p.sem.special_phrase = Some(SpecialPhrase::BlockAmendment(hun_law::semantic_info::BlockAmendment { position: position.clone(), pure_insertion }));
        }
        Ch::Sba { position, children, .. } => {
            let pure_insertion = src.bool();
            position.act = Some(act);
            position.parent = None;
            let mut pure = pure_insertion;
            let t = match &position.structural_element {
                Sre::Article(r) if !position.title_only => {
                    let (a, b) = (r.first_in_range(), r.last_in_range());
                    let ids = if a == b { format!("{a}.") } else { 
                        if book_of(&a.to_string()) != book_of(&b.to_string()) { return give_up(p) }
                        let b2 = b.to_string();
                        format!("{a}{}{}.", dash(src), b2.rsplit(':').next().unwrap())
                    };
                    if pure { format!("a következő {ids} §-sal egészül ki:") } else { format!("{ids} §-a helyébe a következő rendelkezés lép:") }
                }
                Sre::Article(_) => return give_up(p),
                Sre::Part(_) | Sre::Title(_) | Sre::Chapter(_) | Sre::SubtitleId(_) if position.title_only => {
                    pure = false;
                    let (name, id) = match &position.structural_element {
                        Sre::Part(n) => ("Rész", *n),
                        Sre::Title(n) => ("Cím", *n),
                        Sre::Chapter(n) => ("Fejezet", *n),
                        Sre::SubtitleId(n) => ("alcím", *n),
                        _ => unreachable!(),
                    };
                    let Some(id) = written_id(name, id) else { return give_up(p) };
                    format!("{id} {name}ének címe helyébe a következő cím lép:")
                }
                Sre::Part(n) | Sre::Title(n) | Sre::Chapter(n) if children.len() > 1 => {
                    let name = match &position.structural_element {
                        Sre::Part(_) => "Rész",
                        Sre::Title(_) => "Cím",
                        _ => "Fejezet",
                    };
                    let Some(id) = written_id(name, *n) else { return give_up(p) };
                    if pure {
                        format!("a következő {id} {name}{} egészül ki:", match name { "Rész" => "szel", "Cím" => "mel", _ => "tel" })
                    } else {
                        format!("{id} {name}e helyébe a következő rendelkezés lép:")
                    }
                }
                Sre::SubtitleUnknown => {
                    pure = true;
                    "a következő alcímmel egészül ki:".to_string()
                }
                Sre::SubtitleBeforeArticleInclusive(a) if !position.title_only => {
                    if pure { format!("a következő {a}. §-sal és az azt megelőző alcímmel egészül ki:") } else { format!("{a}. §-a és az azt megelőző alcím helyébe a következő alcím és rendelkezés lép:") }
                }
                _ => return give_up(p),
            };
            position.book = None;
            *intro = lead + &t;
            let position = position.clone();
            p.sem.special_phrase = Some(SpecialPhrase::StructuralBlockAmendment(hun_law::semantic_info::StructuralBlockAmendment { position, pure_insertion: pure }));
        }
        _ => (),
    }
}

fn give_up(p: &mut El) {
    p.body = Body::Text("Ennek nincs hivatalos megfogalmazása.".into());
    p.sem = SemanticInfo::default();
}

fn written_id(name: &str, id: hun_law::identifier::NumericIdentifier) -> Option<String> {
    let t = id.to_string();
    let num: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
    let sfx = &t[num.len()..];
    if sfx.len() > 1 {
        return None;
    }
    let n: u32 = num.parse().ok()?;
    Some(match name {
        "Rész" => {
            if !sfx.is_empty() || n > 19 {
                return None;
            }
            super::special::ORDINALS[n as usize - 1].to_string()
        }
        "alcím" => format!("{num}{}{}.", if sfx.is_empty() { "" } else { "/" }, sfx.to_uppercase()),
        _ => format!("{}{}{}.", crate::model::roman(n).unwrap(), if sfx.is_empty() { "" } else { "/" }, sfx.to_uppercase()),
    })
}

fn c22_end_to_end(c: &mut Case) -> CaseResult {
    let o = Opts { amend: true, ..Opts::layout() };
    let mut model = actgen::gen_act(&mut c.src, &o);
    for ch in &mut model.children {
        if let MChild::Art(a) = ch {
            for p in &mut a.paras {
                word_para(&mut c.src, p);
            }
        }
    }
    let lines = {
        let mut l = actgen::Lay::new(&mut c.src, false);
        l.act(&model);
        l.out
    };
    let expected = actgen::to_act(&model);
    let n = expected
        .articles()
        .flat_map(|a| &a.children)
        .filter(|p| matches!(&p.body, SAEBody::Children { children: ParagraphChildren::BlockAmendment(_) | ParagraphChildren::StructuralBlockAmendment(_), .. }))
        .count();
    c.nontrivial_if(n > 0);
    for p in expected.articles().flat_map(|a| &a.children) {
        match &p.semantic_info.special_phrase {
            Some(SpecialPhrase::BlockAmendment(b)) => c.label(match b.position.get_last_part() {
                AnyReferencePart::Paragraph(_) => "paragraphs amended",
                AnyReferencePart::Point(_) => "points amended",
                _ => "subpoints amended",
            }),
            Some(SpecialPhrase::StructuralBlockAmendment(b)) => c.label(match b.position.structural_element {
                _ if b.position.title_only => "title amended",
                Sre::Article(_) => "articles amended",
                Sre::SubtitleUnknown | Sre::SubtitleId(_) | Sre::SubtitleBeforeArticleInclusive(_) => "subtitle amended",
                _ => "larger unit amended",
            }),
            _ => (),
        }
    }
    c.input(actgen::show_lines(&lines));
    c.describe(|| format!("{n} amendments\n{}", actgen::show_lines(&lines)));
    let raw = raw_act(&model, &lines);
    let mut act = match no_panic("parse_act_structure", || parse_act_structure(&raw))? {
        Ok(a) => a,
        Err(e) => return fail("act rejected", format!("{e:?}\n{}", actgen::show_lines(&lines))),
    };
    if let Err(e) = no_panic("add_semantic_info", || act.add_semantic_info())? {
        return fail("analysis rejected", format!("{e:?}\n{}", actgen::show_lines(&lines)));
    }
    for (p, q) in act.articles().flat_map(|a| &a.children).zip(expected.articles().flat_map(|a| &a.children)) {
        if q.semantic_info.special_phrase.is_some() {
            check_eq!(p.semantic_info.special_phrase, q.semantic_info.special_phrase, "amendment", "{:?}", p.body);
        }
    }
    if let Err(e) = no_panic("convert_block_amendments", || act.convert_block_amendments())? {
        return fail("amendment rejected", format!("{e:?}\n{}", actgen::show_lines(&lines)));
    }
    let (mut act, mut expected) = (clear(&act), clear(&expected));
    act.contained_abbreviations.clear();
    actgen::drop_empty_quoted(&mut act);
    actgen::drop_empty_quoted(&mut expected);
    super::structure::compare(&act, &expected, &lines)
}
