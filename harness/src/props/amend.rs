//! C04: conversion of quoted blocks into amended elements
use hun_law::{
    identifier::range::{IdentifierRange, IdentifierRangeFrom},
    parser::{mk_act_section::ActRawText, structure::parse_act_structure},
    reference::{
        structural::{StructuralReference, StructuralReferenceElement, StructuralReferenceParent},
        Reference,
    },
    semantic_info::{self, SemanticInfo, SpecialPhrase},
    structure::*,
};

use super::{
    refs::{gen_act_id, gen_valid, MRef, Pt, Sp},
    structure::{linear_child, linear_el_ba, linear_lines, loose, raw_act, wild_lines},
};
use crate::{
    actgen::*,
    check, check_eq,
    engine::{fail, no_panic, Arm, Case, CaseResult, Kind as K, Prop, Src},
    model::{is_digraph, latin, Alpha, Art, Num, Pref, ALPHABET},
};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C04",
        level: "exploration",
        rule: "Acts whose paragraphs contain amendments (amended paragraphs, points, subpoints, articles, titles, and structural elements with articles) are typeset, parsed, marked with the position they amend, converted, and compared with the generated tree. Wrong positions and arbitrary quoted lines must give an error or a tree that spells the same lines. Non-trivial: at least one quoted block was converted (or rejected).",
        assumptions: &[
            "within quotes the text is set justified, with ragged last lines, and all lines start at the same position",
            "whether empty lines are kept in nested quotations is not specified",
        ],
        arms: vec![
            Arm { name: "convert", kind: K::Random(150_000, 5_000_000), f: c04_convert },
            Arm { name: "wrong_position", kind: K::Random(300_000, 10_000_000), f: c04_wrong },
            Arm { name: "wild", kind: K::Random(500_000, 20_000_000), f: c04_wild },
            Arm { name: "untouched", kind: K::Random(60_000, 2_000_000), f: c04_untouched },
        ],
    }]
}

fn first_num(src: &mut Src) -> Num {
    Num {
        num: src.range(1, 20) as u16,
        suffix: if src.chance(1, 4) { Some(latin(src.below(20) as usize)) } else { None },
    }
}

fn count(src: &mut Src) -> usize {
    1 + src.small(0, 3)
}

fn base_ref(src: &mut Src) -> MRef {
    let a = src_first_art(src);
    MRef {
        act: if src.bool() { Some(gen_act_id(src)) } else { None },
        article: Some((a, a)),
        ..Default::default()
    }
}

pub fn gen_amendment(src: &mut Src, o: &Opts, brackets: bool) -> (Ch, SpecialPhrase) {
    let oi = o.inner();
    let bracket = |src: &mut Src, ok: bool| {
        if ok && src.chance(1, 3) {
            Some(gen_text(src, o, if o.layout { Role::Simple } else { Role::Para }))
        } else {
            None
        }
    };
    let intro = bracket(src, brackets);
    let wrap = bracket(src, true);
    let pure_insertion = src.bool();
    if src.chance(3, 5) {
        let mut m = base_ref(src);
        let n = count(src);
        let mut article_header = None;
        let opt_par = |src: &mut Src, m: &mut MRef| {
            if src.bool() {
                let p = first_num(src);
                m.paragraph = Some((p, p));
            }
        };
        let (kind, els): (Kind, Vec<El>) = match src.below(5) {
            0 => {
                let f = first_num(src);
                let ids = gen_num_ids(src, f, n);
                m.paragraph = Some((ids[0], *ids.last().unwrap()));
                if src.chance(1, 3) {
                    article_header = Some(format!("{}. §", m.article.unwrap().0.display()));
                }
                (Kind::Para, ids.into_iter().map(|i| gen_para(src, &oi, Some(i))).collect())
            }
            1 => {
                let f = first_num(src);
                let ids = gen_num_ids(src, f, n);
                opt_par(src, &mut m);
                m.point = Some(Pt::N(ids[0], *ids.last().unwrap()));
                (Kind::Num, ids.into_iter().map(|i| gen_num_point(src, &oi, i)).collect())
            }
            2 => {
                let f = src.below(28) as usize;
                let ids = gen_alpha_ids(src, f, n, true);
                opt_par(src, &mut m);
                m.point = Some(Pt::A(Alpha(ids[0]), Alpha(*ids.last().unwrap())));
                (Kind::Alpha, ids.into_iter().map(|i| gen_alpha_point(src, &oi, i)).collect())
            }
            3 => {
                let f = first_num(src);
                let ids = gen_num_ids(src, f, n);
                opt_par(src, &mut m);
                let p = Alpha(src.below(34) as usize);
                m.point = Some(Pt::A(p, p));
                m.subpoint = Some(Sp::N(ids[0], *ids.last().unwrap()));
                (Kind::NumSub, ids.into_iter().map(|i| gen_num_sub(src, &oi, i)).collect())
            }
            _ => {
                let f = latin(src.below(20) as usize);
                let ids = gen_alpha_ids(src, f, n, false);
                opt_par(src, &mut m);
                let prefix = if src.bool() {
                    let p = latin(src.below(26) as usize);
                    m.point = Some(Pt::A(Alpha(p), Alpha(p)));
                    Some(p)
                } else {
                    let p = first_num(src);
                    m.point = Some(Pt::N(p, p));
                    None
                };
                let ids: Vec<Pref> = ids.into_iter().map(|chr| Pref { prefix, chr }).collect();
                m.subpoint = Some(Sp::A(ids[0], *ids.last().unwrap()));
                (Kind::AlphaSub, ids.into_iter().map(|i| gen_alpha_sub(src, &oi, i)).collect())
            }
        };
        let position = m.build().unwrap();
        (
            Ch::Ba { intro, kind, els, wrap, position: position.clone(), article_header },
            SpecialPhrase::BlockAmendment(semantic_info::BlockAmendment { position, pure_insertion }),
        )
    } else {
        let mut title_only = false;
        let mut headless = false;
        let (children, structural_element) = match src.below(4) {
            0 => {
                let mut a = src_first_art(src);
                let first = a;
                let n = count(src);
                let mut v = Vec::new();
                for i in 0..n {
                    if i > 0 {
                        a = next_art(src, a);
                    }
                    v.push(MChild::Art(gen_article(src, &oi, a)));
                }
                title_only = src.chance(1, 8);
                (v, StructuralReferenceElement::Article(IdentifierRange::from_range(first.id(), a.id())))
            }
            1 => {
                title_only = true;
                let (ty, num) = match src.below(3) {
                    0 => (StructuralElementType::Part { is_special: false }, Num::plain(src.range(1, 30) as u16)),
                    1 => (StructuralElementType::Title, first_num(src)),
                    _ => (StructuralElementType::Chapter, first_num(src)),
                };
                headless = src.bool();
                let title = gen_text(src, &oi, Role::Title);
                let el = match ty {
                    StructuralElementType::Part { .. } => StructuralReferenceElement::Part(num.id()),
                    StructuralElementType::Title => StructuralReferenceElement::Title(num.id()),
                    _ => StructuralReferenceElement::Chapter(num.id()),
                };
                (vec![MChild::Se { ty, num, title, change: None }], el)
            }
            2 => {
                title_only = true;
                let c = loop {
                    let c = gen_subtitle(src, &oi);
                    if let MChild::Sub { change: None, .. } = c {
                        break c;
                    }
                };
                let art = src_first_art(src).id();
                let el = match src.below(5) {
                    0 => StructuralReferenceElement::SubtitleId(first_num(src).id()),
                    1 => StructuralReferenceElement::SubtitleTitle(gen_text(src, &oi, Role::Title)),
                    2 => StructuralReferenceElement::SubtitleAfterArticle(art),
                    3 => StructuralReferenceElement::SubtitleBeforeArticle(art),
                    _ => StructuralReferenceElement::SubtitleBeforeArticleInclusive(art),
                };
                (vec![c], el)
            }
            _ => {
                let mut ch = gen_children(src, &oi, 3, src_first_art);
                if ch.is_empty() {
                    ch.push(gen_se(src, &oi));
                }
                let n = first_num(src).id();
                let el = match src.below(7) {
                    0 => StructuralReferenceElement::Chapter(n),
                    1 => StructuralReferenceElement::Part(n),
                    2 => StructuralReferenceElement::Title(n),
                    3 => StructuralReferenceElement::SubtitleId(n),
                    4 => StructuralReferenceElement::SubtitleUnknown,
                    5 => StructuralReferenceElement::SubtitleRange(IdentifierRange::from_range(n, n)),
                    _ => StructuralReferenceElement::SubtitleBeforeArticleInclusive(src_first_art(src).id()),
                };
                (ch, el)
            }
        };
        let position = StructuralReference {
            act: if src.bool() {
                let (year, number) = gen_act_id(src);
                Some(hun_law::identifier::ActIdentifier { year, number })
            } else {
                None
            },
            book: None,
            parent: if src.chance(1, 4) { Some(StructuralReferenceParent::Chapter(first_num(src).id())) } else { None },
            structural_element,
            title_only,
        };
        (
            Ch::Sba { intro, children, wrap, position: position.clone(), headless },
            SpecialPhrase::StructuralBlockAmendment(semantic_info::StructuralBlockAmendment { position, pure_insertion }),
        )
    }
}

fn amend_opts() -> Opts {
    Opts { amend: true, ..Opts::layout() }
}

/// Copies the semantic information of the generated act into the parsed one
fn mark(act: &mut Act, model: &Act) -> CaseResult {
    let n = act.articles().count();
    check_eq!(n, model.articles().count(), "number of articles", "parsed act");
    for (a, m) in act.articles_mut().zip(model.articles()) {
        check_eq!(a.children.len(), m.children.len(), "number of paragraphs", "article {}", m.identifier);
        for (p, q) in a.children.iter_mut().zip(&m.children) {
            p.semantic_info = q.semantic_info.clone();
        }
    }
    Ok(())
}

fn amendments(a: &Act) -> usize {
    a.articles()
        .flat_map(|a| &a.children)
        .filter(|p| {
            matches!(
                &p.body,
                SAEBody::Children {
                    children: ParagraphChildren::BlockAmendment(_) | ParagraphChildren::StructuralBlockAmendment(_),
                    ..
                }
            )
        })
        .count()
}

fn c04_convert(c: &mut Case) -> CaseResult {
    let mut o = amend_opts();
    let model = gen_act(&mut c.src, &o);
    o.amend = true;
    let lines = {
        let mut l = Lay::new(&mut c.src, false);
        l.act(&model);
        l.out
    };
    let mut expected = to_act(&model);
    let n = amendments(&expected);
    c.nontrivial_if(n > 0);
    for ch in expected.articles().flat_map(|a| &a.children) {
        if let SAEBody::Children { children, .. } = &ch.body {
            match children {
                ParagraphChildren::BlockAmendment(b) => c.label(match &b.children {
                    BlockAmendmentChildren::Paragraph(_) => "paragraphs",
                    BlockAmendmentChildren::NumericPoint(_) => "numeric points",
                    BlockAmendmentChildren::AlphabeticPoint(_) => "alphabetic points",
                    BlockAmendmentChildren::NumericSubpoint(_) => "numeric subpoints",
                    BlockAmendmentChildren::AlphabeticSubpoint(_) => "alphabetic subpoints",
                }),
                ParagraphChildren::StructuralBlockAmendment(_) => c.label("structural"),
                ParagraphChildren::QuotedBlock(_) => c.label("quoted only"),
                _ => (),
            }
        }
    }
    c.input(show_lines(&lines));
    c.describe(|| format!("{n} amendments\n{}", show_lines(&lines)));
    let raw = raw_act(&model, &lines);
    let mut act = match no_panic("parse_act_structure", || parse_act_structure(&raw))? {
        Ok(a) => a,
        Err(e) => return fail("act rejected", format!("{e:?}\n{}", show_lines(&lines))),
    };
    mark(&mut act, &expected)?;
    if let Err(e) = no_panic("convert_block_amendments", || act.convert_block_amendments())? {
        return fail("amendment rejected", format!("{e:?}\n{}", show_lines(&lines)));
    }
    drop_empty_quoted(&mut act);
    drop_empty_quoted(&mut expected);
    super::structure::compare(&act, &expected, &lines)
}

/// A single paragraph with one quoted block and the mark
fn para_with(lines: Vec<hun_law::util::indentedline::IndentedLine>, phrase: SpecialPhrase) -> Paragraph {
    Paragraph {
        identifier: Default::default(),
        body: SAEBody::Children {
            intro: "Az Xtv. helyébe a következő lép:".into(),
            children: ParagraphChildren::QuotedBlock(vec![QuotedBlock {
                intro: Some("bevezető".into()),
                lines,
                wrap_up: Some("befejező".into()),
            }]),
            wrap_up: Some("lezárás".into()),
        },
        semantic_info: SemanticInfo { special_phrase: Some(phrase), ..Default::default() },
        last_change: None,
    }
}

fn gen_wrong(src: &mut Src) -> (Vec<crate::props::lines::MLine>, SpecialPhrase, String, bool) {
    let o = amend_opts();
    let (ch, phrase) = gen_amendment(src, &o, true);
    match (ch, phrase) {
        (Ch::Ba { kind, els, article_header, .. }, SpecialPhrase::BlockAmendment(mut ba)) => {
            let mut l = Lay::new(src, true);
            let _ = article_header;
            l.elements(kind, &els);
            let lines = l.out;
            // Another position of the same depth, or of another one
            let mut wrong = true;
            let m = if src.chance(1, 3) {
                gen_valid(src)
            } else {
                let mut m = base_ref(src);
                let n = first_num(src);
                let a = src.below(28) as usize;
                match kind {
                    Kind::Para => {
                        m.paragraph = Some((n, n));
                        wrong = n.compact() != els[0].id;
                    }
                    Kind::Num => {
                        m.point = Some(Pt::N(n, n));
                        wrong = n.compact() != els[0].id;
                    }
                    Kind::Alpha => {
                        m.point = Some(Pt::A(Alpha(a), Alpha(a)));
                        wrong = ALPHABET[a] != els[0].id;
                    }
                    Kind::NumSub => {
                        m.point = Some(Pt::A(Alpha(a), Alpha(a)));
                        m.subpoint = Some(Sp::N(n, n));
                        wrong = n.compact() != els[0].id;
                    }
                    Kind::AlphaSub => {
                        let p = latin(src.below(26) as usize);
                        m.point = Some(Pt::A(Alpha(p), Alpha(p)));
                        let chr = if is_digraph(a) { 0 } else { a };
                        let pf = Pref { prefix: if src.bool() { Some(p) } else { None }, chr };
                        m.subpoint = Some(Sp::A(pf, pf));
                        wrong = pf.display() != els[0].id;
                    }
                }
                m
            };
            // Is the position of another kind, where the lines could not be read?
            let level = m.last_level();
            let same_kind = match kind {
                Kind::Para => level == Some(2),
                Kind::Num => level == Some(3) && matches!(m.point, Some(Pt::N(..))),
                Kind::Alpha => level == Some(3) && matches!(m.point, Some(Pt::A(..))),
                Kind::NumSub => level == Some(4) && matches!(m.subpoint, Some(Sp::N(..))),
                Kind::AlphaSub => level == Some(4) && matches!(m.subpoint, Some(Sp::A(..))),
            };
            if same_kind {
                let first = match (m.paragraph, m.point, m.subpoint) {
                    (_, _, Some(Sp::N(a, _))) => a.compact(),
                    (_, _, Some(Sp::A(a, _))) => a.display(),
                    (_, Some(Pt::N(a, _)), _) => a.compact(),
                    (_, Some(Pt::A(a, _)), _) => a.display().to_string(),
                    (Some((a, _)), ..) => a.compact(),
                    _ => String::new(),
                };
                wrong = first != els[0].id;
            } else {
                // "1." is both a point and a subpoint, "a)" likewise
                let comp = |k: Kind| matches!(k, Kind::Num | Kind::NumSub);
                let to_num = matches!((level, m.point, m.subpoint), (Some(3), Some(Pt::N(..)), _) | (Some(4), _, Some(Sp::N(..))));
                let to_alpha = matches!((level, m.point, m.subpoint), (Some(3), Some(Pt::A(..)), _) | (Some(4), _, Some(Sp::A(..))));
                if comp(kind) && to_num || matches!(kind, Kind::Alpha | Kind::AlphaSub) && to_alpha {
                    wrong = false; // undecided
                } else {
                    wrong = wrong || true;
                }
            }
            ba.position = m.build().unwrap();
            (lines, SpecialPhrase::BlockAmendment(ba), m.compact(), wrong)
        }
        (Ch::Sba { children, headless, .. }, SpecialPhrase::StructuralBlockAmendment(mut sba)) => {
            let mut l = Lay::new(src, true);
            if headless {
                l.headless(&children[0]);
            } else {
                l.children(&children);
            }
            let lines = l.out;
            let a = src_first_art(src);
            let wrong = match &children[0] {
                MChild::Art(m) => m.id != a,
                _ => true,
            };
            sba.position.structural_element = StructuralReferenceElement::Article(IdentifierRange::from_single(a.id()));
            (lines, SpecialPhrase::StructuralBlockAmendment(sba), a.display(), wrong)
        }
        _ => unreachable!(),
    }
}

fn c04_wrong(c: &mut Case) -> CaseResult {
    let (lines, phrase, desc, wrong) = gen_wrong(&mut c.src);
    c.nontrivial_if(wrong);
    c.input((show_lines(&lines), &desc));
    c.describe(|| format!("position {desc}\n{}", show_lines(&lines)));
    let mut p = para_with(build_lines(&lines), phrase);
    let r = no_panic("convert_block_amendments", || p.convert_block_amendments())?;
    if wrong {
        check!(r.is_err(), "wrong position accepted", "position {desc}\n{}\n{p:?}", show_lines(&lines));
    }
    Ok(())
}

fn gen_any_position(src: &mut Src) -> (SpecialPhrase, Option<Art>) {
    if src.bool() {
        let mut m = gen_valid(src);
        if src.chance(3, 4) {
            // small identifiers, which the lines are likely to have
            m = base_ref(src);
            match src.below(4) {
                0 => m.paragraph = Some((Num::plain(1), Num::plain(2))),
                1 => m.point = Some(Pt::N(Num::plain(1), Num::plain(2))),
                2 => m.point = Some(Pt::A(Alpha(0), Alpha(1))),
                _ => {
                    m.point = Some(Pt::A(Alpha(0), Alpha(0)));
                    m.subpoint = Some(if src.bool() {
                        Sp::N(Num::plain(1), Num::plain(1))
                    } else {
                        let p = Pref { prefix: Some(0), chr: 0 };
                        Sp::A(p, p)
                    });
                }
            }
        }
        (
            SpecialPhrase::BlockAmendment(semantic_info::BlockAmendment {
                position: m.build().unwrap(),
                pure_insertion: src.bool(),
            }),
            m.article.map(|a| a.0),
        )
    } else {
        let n = Num::plain(src.range(1, 3) as u16).id();
        let a = Art { book: None, id: Num::plain(src.range(1, 3) as u16) };
        let structural_element = match src.below(9) {
            0 => StructuralReferenceElement::Article(IdentifierRange::from_single(a.id())),
            1 => StructuralReferenceElement::Part(n),
            2 => StructuralReferenceElement::Title(n),
            3 => StructuralReferenceElement::Chapter(n),
            4 => StructuralReferenceElement::SubtitleId(n),
            5 => StructuralReferenceElement::SubtitleUnknown,
            6 => StructuralReferenceElement::SubtitleRange(IdentifierRange::from_range(n, n)),
            7 => StructuralReferenceElement::SubtitleAfterArticle(a.id()),
            _ => StructuralReferenceElement::SubtitleTitle("Cím".into()),
        };
        (
            SpecialPhrase::StructuralBlockAmendment(semantic_info::StructuralBlockAmendment {
                position: StructuralReference {
                    act: None,
                    book: None,
                    parent: None,
                    structural_element,
                    title_only: src.chance(1, 3),
                },
                pure_insertion: false,
            }),
            None,
        )
    }
}

fn c04_wild(c: &mut Case) -> CaseResult {
    let (phrase, _) = gen_any_position(&mut c.src);
    let n = c.src.small(0, 12);
    let lines = wild_lines(&mut c.src, n, true);
    c.input((show_lines(&lines), format!("{phrase:?}")));
    c.describe(|| format!("{phrase:?}\n{}", show_lines(&lines)));
    let built = build_lines(&lines);
    let mut p = para_with(built, phrase.clone());
    let r = no_panic("convert_block_amendments", || p.convert_block_amendments())?;
    c.label(if r.is_ok() { "accepted" } else { "rejected" });
    if r.is_err() {
        c.nontrivial_if(!lines.is_empty());
        return Ok(());
    }
    c.nontrivial = true;
    check!(!lines.is_empty(), "empty block accepted", "{phrase:?} gave {p:?}");
    // What came out spells what went in
    let SAEBody::Children { intro, children, wrap_up } = &p.body else {
        return fail("body lost", format!("{p:?}"));
    };
    check_eq!(intro, "Az Xtv. helyébe a következő lép:", "intro changed", "");
    check_eq!(wrap_up.as_deref(), Some("lezárás"), "wrap-up changed", "");
    let (bi, text, bw) = match children {
        ParagraphChildren::BlockAmendment(b) => (&b.intro, linear_el_ba(&b.children), &b.wrap_up),
        ParagraphChildren::StructuralBlockAmendment(b) => {
            (&b.intro, b.children.iter().map(linear_child).collect::<String>(), &b.wrap_up)
        }
        other => return fail("not converted", format!("{other:?}")),
    };
    check_eq!(bi.as_deref(), Some("bevezető"), "block intro changed", "");
    check_eq!(bw.as_deref(), Some("befejező"), "block wrap-up changed", "");
    let want = loose(&linear_lines(&lines));
    let got = loose(&text);
    let mut ok = got == want;
    if let SpecialPhrase::BlockAmendment(b) = &phrase {
        // The header of the article may be repeated in front of its paragraphs
        if let Some(a) = b.position.article() {
            ok |= loose(&format!("{}. §{text}", a.first_in_range())) == want;
        }
    }
    if let SpecialPhrase::StructuralBlockAmendment(b) = &phrase {
        if b.position.title_only {
            // The identifier of the position is used when the lines have no header
            ok |= got.ends_with(&want);
        }
    }
    check!(ok, "text not conserved", "{phrase:?}\n{}\n  got:      {got}\n  expected: {want}\n{p:?}", show_lines(&lines));
    Ok(())
}

fn c04_untouched(c: &mut Case) -> CaseResult {
    let o = Opts { sem: true, layout: false, amend: true, nested_amend: true, ..Opts::layout() };
    let model = gen_act(&mut c.src, &o);
    // Already converted amendments, other phrases, texts, several blocks: nothing to convert
    let mut act = to_act(&model);
    for a in act.articles_mut() {
        for p in &mut a.children {
            if let SAEBody::Children { children: ParagraphChildren::QuotedBlock(q), .. } = &mut p.body {
                if q.len() == 1 && p.semantic_info.special_phrase.is_some() {
                    let b = q[0].clone();
                    q.push(b);
                }
            }
            if c.src.chance(1, 3) {
                let one = matches!(&p.body, SAEBody::Children { children: ParagraphChildren::QuotedBlock(q), .. } if q.len() == 1);
                if !one {
                    p.semantic_info.special_phrase = Some(gen_any_position(&mut c.src).0);
                    c.nontrivial = true;
                }
            }
        }
    }
    c.input(format!("{act:?}"));
    c.describe(|| format!("{act:?}"));
    let before = act.clone();
    if let Err(e) = no_panic("convert_block_amendments", || act.convert_block_amendments())? {
        return fail("conversion of nothing failed", format!("{e:?}\n{before:?}"));
    }
    check_eq!(act, before, "changed without an amendment", "");
    Ok(())
}

#[allow(unused)]
fn _types(_: &ActRawText, _: &Reference) {}
