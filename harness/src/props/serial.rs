//! C10: serialization
use hun_law::{
    fixups::Fixup,
    identifier::{range::{IdentifierRange, IdentifierRangeFrom}, ActIdentifier},
    output::{CliOutput, OutputFormat},
    parser::{mk_act_section::ActRawText, pdf::PageOfLines},
    reference::structural::{StructuralReference, StructuralReferenceElement, StructuralReferenceParent},
    semantic_info::{self, *},
    structure::*,
    util::{indentedline::IndentedLine, singleton_yaml},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;

use super::{
    lines::{gen_mline, MLine},
    refs::{gen_act_id, gen_valid},
};
use crate::{
    actgen::*,
    check, check_eq,
    engine::{fail, no_panic, Arm, Case, CaseResult, Kind as K, Prop, Src},
    model::{gen_art, gen_num},
};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        level: "exploration",
        rule: "Random acts (all kinds of children, block amendments within block amendments, all semantic information variants, last changes, texts that look like other YAML types) are written as JSON and YAML by the command line writer and by the serializers, read back and compared field by field, then written again and compared byte by byte. Raw acts, pages, fixups and lines likewise. Non-trivial: an act with at least one list, quotation or piece of semantic information.",
        assumptions: &[
            "positions that are not binary fractions may differ by 1e-9 after reading (JSON numbers are read with an error of one unit in the last place)",
            "texts consist of characters YAML can carry: no control characters other than tab and line feed",
        ],
        arms: vec![
            Arm { name: "act", kind: K::Random(6_000, 200_000), f: c10_act },
            Arm { name: "act_texts", kind: K::Random(150_000, 4_000_000), f: c10_small },
            Arm { name: "semantic", kind: K::Random(400_000, 8_000_000), f: c10_semantic },
            Arm { name: "lines", kind: K::Random(60_000, 2_000_000), f: c10_lines },
            Arm { name: "raw", kind: K::Random(30_000, 1_000_000), f: c10_raw },
            Arm { name: "fixups", kind: K::Random(100_000, 3_000_000), f: c10_fixups },
        ],
    }]
}

pub fn gen_structural_reference(src: &mut Src) -> StructuralReference {
    let n = gen_num(src).id();
    let m = gen_num(src).id();
    let art = gen_art(src).id();
    let art2 = gen_art(src).id();
    let (n, m) = if n <= m { (n, m) } else { (m, n) };
    let (art, art2) = if art <= art2 { (art, art2) } else { (art2, art) };
    let structural_element = match src.below(11) {
        0 => StructuralReferenceElement::Part(n),
        1 => StructuralReferenceElement::Title(n),
        2 => StructuralReferenceElement::Chapter(n),
        3 => StructuralReferenceElement::SubtitleId(n),
        4 => StructuralReferenceElement::SubtitleRange(IdentifierRange::from_range(n, m)),
        5 => StructuralReferenceElement::SubtitleTitle(gen_any_text(src)),
        6 => StructuralReferenceElement::SubtitleAfterArticle(art),
        7 => StructuralReferenceElement::SubtitleBeforeArticle(art),
        8 => StructuralReferenceElement::SubtitleBeforeArticleInclusive(art),
        9 => StructuralReferenceElement::SubtitleUnknown,
        _ => StructuralReferenceElement::Article(IdentifierRange::from_range(art, art2)),
    };
    let parent = if src.chance(1, 3) {
        Some(match src.below(6) {
            0 => StructuralReferenceParent::Part(n),
            1 => StructuralReferenceParent::Title(n),
            2 => StructuralReferenceParent::Chapter(n),
            3 => StructuralReferenceParent::SubtitleId(n),
            4 => StructuralReferenceParent::SubtitleRange(IdentifierRange::from_range(n, m)),
            _ => StructuralReferenceParent::SubtitleTitle(gen_any_text(src)),
        })
    } else {
        None
    };
    StructuralReference {
        act: if src.bool() { Some(act_id(src)) } else { None },
        book: if src.chance(1, 4) { Some(n) } else { None },
        parent,
        structural_element,
        title_only: src.chance(1, 4),
    }
}

fn act_id(src: &mut Src) -> ActIdentifier {
    let (year, number) = gen_act_id(src);
    ActIdentifier { year, number }
}

/// Any text, including ones that look like something else
pub fn gen_any_text(src: &mut Src) -> String {
    if src.bool() {
        sanitize(&gen_wild_text(src))
    } else {
        let o = Opts { layout: false, ..Opts::layout() };
        sanitize(&plain(&gen_text(src, &o, Role::Point)))
    }
}

fn sanitize(s: &str) -> String {
    s.chars().filter(|c| *c == '\n' || *c == '\t' || !c.is_control()).collect()
}

pub fn gen_special_phrase(src: &mut Src) -> SpecialPhrase {
    match src.below(5) {
        0 => SpecialPhrase::BlockAmendment(semantic_info::BlockAmendment {
            position: gen_valid(src).build().unwrap(),
            pure_insertion: src.bool(),
        }),
        1 => {
            let n = src.small(0, 2);
            let m = src.small(0, 2);
            SpecialPhrase::EnforcementDate(EnforcementDate {
                positions: (0..n).map(|_| gen_valid(src).build().unwrap()).collect(),
                structural_positions: (0..m).map(|_| gen_structural_reference(src)).collect(),
                is_default: src.bool(),
                date: match src.below(3) {
                    0 => EnforcementDateType::Date(gen_date(src)),
                    1 => EnforcementDateType::DaysAfterPublication(src.below(65536) as u16),
                    _ => EnforcementDateType::DayInMonthAfterPublication {
                        month: if src.bool() { Some(src.below(256) as u8) } else { None },
                        day: src.below(65536) as u16,
                    },
                },
                inline_repeal: if src.chance(1, 3) { Some(gen_date(src)) } else { None },
            })
        }
        2 => {
            let n = src.small(0, 2);
            SpecialPhrase::Repeal(
                (0..n)
                    .map(|_| {
                        if src.bool() {
                            RepealReference::Reference(gen_valid(src).build().unwrap())
                        } else {
                            RepealReference::StructuralReference(gen_structural_reference(src))
                        }
                    })
                    .collect(),
            )
        }
        3 => {
            let n = src.small(0, 2);
            SpecialPhrase::TextAmendment(
                (0..n)
                    .map(|_| TextAmendment {
                        reference: match src.below(3) {
                            0 => TextAmendmentReference::SAE {
                                reference: gen_valid(src).build().unwrap(),
                                amended_part: match src.below(3) {
                                    0 => TextAmendmentSAEPart::All,
                                    1 => TextAmendmentSAEPart::IntroOnly,
                                    _ => TextAmendmentSAEPart::WrapUpOnly,
                                },
                            },
                            1 => TextAmendmentReference::Structural(gen_structural_reference(src)),
                            _ => TextAmendmentReference::ArticleTitle(gen_valid(src).build().unwrap()),
                        },
                        from: gen_any_text(src),
                        to: gen_any_text(src),
                    })
                    .collect(),
            )
        }
        _ => SpecialPhrase::StructuralBlockAmendment(semantic_info::StructuralBlockAmendment {
            position: gen_structural_reference(src),
            pure_insertion: src.bool(),
        }),
    }
}

pub fn gen_semantic_info(src: &mut Src) -> SemanticInfo {
    let n = src.small(0, 3);
    let m = src.small(0, 2);
    SemanticInfo {
        outgoing_references: (0..n)
            .map(|_| {
                let start = src.small(0, 1000);
                OutgoingReference { start, end: start + src.small(0, 100), reference: gen_valid(src).build().unwrap() }
            })
            .collect(),
        new_abbreviations: (0..m).map(|_| (gen_any_text(src), act_id(src))).collect(),
        special_phrase: if src.bool() { Some(gen_special_phrase(src)) } else { None },
    }
}

pub fn gen_last_change(src: &mut Src) -> LastChange {
    LastChange {
        date: gen_date(src),
        cause: match src.below(3) {
            0 => ChangeCause::AutoRepeal,
            1 => ChangeCause::Amendment(gen_valid(src).build().unwrap()),
            _ => ChangeCause::Other(gen_any_text(src)),
        },
    }
}

// ---------------- comparison ----------------

/// Numbers may differ by the error of reading them
fn close(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            x == y
                || match (x.as_f64(), y.as_f64()) {
                    (Some(x), Some(y)) => (x - y).abs() <= 1e-9 * (1.0 + x.abs()),
                    _ => false,
                }
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| close(x, y)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|((kx, vx), (ky, vy))| kx == ky && close(vx, vy))
        }
        _ => a == b,
    }
}

/// Write and read back in every format
fn round<T: Serialize + DeserializeOwned + std::fmt::Debug>(v: &T, what: &'static str, eq: impl Fn(&T, &T) -> bool) -> CaseResult {
    let json = match no_panic("to JSON", || serde_json::to_string(v))? {
        Ok(s) => s,
        Err(e) => return fail(format!("{what}: no JSON"), format!("{e:?}\n{v:?}")),
    };
    match no_panic("from JSON", || serde_json::from_str::<T>(&json))? {
        Ok(r) => {
            check!(eq(v, &r), format!("{what}: JSON round trip"), "\n  wrote: {v:?}\n  read:  {r:?}\n{json}");
            let again = serde_json::to_string(&r).unwrap();
            check_eq!(again, json, format!("{what}: JSON written again"), "");
        }
        Err(e) => return fail(format!("{what}: JSON not readable"), format!("{e:?}\n{json}")),
    }
    let yaml = match no_panic("to YAML", || singleton_yaml::to_string(v))? {
        Ok(s) => s,
        Err(e) => return fail(format!("{what}: no YAML"), format!("{e:?}\n{v:?}")),
    };
    check_eq!(
        singleton_yaml::to_vec(v).ok(),
        Some(yaml.as_bytes().to_vec()),
        format!("{what}: YAML writers differ"),
        ""
    );
    match no_panic("from YAML", || singleton_yaml::from_str::<T>(&yaml))? {
        Ok(r) => {
            check!(eq(v, &r), format!("{what}: YAML round trip"), "\n  wrote: {v:?}\n  read:  {r:?}\n{yaml}");
            let again = singleton_yaml::to_string(&r).unwrap();
            check_eq!(again, yaml, format!("{what}: YAML written again"), "");
        }
        Err(e) => return fail(format!("{what}: YAML not readable"), format!("{e:?}\n{yaml}")),
    }
    match no_panic("from YAML reader", || singleton_yaml::from_reader::<_, T>(yaml.as_bytes()))? {
        Ok(r) => check!(eq(v, &r), format!("{what}: YAML reader"), "{yaml}"),
        Err(e) => return fail(format!("{what}: YAML reader fails"), format!("{e:?}\n{yaml}")),
    }
    match no_panic("from YAML slice", || singleton_yaml::from_slice::<T>(yaml.as_bytes()))? {
        Ok(r) => check!(eq(v, &r), format!("{what}: YAML slice"), "{yaml}"),
        Err(e) => return fail(format!("{what}: YAML slice fails"), format!("{e:?}\n{yaml}")),
    }
    Ok(())
}

/// Lines compare equal when only some of their fields are: look at all of them
fn deep<T: Serialize>(v: &T) -> Value {
    serde_json::to_value(v).unwrap()
}

fn sanitize_el(v: &mut Value) {
    match v {
        Value::String(s) => *s = sanitize(s),
        Value::Array(a) => a.iter_mut().for_each(sanitize_el),
        Value::Object(o) => o.values_mut().for_each(sanitize_el),
        _ => (),
    }
}

fn check_act(act: &Act) -> CaseResult {
    round(act, "act", |a, b| a == b && close(&deep(a), &deep(b)))?;
    // What the command line tool writes
    for f in [OutputFormat::Json, OutputFormat::Yaml] {
        let mut out = Vec::new();
        if let Err(e) = no_panic("cli_output", || act.clone().cli_output(80, f, &mut out))? {
            return fail("act: not printed", format!("{e:?}"));
        }
        let back: Result<Act, String> = match f {
            OutputFormat::Json => serde_json::from_slice(&out).map_err(|e| e.to_string()),
            _ => singleton_yaml::from_slice(&out).map_err(|e| e.to_string()),
        };
        match back {
            Ok(b) => check!(b == *act && close(&deep(&b), &deep(act)), "act: printed form", "{f:?}\n{}", String::from_utf8_lossy(&out)),
            Err(e) => return fail("act: printed form not readable", format!("{f:?} {e}\n{}", String::from_utf8_lossy(&out))),
        }
    }
    Ok(())
}

fn clean(act: Act) -> Act {
    // Texts with control characters cannot be written as YAML at all
    let mut v = deep(&act);
    sanitize_el(&mut v);
    serde_json::from_value(v).unwrap_or(act)
}

fn gen_c10_act(src: &mut Src) -> Act {
    let o = Opts { sem: true, layout: false, amend: true, nested_amend: true, ..Opts::layout() };
    let m = gen_act(src, &o);
    let mut act = to_act(&m);
    let n = src.small(0, 2);
    for _ in 0..n {
        act.contained_abbreviations.insert(gen_any_text(src), act_id(src));
    }
    act
}

fn c10_act(c: &mut Case) -> CaseResult {
    let act = clean(gen_c10_act(&mut c.src));
    c.nontrivial_if(act.articles().any(|a| {
        a.children.iter().any(|p| matches!(p.body, SAEBody::Children { .. }) || !p.semantic_info.is_empty())
    }));
    c.input(format!("{act:?}"));
    c.describe(|| format!("{act:?}"));
    check_act(&act)
}

/// One article with two texts: the smallest act in which texts may go wrong
fn c10_small(c: &mut Case) -> CaseResult {
    let s = &mut c.src;
    let text = gen_any_text(s);
    let act = Act {
        identifier: act_id(s),
        subject: gen_any_text(s),
        preamble: gen_any_text(s),
        publication_date: gen_date(s),
        contained_abbreviations: Default::default(),
        children: vec![
            ActChild::Subtitle(Subtitle {
                identifier: if s.bool() { Some(gen_num(s).id()) } else { None },
                title: gen_any_text(s),
                last_change: None,
            }),
            ActChild::Article(Article {
                identifier: gen_art(s).id(),
                title: if s.bool() { Some(gen_any_text(s)) } else { None },
                children: vec![Paragraph {
                    identifier: if s.bool() { gen_num(s).compact().parse().unwrap() } else { Default::default() },
                    body: if s.bool() {
                        SAEBody::Text(text)
                    } else {
                        SAEBody::Children {
                            intro: text,
                            children: ParagraphChildren::QuotedBlock(vec![QuotedBlock {
                                intro: if s.bool() { Some(gen_any_text(s)) } else { None },
                                lines: vec![],
                                wrap_up: if s.bool() { Some(gen_any_text(s)) } else { None },
                            }]),
                            wrap_up: if s.bool() { Some(gen_any_text(s)) } else { None },
                        }
                    },
                    semantic_info: Default::default(),
                    last_change: None,
                }],
                last_change: None,
            }),
        ],
    };
    c.nontrivial = true;
    c.input(format!("{act:?}"));
    c.describe(|| format!("{act:?}"));
    check_act(&act)
}

fn c10_semantic(c: &mut Case) -> CaseResult {
    let si = gen_semantic_info(&mut c.src);
    let lc = gen_last_change(&mut c.src);
    c.nontrivial_if(!si.is_empty());
    c.input(format!("{si:?}{lc:?}"));
    c.describe(|| format!("{si:?}\n{lc:?}"));
    let empty = si.outgoing_references.is_empty() && si.new_abbreviations.is_empty() && si.special_phrase.is_none();
    check_eq!(si.is_empty(), empty, "is_empty", "{si:?}");
    round(&si, "semantic information", |a, b| a == b)?;
    round(&lc, "last change", |a, b| a == b)
}

fn gen_c10_line(src: &mut Src) -> MLine {
    let mut l = gen_mline(src, 20);
    for ch in &mut l.chars {
        if ch.1.is_control() {
            ch.1 = 'x';
        }
    }
    l
}

fn c10_lines(c: &mut Case) -> CaseResult {
    let n = c.src.small(0, 5);
    let ls: Vec<MLine> = (0..n).map(|_| gen_c10_line(&mut c.src)).collect();
    c.nontrivial_if(ls.iter().any(|l| !l.chars.is_empty()));
    let lines: Vec<IndentedLine> = build_lines(&ls);
    c.input(format!("{ls:?}"));
    c.describe(|| format!("{ls:?}"));
    round_close(&lines, "lines")
}

/// As `round`, for values with positions
fn round_close<T: Serialize + DeserializeOwned>(v: &T, what: &'static str) -> CaseResult {
    let want = deep(v);
    let json = serde_json::to_string(v).unwrap();
    match no_panic("from JSON", || serde_json::from_str::<T>(&json))? {
        Ok(r) => check!(close(&want, &deep(&r)), format!("{what}: JSON round trip"), "{json}"),
        Err(e) => return fail(format!("{what}: JSON not readable"), format!("{e:?}\n{json}")),
    }
    let yaml = match no_panic("to YAML", || singleton_yaml::to_string(v))? {
        Ok(s) => s,
        Err(e) => return fail(format!("{what}: no YAML"), format!("{e:?}\n{json}")),
    };
    match no_panic("from YAML", || singleton_yaml::from_str::<T>(&yaml))? {
        Ok(r) => check!(close(&want, &deep(&r)), format!("{what}: YAML round trip"), "{yaml}"),
        Err(e) => return fail(format!("{what}: YAML not readable"), format!("{e:?}\n{yaml}")),
    }
    Ok(())
}

fn c10_raw(c: &mut Case) -> CaseResult {
    let s = &mut c.src;
    let n = s.small(0, 5);
    let ls: Vec<MLine> = (0..n).map(|_| gen_c10_line(s)).collect();
    let raw = ActRawText {
        identifier: act_id(s),
        subject: gen_any_text(s),
        publication_date: gen_date(s),
        body: build_lines(&ls),
    };
    c.nontrivial = !ls.is_empty();
    c.input(format!("{ls:?}{raw:?}"));
    c.describe(|| format!("{raw:?}"));
    let pages = || vec![PageOfLines { lines: raw.body.clone() }, PageOfLines { lines: vec![] }, PageOfLines { lines: raw.body.clone() }];
    for f in [OutputFormat::Json, OutputFormat::Yaml] {
        let mut out = Vec::new();
        if let Err(e) = no_panic("cli_output", || raw.clone().cli_output(80, f, &mut out))? {
            return fail("raw act: not printed", format!("{e:?}"));
        }
        let read = |out: &[u8]| -> Result<Value, String> {
            match f {
                OutputFormat::Json => serde_json::from_slice(out).map_err(|e| e.to_string()),
                _ => singleton_yaml::from_slice(out).map_err(|e| e.to_string()),
            }
        };
        let v = match read(&out) {
            Ok(v) => v,
            Err(e) => return fail("raw act: not readable", format!("{f:?} {e}\n{}", String::from_utf8_lossy(&out))),
        };
        let txt = String::from_utf8_lossy(&out).to_string();
        let id: Result<ActIdentifier, _> = serde_json::from_value(v["identifier"].clone());
        check!(matches!(&id, Ok(i) if *i == raw.identifier), "raw act: identifier", "{id:?}\n{txt}");
        check_eq!(v["subject"].as_str(), Some(raw.subject.as_str()), "raw act: subject", "{txt}");
        check_eq!(
            v["publication_date"].as_str().map(|s| s.to_string()),
            Some(format!("{:?}", raw.publication_date)),
            "raw act: publication date",
            "{txt}"
        );
        let body: Result<Vec<IndentedLine>, _> = serde_json::from_value(v["body"].clone());
        check!(matches!(&body, Ok(b) if close(&deep(b), &deep(&raw.body))), "raw act: body", "{txt}");

        let mut out = Vec::new();
        if let Err(e) = no_panic("cli_output", || pages().cli_output(80, f, &mut out))? {
            return fail("pages: not printed", format!("{e:?}"));
        }
        let v = match read(&out) {
            Ok(v) => v,
            Err(e) => return fail("pages: not readable", format!("{f:?} {e}\n{}", String::from_utf8_lossy(&out))),
        };
        check!(close(&v, &deep(&pages())), "pages: contents", "{}", String::from_utf8_lossy(&out));
    }
    Ok(())
}

fn c10_fixups(c: &mut Case) -> CaseResult {
    let n = c.src.small(0, 5);
    let f: Vec<Fixup> = (0..n)
        .map(|_| {
            let s = &mut c.src;
            let m = s.small(0, 3);
            Fixup {
                after: (0..m).map(|_| gen_any_text(s)).collect(),
                old: gen_any_text(s),
                new: gen_any_text(s),
                set_bold: s.bool(),
            }
        })
        .collect();
    c.nontrivial_if(n > 0);
    c.input(format!("{f:?}"));
    c.describe(|| format!("{f:?}"));
    round(&f, "fixups", |a, b| a == b)
}
