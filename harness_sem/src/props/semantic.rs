//! C20: references in legal text
use std::{collections::BTreeMap, path::PathBuf, sync::OnceLock};

use hun_law::{
    identifier::ActIdentifier,
    parser::semantic_info::{abbreviation::AbbreviationCache, sae::SemanticInfoAdder},
    reference::Reference,
    semantic_info::{OutgoingReference, SemanticInfo, SpecialPhrase},
    util::singleton_yaml,
};
use serde::Deserialize;

use super::phrase::*;
use crate::{
    check, check_eq,
    engine::{fail, no_panic, Arm, Case, CaseResult, Fail, Kind, Prop, Src},
};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        level: "exploration",
        rule: "Sentences are generated from a model of the official phrasing of references (lists, ranges, every level, suffixes, acts by number or abbreviation, definitions of abbreviations) between words, quotes, attachments and near misses that cite nothing; the references found must be exactly the ones of the model at exactly their bytes. The repository's own sentences are checked against their stored results, embedded in other text, and mutated. Non-trivial: the text cites at least two elements.",
        assumptions: &[
            "the code generator peginator is not available: the parser is generated from /repo's grammar by a stand-in (tools/standin), with which all data tests of the repository pass",
            "an abbreviation is not used before its definition within one text, nor redefined within one text",
        ],
        arms: vec![
            Arm { name: "sentence", kind: Kind::Random(160_000, 4_000_000), f: c20_sentence },
            Arm { name: "corpus", kind: Kind::Enum(1_000, 40, 1_000), f: c20_corpus },
            Arm { name: "arbitrary", kind: Kind::Random(120_000, 3_000_000), f: c20_arbitrary },
        ],
    }]
}

pub fn extract(text: &str, known: &[(String, ActIdentifier)]) -> Result<(SemanticInfo, BTreeMap<String, ActIdentifier>), Fail> {
    let r = no_panic("extract_semantic_info", || {
        let known: BTreeMap<String, ActIdentifier> = known.iter().cloned().collect();
        let mut cache = AbbreviationCache::from(known);
        let r = SemanticInfoAdder::new(&mut cache).extract_semantic_info(text);
        (r, BTreeMap::from(cache))
    })?;
    match r {
        (Ok(i), c) => Ok((i, c)),
        (Err(e), _) => fail("extraction fails", format!("{text}\n  {e:?}")),
    }
}

pub fn mark(text: &str, refs: &[OutgoingReference]) -> String {
    let mut out = text.to_string();
    for r in refs {
        out.push_str(&format!("\n    {:?} {:?}", text.get(r.start..r.end).unwrap_or("???"), r.reference));
    }
    out
}

pub fn same_refs(text: &str, got: &[OutgoingReference], cited: &[Cited]) -> CaseResult {
    let expected: Vec<OutgoingReference> = cited.iter().map(|c| c.outgoing()).collect();
    check!(
        got == expected.as_slice(),
        "wrong references",
        "references found in {}\n  expected {}",
        mark(text, got),
        mark("", &expected)
    );
    Ok(())
}

pub fn gen_known(src: &mut Src) -> Abbr {
    let mut known: Abbr = vec![];
    for _ in 0..src.usize(0, 4) {
        let a = src.pick(&ABBREVIATIONS).to_string();
        if known.iter().all(|(k, _)| *k != a) {
            let act = gen_act(src);
            known.push((a, act));
        }
    }
    known
}

fn c20_sentence(case: &mut Case) -> CaseResult {
    let src = &mut case.src;
    let before = gen_known(src);
    let mut known = before.clone();
    let s = gen_sentence(src, &mut known);
    let (text, cited) = (s.text, s.cited);
    case.nontrivial_if(cited.len() >= 2);
    case.label_if(cited.iter().any(|c| c.what.act.is_some()), "act");
    case.label_if(!s.new.is_empty(), "new abbreviation");
    case.label_if(cited.iter().any(|c| c.what.sub.is_some()), "subpoint");
    case.input(&text);
    case.describe(|| format!("{text}  {} citations", cited.len()));
    let (info, cache) = extract(&text, &before)?;
    same_refs(&text, &info.outgoing_references, &cited)?;
    let new: BTreeMap<_, _> = s.new.iter().cloned().collect();
    check_eq!(info.new_abbreviations, new, "new abbreviations", "{text}");
    check_eq!(info.special_phrase, None, "special phrase in a plain sentence", "{text}");
    let all: BTreeMap<_, _> = known.into_iter().collect();
    check_eq!(cache, all, "abbreviations in force afterwards", "{text}");
    Ok(())
}

#[derive(Debug, Clone, Deserialize)]
pub struct Stored {
    pub text: String,
    #[serde(default)]
    pub positions: String,
    #[serde(default)]
    pub abbreviations: BTreeMap<String, ActIdentifier>,
    #[serde(default)]
    pub expected_new_abbreviations: BTreeMap<String, ActIdentifier>,
    #[serde(default)]
    pub expected_references: Vec<Reference>,
    #[serde(default)]
    pub expected_special_phrase: Option<SpecialPhrase>,
}

pub fn repo() -> PathBuf {
    PathBuf::from(std::env::var("HV_REPO").unwrap_or_else(|_| "/repo".into()))
}

/// The repository's own sentences
pub fn corpus() -> &'static [(String, Stored)] {
    static C: OnceLock<Vec<(String, Stored)>> = OnceLock::new();
    C.get_or_init(|| {
        let base = repo().join("tests/datatests/data_semantic_parser");
        let mut out = vec![];
        let mut dirs: Vec<_> = std::fs::read_dir(&base).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        dirs.sort();
        for d in dirs {
            let mut files: Vec<_> = std::fs::read_dir(&d).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
            files.sort();
            for f in files {
                if f.extension().map_or(false, |e| e == "yml") {
                    let data = std::fs::read(&f).unwrap();
                    if let Ok(s) = singleton_yaml::from_slice::<Stored>(&data) {
                        out.push((f.display().to_string(), s));
                    }
                }
            }
        }
        out
    })
}

fn c20_corpus(case: &mut Case) -> CaseResult {
    let c = corpus();
    let i = case.src.below(1_000) as usize;
    let Some((name, st)) = c.get(i) else {
        return Ok(());
    };
    case.nontrivial_if(st.expected_references.len() >= 2);
    let known: Abbr = st.abbreviations.clone().into_iter().collect();
    let (info, _) = extract(&st.text, &known)?;
    let refs: Vec<Reference> = info.outgoing_references.iter().map(|r| r.reference.clone()).collect();
    check_eq!(refs, st.expected_references, "references of a stored sentence", "{name}");
    check_eq!(info.new_abbreviations, st.expected_new_abbreviations, "abbreviations of a stored sentence", "{name}");
    check_eq!(info.special_phrase, st.expected_special_phrase, "phrase of a stored sentence", "{name}");
    let mut pos = vec![' '; st.text.chars().count()];
    for r in &info.outgoing_references {
        pos[st.text[..r.start].chars().count()] = '<';
        pos[st.text[..r.end].chars().count() - 1] = '>';
    }
    if !st.positions.is_empty() {
        check_eq!(pos.into_iter().collect::<String>(), st.positions, "positions of a stored sentence", "{name}");
    }
    // Embedded in a plain sentence, it cites the same things, as plain references
    let list_only = st.expected_special_phrase.is_none();
    let front = format!("Ha {} ", filler(&mut case.src));
    let text = format!("{front}{}", st.text);
    case.input(&text);
    case.describe(|| text.clone());
    if list_only {
        let (info2, _) = extract(&text, &known)?;
        let moved: Vec<OutgoingReference> = info
            .outgoing_references
            .iter()
            .map(|r| OutgoingReference { start: r.start + front.len(), end: r.end + front.len(), reference: r.reference.clone() })
            .collect();
        check!(
            info2.outgoing_references == moved,
            "references move with their text",
            "{}\n  expected {}",
            mark(&text, &info2.outgoing_references),
            mark("", &moved)
        );
        check_eq!(info2.special_phrase, None, "special phrase in a plain sentence", "{text}");
    }
    Ok(())
}

fn c20_arbitrary(case: &mut Case) -> CaseResult {
    let src = &mut case.src;
    let c = corpus();
    let (mut text, known) = if src.bool() && !c.is_empty() {
        let st = &src.pick(c).1;
        (st.text.clone(), st.abbreviations.clone().into_iter().collect::<Abbr>())
    } else {
        let mut known = gen_known(src);
        let before = known.clone();
        (gen_sentence(src, &mut known).text, before)
    };
    for _ in 0..src.small(0, 6) {
        let mut t: Vec<char> = text.chars().collect();
        if t.is_empty() {
            break;
        }
        let i = src.usize(0, t.len() - 1);
        match src.below(5) {
            0 => {
                t.remove(i);
            }
            1 => t.insert(i, *src.pick(&['(', ')', '.', '§', '-', '–', ' ', ',', '„', '”', ':', '/', 'a', '5', 'I', '\n', 'Ő', '"', '%'])),
            2 => {
                let j = src.usize(0, t.len() - 1);
                t.swap(i, j);
            }
            3 => {
                let tok = *src.pick(&[
                    " bekezdés", " pont", " alpont", " §", ". §", " és ", ", ", "1–3.", "(2)", "a) ", "2012. évi C. törvény ", " helyébe a következő rendelkezés lép:",
                    "Hatályát veszti ", " lép hatályba.", " melléklet", "a következő ", " egészül ki:", "„a” szövegrész helyébe a „b” szöveg ",
                ]);
                let mut u: String = t[..i].iter().collect();
                u.push_str(tok);
                u.extend(&t[i..]);
                t = u.chars().collect();
            }
            _ => {
                let j = (i + src.usize(1, 12)).min(t.len());
                t.drain(i..j);
            }
        }
        text = t.into_iter().collect();
    }
    case.input(&text);
    case.describe(|| text.clone());
    let r = no_panic("extract_semantic_info", || {
        let mut cache = AbbreviationCache::from(known.into_iter().collect::<BTreeMap<_, _>>());
        SemanticInfoAdder::new(&mut cache).extract_semantic_info(&text)
    })?;
    match r {
        Ok(info) => {
            case.nontrivial_if(info.outgoing_references.len() >= 2);
            case.label_if(info.special_phrase.is_some(), "special phrase");
            let mut last = 0;
            for r in &info.outgoing_references {
                check!(
                    r.start < r.end && text.get(r.start..r.end).is_some(),
                    "position of a reference",
                    "{text}\n  {r:?}"
                );
                check!(r.start >= last, "references in the order of the text", "{}", mark(&text, &info.outgoing_references));
                last = r.end;
            }
        }
        Err(_) => case.label("error"),
    }
    Ok(())
}
