//! C07: references are always well-formed and lossless in every form. C08: reference algebra.
use hun_law::{
    identifier::{
        range::{IdentifierRange, IdentifierRangeFrom},
        ActIdentifier,
    },
    reference::{
        builder::{ReferenceBuilder, ReferenceBuilderSetPart},
        parts::{AnyReferencePart, RefPartArticle, RefPartParagraph, RefPartPoint, RefPartSubpoint},
        Reference,
    },
    util::compact_string::CompactString,
};

use crate::{
    check, check_eq,
    engine::{Arm, Case, CaseResult, Fail, Kind, Prop, Src},
    model::*,
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            level: "exploration",
            rule: "Random part combinations (all 32 shapes x range/single x identifier kinds) and random builder operation histories; each is fed to the builder, the compact form, JSON and YAML and compared with an independent well-formedness rule and printer. Non-trivial: at least two parts are filled or the combination is ill-formed.",
            assumptions: &["act identifiers are within the roman numeral range for the printed form", "two-letter subpoint identifiers are single latin letters"],
            arms: vec![
                Arm { name: "forms", kind: Kind::Random(300_000, 8_000_000), f: c07_forms },
                Arm { name: "builder_history", kind: Kind::Random(500_000, 8_000_000), f: c07_builder },
                Arm { name: "derived", kind: Kind::Random(300_000, 8_000_000), f: c07_derived },
                Arm { name: "garbage", kind: Kind::Random(500_000, 6_000_000), f: c07_garbage },
            ],
        },
        Prop {
            id: "C08",
            level: "exploration",
            rule: "Pairs and triples of references into one generated document tree (articles with or without numbered paragraphs, numeric or lettered points and subpoints, suffixed ids, books), sharing prefixes with high probability, single or sibling-range in the last part; compared with path-interval containment. Non-trivial: the two references share a non-empty prefix and differ, or one contains the other.",
            assumptions: &["both references point into one consistent document: an article either has numbered paragraphs or not, siblings are of the same kind"],
            arms: vec![
                Arm { name: "containment", kind: Kind::Random(4_000_000, 100_000_000), f: c08_containment },
                Arm { name: "make_range", kind: Kind::Random(1_500_000, 8_000_000), f: c08_make_range },
                Arm { name: "relative", kind: Kind::Random(2_000_000, 40_000_000), f: c08_relative },
                Arm { name: "order", kind: Kind::Random(1_000_000, 20_000_000), f: c08_order },
            ],
        },
    ]
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Pt {
    N(Num, Num),
    A(Alpha, Alpha),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sp {
    N(Num, Num),
    A(Pref, Pref),
}

/// Model of a reference. Derived ordering: act, article, paragraph, point, subpoint.
#[derive(Debug, Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct MRef {
    pub act: Option<(i16, i32)>,
    pub article: Option<(Art, Art)>,
    pub paragraph: Option<(Num, Num)>,
    pub point: Option<Pt>,
    pub subpoint: Option<Sp>,
}

fn dash<T: PartialEq>(a: &T, b: &T, f: impl Fn(&T) -> String) -> String {
    if a == b {
        f(a)
    } else {
        format!("{}-{}", f(a), f(b))
    }
}

impl MRef {
    fn filled(&self) -> [bool; 5] {
        [
            self.act.is_some(),
            self.article.is_some(),
            self.paragraph.is_some(),
            self.point.is_some(),
            self.subpoint.is_some(),
        ]
    }
    fn is_range(&self, level: usize) -> bool {
        match level {
            1 => matches!(self.article, Some((a, b)) if a != b),
            2 => matches!(self.paragraph, Some((a, b)) if a != b),
            3 => match self.point {
                Some(Pt::N(a, b)) => a != b,
                Some(Pt::A(a, b)) => a != b,
                None => false,
            },
            4 => match self.subpoint {
                Some(Sp::N(a, b)) => a != b,
                Some(Sp::A(a, b)) => a != b,
                None => false,
            },
            _ => false,
        }
    }
    pub fn last_level(&self) -> Option<usize> {
        (0..5).rev().find(|l| self.filled()[*l])
    }
    pub fn valid(&self) -> bool {
        let [act, art, par, pt, sp] = self.filled();
        // A subpoint needs its point, unless it is alone
        if sp && !pt && (act || art || par) {
            return false;
        }
        // An absolute reference has no gap between the act and the rest
        if act && !art && (par || pt || sp) {
            return false;
        }
        // Only the last part may be a range
        let last = self.last_level().unwrap_or(0);
        (0..last).all(|l| !self.is_range(l))
    }
    pub fn compact(&self) -> String {
        let act = self.act.map(|(y, n)| format!("{y}.{n}")).unwrap_or_default();
        let art = self.article.map(|(a, b)| dash(&a, &b, |x| x.compact())).unwrap_or_default();
        let par = self.paragraph.map(|(a, b)| dash(&a, &b, |x| x.compact())).unwrap_or_default();
        let pt = match self.point {
            Some(Pt::N(a, b)) => dash(&a, &b, |x| x.compact()),
            Some(Pt::A(a, b)) => dash(&a, &b, |x| x.display().to_string()),
            None => String::new(),
        };
        let sp = match self.subpoint {
            Some(Sp::N(a, b)) => dash(&a, &b, |x| x.compact()),
            Some(Sp::A(a, b)) => dash(&a, &b, |x| x.display()),
            None => String::new(),
        };
        format!("{act}_{art}_{par}_{pt}_{sp}")
    }
    fn json(&self) -> serde_json::Value {
        let mut m = serde_json::Map::new();
        fn rng<T: PartialEq>(a: T, b: T, f: impl Fn(&T) -> String) -> serde_json::Value {
            if a == b {
                f(&a).into()
            } else {
                serde_json::json!({"start": f(&a), "end": f(&b)})
            }
        }
        if let Some((y, n)) = self.act {
            m.insert("act".into(), serde_json::json!({"year": y, "number": n}));
        }
        if let Some((a, b)) = self.article {
            m.insert("article".into(), rng(a, b, |x| x.display()));
        }
        if let Some((a, b)) = self.paragraph {
            m.insert("paragraph".into(), rng(a, b, |x| x.compact()));
        }
        match self.point {
            Some(Pt::N(a, b)) => {
                m.insert("point".into(), rng(a, b, |x| x.compact()));
            }
            Some(Pt::A(a, b)) => {
                m.insert("point".into(), rng(a, b, |x| x.display().to_string()));
            }
            None => (),
        }
        match self.subpoint {
            Some(Sp::N(a, b)) => {
                m.insert("subpoint".into(), rng(a, b, |x| x.compact()));
            }
            Some(Sp::A(a, b)) => {
                m.insert("subpoint".into(), rng(a, b, |x| x.display()));
            }
            None => (),
        }
        serde_json::Value::Object(m)
    }
    fn display(&self) -> String {
        let mut parts: Vec<String> = Vec::new();
        if let Some((y, n)) = self.act {
            parts.push(format!("{y}. évi {}. törvény", roman(n as u32).unwrap()));
        }
        let last = self.last_level();
        if let Some((a, b)) = self.article {
            let ids = if a == b { a.display() } else { format!("{}–{}", a.display(), b.display()) };
            parts.push(format!("{ids}. §{}", if last == Some(1) { "-a" } else { "" }));
        }
        if let Some((a, b)) = self.paragraph {
            let ids = if a == b {
                format!("({})", a.compact())
            } else {
                format!("({})–({})", a.compact(), b.compact())
            };
            parts.push(format!("{ids} bekezdés{}", if last == Some(2) { "e" } else { "" }));
        }
        let num = |a: Num, b: Num| {
            if a == b {
                format!("{}.", a.compact())
            } else {
                format!("{}–{}.", a.compact(), b.compact())
            }
        };
        if let Some(p) = self.point {
            let ids = match p {
                Pt::N(a, b) => num(a, b),
                Pt::A(a, b) if a == b => format!("{})", a.display()),
                Pt::A(a, b) => format!("{})–{})", a.display(), b.display()),
            };
            parts.push(format!("{ids} pont{}", if last == Some(3) { "ja" } else { "" }));
        }
        if let Some(p) = self.subpoint {
            let ids = match p {
                Sp::N(a, b) => num(a, b),
                Sp::A(a, b) if a == b => format!("{})", a.display()),
                Sp::A(a, b) => format!("{})–{})", a.display(), b.display()),
            };
            parts.push(format!("{ids} alpontja"));
        }
        parts.join(" ")
    }
    fn part_act(&self) -> Option<ActIdentifier> {
        self.act.map(|(year, number)| ActIdentifier { year, number })
    }
    fn part_article(&self) -> Option<RefPartArticle> {
        self.article.map(|(a, b)| IdentifierRange::from_range(a.id(), b.id()))
    }
    fn part_paragraph(&self) -> Option<RefPartParagraph> {
        self.paragraph.map(|(a, b)| IdentifierRange::from_range(a.id(), b.id()))
    }
    fn part_point(&self) -> Option<RefPartPoint> {
        self.point.map(|p| match p {
            Pt::N(a, b) => RefPartPoint::from_range(a.id(), b.id()),
            Pt::A(a, b) => RefPartPoint::from_range(a.id(), b.id()),
        })
    }
    fn part_subpoint(&self) -> Option<RefPartSubpoint> {
        self.subpoint.map(|p| match p {
            Sp::N(a, b) => RefPartSubpoint::from_range(a.id(), b.id()),
            Sp::A(a, b) => RefPartSubpoint::from_range(a.id(), b.id()),
        })
    }
    pub fn build(&self) -> anyhow::Result<Reference> {
        let mut b = ReferenceBuilder::new();
        if let Some(x) = self.part_act() {
            b.set_part(x);
        }
        if let Some(x) = self.part_article() {
            b.set_part(x);
        }
        if let Some(x) = self.part_paragraph() {
            b.set_part(x);
        }
        if let Some(x) = self.part_point() {
            b.set_part(x);
        }
        if let Some(x) = self.part_subpoint() {
            b.set_part(x);
        }
        b.build()
    }
    fn clear(&mut self, level: usize) {
        match level {
            0 => self.act = None,
            1 => self.article = None,
            2 => self.paragraph = None,
            3 => self.point = None,
            _ => self.subpoint = None,
        }
    }
    fn copy_level(&mut self, other: &MRef, level: usize) {
        match level {
            0 => self.act = other.act,
            1 => self.article = other.article,
            2 => self.paragraph = other.paragraph,
            3 => self.point = other.point,
            _ => self.subpoint = other.subpoint,
        }
    }
    pub fn parent(&self) -> MRef {
        let mut r = self.clone();
        if let Some(l) = self.last_level() {
            r.clear(l);
        }
        r
    }
    fn first(&self) -> MRef {
        MRef {
            act: self.act,
            article: self.article.map(|x| (x.0, x.0)),
            paragraph: self.paragraph.map(|x| (x.0, x.0)),
            point: self.point.map(|x| match x {
                Pt::N(a, _) => Pt::N(a, a),
                Pt::A(a, _) => Pt::A(a, a),
            }),
            subpoint: self.subpoint.map(|x| match x {
                Sp::N(a, _) => Sp::N(a, a),
                Sp::A(a, _) => Sp::A(a, a),
            }),
        }
    }
    fn last(&self) -> MRef {
        MRef {
            act: self.act,
            article: self.article.map(|x| (x.1, x.1)),
            paragraph: self.paragraph.map(|x| (x.1, x.1)),
            point: self.point.map(|x| match x {
                Pt::N(_, a) => Pt::N(a, a),
                Pt::A(_, a) => Pt::A(a, a),
            }),
            subpoint: self.subpoint.map(|x| match x {
                Sp::N(_, a) => Sp::N(a, a),
                Sp::A(_, a) => Sp::A(a, a),
            }),
        }
    }
    /// Same part at a level
    fn same(&self, o: &MRef, level: usize) -> bool {
        match level {
            0 => self.act == o.act,
            1 => self.article == o.article,
            2 => self.paragraph == o.paragraph,
            3 => self.point == o.point,
            _ => self.subpoint == o.subpoint,
        }
    }
    /// The part of `o` at a level is within that of self
    fn part_contains(&self, o: &MRef, level: usize) -> bool {
        fn iv<T: Ord>(a: (T, T), b: (T, T)) -> bool {
            a.0 <= b.0 && b.1 <= a.1
        }
        match level {
            0 => self.act == o.act,
            1 => matches!((self.article, o.article), (Some(a), Some(b)) if iv(a, b)),
            2 => matches!((self.paragraph, o.paragraph), (Some(a), Some(b)) if iv(a, b)),
            3 => match (self.point, o.point) {
                (Some(Pt::N(a, b)), Some(Pt::N(c, d))) => iv((a, b), (c, d)),
                (Some(Pt::A(a, b)), Some(Pt::A(c, d))) => iv((a, b), (c, d)),
                _ => false,
            },
            _ => match (self.subpoint, o.subpoint) {
                (Some(Sp::N(a, b)), Some(Sp::N(c, d))) => iv((a, b), (c, d)),
                (Some(Sp::A(a, b)), Some(Sp::A(c, d))) => iv((a, b), (c, d)),
                _ => false,
            },
        }
    }
    pub fn contains(&self, o: &MRef) -> bool {
        match self.last_level() {
            None => o.act.is_none(),
            Some(l) => (0..l).all(|k| self.same(o, k)) && self.part_contains(o, l),
        }
    }
    pub fn is_parent_of(&self, o: &MRef) -> bool {
        self != o
            && match self.last_level() {
                None => o.act.is_none(),
                Some(l) => (0..=l).all(|k| self.same(o, k)) && o.last_level() > Some(l),
            }
    }
}

fn pair<T: Ord + Copy>(src: &mut Src, range: bool, mut g: impl FnMut(&mut Src) -> T) -> (T, T) {
    let a = g(src);
    if range {
        let b = g(src);
        (a.min(b), a.max(b))
    } else {
        (a, a)
    }
}

pub fn gen_act_id(src: &mut Src) -> (i16, i32) {
    (src.range(1950, 2030) as i16, src.range(1, 300) as i32)
}

fn gen_point(src: &mut Src, range: bool) -> Pt {
    if src.bool() {
        let (a, b) = pair(src, range, gen_num);
        Pt::N(a, b)
    } else {
        let (a, b) = pair(src, range, gen_alpha);
        Pt::A(a, b)
    }
}

fn gen_subpoint(src: &mut Src, range: bool) -> Sp {
    if src.bool() {
        let (a, b) = pair(src, range, gen_num);
        Sp::N(a, b)
    } else {
        let (a, b) = pair(src, range, gen_pref);
        Sp::A(a, b)
    }
}

/// Any combination, valid or not
pub fn gen_any(src: &mut Src) -> MRef {
    let shape = src.below(32);
    let rng = |src: &mut Src| src.chance(1, 5);
    let mut m = MRef::default();
    if shape & 1 != 0 {
        m.act = Some(gen_act_id(src));
    }
    if shape & 2 != 0 {
        let r = rng(src);
        m.article = Some(pair(src, r, gen_art));
    }
    if shape & 4 != 0 {
        let r = rng(src);
        m.paragraph = Some(pair(src, r, gen_num));
    }
    if shape & 8 != 0 {
        let r = rng(src);
        m.point = Some(gen_point(src, r));
    }
    if shape & 16 != 0 {
        let r = rng(src);
        m.subpoint = Some(gen_subpoint(src, r));
    }
    m
}

pub fn gen_valid(src: &mut Src) -> MRef {
    let mut m = gen_any(src);
    // Repair instead of rejecting
    let [act, _, _, pt, sp] = m.filled();
    if act && m.article.is_none() && (m.paragraph.is_some() || pt || sp) {
        m.article = Some(pair(src, false, gen_art));
    }
    if sp && !pt && (m.act.is_some() || m.article.is_some() || m.paragraph.is_some()) {
        m.point = Some(gen_point(src, false));
    }
    if let Some(l) = m.last_level() {
        let f = m.first();
        for k in 0..l {
            m.copy_level(&f, k);
        }
    }
    assert!(m.valid());
    m
}

/// All the observations a user can make on a reference
fn same_as_model(r: &Reference, m: &MRef, what: &str) -> CaseResult {
    check_eq!(r.compact_string().to_string(), m.compact(), format!("{what}: compact"), "");
    check_eq!(r.act(), m.part_act(), format!("{what}: act"), "{}", m.compact());
    check_eq!(r.article(), m.part_article(), format!("{what}: article"), "{}", m.compact());
    check_eq!(r.is_act_only(), m.article.is_none(), format!("{what}: act only"), "{}", m.compact());
    let last = match m.last_level() {
        None => AnyReferencePart::Empty,
        Some(0) => m.part_act().unwrap().into(),
        Some(1) => m.part_article().unwrap().into(),
        Some(2) => m.part_paragraph().unwrap().into(),
        Some(3) => m.part_point().unwrap().into(),
        Some(_) => m.part_subpoint().unwrap().into(),
    };
    let got = r.get_last_part();
    check_eq!(got, last, format!("{what}: last part"), "{}", m.compact());
    let ll = m.last_level();
    check_eq!(got.act(), if ll == Some(0) { m.part_act() } else { None }, format!("{what}: last part act"), "");
    check_eq!(got.article(), if ll == Some(1) { m.part_article() } else { None }, format!("{what}: last part article"), "");
    check_eq!(got.paragraph(), if ll == Some(2) { m.part_paragraph() } else { None }, format!("{what}: last part paragraph"), "");
    let (np, ap) = match (ll, m.point) {
        (Some(3), Some(Pt::N(a, b))) => (Some(IdentifierRange::from_range(a.id(), b.id())), None),
        (Some(3), Some(Pt::A(a, b))) => (None, Some(IdentifierRange::from_range(a.id(), b.id()))),
        _ => (None, None),
    };
    check_eq!(got.numeric_point(), np, format!("{what}: last part point"), "");
    check_eq!(got.alphabetic_point(), ap, format!("{what}: last part point"), "");
    let (np, ap) = match (ll, m.subpoint) {
        (Some(4), Some(Sp::N(a, b))) => (Some(IdentifierRange::from_range(a.id(), b.id())), None),
        (Some(4), Some(Sp::A(a, b))) => (None, Some(IdentifierRange::from_range(a.id(), b.id()))),
        _ => (None, None),
    };
    check_eq!(got.numeric_subpoint(), np, format!("{what}: last part subpoint"), "");
    check_eq!(got.alphabetic_subpoint(), ap, format!("{what}: last part subpoint"), "");
    Ok(())
}

pub fn built(m: &MRef) -> Result<Reference, Fail> {
    m.build().map_err(|e| Fail {
        sig: "valid reference rejected".into(),
        msg: format!("{}: {e:?}", m.compact()),
    })
}

fn c07_forms(c: &mut Case) -> CaseResult {
    let m = if c.src.chance(2, 3) { gen_valid(&mut c.src) } else { gen_any(&mut c.src) };
    let compact = m.compact();
    c.input(&m);
    c.describe(|| compact.clone());
    let parts = m.filled().iter().filter(|x| **x).count();
    let valid = m.valid();
    c.nontrivial = parts >= 2 || !valid;
    c.label(if valid { "valid" } else { "invalid" });
    c.label_if((1..5).any(|l| m.is_range(l)), "range");
    c.label_if(parts >= 4, "4+ parts");
    let json = m.json();
    let yaml = serde_yaml::to_string(&json).unwrap();
    let b = m.build();
    let fc = Reference::from_compact_string(&compact);
    let fj = serde_json::from_value::<Reference>(json.clone());
    let fy = serde_yaml::from_str::<Reference>(&yaml);
    if !valid {
        check!(b.is_err(), "builder accepts ill-formed", "{compact}: {b:?}");
        check!(fc.is_err(), "compact form accepts ill-formed", "{compact}: {fc:?}");
        check!(fj.is_err(), "json accepts ill-formed", "{compact}: {fj:?}");
        check!(fy.is_err(), "yaml accepts ill-formed", "{compact}: {fy:?}");
        return Ok(());
    }
    let r = built(&m)?;
    same_as_model(&r, &m, "builder")?;
    check!(matches!(&fc, Ok(x) if *x == r), "compact form read", "{compact}: {fc:?}");
    check!(matches!(&fj, Ok(x) if *x == r), "json read", "{json}: {fj:?}");
    check!(matches!(&fy, Ok(x) if *x == r), "yaml read", "{yaml}: {fy:?}");
    check_eq!(serde_json::to_value(&r).unwrap(), json, "json written", "{compact}");
    let y = serde_yaml::to_string(&r).unwrap();
    let back = serde_yaml::from_str::<Reference>(&y);
    check!(matches!(&back, Ok(x) if *x == r), "yaml round trip", "{y}: {back:?}");
    check_eq!(r.to_string(), m.display(), "printed form", "{compact}");
    if let Some(p) = m.part_point() {
        check_eq!(p.is_range(), m.is_range(3), "range of points", "{compact}");
    }
    if let Some(p) = m.part_subpoint() {
        check_eq!(p.is_range(), m.is_range(4), "range of subpoints", "{compact}");
    }
    Ok(())
}

fn c07_builder(c: &mut Case) -> CaseResult {
    let mut b = ReferenceBuilder::new();
    let mut m = MRef::default();
    let n = c.src.usize(1, 8);
    let mut ops = Vec::new();
    let mut invalid = 0;
    for _ in 0..n {
        // Setting or resetting a part clears everything below it
        let level = c.src.usize(0, 4);
        if level > 0 && c.src.chance(1, 5) {
            ops.push(format!("reset {level}"));
            (level..5).for_each(|k| m.clear(k));
            match level {
                1 => b.reset_article(),
                2 => b.reset_paragraph(),
                3 => b.reset_point(),
                _ => b.reset_subpoint(),
            };
        } else {
            let r = c.src.chance(1, 5);
            (level..5).for_each(|k| m.clear(k));
            match level {
                0 => {
                    m.act = Some(gen_act_id(&mut c.src));
                    b.set_part(m.part_act().unwrap());
                }
                1 => {
                    m.article = Some(pair(&mut c.src, r, gen_art));
                    b.set_part(m.part_article().unwrap());
                }
                2 => {
                    m.paragraph = Some(pair(&mut c.src, r, gen_num));
                    b.set_part(m.part_paragraph().unwrap());
                }
                3 => {
                    m.point = Some(gen_point(&mut c.src, r));
                    b.set_part(m.part_point().unwrap());
                }
                _ => {
                    m.subpoint = Some(gen_subpoint(&mut c.src, r));
                    b.set_part(m.part_subpoint().unwrap());
                }
            }
            ops.push(format!("set {level} → {}", m.compact()));
        }
        // The builder can be read after every step
        let got = b.build();
        if m.valid() {
            match got {
                Ok(r) => same_as_model(&r, &m, "builder history")?,
                Err(e) => return crate::engine::fail("builder history: rejected", format!("{ops:?}: {e:?}")),
            }
        } else {
            invalid += 1;
            check!(got.is_err(), "builder history: ill-formed accepted", "{ops:?}: {got:?}");
        }
    }
    c.input(&ops);
    c.nontrivial = n >= 2;
    c.label_if(invalid > 0, "passes through ill-formed states");
    c.describe(|| format!("{ops:?}"));
    Ok(())
}

/// Whatever operation produced a reference, it is well-formed: its own forms accept it
fn c07_derived(c: &mut Case) -> CaseResult {
    let (m1, m2) = (gen_valid(&mut c.src), gen_valid(&mut c.src));
    let (r1, r2) = (built(&m1)?, built(&m2)?);
    c.input((&m1, &m2));
    c.nontrivial = m1.last_level().is_some() && m2.last_level().is_some();
    c.describe(|| format!("{} and {}", m1.compact(), m2.compact()));
    let ok = |r: &Reference, how: &str| -> CaseResult {
        let s = r.compact_string().to_string();
        let back = Reference::from_compact_string(&s);
        check!(matches!(&back, Ok(x) if x == r), format!("derived by {how}"), "{s}: {back:?}");
        let j = serde_json::to_string(r).unwrap();
        let back = serde_json::from_str::<Reference>(&j);
        check!(matches!(&back, Ok(x) if x == r), format!("derived by {how}"), "{j}: {back:?}");
        Ok(())
    };
    ok(&r1.parent(), "parent")?;
    same_as_model(&r1.parent(), &m1.parent(), "parent")?;
    ok(&r1.first_in_range(), "first_in_range")?;
    same_as_model(&r1.first_in_range(), &m1.first(), "first_in_range")?;
    ok(&r1.last_in_range(), "last_in_range")?;
    same_as_model(&r1.last_in_range(), &m1.last(), "last_in_range")?;
    ok(&r1.without_act(), "without_act")?;
    same_as_model(&r1.without_act(), &MRef { act: None, ..m1.clone() }, "without_act")?;
    if let Ok(r) = r1.relative_to(&r2) {
        ok(&r, "relative_to")?;
    }
    if let Ok(r) = Reference::make_range(&r1, &r2) {
        ok(&r, "make_range")?;
    }
    // Parents lead to the empty reference in at most five steps
    let mut p = r1.clone();
    let mut mp = m1.clone();
    for _ in 0..5 {
        p = p.parent();
        mp = mp.parent();
        same_as_model(&p, &mp, "ancestors")?;
    }
    check_eq!(p, Reference::default(), "ancestors end in the empty reference", "{}", m1.compact());
    // Conversions
    if let (Some(act), Some(article)) = (m1.part_act(), m1.part_article()) {
        same_as_model(&Reference::from(act), &MRef { act: m1.act, ..Default::default() }, "from act")?;
        same_as_model(&Reference::from(article), &MRef { article: m1.article, ..Default::default() }, "from article")?;
        same_as_model(
            &Reference::from((act, article)),
            &MRef { act: m1.act, article: m1.article, ..Default::default() },
            "from act and article",
        )?;
    }
    Ok(())
}

fn c07_garbage(c: &mut Case) -> CaseResult {
    // Compact forms with random edits: accepted only if the independent reader accepts, never a crash
    let m = gen_any(&mut c.src);
    let mut s: Vec<char> = m.compact().chars().collect();
    const CHARS: [char; 12] = ['_', '-', '1', 'a', '.', 'b', '/', ':', ' ', 'ő', '0', 'z'];
    for _ in 0..c.src.usize(1, 3) {
        let pos = c.src.usize(0, s.len());
        match c.src.below(3) {
            0 => s.insert(pos, *c.src.pick(&CHARS)),
            1 if pos < s.len() => {
                s.remove(pos);
            }
            _ if pos < s.len() => s[pos] = *c.src.pick(&CHARS),
            _ => (),
        }
    }
    let s: String = s.into_iter().collect();
    c.input(&s);
    c.describe(|| s.clone());
    c.nontrivial = true;
    if let Ok(r) = Reference::from_compact_string(&s) {
        c.label("accepted");
        // What is accepted is well-formed and stable
        let again = r.compact_string().to_string();
        let back = Reference::from_compact_string(&again);
        check!(matches!(&back, Ok(x) if *x == r), "garbage: unstable", "{s} → {again} → {back:?}");
        check_eq!(s.matches('_').count(), 4, "garbage: part count", "{s} accepted as {r:?}");
        // No part may disappear
        // (the act is not a range: a sign there belongs to its number)
        for (a, b) in s.split('_').zip(again.split('_')).skip(1) {
            check_eq!(a.is_empty(), b.is_empty(), "garbage: part lost", "{s} accepted as {again}");
            check_eq!(
                a.split_once('-').is_some_and(|(x, y)| norm(x) != norm(y)),
                b.contains('-'),
                "garbage: range lost",
                "{s} accepted as {again}"
            );
        }
    } else {
        c.label("rejected");
    }
    Ok(())
}

fn norm(s: &str) -> String {
    // Identifiers that are written differently but are the same: case, slash, leading zeros
    let s: String = s.chars().filter(|c| *c != '/').collect::<String>().to_lowercase();
    s.split('.').map(|p| p.trim_start_matches('0').to_string()).collect::<Vec<_>>().join(".")
}

// ---------------------------------------------------------------- C08

/// A document of a fixed, deterministic shape: what kind of children an element has is a function of its path.
struct Doc {
    salt: u64,
    with_act: bool,
    books: bool,
}

impl Doc {
    fn gen(src: &mut Src) -> Self {
        Doc {
            salt: src.below(1 << 16),
            with_act: src.bool(),
            books: src.chance(1, 4),
        }
    }
    fn kind(&self, what: &str, n: u64) -> u64 {
        crate::engine::fnv(format!("{}|{what}", self.salt).as_bytes()) % n
    }
    fn num(src: &mut Src) -> Num {
        Num {
            num: src.range(1, 4) as u16,
            suffix: if src.chance(1, 4) { Some(src.below(3) as usize) } else { None },
        }
    }
    fn art(&self, src: &mut Src) -> Art {
        let id = Self::num(src);
        let book = if self.books { Some(src.range(1, 2) as u8) } else { None };
        Art { book, id }
    }
    /// Extend with a part at the given level; for levels below the article the kind comes from the path
    fn set(&self, src: &mut Src, m: &mut MRef, level: usize, range: bool) {
        let path = m.compact();
        match level {
            0 => m.act = Some((2012, src.range(1, 2) as i32)),
            1 => m.article = Some(pair(src, range, |s| self.art(s))),
            2 => m.paragraph = Some(pair(src, range, Self::num)),
            3 => {
                m.point = Some(if self.kind(&path, 2) == 0 {
                    let (a, b) = pair(src, range, Self::num);
                    Pt::N(a, b)
                } else {
                    let (a, b) = pair(src, range, |s| Alpha(s.below(5) as usize));
                    Pt::A(a, b)
                })
            }
            _ => {
                let sp = match m.point {
                    Some(Pt::N(..)) => {
                        let (a, b) = pair(src, range, |s| Pref { prefix: None, chr: latin(s.below(4) as usize) });
                        Sp::A(a, b)
                    }
                    Some(Pt::A(p, _)) if self.kind(&path, 3) > 0 => {
                        let prefix = if is_digraph(p.0) { None } else { Some(p.0) };
                        let (a, b) = pair(src, range, |s| Pref { prefix, chr: latin(s.below(4) as usize) });
                        Sp::A(a, b)
                    }
                    _ => {
                        let (a, b) = pair(src, range, Self::num);
                        Sp::N(a, b)
                    }
                };
                m.subpoint = Some(sp);
            }
        }
    }
    fn has_paragraphs(&self, m: &MRef) -> bool {
        let p = MRef { article: m.article, act: m.act, ..Default::default() };
        self.kind(&format!("par{}", p.compact()), 3) > 0
    }
    fn gen_ref(&self, src: &mut Src, base: Option<&MRef>) -> MRef {
        let mut m = MRef::default();
        let depth = src.usize(0, 4);
        // Levels copied from the base
        let keep = if base.is_some() { src.usize(0, 5) } else { 0 };
        let range = src.chance(1, 3);
        let mut last = None;
        for level in 0..=4usize {
            if level > depth {
                break;
            }
            if level == 0 && !self.with_act {
                continue;
            }
            if level == 2 && !self.has_paragraphs(&m) {
                continue;
            }
            // The parts above must not be ranges when going on
            let f = m.first();
            m = f;
            if level < keep {
                let b = base.unwrap();
                if b.filled()[level] {
                    m.copy_level(b, level);
                    last = Some(level);
                    continue;
                }
            }
            self.set(src, &mut m, level, false);
            last = Some(level);
        }
        if range {
            if let Some(l) = last {
                if l > 0 {
                    m.clear(l);
                    self.set(src, &mut m, l, true);
                }
            }
        }
        m
    }
}

fn c08_containment(c: &mut Case) -> CaseResult {
    let doc = Doc::gen(&mut c.src);
    let a = doc.gen_ref(&mut c.src, None);
    let b = doc.gen_ref(&mut c.src, Some(&a));
    let (mut a, mut b) = if c.src.bool() { (a, b) } else { (b, a) };
    // A reference inside an unnamed act is not one inside a named act
    if doc.with_act && c.src.chance(1, 6) {
        let x = if c.src.bool() { &mut a } else { &mut b };
        x.act = None;
    }
    let (ra, rb) = (built(&a)?, built(&b)?);
    c.input((&a, &b));
    c.describe(|| format!("{} and {}", a.compact(), b.compact()));
    let want = a.contains(&b);
    c.nontrivial = a != b && (want || (a.article.is_some() && a.article == b.article));
    c.label_if(want && a != b, "proper containment");
    c.label_if(!want && a.article == b.article && a.article.is_some(), "same article, not contained");
    c.label_if((1..5).any(|l| a.is_range(l) || b.is_range(l)), "range");
    check_eq!(ra.contains(&rb), want, "contains", "{} contains {}", a.compact(), b.compact());
    check_eq!(
        ra.is_parent_of(&rb),
        a.is_parent_of(&b),
        "is_parent_of",
        "{} parent of {}",
        a.compact(),
        b.compact()
    );
    check!(ra.contains(&ra), "contains itself", "{}", a.compact());
    check!(!ra.is_parent_of(&ra), "not its own parent", "{}", a.compact());
    check_eq!(ra == rb, a == b, "equality", "{} {}", a.compact(), b.compact());
    if ra != Reference::default() && !(a.act.is_some() && ra.parent() == Reference::default()) {
        check!(ra.parent().contains(&ra), "parent contains", "{}", a.compact());
        check!(ra.parent().is_parent_of(&ra), "parent is parent", "{}", a.compact());
    }
    check!(ra.contains(&ra.first_in_range()), "contains first", "{}", a.compact());
    check!(ra.contains(&ra.last_in_range()), "contains last", "{}", a.compact());
    same_as_model(&ra.first_in_range(), &a.first(), "first_in_range")?;
    same_as_model(&ra.last_in_range(), &a.last(), "last_in_range")?;
    Ok(())
}

fn c08_make_range(c: &mut Case) -> CaseResult {
    let doc = Doc::gen(&mut c.src);
    let a = doc.gen_ref(&mut c.src, None);
    // Usually a later sibling, sometimes anything
    let sibling = c.src.chance(2, 3);
    let b = if sibling && a.last_level().is_some_and(|l| l > 0) {
        let l = a.last_level().unwrap();
        let mut b = a.clone();
        b.clear(l);
        let r = c.src.chance(1, 4);
        doc.set(&mut c.src, &mut b, l, r);
        b
    } else {
        doc.gen_ref(&mut c.src, Some(&a))
    };
    // Sometimes only one of them names the act
    let (mut a, mut b) = (a, b);
    if c.src.chance(1, 12) {
        let m = if c.src.bool() { &mut a } else { &mut b };
        let mut bare = m.clone();
        bare.act = None;
        if bare.article.is_some() {
            *m = bare;
        }
    }
    let (a, b) = (a, b);
    let (ra, rb) = (built(&a)?, built(&b)?);
    c.input((&a, &b));
    c.describe(|| format!("{} to {}", a.compact(), b.compact()));
    let got = Reference::make_range(&ra, &rb);
    // First level where they differ
    let diff = (0..5).find(|l| !a.same(&b, *l));
    let want: Option<MRef> = match diff {
        None => Some(a.clone()),
        Some(0) => None,
        Some(l) => {
            let deeper = (l + 1..5).any(|k| a.filled()[k] || b.filled()[k]);
            let both = a.filled()[l] && b.filled()[l];
            if deeper || !both {
                None
            } else {
                let mut m = a.clone();
                let ok = match l {
                    1 => {
                        m.article = Some((a.article.unwrap().0, b.article.unwrap().1));
                        true
                    }
                    2 => {
                        m.paragraph = Some((a.paragraph.unwrap().0, b.paragraph.unwrap().1));
                        true
                    }
                    3 => match (a.point.unwrap(), b.point.unwrap()) {
                        (Pt::N(s, _), Pt::N(_, e)) => {
                            m.point = Some(Pt::N(s, e));
                            true
                        }
                        (Pt::A(s, _), Pt::A(_, e)) => {
                            m.point = Some(Pt::A(s, e));
                            true
                        }
                        _ => false,
                    },
                    _ => match (a.subpoint.unwrap(), b.subpoint.unwrap()) {
                        (Sp::N(s, _), Sp::N(_, e)) => {
                            m.subpoint = Some(Sp::N(s, e));
                            true
                        }
                        (Sp::A(s, _), Sp::A(_, e)) => {
                            m.subpoint = Some(Sp::A(s, e));
                            true
                        }
                        _ => false,
                    },
                };
                if ok {
                    Some(m)
                } else {
                    None
                }
            }
        }
    };
    if want.is_some() && a.last() > b.first() && diff.is_some() {
        // A reversed or overlapping range has no meaning: only that it does not crash
        c.label("reversed");
        return Ok(());
    }
    c.nontrivial = a != b;
    match (&want, got) {
        (Some(m), Ok(r)) => {
            c.label("range made");
            same_as_model(&r, m, "make_range")?;
            check!(r.contains(&ra) && r.contains(&rb), "range contains its ends", "{} to {}", a.compact(), b.compact());
        }
        (None, Err(_)) => c.label("refused"),
        (w, g) => {
            return crate::engine::fail(
                "make_range outcome",
                format!("{} to {}: got {g:?}, expected {w:?}", a.compact(), b.compact()),
            )
        }
    }
    Ok(())
}

fn c08_relative(c: &mut Case) -> CaseResult {
    let doc = Doc::gen(&mut c.src);
    let (rel, base) = if c.src.bool() {
        // The relative tail of an absolute reference, seen from somewhere that shares the head
        let abs = doc.gen_ref(&mut c.src, None);
        let cut = c.src.usize(0, 4);
        let mut rel = abs.clone();
        (0..cut).for_each(|l| rel.clear(l));
        let mut base = abs.clone();
        // The base may go elsewhere below the cut
        (cut..5).for_each(|l| base.clear(l));
        // A reference inside the same parent: extend it randomly
        if base.last_level().is_some() && c.src.bool() {
            let mut b = base.clone();
            for l in cut.max(1)..=c.src.usize(1, 4) {
                if l == 2 && !doc.has_paragraphs(&b) {
                    continue;
                }
                if l >= 1 && (l < 2 || b.article.is_some()) && (l < 4 || b.point.is_some()) {
                    doc.set(&mut c.src, &mut b, l, false);
                }
            }
            if b.valid() {
                base = b;
            }
        }
        if rel.valid() && base.valid() {
            if rel.last_level().is_some() {
                let (rr, rb) = (built(&rel)?, built(&base)?);
                let got = rr.relative_to(&rb);
                // Nothing between the base's head and the tail may be lost
                check!(
                    matches!(&got, Ok(x) if *x == built(&abs)?),
                    "relative_to restores",
                    "{} relative to {}: {got:?}, expected {}",
                    rel.compact(),
                    base.compact(),
                    abs.compact()
                );
                c.label("restored");
            }
            (rel, base)
        } else {
            (gen_valid(&mut c.src), gen_valid(&mut c.src))
        }
    } else {
        (gen_valid(&mut c.src), gen_valid(&mut c.src))
    };
    c.input((&rel, &base));
    c.describe(|| format!("{} relative to {}", rel.compact(), base.compact()));
    let (rr, rb) = (built(&rel)?, built(&base)?);
    let got = rr.relative_to(&rb);
    // Model: everything above the first part of the relative one comes from the base
    let first = (0..5).find(|l| rel.filled()[*l]);
    let want = match first {
        None => base.clone(),
        Some(l) => {
            let mut m = rel.clone();
            (0..l).for_each(|k| m.copy_level(&base, k));
            m
        }
    };
    c.nontrivial = rel.last_level().is_some() && base.last_level().is_some();
    c.label_if(first.is_some_and(|f| f >= 2), "really relative");
    match got {
        Ok(r) => {
            check!(want.valid(), "relative_to: ill-formed result", "{} relative to {}", rel.compact(), base.compact());
            same_as_model(&r, &want, "relative_to")?;
        }
        Err(e) => check!(
            !want.valid(),
            "relative_to: refused",
            "{} relative to {}: {e:?}",
            rel.compact(),
            base.compact()
        ),
    }
    Ok(())
}

fn c08_order(c: &mut Case) -> CaseResult {
    // The order of references is the document order: parents first, then siblings in sequence
    let doc = Doc::gen(&mut c.src);
    let a = doc.gen_ref(&mut c.src, None).first();
    let b = doc.gen_ref(&mut c.src, Some(&a)).first();
    let (ra, rb) = (built(&a)?, built(&b)?);
    c.input((&a, &b));
    c.nontrivial = a != b;
    c.describe(|| format!("{} and {}", a.compact(), b.compact()));
    check_eq!(ra.cmp(&rb), a.cmp(&b), "order", "{} and {}", a.compact(), b.compact());
    if ra.is_parent_of(&rb) {
        check!(ra < rb, "parents first", "{} and {}", a.compact(), b.compact());
    }
    // Siblings of a container that lie between the ends are exactly the contained ones
    if let Some(l) = a.last_level() {
        if l > 0 {
            let mut s = a.clone();
            s.clear(l);
            doc.set(&mut c.src, &mut s, l, true);
            let r = built(&s)?;
            let want = s.first() <= a && a <= s.last();
            check_eq!(r.contains(&ra), want, "sibling range", "{} in {}", a.compact(), s.compact());
        }
    }
    Ok(())
}
