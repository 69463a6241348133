//! C09: walking acts, lookups, emptiness
use anyhow::{anyhow, Result};
use hun_law::{
    identifier::IdentifierCommon,
    reference::Reference,
    semantic_info::SemanticInfo,
    structure::*,
    util::{
        compact_string::CompactString,
        walker::{SAEVisitor, SAEVisitorMut, WalkSAE, WalkSAEMut},
    },
};

use crate::{
    actgen::*,
    check, check_eq,
    engine::{fail, fnv, no_panic, Arm, Case, CaseResult, Fail, Kind as K, Prop, Src},
    model::gen_art,
};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C09",
        level: "exploration",
        rule: "Random acts with every kind of element (nested lists, amendments with their own contents, semantic information, last changes) are walked as a whole and from random parts; the events are compared with a model traversal that builds each position itself from the identifiers on the path. Mutating visitors change, replace or prune bodies by a pseudorandom rule of the position, and fail at a random event. Non-trivial: at least four events and one element below paragraph level.",
        assumptions: &[
            "contents of block amendments and quoted blocks are not visited (documented in walker.rs)",
            "an element replaced by on_enter is descended into as it is after the replacement",
            "StructuralBlockAmendment::is_empty looks only at the number of its children (documented as such): contents that are all empty are not judged",
        ],
        arms: vec![
            Arm { name: "act", kind: K::Random(30_000, 1_000_000), f: c09_act },
            Arm { name: "parts", kind: K::Random(30_000, 1_000_000), f: c09_parts },
            Arm { name: "mutate", kind: K::Random(30_000, 1_000_000), f: c09_mutate },
            Arm { name: "lookup", kind: K::Random(30_000, 1_000_000), f: c09_lookup },
            Arm { name: "empty", kind: K::Random(60_000, 2_000_000), f: c09_empty },
        ],
    }]
}

#[derive(Debug, Clone, PartialEq)]
struct Ev {
    enter: bool,
    pos: String,
    kind: &'static str,
    /// text, or intro and wrap-up
    body: (bool, String, Option<String>),
    sem: SemanticInfo,
    change: Option<LastChange>,
}

fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::Para => "Paragraph",
        Kind::Num => "NumericPoint",
        Kind::Alpha => "AlphabeticPoint",
        Kind::NumSub => "NumericSubpoint",
        Kind::AlphaSub => "AlphabeticSubpoint",
    }
}

/// [act, article, paragraph, point, subpoint]
type Path = [String; 5];
fn compact(p: &Path) -> String {
    p.join("_")
}
fn child_path(p: &Path, k: Kind, id: &str) -> Path {
    let mut p = p.clone();
    let level = match k {
        Kind::Para => 2,
        Kind::Num | Kind::Alpha => 3,
        Kind::NumSub | Kind::AlphaSub => 4,
    };
    p[level] = id.to_string();
    p
}

fn ev(enter: bool, pos: &Path, k: Kind, e: &El) -> Ev {
    Ev {
        enter,
        pos: compact(pos),
        kind: kind_name(k),
        body: match &e.body {
            Body::Text(t) => (false, plain(t), None),
            Body::Ch { intro, wrap, .. } => (true, plain(intro), wrap.as_deref().map(plain)),
        },
        sem: e.sem.clone(),
        change: e.change.clone(),
    }
}

fn model_walk(out: &mut Vec<Ev>, base: &Path, k: Kind, e: &El) {
    let p = child_path(base, k, &e.id);
    out.push(ev(true, &p, k, e));
    if let Body::Ch { ch: Ch::Els(ck, els), .. } = &e.body {
        for c in els {
            model_walk(out, &p, *ck, c);
        }
    }
    out.push(ev(false, &p, k, e));
}

fn art_path(act: &str, a: &MArt) -> Path {
    [act.to_string(), a.id.compact(), String::new(), String::new(), String::new()]
}

fn model_act(a: &MAct) -> Vec<Ev> {
    let mut out = Vec::new();
    let act = format!("{}.{}", a.year, a.number);
    for c in &a.children {
        if let MChild::Art(art) = c {
            let p = art_path(&act, art);
            for e in &art.paras {
                model_walk(&mut out, &p, Kind::Para, e);
            }
        }
    }
    out
}

#[derive(Default)]
struct Rec {
    events: Vec<Ev>,
    refs: Vec<Reference>,
    fail_at: Option<usize>,
}
impl Rec {
    fn event<IT: IdentifierCommon, CT: ChildrenCommon>(
        &mut self,
        enter: bool,
        position: &Reference,
        e: &SubArticleElement<IT, CT>,
    ) -> Result<()> {
        self.events.push(Ev {
            enter,
            pos: position.compact_string().to_string(),
            kind: CT::parent_type_name(),
            body: match &e.body {
                SAEBody::Text(t) => (false, t.clone(), None),
                SAEBody::Children { intro, wrap_up, .. } => (true, intro.clone(), wrap_up.clone()),
            },
            sem: e.semantic_info.clone(),
            change: e.last_change.clone(),
        });
        self.refs.push(position.clone());
        if self.fail_at == Some(self.events.len() - 1) {
            return Err(anyhow!("STOP HERE"));
        }
        Ok(())
    }
}
impl SAEVisitor for Rec {
    fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(
        &mut self,
        position: &Reference,
        element: &SubArticleElement<IT, CT>,
    ) -> Result<()> {
        self.event(true, position, element)
    }
    fn on_exit<IT: IdentifierCommon, CT: ChildrenCommon>(
        &mut self,
        position: &Reference,
        element: &SubArticleElement<IT, CT>,
    ) -> Result<()> {
        self.event(false, position, element)
    }
}

struct RecMut {
    rec: Rec,
    salt: u64,
}
/// What the mutating visitor does at a given event
fn action(pos: &str, enter: bool, salt: u64) -> u64 {
    if salt == 0 {
        return 0;
    }
    fnv(format!("{pos}|{enter}|{salt}").as_bytes()) >> 20 & 7
}
fn mutate<IT: IdentifierCommon, CT: ChildrenCommon>(a: u64, pos: &str, e: &mut SubArticleElement<IT, CT>) {
    match a {
        1 => match &mut e.body {
            SAEBody::Text(t) => t.push_str(pos),
            SAEBody::Children { intro, .. } => intro.push_str(pos),
        },
        2 => {
            if let SAEBody::Children { wrap_up, .. } = &mut e.body {
                *wrap_up = Some(pos.to_string());
            }
        }
        3 => e.semantic_info = SemanticInfo::default(),
        4 => e.last_change = None,
        5 => e.body = SAEBody::Text(format!("replaced at {pos}")),
        _ => (),
    }
}
fn mutate_model(a: u64, pos: &str, e: &mut El) {
    match a {
        1 => match &mut e.body {
            Body::Text(t) => t.push_str(pos),
            Body::Ch { intro, .. } => intro.push_str(pos),
        },
        2 => {
            if let Body::Ch { wrap, .. } = &mut e.body {
                *wrap = Some(pos.to_string());
            }
        }
        3 => e.sem = SemanticInfo::default(),
        4 => e.change = None,
        5 => e.body = Body::Text(format!("replaced at {pos}")),
        _ => (),
    }
}
impl SAEVisitorMut for RecMut {
    fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(
        &mut self,
        position: &Reference,
        element: &mut SubArticleElement<IT, CT>,
    ) -> Result<()> {
        self.rec.event(true, position, element)?;
        let p = position.compact_string().to_string();
        mutate(action(&p, true, self.salt), &p, element);
        Ok(())
    }
    fn on_exit<IT: IdentifierCommon, CT: ChildrenCommon>(
        &mut self,
        position: &Reference,
        element: &mut SubArticleElement<IT, CT>,
    ) -> Result<()> {
        self.rec.event(false, position, element)?;
        let p = position.compact_string().to_string();
        mutate(action(&p, false, self.salt), &p, element);
        Ok(())
    }
}

/// Walks and changes the model alike; false: stopped
fn model_mut(out: &mut Vec<Ev>, base: &Path, k: Kind, e: &mut El, salt: u64, fail_at: Option<usize>) -> bool {
    let p = child_path(base, k, &e.id);
    let ps = compact(&p);
    out.push(ev(true, &p, k, e));
    if fail_at == Some(out.len() - 1) {
        return false;
    }
    mutate_model(action(&ps, true, salt), &ps, e);
    if let Body::Ch { ch: Ch::Els(ck, els), .. } = &mut e.body {
        for c in els {
            if !model_mut(out, &p, *ck, c, salt, fail_at) {
                return false;
            }
        }
    }
    out.push(ev(false, &p, k, e));
    if fail_at == Some(out.len() - 1) {
        return false;
    }
    mutate_model(action(&ps, false, salt), &ps, e);
    true
}

fn opts(src: &mut Src) -> Opts {
    Opts {
        layout: !src.chance(1, 3),
        amend: src.bool(),
        quotes: true,
        ba: false,
        sem: src.bool(),
        nested_amend: src.chance(1, 4),
    }
}

fn same_events(got: &[Ev], want: &[Ev], what: &str) -> CaseResult {
    let n = got.len().min(want.len());
    for i in 0..n {
        if got[i] != want[i] {
            return fail(format!("{what}: wrong event"), format!("event {i}: got {:?}, expected {:?}", got[i], want[i]));
        }
    }
    if got.len() > n {
        return fail(format!("{what}: additional event"), format!("{:?}", got[n]));
    }
    if want.len() > n {
        return fail(format!("{what}: missing event"), format!("{:?}", want[n]));
    }
    Ok(())
}

fn check_refs(r: &Rec) -> CaseResult {
    for (e, x) in r.events.iter().zip(&r.refs) {
        let back = Reference::from_compact_string(&e.pos);
        check!(matches!(&back, Ok(y) if y == x), "walk: position is a proper reference", "{}: {x:?} / {back:?}", e.pos);
    }
    Ok(())
}

fn stats(c: &mut Case, want: &[Ev]) {
    c.nontrivial = want.len() >= 4 && want.iter().any(|e| e.kind != "Paragraph");
    c.label_if(want.iter().any(|e| e.kind.ends_with("Subpoint")), "subpoints");
    c.label_if(want.len() > 40, "large");
}

fn result_of(r: Result<()>, stopped: bool, what: &str) -> CaseResult {
    match (r, stopped) {
        (Ok(()), false) => Ok(()),
        (Err(e), true) => {
            check_eq!(e.root_cause().to_string(), "STOP HERE".to_string(), format!("{what}: error passed on"), "");
            Ok(())
        }
        (Ok(()), true) => fail(format!("{what}: the visitor's error is lost"), ""),
        (Err(e), false) => fail(format!("{what}: walk fails"), format!("{e:?}")),
    }
}

fn c09_act(c: &mut Case) -> CaseResult {
    let o = opts(&mut c.src);
    let m = gen_act(&mut c.src, &o);
    let mut want = model_act(&m);
    stats(c, &want);
    let act = to_act(&m);
    let fail_at = if c.src.chance(1, 3) && !want.is_empty() { Some(c.src.below(want.len() as u64) as usize) } else { None };
    c.label_if(fail_at.is_some(), "visitor fails");
    if let Some(f) = fail_at {
        want.truncate(f + 1);
    }
    c.input(format!("{act:?}{fail_at:?}"));
    c.describe(|| format!("fail at {fail_at:?}\n{}", want.iter().map(|e| format!("{} {} {}\n", if e.enter { "enter" } else { "exit" }, e.kind, e.pos)).collect::<String>()));
    let mut rec = Rec { fail_at, ..Default::default() };
    let r = no_panic("walk", || act.walk_saes(&mut rec))?;
    same_events(&rec.events, &want, "walk")?;
    check_refs(&rec)?;
    result_of(r, fail_at.is_some(), "walk")
}

fn c09_parts(c: &mut Case) -> CaseResult {
    let o = opts(&mut c.src);
    let a = gen_art(&mut c.src);
    let m = gen_article(&mut c.src, &o, a);
    let act_s = if c.src.bool() { format!("{}.{}", c.src.range(1950, 2050), c.src.range(1, 200)) } else { String::new() };
    let base: Path = [act_s.clone(), String::new(), String::new(), String::new(), String::new()];
    let ap = art_path(&act_s, &m);
    let mut rec = Rec::default();
    let mut recm = RecMut { rec: Rec::default(), salt: 0 };
    let reference = |p: &Path| -> Result<Reference, Fail> {
        Reference::from_compact_string(compact(p)).map_err(|e| Fail { sig: "walk: base".into(), msg: format!("{p:?} {e:?}") })
    };
    let mut want = Vec::new();
    let art = to_article(&m);
    let which = c.src.below(6);
    c.input(format!("{which} {art:?} {act_s}"));
    let mut all = Vec::new();
    for e in &m.paras {
        model_walk(&mut all, &ap, Kind::Para, e);
    }
    // No act given and an empty reference as base is fine for articles
    let (r, rm) = match which {
        0 => {
            want = all;
            let b = reference(&base)?;
            let mut x = art.clone();
            no_panic("walk", || (art.walk_saes(&b, &mut rec), x.walk_saes_mut(&b, &mut recm)))?
        }
        1 => {
            want = all;
            let b = reference(&base)?;
            let child = ActChild::Article(art.clone());
            let mut x = child.clone();
            no_panic("walk", || (child.walk_saes(&b, &mut rec), x.walk_saes_mut(&b, &mut recm)))?
        }
        2 => {
            want = all;
            let b = reference(&ap)?;
            let mut x = art.children.clone();
            no_panic("walk", || (art.children.walk_saes(&b, &mut rec), x.walk_saes_mut(&b, &mut recm)))?
        }
        3 => {
            let b = reference(&base)?;
            let child = to_child(&if c.src.bool() { gen_se(&mut c.src, &o) } else { gen_subtitle(&mut c.src, &o) });
            let mut x = child.clone();
            no_panic("walk", || (child.walk_saes(&b, &mut rec), x.walk_saes_mut(&b, &mut recm)))?
        }
        _ => {
            let i = c.src.below(m.paras.len().max(1) as u64) as usize;
            let Some(pm) = m.paras.get(i) else { return Ok(()) };
            if which == 4 {
                model_walk(&mut want, &ap, Kind::Para, pm);
                let p = to_para(pm);
                let b = reference(&ap)?;
                let mut x = p.clone();
                no_panic("walk", || (p.walk_saes(&b, &mut rec), x.walk_saes_mut(&b, &mut recm)))?
            } else {
                let Body::Ch { ch: Ch::Els(k, els), .. } = &pm.body else { return Ok(()) };
                let pp = child_path(&ap, Kind::Para, &pm.id);
                for e in els {
                    model_walk(&mut want, &pp, *k, e);
                }
                let b = reference(&pp)?;
                let SAEBody::Children { children, .. } = to_para(pm).body else { unreachable!() };
                let mut x = children.clone();
                no_panic("walk", || (children.walk_saes(&b, &mut rec), x.walk_saes_mut(&b, &mut recm)))?
            }
        }
    };
    stats(c, &want);
    c.label(["article", "act child", "paragraphs", "no article", "paragraph", "points"][which as usize]);
    c.describe(|| format!("{which}\n{}", want.iter().map(|e| format!("{} {} {}\n", if e.enter { "enter" } else { "exit" }, e.kind, e.pos)).collect::<String>()));
    same_events(&rec.events, &want, "walk part")?;
    same_events(&recm.rec.events, &want, "walk part mut")?;
    check_refs(&rec)?;
    check_refs(&recm.rec)?;
    result_of(r, false, "walk part")?;
    result_of(rm, false, "walk part mut")
}

fn c09_mutate(c: &mut Case) -> CaseResult {
    let o = opts(&mut c.src);
    let mut m = gen_act(&mut c.src, &o);
    let n = model_act(&m).len();
    let mut act = to_act(&m);
    let salt = c.src.below(1_000_000);
    let fail_at = if c.src.chance(1, 4) && n > 0 { Some(c.src.below(n as u64) as usize) } else { None };
    c.input(format!("{act:?}{fail_at:?}{salt}"));
    c.describe(|| format!("salt {salt} fail at {fail_at:?}\n{act:?}"));
    let mut want = Vec::new();
    let act_s = format!("{}.{}", m.year, m.number);
    let mut done = true;
    'all: for ch in &mut m.children {
        if let MChild::Art(a) = ch {
            let p = art_path(&act_s, a);
            for e in &mut a.paras {
                if !model_mut(&mut want, &p, Kind::Para, e, salt, fail_at) {
                    done = false;
                    break 'all;
                }
            }
        }
    }
    stats(c, &want);
    c.label_if(!done, "visitor fails");
    c.label_if(want.len() < n && done, "children replaced");
    let mut rec = RecMut { rec: Rec { fail_at, ..Default::default() }, salt };
    let r = no_panic("walk mut", || act.walk_saes_mut(&mut rec))?;
    same_events(&rec.rec.events, &want, "walk mut")?;
    check_refs(&rec.rec)?;
    result_of(r, !done, "walk mut")?;
    let expected = to_act(&m);
    check!(act == expected, "walk mut: the changed act", "got {act:?}\nexpected {expected:?}");
    Ok(())
}

fn c09_lookup(c: &mut Case) -> CaseResult {
    let o = opts(&mut c.src);
    let mut m = gen_act(&mut c.src, &o);
    // Identifiers may repeat in consolidated acts
    if c.src.chance(1, 3) && !m.children.is_empty() {
        let i = c.src.below(m.children.len() as u64) as usize;
        let j = c.src.below(m.children.len() as u64 + 1) as usize;
        let mut x = m.children[i].clone();
        if let MChild::Art(a) = &mut x {
            a.title = Some("másodszor".into());
        }
        m.children.insert(j, x);
        c.label("repeated element");
    }
    let act = to_act(&m);
    let arts: Vec<(usize, &MArt)> =
        m.children.iter().enumerate().filter_map(|(i, x)| if let MChild::Art(a) = x { Some((i, a)) } else { None }).collect();
    c.input(format!("{act:?}"));
    c.describe(|| format!("{:?}", arts.iter().map(|(i, a)| format!("{i}:{}", a.id.display())).collect::<Vec<_>>()));
    c.nontrivial = arts.len() >= 2;
    let got: Vec<Article> = act.articles().cloned().collect();
    let want: Vec<Article> = arts.iter().map(|(_, a)| to_article(a)).collect();
    check!(got == want, "articles()", "{got:?}\nexpected {want:?}");
    let mut probe: Vec<_> = arts.iter().map(|(_, a)| a.id).collect();
    for _ in 0..4 {
        probe.push(gen_art(&mut c.src));
    }
    // Neighbours
    for (_, a) in &arts {
        let mut b = a.id;
        b.id.num = b.id.num.wrapping_add(1);
        b.id.suffix = None;
        probe.push(b);
        let mut b = a.id;
        b.id.suffix = if b.id.suffix.is_some() { None } else { Some(0) };
        probe.push(b);
        let mut b = a.id;
        b.book = if b.book.is_some() { None } else { Some(1) };
        probe.push(b);
    }
    for id in probe {
        let first = arts.iter().find(|(_, a)| a.id == id);
        let got = act.article(id.id());
        match (got, first) {
            (None, None) => c.label("absent"),
            (Some(g), Some((i, _))) => {
                let ActChild::Article(w) = &act.children[*i] else { unreachable!() };
                check!(std::ptr::eq(g, w), "article(): first with the identifier", "{}: {g:?}", id.display());
            }
            (g, _) => return fail("article()", format!("{}: {g:?}", id.display())),
        }
        let mut changed = act.clone();
        let mut expected = act.clone();
        if let Some(a) = changed.article_mut(id.id()) {
            a.title = Some("CHANGED".into());
        }
        if let Some((i, _)) = first {
            if let ActChild::Article(a) = &mut expected.children[*i] {
                a.title = Some("CHANGED".into());
            }
        }
        check!(changed == expected, "article_mut()", "{}", id.display());
    }
    let mut changed = act.clone();
    for (i, a) in changed.articles_mut().enumerate() {
        a.title = Some(format!("No {i}"));
    }
    let mut expected = act.clone();
    for (n, (i, _)) in arts.iter().enumerate() {
        if let ActChild::Article(a) = &mut expected.children[*i] {
            a.title = Some(format!("No {n}"));
        }
    }
    check!(changed == expected, "articles_mut()", "");
    Ok(())
}

/// None: not judged
fn model_empty(e: &El) -> Option<bool> {
    fn all(els: &[El]) -> Option<bool> {
        let mut res = Some(true);
        for e in els {
            match model_empty(e) {
                Some(false) => return Some(false),
                None => res = None,
                _ => (),
            }
        }
        res
    }
    match &e.body {
        Body::Text(t) => Some(t.is_empty()),
        Body::Ch { ch, .. } => match ch {
            Ch::Els(_, els) => all(els),
            Ch::Quoted(q) => Some(q.is_empty()),
            Ch::Ba { els, .. } => all(els),
            Ch::Sba { children, .. } => {
                if children.is_empty() {
                    Some(true)
                } else if children.iter().any(|x| match x {
                    MChild::Se { .. } | MChild::Sub { .. } => true,
                    MChild::Art(a) => a.paras.iter().any(|p| model_empty(p) == Some(false)),
                }) {
                    Some(false)
                } else {
                    None
                }
            }
        },
    }
}

fn blank_some(src: &mut Src, e: &mut El, p: u64) {
    match &mut e.body {
        Body::Text(t) => {
            if src.chance(p, 10) {
                t.clear();
            }
        }
        Body::Ch { ch, .. } => match ch {
            Ch::Els(_, els) | Ch::Ba { els, .. } => {
                for x in els.iter_mut() {
                    blank_some(src, x, p);
                }
                if src.chance(1, 12) {
                    els.clear();
                }
            }
            Ch::Quoted(q) => {
                if src.chance(p, 20) {
                    q.clear();
                }
            }
            Ch::Sba { children, .. } => {
                if src.chance(p, 20) {
                    children.clear();
                }
            }
        },
    }
}

fn c09_empty(c: &mut Case) -> CaseResult {
    let o = opts(&mut c.src);
    let id = if c.src.bool() { Some(crate::model::Num::plain(1)) } else { None };
    let mut e = gen_para(&mut c.src, &o, id);
    let p = *c.src.pick(&[3, 9, 10]);
    blank_some(&mut c.src, &mut e, p);
    let para = to_para(&e);
    c.input(format!("{para:?}"));
    c.describe(|| format!("{para:?}"));
    let want = model_empty(&e);
    c.nontrivial = want.is_some() && matches!(e.body, Body::Ch { .. });
    c.label(match want {
        Some(true) => "empty",
        Some(false) => "not empty",
        None => "not judged",
    });
    let got = para.is_empty();
    check!(want.is_none() || want == Some(got), "is_empty", "{got}, expected {want:?}: {para:?}");
    Ok(())
}
