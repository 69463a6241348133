//! C15: fixups
use hun_law::{
    fixups::{Fixup, Fixups},
    identifier::ActIdentifier,
    util::indentedline::IndentedLine,
};

use super::lines::{close, gen_mline, same, MLine};
use crate::{
    check, check_eq,
    engine::{no_panic, Arm, Case, CaseResult, Kind, Prop, Src},
};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        level: "exploration",
        rule: "Random bodies (few distinct lines, so that texts and contexts repeat) and fixups made by editing one of their lines, with matching, too short or wrong contexts; the body after applying is compared line by line and character by character with a model. Store: histories of load/add/save over several acts. Non-trivial: at least one fixup is applied, or the body has at least two candidate places; store: at least one save.",
        assumptions: &["positions are compared with a tolerance of 1e-6 points", "where the first character is replaced only the order of positions is checked, not the exact new indentation"],
        arms: vec![
            Arm { name: "apply", kind: Kind::Random(2_000_000, 60_000_000), f: c15_apply },
            Arm { name: "sequence", kind: Kind::Random(800_000, 20_000_000), f: c15_sequence },
            Arm { name: "store", kind: Kind::Random(40_000, 800_000), f: c15_store },
        ],
    }]
}

/// A body of `n` lines out of few texts
pub fn gen_body(src: &mut Src, max: usize) -> Vec<MLine> {
    let kinds: Vec<MLine> = (0..src.usize(1, 4)).map(|_| gen_mline(src, 8)).collect();
    (0..src.usize(1, max))
        .map(|_| match src.weighted(&[5, 2, 1]) {
            0 => {
                // Same text, different layout
                let mut m = src.pick(&kinds).clone();
                if src.bool() {
                    let d = src.range(0, 800) as f64 / 16.0;
                    m.chars.iter_mut().for_each(|c| c.0 += d);
                    m.justified = src.bool();
                }
                m
            }
            1 => gen_mline(src, 8),
            _ => MLine::default(),
        })
        .collect()
}

fn gen_edit(src: &mut Src, old: &str) -> String {
    let mut v: Vec<char> = old.chars().collect();
    for _ in 0..src.usize(0, 2) {
        let n = v.len();
        match src.below(4) {
            0 => {
                let i = src.usize(0, n);
                let c = *src.pick(&['a', 'b', 'é', 'ő', ' ', 'Q', '𝄞']);
                for _ in 0..src.usize(1, 3) {
                    v.insert(i, c);
                }
            }
            1 if n > 0 => {
                let i = src.usize(0, n - 1);
                let j = src.usize(i, n - 1);
                v.drain(i..=j);
            }
            2 if n > 0 => {
                let i = src.usize(0, n - 1);
                v[i] = *src.pick(&['a', 'b', 'é', 'x', 'Q']);
            }
            _ => v = src.pick(&["", "a", "aa", "új sor", "(1) é"]).chars().collect(),
        }
    }
    v.into_iter().collect()
}

pub struct Expected {
    /// None: position not determined
    chars: Vec<(Option<f64>, char, bool)>,
    justified: bool,
}

/// The model of a replacement: the common beginning and end stay in place
fn replace(line: &MLine, new: &str, set_bold: bool) -> Expected {
    let old: Vec<char> = line.chars.iter().map(|c| c.1).collect();
    let newc: Vec<char> = new.chars().collect();
    let p = old.iter().zip(&newc).take_while(|(a, b)| a == b).count();
    let q = old[p..].iter().rev().zip(newc[p..].iter().rev()).take_while(|(a, b)| a == b).count();
    let line_bold = line.chars.iter().filter(|c| c.2).count() * 3 > old.len() * 2;
    let mut chars: Vec<(Option<f64>, char, bool)> = Vec::new();
    for c in &line.chars[..p] {
        chars.push((Some(c.0), c.1, c.2));
    }
    for c in &newc[p..newc.len() - q] {
        chars.push((None, *c, line_bold));
    }
    for c in &line.chars[old.len() - q..] {
        chars.push((Some(c.0), c.1, c.2));
    }
    if p == 0 && q == 0 && !newc.is_empty() && !old.is_empty() {
        // Complete replacement: it starts where the line started
        chars[0].0 = Some(line.chars[0].0);
    }
    if set_bold {
        chars.iter_mut().for_each(|c| c.2 = true);
    }
    Expected {
        justified: line.justified && !newc.is_empty() && (q > 0 || old == newc),
        chars,
    }
}

fn same_as_expected(l: &IndentedLine, e: &Expected) -> Result<MLine, crate::engine::Fail> {
    let text: String = e.chars.iter().map(|c| c.1).collect();
    check_eq!(l.content(), text, "result: content", "");
    check_eq!(l.len(), e.chars.len(), "result: length", "{text:?}");
    check_eq!(l.is_empty(), e.chars.is_empty(), "result: emptiness", "");
    let mut m = MLine { chars: vec![], justified: e.justified };
    let mut prev = f64::NEG_INFINITY;
    for (i, c) in e.chars.iter().enumerate() {
        let x = l.indent_at(i as i64);
        if let Some(want) = c.0 {
            check!(close(x, want), "result: an untouched character moved", "{text:?} char {i}: {x} instead of {want}");
        }
        check!(x.is_finite() && x >= prev - 1e-6, "result: positions out of order", "{text:?} char {i}: {x} after {prev}");
        prev = x;
        check_eq!(l.slice(i as i64, Some(i as i64 + 1)).is_bold(), c.2, "result: boldness of a character", "{text:?} char {i}");
        m.chars.push((x, c.1, c.2));
    }
    check_eq!(l.is_justified(), e.justified, "result: justified", "{text:?}");
    same(l, &m, "result", true)?;
    Ok(m)
}

fn places(body: &[MLine], after: &[String], old: &str) -> Vec<usize> {
    (after.len()..body.len())
        .filter(|i| {
            body[*i].text() == old && after.iter().enumerate().all(|(k, a)| body[i - after.len() + k].text() == *a)
        })
        .collect()
}

fn unchanged(lines: &[IndentedLine], body: &[MLine], except: Option<usize>) -> CaseResult {
    check_eq!(lines.len(), body.len(), "number of lines", "");
    for (i, m) in body.iter().enumerate() {
        if Some(i) != except {
            same(&lines[i], m, "other line", true)?;
        }
    }
    Ok(())
}

fn gen_fixup(src: &mut Src, body: &[MLine]) -> Fixup {
    let i = src.usize(0, body.len() - 1);
    let old = body[i].text();
    let mut after: Vec<String> = (0..src.small(0, 3).min(i)).map(|k| body[i - 1 - k].text()).collect();
    after.reverse();
    let new = gen_edit(src, &old);
    let set_bold = src.chance(1, 4);
    let mut f = Fixup { after, old, new, set_bold };
    match src.weighted(&[12, 1, 1, 1]) {
        1 => f.old = gen_edit(src, &f.old),
        2 if !f.after.is_empty() => {
            let k = src.usize(0, f.after.len() - 1);
            f.after[k] = gen_edit(src, &f.after[k]);
        }
        3 => {
            for _ in 0..src.usize(1, 4) {
                f.after.insert(0, gen_edit(src, &body[0].text()));
            }
        }
        _ => (),
    }
    f
}

/// Applies one fixup in the model; Err is a reason why it has to be refused
fn model_apply(body: &[MLine], f: &Fixup) -> Result<(usize, Expected), &'static str> {
    let at = places(body, &f.after, &f.old);
    if at.is_empty() {
        return Err("not found");
    }
    if at.len() > 1 {
        return Err("ambiguous");
    }
    if f.old == f.new && !f.set_bold {
        return Err("useless");
    }
    if f.new.is_empty() {
        return Ok((at[0], Expected { chars: vec![], justified: false }));
    }
    Ok((at[0], replace(&body[at[0]], &f.new, f.set_bold)))
}

fn c15_apply(c: &mut Case) -> CaseResult {
    let body = gen_body(&mut c.src, 8);
    let f = gen_fixup(&mut c.src, &body);
    c.input(format!("{body:?}{f:?}"));
    c.describe(|| format!("{:?} with {f:?}", body.iter().map(|b| b.text()).collect::<Vec<_>>()));
    let mut lines: Vec<IndentedLine> = body.iter().map(|m| m.build()).collect();
    let r = no_panic("Fixup::apply", || f.apply(&mut lines))?;
    c.nontrivial = places(&body, &[], &f.old).len() > 1 || r.is_ok();
    match model_apply(&body, &f) {
        Err(reason) => {
            c.label(reason);
            match r {
                Ok(()) => {
                    check!(false, format!("accepted although {reason}"), "{f:?}");
                }
                Err(e) => {
                    let text = format!("{e:?}");
                    check!(text.contains(&f.old), "the error does not name the fixup", "{text}");
                }
            }
            unchanged(&lines, &body, None)
        }
        Ok((i, e)) => {
            if let Err(e) = r {
                check!(false, "refused", "{f:?}: {e:?}");
            }
            c.label("applied");
            c.label_if(f.set_bold, "bold");
            c.label_if(!f.after.is_empty(), "with context");
            unchanged(&lines, &body, Some(i))?;
            same_as_expected(&lines[i], &e)?;
            Ok(())
        }
    }
}

pub fn scratch() -> tempfile::TempDir {
    // In memory if possible: only the contents matter
    let base = std::path::Path::new("/dev/shm");
    if base.is_dir() {
        if let Ok(d) = tempfile::Builder::new().prefix("hv").tempdir_in(base) {
            return d;
        }
    }
    tempfile::tempdir().unwrap()
}

fn c15_sequence(c: &mut Case) -> CaseResult {
    let body = gen_body(&mut c.src, 6);
    // Later fixups may refer to the results of earlier ones
    let mut model = body.clone();
    let mut list: Vec<Fixup> = Vec::new();
    let mut fs = Fixups::load_from(ActIdentifier { year: 2000, number: 1 }, "/nonexistent/fixups".into()).map_err(|e| {
        crate::engine::Fail { sig: "store: no file is no fixups".into(), msg: format!("{e:?}") }
    })?;
    let mut states = vec![body.clone()];
    let mut stop = None;
    for _ in 0..c.src.usize(1, 5) {
        let f = gen_fixup(&mut c.src, &model);
        list.push(f.clone());
        fs.add(f.clone());
        if stop.is_some() {
            // Not reached
            continue;
        }
        match model_apply(&model, &f) {
            Err(reason) => stop = Some((list.len() - 1, reason)),
            Ok((i, e)) => {
                // Carry on with the positions the code chose: they are checked step by step
                let mut lines: Vec<IndentedLine> = model.iter().map(|m| m.build()).collect();
                no_panic("Fixup::apply", || f.apply(&mut lines))?
                    .map_err(|e| crate::engine::Fail { sig: "refused".into(), msg: format!("{f:?}: {e:?}") })?;
                model[i] = same_as_expected(&lines[i], &e)?;
                states.push(model.clone());
            }
        }
    }
    c.input(format!("{body:?}{list:?}"));
    c.describe(|| format!("{:?} with {list:?}", body.iter().map(|b| b.text()).collect::<Vec<_>>()));
    c.nontrivial = states.len() > 1;
    c.label_if(stop.is_some(), "stops");
    c.label_if(states.len() > 2, "several applied");
    let mut lines: Vec<IndentedLine> = body.iter().map(|m| m.build()).collect();
    let r = no_panic("Fixups::apply", || fs.apply(&mut lines))?;
    match (&stop, r) {
        (None, Err(e)) => check!(false, "sequence refused", "{e:?}"),
        (Some((k, reason)), Ok(())) => check!(false, "sequence accepted", "number {k} is {reason}"),
        (Some((k, _)), Err(e)) => {
            let text = format!("{e:?}");
            check!(text.contains(&list[*k].old), "the error does not name the fixup", "{text}");
        }
        _ => (),
    }
    if stop.is_some() && unchanged(&lines, &body, None).is_ok() {
        return Ok(());
    }
    unchanged(&lines, &model, None)?;
    let back: Vec<Fixup> = fs.into();
    check_eq!(back, list, "list of fixups", "");
    Ok(())
}

fn gen_store_act(src: &mut Src) -> ActIdentifier {
    let number = match src.below(4) {
        0 => src.range(1, 12) as i32,
        1 => *src.pick(&[0, 4000, 99999, -1, 3999]),
        _ => src.range(1, 300) as i32,
    };
    ActIdentifier { year: src.range(2010, 2012) as i16, number }
}

fn gen_store_text(src: &mut Src) -> String {
    const T: [&str; 12] = [
        "", "a", "- x", "null", "true", "1", "\"idézet\"", "'", ": ", "  szóköz ", "# é", "sor\nsor",
    ];
    match src.below(3) {
        0 => src.pick(&T).to_string(),
        1 => gen_mline(src, 8).text(),
        _ => super::serial::gen_any_text(src),
    }
}

fn c15_store(c: &mut Case) -> CaseResult {
    use std::collections::BTreeMap;
    let dir = scratch();
    let base = dir.path().join("fixups");
    let acts: Vec<ActIdentifier> = {
        let mut v: Vec<ActIdentifier> = (0..c.src.usize(1, 4)).map(|_| gen_store_act(&mut c.src)).collect();
        v.dedup();
        v
    };
    let mut model: BTreeMap<ActIdentifier, Vec<Fixup>> = BTreeMap::new();
    let mut trace = Vec::new();
    for _ in 0..c.src.usize(1, 6) {
        let act = *c.src.pick(&acts);
        let stored = model.get(&act).cloned().unwrap_or_default();
        let mut fs = match no_panic("Fixups::load_from", || Fixups::load_from(act, base.clone()))? {
            Ok(fs) => fs,
            Err(e) => return crate::engine::fail("store: load refused", format!("{act:?}: {e:?}")),
        };
        check_eq!(Vec::<Fixup>::from(fs.clone()), stored, "store: loaded fixups", "{act:?} after {trace:?}");
        let mut list = stored;
        for _ in 0..c.src.usize(0, 3) {
            let f = Fixup {
                after: (0..c.src.small(0, 2)).map(|_| gen_store_text(&mut c.src)).collect(),
                old: gen_store_text(&mut c.src),
                new: gen_store_text(&mut c.src),
                set_bold: c.src.bool(),
            };
            list.push(f.clone());
            fs.add(f);
        }
        if c.src.chance(4, 5) {
            if let Err(e) = no_panic("Fixups::save", || fs.save())? {
                return crate::engine::fail("store: save refused", format!("{act:?}: {e:?}"));
            }
            trace.push(format!("save {act:?} {}", list.len()));
            model.insert(act, list);
            c.nontrivial = true;
        }
        for a in &acts {
            let want = model.get(a).cloned().unwrap_or_default();
            match no_panic("Fixups::load_from", || Fixups::load_from(*a, base.clone()))? {
                Ok(f) => check_eq!(Vec::<Fixup>::from(f), want, "store: stored fixups", "{a:?} after {trace:?}"),
                Err(e) => return crate::engine::fail("store: load refused", format!("{a:?}: {e:?}")),
            }
        }
    }
    // A damaged file is an error, not an empty list
    if let Some((act, l)) = model.iter().next() {
        if !l.is_empty() && c.src.chance(1, 3) {
            c.label("damaged");
            for y in std::fs::read_dir(&base).unwrap().flatten() {
                for f in std::fs::read_dir(y.path()).unwrap().flatten() {
                    std::fs::write(f.path(), "- old: [\n  x").unwrap();
                }
            }
            let r = no_panic("Fixups::load_from", || Fixups::load_from(*act, base.clone()))?;
            check!(r.is_err(), "store: damaged file accepted", "{act:?}");
        }
    }
    c.label_if(model.len() > 1, "several acts");
    c.input(format!("{model:?}{trace:?}"));
    c.describe(|| trace.join("; "));
    Ok(())
}
