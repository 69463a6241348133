//! C16: interactive fixup sessions
use std::{
    io::Write,
    path::Path,
    process::{Command, Stdio},
};

use serde_json::{json, Value};

use super::{fixups::scratch, lines::MLine};
use crate::{
    check, check_eq,
    engine::{fail, Arm, Case, CaseResult, Fail, Kind, Prop, Src},
};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        level: "exploration",
        rule: "Histories of 1-4 editing sessions over 1-3 acts: a process runs the real session code with a scripted editor in a scratch directory; after each session the stored fixups are loaded and applied to the original text and compared with the text as edited. Non-trivial: at least one session changes a line whose text is not unique, or there are two sessions of one act, or a fault is injected.",
        assumptions: &[
            "the editor leaves the five column margin of a line alone, or blanks the whole line",
            "lines begin and end with a character that is not a space, as the line parser guarantees",
            "an error is legitimate if lines were added or removed, the file is not text, the editor cannot be started, or no context of at most ten lines makes a changed line unique",
        ],
        arms: vec![
            Arm { name: "sessions", kind: Kind::Random(12_000, 300_000), f: c16_sessions },
        ],
    }]
}

const TEXTS: [&str; 14] = [
    "a törvény", "(1) Az ügy", "és", "a)", "b) é", "„idézet", "idézet vége”", "x", "– ő", "1. §", "\u{a0}nemtörő", "vége\u{a0}", "é", "𝄞",
];

fn gen_line(src: &mut Src) -> MLine {
    let t = match src.weighted(&[1, 5]) {
        0 => "",
        _ => src.pick(&TEXTS),
    };
    let mut x = src.range(0, 3000) as f64 / 8.0;
    let bold = src.chance(1, 4);
    MLine {
        chars: t
            .chars()
            .map(|c| {
                x += 3.0;
                (x, c, bold)
            })
            .collect(),
        justified: src.bool(),
    }
}

fn gen_new(src: &mut Src, old: &str) -> String {
    match src.weighted(&[2, 2, 2, 2, 1]) {
        0 => String::new(),
        1 => src.pick(&TEXTS).trim().to_string(),
        2 => format!("{}X", old.trim()),
        3 => {
            let v: Vec<char> = old.trim().chars().collect();
            let k = src.usize(0, v.len());
            v.iter().take(k).collect::<String>().trim().to_string()
        }
        _ => format!("új {}", src.below(3)),
    }
}

/// Whether a context of at most ten lines identifies line `pos`
fn identifiable(lines: &[String], pos: usize) -> bool {
    (0..=pos.min(10)).any(|k| {
        let needle = &lines[pos - k..=pos];
        lines.windows(k + 1).filter(|w| *w == needle).count() == 1
    })
}

struct Session {
    act: usize,
    mode: &'static str,
    limit: u64,
    /// line, new text (may contain the marker), way of typing it
    edits: Vec<(usize, String, &'static str)>,
}

pub fn run_editor(dir: &Path, spec: &Value) -> Result<Value, Fail> {
    let exe = std::env::current_exe().unwrap().with_file_name("hv_editor");
    let mut child = Command::new(exe)
        .arg(dir)
        .env_clear()
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("starting hv_editor");
    child.stdin.take().unwrap().write_all(spec.to_string().as_bytes()).unwrap();
    let out = child.wait_with_output().unwrap();
    match serde_json::from_slice(&out.stdout) {
        Ok(v) => Ok(v),
        Err(_) => fail("session process died", format!("{:?}", out.status)),
    }
}

fn c16_sessions(c: &mut Case) -> CaseResult {
    let dir = scratch();
    let n_acts = c.src.small(1, 3);
    let mut acts: Vec<(i16, i32, Vec<MLine>)> = Vec::new();
    for i in 0..n_acts {
        let kinds: Vec<MLine> = (0..c.src.usize(1, 3)).map(|_| gen_line(&mut c.src)).collect();
        let n = if c.src.chance(1, 8) { c.src.usize(12, 30) } else { c.src.usize(1, 8) };
        let body = (0..n)
            .map(|_| if c.src.chance(1, 3) { gen_line(&mut c.src) } else { c.src.pick(&kinds).clone() })
            .collect();
        acts.push((2010 + c.src.range(0, 1) as i16, [1, 5, 4000][i], body));
    }
    // The model: the text of each act as last edited, and its boldness
    let mut texts: Vec<Vec<String>> = acts.iter().map(|a| a.2.iter().map(|m| m.text()).collect()).collect();
    let mut sessions: Vec<Session> = Vec::new();
    let mut expected: Vec<(bool, Vec<String>, Vec<usize>)> = Vec::new();
    let mut faults = 0;
    let mut repeated = false;
    for _ in 0..c.src.usize(1, 4) {
        let act = c.src.usize(0, n_acts - 1);
        let cur = &texts[act];
        let mode = match c.src.weighted(&[10, 2, 2, 1, 1, 1, 1, 1, 1, 2]) {
            0 => "inplace",
            1 => "rename",
            2 => "strip",
            3 => "nonl",
            4 => "crlf",
            5 => "delete",
            6 => "insert",
            7 => "badutf8",
            8 => "noeditor",
            _ => "fsize",
        };
        let mut edits: Vec<(usize, String, &'static str)> = Vec::new();
        for (i, old) in cur.iter().enumerate() {
            if !c.src.chance(1, 4) {
                continue;
            }
            let mut new = gen_new(&mut c.src, old);
            let mut how = *c.src.pick(&["", "flush", "trailing", "tab", "number"]);
            if new.is_empty() && c.src.bool() {
                how = "blank";
            } else if c.src.chance(1, 5) {
                // Before, after or within the text
                let n = new.chars().count();
                let at = *c.src.pick(&[0, 0, n, n, n / 2]);
                let mark = *c.src.pick(&["<BOLD>", "<BOLD> ", " <BOLD>", "<BOLD> <BOLD>"]);
                new = new.chars().take(at).chain(mark.chars()).chain(new.chars().skip(at)).collect::<String>();
            }
            edits.push((i, new, how));
        }
        // What the text becomes
        let mut lines = cur.clone();
        let mut bold = Vec::new();
        let mut ok = true;
        if mode != "noeditor" {
            for (i, new, _) in &edits {
                let marked = new.contains("<BOLD>");
                let text = new.replace("<BOLD>", "").trim().to_string();
                if marked || text != lines[*i].trim() {
                    repeated |= lines.iter().filter(|l| **l == lines[*i]).count() > 1;
                    ok &= identifiable(&lines, *i);
                    lines[*i] = text;
                    if marked {
                        bold.push(*i);
                    }
                }
            }
        }
        // An empty last line without a line end is no line
        let lost_line = mode == "nonl" && edits.iter().any(|e| e.0 + 1 == cur.len() && e.2 == "blank");
        // (the file then ends with the line end of the line before)
        let may_fail = !ok || lost_line || matches!(mode, "delete" | "insert" | "badutf8" | "noeditor" | "fsize");
        faults += may_fail as u32;
        let limit = c.src.below(400);
        if !may_fail {
            texts[act] = lines.clone();
        }
        expected.push((may_fail, lines, bold));
        sessions.push(Session { act, mode, limit, edits });
        if may_fail && matches!(mode, "fsize") {
            // Whether it fails depends on sizes: the model cannot go on
            break;
        }
    }
    let spec = json!({
        "acts": acts.iter().map(|(y, n, b)| json!({
            "year": y, "number": n,
            "body": b.iter().map(|m| json!({
                "chars": m.chars.iter().map(|(x, c, b)| json!([x, c.to_string(), b])).collect::<Vec<_>>(),
                "justified": m.justified,
            })).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
        "sessions": sessions.iter().map(|s| json!({
            "act": s.act, "mode": s.mode, "limit": s.limit,
            "edits": s.edits.iter().map(|e| json!([e.0, e.1, e.2])).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
    });
    let shown_spec = || {
        format!(
            "acts {:?}; sessions {:?}",
            acts.iter().map(|a| (a.1, a.2.iter().map(|m| m.text()).collect::<Vec<_>>())).collect::<Vec<_>>(),
            sessions.iter().map(|s| (s.act, s.mode, &s.edits)).collect::<Vec<_>>()
        )
    };
    c.input(spec.to_string());
    c.describe(shown_spec);
    let two = sessions.iter().enumerate().any(|(i, s)| sessions[..i].iter().any(|t| t.act == s.act));
    c.nontrivial = faults > 0 || repeated || two;
    c.label_if(faults > 0, "fault");
    c.label_if(two, "several sessions of an act");
    c.label_if(repeated, "repeated line edited");
    let got = run_editor(dir.path(), &spec)?;
    let got = got.as_array().unwrap();
    let mut texts: Vec<Vec<String>> = acts.iter().map(|a| a.2.iter().map(|m| m.text()).collect()).collect();
    let mut bolds: Vec<Vec<Option<bool>>> = acts
        .iter()
        .map(|a| a.2.iter().map(|m| Some(m.chars.iter().filter(|c| c.2).count() * 3 > m.chars.len() * 2)).collect())
        .collect();
    let mut stores: Vec<Value> = acts.iter().map(|_| json!([])).collect();
    for (k, s) in sessions.iter().enumerate() {
        let ctx = || format!("session {k} ({:?}) of {}\n{}", s.mode, shown_spec(), got.get(k).unwrap_or(&Value::Null));
        check!(k < got.len(), "sessions end early", "{}", ctx());
        let g = &got[k];
        let (may_fail, lines, bold) = &expected[k];
        let result = g["result"].as_str().unwrap();
        check!(result != "panic", "panic in a session", "{}", ctx());
        check!(!result.starts_with("cannot apply"), "stored fixups do not apply", "{}", ctx());
        check!(result == "ok" || *may_fail, "session refused", "{}", ctx());
        // What the editor was shown
        if let Some(shown) = g["shown"].as_str() {
            let v: Vec<String> =
                shown.lines().map(|l| l.chars().skip(5).collect::<String>().trim_matches(' ').to_string()).collect();
            check_eq!(v, texts[s.act], "text shown in the editor", "{}", ctx());
        }
        if result == "ok" {
            let got_lines: Vec<String> = match g["after"]["lines"].as_array() {
                Some(l) => l.iter().map(|s| s.as_str().unwrap().to_string()).collect(),
                None => return fail("stored fixups do not apply", ctx()),
            };
            // With a file size limit a session that went through has stored everything
            if matches!(s.mode, "delete" | "insert" | "badutf8" | "noeditor") {
                check!(s.mode == "noeditor", "an impossible edit is accepted", "{}", ctx());
                return fail("a session without an editor succeeds", ctx());
            }
            check_eq!(got_lines, *lines, "the edited text is not reproduced", "{}", ctx());
            let changed: Vec<usize> = (0..lines.len()).filter(|i| lines[*i] != texts[s.act][*i]).collect();
            if changed.is_empty() && bold.is_empty() {
                check_eq!(g["stores"][s.act], stores[s.act], "a session without changes stores something", "{}", ctx());
            }
            for (i, b) in bolds[s.act].iter_mut().enumerate() {
                if bold.contains(&i) {
                    *b = Some(!lines[i].is_empty());
                } else if changed.contains(&i) {
                    *b = None;
                }
                if let Some(b) = b {
                    check_eq!(g["after"]["bold"][i].as_bool().unwrap(), *b, "boldness of a line", "line {i} in {}", ctx());
                }
            }
            texts[s.act] = lines.clone();
        } else {
            check_eq!(g["stores"][s.act], stores[s.act], "a failed session changes the stored fixups", "{}", ctx());
        }
        for a in 0..acts.len() {
            if a != s.act {
                check_eq!(g["stores"][a], stores[a], "fixups of another act changed", "{}", ctx());
            }
        }
        let old = stores[s.act].as_array().unwrap();
        let Some(new) = g["stores"][s.act].as_array() else {
            return fail("stored fixups cannot be loaded", ctx());
        };
        check!(new.len() >= old.len() && new[..old.len()] == old[..], "earlier fixups are lost", "{}", ctx());
        stores = g["stores"].as_array().unwrap().clone();
        check_eq!(g["tmp"], json!(0), "temporary file left behind", "{}", ctx());
    }
    Ok(())
}
