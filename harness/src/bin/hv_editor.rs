//! Runs interactive fixup sessions (the real run_fixup_editor) in the directory given as the first argument.
//! The sessions come as JSON on stdin, what happened goes to stdout. When HV_EDIT is set, the program is the
//! editor instead: it changes the file it is given as told.
#![allow(dead_code)]
#[path = "../../../build/view_bin/hun_law/fixup_editor.rs"]
mod fixup_editor;

use std::io::Read;

use hun_law::{
    fixups::{Fixup, Fixups},
    identifier::ActIdentifier,
    parser::mk_act_section::ActRawText,
    util::indentedline::{IndentedLine, IndentedLinePart},
};
use serde_json::{json, Value};

fn editor(spec: &str) {
    let spec: Value = serde_json::from_str(spec).unwrap();
    let path = std::env::args().nth(1).unwrap();
    let text = std::fs::read_to_string(&path).unwrap();
    std::fs::write(spec["shown"].as_str().unwrap(), &text).unwrap();
    let mode = spec["mode"].as_str().unwrap();
    let mut lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
    for e in spec["edits"].as_array().unwrap() {
        let (i, new) = (e[0].as_u64().unwrap() as usize, e[1].as_str().unwrap());
        let l = &lines[i];
        let body: String = l.chars().skip(5).collect();
        let spaces: usize = body.chars().take_while(|c| *c == ' ').count();
        let head: String = l.chars().take(5 + spaces).collect();
        lines[i] = match e[2].as_str().unwrap() {
            "blank" => String::new(),
            "flush" => format!("{}{new}", l.chars().take(5).collect::<String>()),
            "trailing" => format!("{head}{new}  "),
            "tab" => format!("{}\t{new}", l.chars().take(5).collect::<String>()),
            "number" => format!("  77 {new}"),
            _ => format!("{head}{new}"),
        };
    }
    match mode {
        "strip" => lines.iter_mut().for_each(|l| *l = l.trim_end().to_string()),
        "delete" => {
            lines.pop();
        }
        "insert" => lines.insert(0, "   0 új sor".into()),
        _ => (),
    }
    let mut out = lines.join(if mode == "crlf" { "\r\n" } else { "\n" });
    if mode == "crlf" {
        out.push('\r');
    }
    if mode != "nonl" && !lines.is_empty() {
        out.push('\n');
    }
    let mut out = out.into_bytes();
    if mode == "badutf8" {
        out.extend([0xff, 0xfe, b'\n']);
    }
    if mode == "rename" {
        // Many editors save into a new file
        let tmp = format!("{path}~");
        std::fs::write(&tmp, out).unwrap();
        std::fs::rename(tmp, path).unwrap();
    } else {
        std::fs::write(path, out).unwrap();
    }
    if mode == "status" {
        std::process::exit(1);
    }
}

fn line(v: &Value) -> IndentedLine {
    let mut x = 0.0;
    let parts = v["chars"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| {
            let ax = c[0].as_f64().unwrap();
            let dx = ax - x;
            x = ax;
            IndentedLinePart {
                dx,
                content: c[1].as_str().unwrap().chars().next().unwrap(),
                bold: c[2].as_bool().unwrap(),
            }
        })
        .collect();
    IndentedLine::from_parts(parts, v["justified"].as_bool().unwrap())
}

fn limit_file_size(n: u64) {
    let mut lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut lim);
        lim.rlim_cur = n.min(lim.rlim_max);
        libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
    }
}

fn main() {
    if let Ok(spec) = std::env::var("HV_EDIT") {
        // The limit is meant for the session, not for its editor
        limit_file_size(u64::MAX);
        return editor(&spec);
    }
    std::panic::set_hook(Box::new(|_| ()));
    let dir = std::env::args().nth(1).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let tmp = format!("{dir}/tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    std::env::set_var("TMPDIR", &tmp);
    let exe = std::env::current_exe().unwrap().display().to_string();
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();
    let spec: Value = serde_json::from_str(&input).unwrap();
    let acts: Vec<ActRawText> = spec["acts"]
        .as_array()
        .unwrap()
        .iter()
        .map(|a| ActRawText {
            identifier: ActIdentifier {
                year: a["year"].as_i64().unwrap() as i16,
                number: a["number"].as_i64().unwrap() as i32,
            },
            body: a["body"].as_array().unwrap().iter().map(line).collect(),
            ..Default::default()
        })
        .collect();
    let load = |a: &ActRawText| -> Value {
        match Fixups::load(a.identifier) {
            Ok(f) => serde_json::to_value(Vec::<Fixup>::from(f)).unwrap(),
            Err(e) => json!(format!("error {e:?}")),
        }
    };
    let fixed = |a: &ActRawText| -> Result<ActRawText, String> {
        let mut a = a.clone();
        Fixups::load(a.identifier).and_then(|f| f.apply(&mut a.body)).map_err(|e| format!("{e:?}"))?;
        Ok(a)
    };
    let mut out = Vec::new();
    for s in spec["sessions"].as_array().unwrap() {
        let act = &acts[s["act"].as_u64().unwrap() as usize];
        let shown = format!("{dir}/shown");
        let _ = std::fs::remove_file(&shown);
        let before = match fixed(act) {
            Ok(a) => a,
            Err(e) => {
                out.push(json!({"result": format!("cannot apply: {e}")}));
                break;
            }
        };
        let mode = s["mode"].as_str().unwrap();
        std::env::set_var("HV_EDIT", json!({"shown": shown, "mode": mode, "edits": s["edits"]}).to_string());
        let program = if mode == "noeditor" { "/nonexistent/editor".to_string() } else { exe.clone() };
        if mode == "fsize" {
            limit_file_size(s["limit"].as_u64().unwrap());
        }
        let r = std::panic::catch_unwind(|| fixup_editor::run_fixup_editor(&before, &program));
        limit_file_size(u64::MAX);
        std::env::remove_var("HV_EDIT");
        let result = match r {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(e)) => format!("error {e:?}"),
            Err(_) => "panic".to_string(),
        };
        let after = match fixed(act) {
            Ok(a) => json!({
                "lines": a.body.iter().map(|l| l.content()).collect::<Vec<_>>(),
                "bold": a.body.iter().map(|l| l.is_bold()).collect::<Vec<_>>(),
            }),
            Err(e) => json!({"error": e}),
        };
        out.push(json!({
            "result": result,
            "shown": std::fs::read_to_string(&shown).ok(),
            "after": after,
            "stores": acts.iter().map(load).collect::<Vec<_>>(),
            "tmp": std::fs::read_dir(&tmp).unwrap().count(),
        }));
    }
    println!("{}", Value::Array(out));
}
