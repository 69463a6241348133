//! C23: the command line tool
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    io::Write,
    os::unix::fs::PermissionsExt,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

use chrono::{Datelike, NaiveDate};
use hun_law::{
    fixups::Fixups,
    identifier::ActIdentifier,
    mk_downloader::DEFAULT_MK_CROP,
    output::{CliOutput, OutputFormat},
    parser::{
        mk_act_section::{parse_mk_pages_into_acts, ActRawText},
        pdf::{parse_pdf, PageOfLines},
        structure::parse_act_structure,
    },
    structure::Act,
    util::singleton_yaml,
};

use super::{
    fixups::scratch,
    gazette::START,
    lines::MLine,
    pdf::Pdf,
    whole::{clear, word_para},
};
use crate::{
    actgen::{self, MAct, MChild, Opts},
    check, check_eq,
    engine::{fail, no_panic, Arm, Case, CaseResult, Fail, Kind, Prop, Src},
    model::roman,
};

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        level: "exploration",
        rule: "Gazette issues with generated acts are typeset as PDF files in a scratch cache, the command line tool runs there with generated arguments (acts or issues, formats, parsing steps, output to files or the terminal, stored corrections, acts and issues that cannot be processed) and its output, files and exit status are compared with the library and, for complete processing, the acts with the generated ones. Interactive sessions are driven by a scripted editor. Non-trivial: at least two acts, or something that cannot be processed, or an interactive correction.",
        assumptions: &[
            "the code generator peginator is not available: the parser is generated from /repo's grammar by a stand-in (tools/standin), with which all data tests of the repository pass",
            "issues are in the cache (downloading is the subject of C18)",
        ],
        arms: vec![
            Arm { name: "batch", kind: Kind::Random(3_000, 80_000), f: c23_batch },
            Arm { name: "interactive", kind: Kind::Random(3_000, 80_000), f: c23_interactive },
        ],
    }
}

// ---------------- typesetting ----------------

const MARGIN_STEP: f64 = 20.0;

/// Whether a PDF file can carry this line unchanged
fn settable(l: &MLine) -> bool {
    let t = l.text();
    if t.is_empty() {
        return true;
    }
    let cs: Vec<char> = t.chars().collect();
    // A space is only seen as a gap, one before each opening quote
    // Text right of 1000 is not on the page
    l.chars.last().map_or(true, |c| c.0 < 900.0) && t.trim() == t && !cs.windows(2).any(|w| w[1] == '„' && w[0] != ' ') && !t.contains('\u{a0}')
}

fn write_pdf(pages: &[Vec<MLine>]) -> Vec<u8> {
    let mut pdf = Pdf::default();
    let used: BTreeSet<char> = pages.iter().flatten().flat_map(|l| l.chars.iter().map(|c| c.1)).filter(|c| *c != ' ').collect();
    let mut cmap = String::from("/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n1 begincodespacerange\n<0000> <FFFF>\nendcodespacerange\n");
    for c in &used {
        let mut b = [0; 2];
        let u: String = c.encode_utf16(&mut b).iter().map(|u| format!("{u:04X}")).collect();
        cmap.push_str(&format!("1 beginbfchar\n<{:04X}> <{u}>\nendbfchar\n", *c as u32));
    }
    cmap.push_str("endcmap\nend\nend\n");
    let tu = pdf.add(Pdf::stream("", cmap.as_bytes()));
    let mut fonts = vec![];
    for name in ["AAAAAA+Normal", "AAAAAA+Normal-Bold"] {
        let desc = pdf.add(format!(
            "<</Type /FontDescriptor /FontName /{name} /Flags 32 /FontBBox [0 0 1000 1000] /ItalicAngle 0 /Ascent 800 /Descent -200 /CapHeight 700 /StemV 80>>"
        ));
        let d = pdf.add(format!(
            "<</Type /Font /Subtype /CIDFontType2 /BaseFont /{name} /CIDSystemInfo <</Registry (Adobe) /Ordering (Identity) /Supplement 0>> /FontDescriptor {desc} 0 R /DW 500 /W [] /CIDToGIDMap /Identity>>"
        ));
        fonts.push(pdf.add(format!(
            "<</Type /Font /Subtype /Type0 /BaseFont /{name} /Encoding /Identity-H /DescendantFonts [{d} 0 R] /ToUnicode {tu} 0 R>>"
        )));
    }
    let tree = pdf.reserve();
    let mut kids = vec![];
    for p in pages {
        let margin = p.iter().filter_map(|l| l.chars.last()).map(|c| c.0 + 5.0).fold(0.0, f64::max) + MARGIN_STEP;
        let texts = p.iter().filter(|l| !l.chars.is_empty()).count().max(1) as f64;
        let gaps = p.len() as f64 - texts.min(p.len() as f64);
        let leading = ((720.0 - gaps * 20.0) / texts).clamp(1.0, 12.0);
        let mut y = 740.0;
        let mut s = String::new();
        for l in p {
            if l.chars.is_empty() {
                y -= 20.0;
                continue;
            }
            s.push_str("BT\n");
            let mut font = None;
            for (i, (x, c, bold)) in l.chars.iter().enumerate() {
                if *c == ' ' {
                    continue;
                }
                if font != Some(*bold) {
                    s.push_str(if *bold { "/B 10 Tf\n" } else { "/N 10 Tf\n" });
                    font = Some(*bold);
                }
                if i + 1 == l.chars.len() && l.justified {
                    // The last character is wide enough to reach the margin
                    s.push_str(&format!("{} Tz\n", (margin - x) / 5.0 * 100.0));
                }
                s.push_str(&format!("1 0 0 1 {x} {y} Tm <{:04X}> Tj\n", *c as u32));
            }
            s.push_str("100 Tz\nET\n");
            y -= leading;
        }
        let c = pdf.add(Pdf::stream("", s.as_bytes()));
        kids.push(pdf.add(format!(
            "<</Type /Page /Parent {tree} 0 R /MediaBox [0 0 2000 842] /Contents {c} 0 R /Resources <</Font <</N {} 0 R /B {} 0 R>>>>>>",
            fonts[0], fonts[1]
        )));
    }
    let list: Vec<String> = kids.iter().map(|k| format!("{k} 0 R")).collect();
    pdf.set(tree, format!("<</Type /Pages /Count {} /Kids [{}]>>", kids.len(), list.join(" ")));
    let root = pdf.add(format!("<</Type /Catalog /Pages {tree} 0 R>>"));
    pdf.finish(root)
}

fn line(x: f64, s: &str, bold: bool, justified: bool) -> MLine {
    actgen::mline(x, s, |_| bold, justified)
}

// ---------------- issues ----------------

struct PAct {
    model: MAct,
    /// The text, None: cannot be predicted
    expected: Option<Act>,
    lines: Vec<MLine>,
}

struct PIssue {
    year: i64,
    number: i64,
    date: NaiveDate,
    acts: Vec<PAct>,
    /// The cover has no date
    broken: bool,
}

const MONTHS: [&str; 12] = [
    "január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október",
    "november", "december",
];
const DAYS: [&str; 7] = ["hétfő", "kedd", "szerda", "csütörtök", "péntek", "szombat", "vasárnap"];

fn long_id(id: ActIdentifier) -> String {
    format!("{}. évi {}. törvény", id.year, roman(id.number as u32).unwrap())
}

fn id_of(m: &MAct) -> ActIdentifier {
    ActIdentifier { year: m.year, number: m.number }
}

/// None: not the text of an act
fn gen_pact(src: &mut Src, id: ActIdentifier, date: NaiveDate) -> PAct {
    let o = Opts { amend: true, ..Opts::layout() };
    let mut model = actgen::gen_act(src, &o);
    model.year = id.year;
    model.number = id.number;
    model.date = date;
    model.subject = src.pick(&["egyes törvények módosításáról", "a népesedésről", "Magyarország 2012. évi költségvetéséről"]).to_string();
    for ch in &mut model.children {
        if let MChild::Art(a) = ch {
            for p in &mut a.paras {
                word_para(src, p);
            }
        }
    }
    let mut lay = |model: &MAct| {
        let mut l = actgen::Lay::new(src, false);
        l.act(model);
        l.out
    };
    let mut lines = lay(&model);
    if lines.iter().filter(|l| !l.chars.is_empty()).count() < 2 {
        // An act has at least two lines
        model.preamble = "Az Országgyűlés a következő törvényt alkotja".into();
        lines = lay(&model);
    }
    // Right of the edge, nothing but text at the end
    let left = lines.iter().filter_map(|l| l.chars.first()).map(|c| c.0).fold(0.0, f64::min);
    for l in &mut lines {
        for c in &mut l.chars {
            c.0 += 60.0 - left;
        }
    }
    while lines.last().map_or(false, |l| l.chars.is_empty()) {
        lines.pop();
    }
    while lines.first().map_or(false, |l| l.chars.is_empty()) {
        lines.remove(0);
    }
    let texts = lines.iter().filter(|l| !l.chars.is_empty()).count();
    // (twice the same empty lines are one)
    let ok = lines.iter().all(settable) && texts > 1;
    let expected = ok.then(|| actgen::to_act(&model));
    if texts == 0 {
        lines.push(line(60.0, "Nincs szöveg.", false, true));
    }
    PAct { model, expected, lines }
}

fn act_pages(src: &mut Src, a: &PAct, first: bool) -> Vec<Vec<MLine>> {
    let mut pages = vec![];
    let mut page = vec![];
    if first {
        page.push(line(60.0, START, true, false));
    }
    page.push(MLine::default());
    page.push(line(60.0, &long_id(id_of(&a.model)), true, false));
    page.push(line(60.0, &format!("{}*", a.model.subject), true, false));
    let footnote = line(60.0, "* A törvényt az Országgyűlés a 2010. november 22-i ülésnapján fogadta el.", false, true);
    let mut footnote_done = false;
    let mut prev_empty = false;
    let mut height = 0.0;
    for (i, l) in a.lines.iter().enumerate() {
        if l.chars.is_empty() {
            if prev_empty {
                continue;
            }
            prev_empty = true;
            // A page may end where there is an empty line
            let room = height < 500.0;
            let defined = !footnote_done || page.iter().any(|l: &MLine| l.justified);
            if i > 0 && defined && (!room || src.chance(1, 3)) {
                if !footnote_done {
                    page.push(MLine::default());
                    page.push(footnote.clone());
                    footnote_done = true;
                }
                pages.push(std::mem::take(&mut page));
                height = 0.0;
                continue;
            }
            height += 20.0;
            page.push(l.clone());
        } else {
            prev_empty = false;
            height += 3.0;
            page.push(l.clone());
        }
    }
    page.push(MLine::default());
    page.push(line(60.0, "Dr. Schmitt Pál s. k., Dr. Kövér László s. k.,", false, true));
    page.push(line(60.0, "köztársasági elnök az Országgyűlés elnöke", false, true));
    if !footnote_done {
        page.push(MLine::default());
        page.push(footnote);
    }
    pages.push(page);
    pages
}

fn issue_pdf(src: &mut Src, i: &PIssue) -> Vec<u8> {
    let mut cover = vec![line(60.0, "MAGYAR KÖZLÖNY 12. szám", true, false), MLine::default(), line(60.0, "MAGYARORSZÁG HIVATALOS LAPJA", false, false)];
    if !i.broken {
        let d = i.date;
        let wd = DAYS[d.weekday().num_days_from_monday() as usize];
        cover.push(line(60.0, &format!("{}. {} {}., {wd}", d.year(), MONTHS[d.month0() as usize], d.day()), false, false));
    }
    cover.push(MLine::default());
    cover.push(line(60.0, "Tartalomjegyzék", false, true));
    for a in &i.acts {
        cover.push(line(60.0, &format!("{} {} 123", long_id(id_of(&a.model)), a.model.subject), false, true));
    }
    let mut pages = vec![cover];
    for (k, a) in i.acts.iter().enumerate() {
        pages.extend(act_pages(src, a, k == 0));
    }
    if i.acts.is_empty() {
        pages.push(vec![line(60.0, START, true, true)]);
    }
    if src.bool() {
        pages.push(vec![
            line(60.0, "III. Kormányrendeletek", true, true),
            MLine::default(),
            line(60.0, "2013. évi V. törvény", false, true),
            line(60.0, "a rendeletről*", false, true),
            line(60.0, "1. § Szöveg.", false, false),
        ]);
    }
    write_pdf(&pages)
}

// ---------------- the tool ----------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Pdf,
    Lines,
    Structure,
    Semantic,
}

impl Step {
    fn arg(self) -> &'static str {
        match self {
            Step::Pdf => "pdf-lines",
            Step::Lines => "act-lines",
            Step::Structure => "structure",
            Step::Semantic => "semantic",
        }
    }
}

/// The same with the library
fn process(mut raw: ActRawText, fixups: &Path, step: Step, width: usize, format: OutputFormat) -> anyhow::Result<Vec<u8>> {
    let mut out = vec![];
    Fixups::load_from(raw.identifier, fixups.to_owned())?.apply(&mut raw.body)?;
    raw.remove_double_empty_lines();
    if step == Step::Lines {
        raw.cli_output(width, format, &mut out)?;
        return Ok(out);
    }
    let mut act = parse_act_structure(&raw)?;
    if step == Step::Semantic {
        act.add_semantic_info()?;
        act.convert_block_amendments()?;
    }
    act.cli_output(width, format, &mut out)?;
    Ok(out)
}

struct Ran {
    ok: bool,
    stdout: Vec<u8>,
    stderr: String,
}

fn tool(dir: &Path, args: &[String], input: &str) -> Result<Ran, Fail> {
    let exe = std::env::current_exe().unwrap().parent().unwrap().join("hv_cli");
    let (o, e) = (dir.join("stdout"), dir.join("stderr"));
    let mut child = Command::new(&exe)
        .args(args)
        .current_dir(dir)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("TMPDIR", dir.join("tmp"))
        // Nothing may be fetched
        .env("http_proxy", "http://127.0.0.1:1")
        .env("https_proxy", "http://127.0.0.1:1")
        .stdin(Stdio::piped())
        .stdout(fs::File::create(&o).unwrap())
        .stderr(fs::File::create(&e).unwrap())
        .spawn()
        .unwrap_or_else(|x| panic!("{exe:?}: {x}"));
    child.stdin.take().unwrap().write_all(input.as_bytes()).ok();
    let start = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if start.elapsed() > Duration::from_secs(120) {
            child.kill().ok();
            child.wait().ok();
            return fail("the tool does not end", format!("{args:?}\n{}", fs::read_to_string(&e).unwrap_or_default()));
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    let stderr = String::from_utf8_lossy(&fs::read(&e).unwrap()).to_string();
    let stdout = fs::read(&o).unwrap();
    if status.code().is_none() || status.code() == Some(101) || stderr.contains("panicked at") {
        return fail("the tool crashed", format!("{args:?}: {status}\n{stderr}"));
    }
    Ok(Ran { ok: status.success(), stdout, stderr })
}

fn put(path: PathBuf, data: impl AsRef<[u8]>) {
    fs::create_dir_all(path.parent().unwrap()).unwrap();
    fs::write(path, data).unwrap();
}

fn gen_format(src: &mut Src) -> (OutputFormat, &'static str, &'static str) {
    *src.pick(&[
        (OutputFormat::Json, "json", "json"),
        (OutputFormat::Yaml, "yaml", "yml"),
        (OutputFormat::Yaml, "yml", "yml"),
        (OutputFormat::Plain, "plain", "txt"),
        (OutputFormat::Plain, "txt", "txt"),
        (OutputFormat::Colored, "color", "txt"),
        (OutputFormat::TestPlain, "test-plain", "txt"),
    ])
}

fn gen_ids(src: &mut Src, n: usize) -> Vec<ActIdentifier> {
    let mut v: Vec<ActIdentifier> = vec![];
    while v.len() < n {
        let id = ActIdentifier { year: src.range(1998, 2029) as i16, number: src.range(1, 95) as i32 + v.len() as i32 * 96 };
        if id.number < 400 {
            v.push(id);
        } else {
            break;
        }
    }
    // In the order of the choices, not of the numbers
    for i in (1..v.len()).rev() {
        let j = src.usize(0, i);
        v.swap(i, j);
    }
    v
}

fn csv_field(s: &str) -> String {
    if s.contains(',') || s.contains('"') {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

fn show_pages(p: &[PageOfLines]) -> String {
    p.iter().map(|p| p.lines.iter().map(|l| l.content()).collect::<Vec<_>>().join(" | ")).collect::<Vec<_>>().join("\n---")
}

fn c23_batch(c: &mut Case) -> CaseResult {
    let src = &mut c.src;
    let n = src.usize(1, 3);
    let mut ids = gen_ids(src, 4);
    let mut issues: Vec<PIssue> = vec![];
    for k in 0..n {
        let y = src.range(1998, 2029) as i32;
        let date = NaiveDate::from_ymd_opt(y, src.range(1, 12) as u32, src.range(1, 28) as u32).unwrap();
        let m = src.weighted(&[1, 4, 2]);
        let acts = (0..m).filter_map(|_| ids.pop()).map(|id| gen_pact(src, id, date)).collect();
        issues.push(PIssue { year: y as i64, number: src.range(1, 60) + 60 * k as i64, date, acts, broken: src.chance(1, 12) });
    }
    // Something wrong with some acts
    let mut faults = 0;
    for a in issues.iter_mut().flat_map(|i| &mut i.acts) {
        if !src.chance(1, 5) {
            continue;
        }
        let texts: Vec<usize> = (0..a.lines.len()).filter(|i| !a.lines[*i].chars.is_empty()).collect();
        let at = *src.pick(&texts);
        let add = *src.pick(&[" „nyitva", " zárva”", " A 2012. évi C. törvény (2) bekezdése helyébe a következő rendelkezés lép:"]);
        let l = &a.lines[at];
        let x = l.chars[0].0;
        let t = l.text() + add;
        a.lines[at] = line(x, &t, false, l.justified);
        a.expected = None;
        faults += 1;
    }
    let dir = scratch();
    let d = dir.path();
    fs::create_dir(d.join("tmp")).unwrap();
    let mut table = String::from("mk_issue,act,title\n");
    let mut phantoms = vec![];
    let mut rows = vec![];
    for i in &issues {
        let bytes = issue_pdf(src, i);
        put(d.join(format!("cache dir/MK/{}/{}.pdf", i.year, i.number)), bytes);
        for a in &i.acts {
            rows.push((format!("{}/{}", i.year, i.number), id_of(&a.model), format!("{}, és másról", a.model.subject)));
        }
        if src.chance(1, 10) {
            // (perhaps with the number or the year of an act that is there)
            let id = match (i.acts.first(), src.below(3)) {
                (Some(a), 0) => ActIdentifier { year: 1990 + phantoms.len() as i16, number: a.model.number },
                (Some(a), 1) => ActIdentifier { year: a.model.year, number: 1000 + phantoms.len() as i32 },
                _ => ActIdentifier { year: 1990, number: 1000 + phantoms.len() as i32 },
            };
            phantoms.push(id);
            rows.push((format!("{}/{}", i.year, i.number), id, "nincs a lapban".into()));
        }
    }
    for k in 0..src.usize(0, 3) {
        rows.push((format!("2001/{k}"), ActIdentifier { year: 1991, number: 1 + k as i32 }, "másik \"lapban\"".into()));
    }
    if src.bool() {
        rows.reverse();
    }
    for (i, id, t) in &rows {
        table.push_str(&format!("{i},{},{}\n", csv_field(&long_id(*id)), csv_field(t)));
    }
    put(d.join("data/act_to_mk_issue.csv"), table);
    // Corrections
    let mut fixed = 0;
    for a in issues.iter().flat_map(|i| &i.acts) {
        if !src.chance(1, 5) {
            continue;
        }
        let texts: Vec<String> = a.lines.iter().map(|l| l.text()).filter(|t| !t.is_empty()).collect();
        let old = src.pick(&texts).clone();
        let new = match src.below(3) {
            0 => format!("{old} kiegészítve"),
            1 => String::new(),
            _ => format!("{}x", old.replace(['„', '”'], "")),
        };
        let f = hun_law::fixups::Fixup { after: vec![], old, new, set_bold: src.chance(1, 4) };
        let mut out = vec![];
        singleton_yaml::to_writer(&mut out, &vec![f]).unwrap();
        let id = id_of(&a.model);
        put(d.join(format!("data/fixups/{}/{id}.yml", id.year)), out);
        fixed += 1;
    }
    let fixups = d.join("data/fixups");
    // Arguments
    let mk = src.chance(1, 3);
    let (mut format, format_arg, ext) = gen_format(src);
    let step = *src.pick(&[Step::Semantic, Step::Semantic, Step::Structure, Step::Lines, Step::Pdf]);
    let width = src.usize(60, 140);
    let to_files = src.chance(2, 3);
    let mut args: Vec<String> = vec![];
    if step != Step::Semantic || src.bool() {
        args.extend([src.pick(&["-p", "--parse-until"]).to_string(), step.arg().into()]);
    }
    args.extend([src.pick(&["-t", "--output-format"]).to_string(), format_arg.into()]);
    let width = if src.bool() {
        args.extend(["-w".to_string(), width.to_string()]);
        width
    } else {
        105
    };
    args.extend(["-c".to_string(), "cache dir".to_string()]);
    if to_files {
        fs::create_dir(d.join("out")).unwrap();
        args.extend(["-o".to_string(), "out".to_string()]);
    } else if format == OutputFormat::Plain {
        format = OutputFormat::Colored;
    }
    let mut wanted: Vec<ActIdentifier> = vec![];
    let mut unknown = false;
    let mut selected: Vec<usize> = vec![];
    if mk {
        args.push("--mk".into());
        selected = (0..issues.len()).filter(|_| src.chance(3, 4)).collect();
        if selected.is_empty() {
            selected.push(0);
        }
        if src.bool() {
            selected.reverse();
        }
        for i in &selected {
            args.push(format!("{}/{}", issues[*i].year, issues[*i].number));
        }
    } else {
        let all: Vec<ActIdentifier> = issues.iter().flat_map(|i| &i.acts).map(|a| id_of(&a.model)).chain(phantoms.iter().copied()).collect();
        wanted = all.into_iter().filter(|_| src.chance(2, 3)).collect();
        if src.chance(1, 12) || wanted.is_empty() {
            wanted.push(ActIdentifier { year: 1985, number: 3 });
            unknown = true;
        }
        if src.bool() {
            wanted.reverse();
        }
        for id in &wanted {
            args.push(if src.bool() { long_id(*id) } else { format!("{}/{}", id.year, id.number) });
        }
        // In the order of the gazette
        let mut order: Vec<usize> = (0..issues.len()).collect();
        order.sort_by_key(|i| (issues[*i].year, issues[*i].number));
        for i in order {
            let there = |id: &ActIdentifier| wanted.contains(id);
            let listed = rows.iter().any(|r| r.0 == format!("{}/{}", issues[i].year, issues[i].number) && there(&r.1));
            if listed {
                selected.push(i);
            }
        }
    }
    // What should happen
    let mut good = !unknown;
    let mut outputs: Vec<(String, Option<Vec<u8>>)> = vec![];
    let mut check_acts: Vec<(ActIdentifier, &PAct)> = vec![];
    let mut processed: BTreeSet<ActIdentifier> = BTreeSet::new();
    if !unknown {
        for i in &selected {
            let i = &issues[*i];
            let bytes = fs::read(d.join(format!("cache dir/MK/{}/{}.pdf", i.year, i.number))).unwrap();
            let pages = match no_panic("parse_pdf", || parse_pdf(&bytes, DEFAULT_MK_CROP.clone()))? {
                Ok(p) => p,
                Err(e) => return fail("PDF refused", format!("{e:?}")),
            };
            if step == Step::Pdf {
                let mut out = vec![];
                pages.cli_output(width, format, &mut out).unwrap();
                outputs.push((format!("mk_{}_{}", i.year, i.number), Some(out)));
                processed.extend(&wanted);
                continue;
            }
            let acts = match no_panic("parse_mk_pages_into_acts", || parse_mk_pages_into_acts(&pages))? {
                Ok(a) => a,
                Err(e) => {
                    check!(i.broken, "issue refused", "{e:?}");
                    good = false;
                    continue;
                }
            };
            check!(!i.broken, "issue without a date accepted", "");
            let found: Vec<ActIdentifier> = acts.iter().map(|a| a.identifier).collect();
            let there: Vec<ActIdentifier> = i.acts.iter().map(|a| id_of(&a.model)).collect();
            check_eq!(found, there, "acts of an issue", "{}", show_pages(&pages));
            for (raw, model) in acts.into_iter().zip(&i.acts) {
                let id = raw.identifier;
                if !mk && !wanted.contains(&id) {
                    continue;
                }
                processed.insert(id);
                let r = no_panic("library", || process(raw, &fixups, step, width, format))?;
                good &= r.is_ok();
                let has_fixup = fixups.join(format!("{}/{id}.yml", id.year)).exists();
                if model.expected.is_some() && !has_fixup {
                    if let Err(e) = &r {
                        return fail("act refused", format!("{e:?}\n{}", actgen::show_lines(&model.lines)));
                    }
                    check_acts.push((id, model));
                }
                outputs.push((id.to_string(), r.ok()));
            }
        }
        good &= wanted.iter().all(|w| processed.contains(w));
    }
    let failing = outputs.iter().filter(|o| o.1.is_none()).count();
    c.nontrivial_if(outputs.len() > 1 || !good || fixed > 0);
    c.label_if(failing > 0, "acts that cannot be processed");
    c.label_if(failing > 0 && outputs.len() > failing, "some acts that can, some that cannot");
    c.label_if(issues.iter().any(|i| i.broken), "broken issue");
    c.label_if(unknown, "unknown act");
    c.label_if(!phantoms.is_empty(), "act missing from its issue");
    c.label_if(fixed > 0, "stored corrections");
    c.label_if(faults > 0, "faults");
    c.label_if(outputs.len() > 1, "several outputs");
    c.label_if(!check_acts.is_empty(), "compared with the model");
    let show = || {
        let mut t = format!("{args:?}\n");
        for i in &issues {
            t.push_str(&format!("issue {}/{} {} broken: {}\n", i.year, i.number, i.date, i.broken));
            for a in &i.acts {
                t.push_str(&format!("  {} {} lines\n", long_id(id_of(&a.model)), a.lines.len()));
            }
        }
        t.push_str(&format!("outputs: {:?}\n", outputs.iter().map(|(n, o)| (n.clone(), o.as_ref().map(|o| o.len()))).collect::<Vec<_>>()));
        t
    };
    c.input(show());
    c.describe(show);
    let ran = tool(d, &args, "")?;
    let ctx = || format!("{}\n{}", show(), ran.stderr);
    check_eq!(ran.ok, good, "exit status", "{}", ctx());
    let mut got: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    if to_files {
        check!(ran.stdout.is_empty() || !good, "output on the terminal", "{}", ctx());
        for f in fs::read_dir(d.join("out")).unwrap() {
            let f = f.unwrap();
            got.insert(f.file_name().to_string_lossy().to_string(), fs::read(f.path()).unwrap());
        }
        let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for (n, o) in &outputs {
            if let Some(o) = o {
                want.insert(format!("{n}.{ext}"), o.clone());
            }
        }
        check_eq!(got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), "files written", "{}", ctx());
        for (k, v) in &want {
            check!(&got[k] == v, "contents of a file", "{k}\n got: {}\nwant: {}\n{}", String::from_utf8_lossy(&got[k]), String::from_utf8_lossy(v), ctx());
        }
    } else if good {
        let mut want = vec![];
        for (n, o) in &outputs {
            want.extend(format!("------ {n} ------\n").bytes());
            want.extend(o.as_ref().unwrap());
        }
        check!(ran.stdout == want, "output on the terminal", "got: {}\nwant: {}\n{}", String::from_utf8_lossy(&ran.stdout), String::from_utf8_lossy(&want), ctx());
    } else {
        // Whatever could be processed is there, in order
        let mut rest: &[u8] = &ran.stdout;
        for (n, o) in &outputs {
            if let Some(o) = o {
                let mut w = format!("------ {n} ------\n").into_bytes();
                w.extend(o);
                let at = rest.windows(w.len()).position(|x| x == w);
                check!(at.is_some(), "output of the other acts", "{n}\n{}\n{}", String::from_utf8_lossy(rest), ctx());
                rest = &rest[at.unwrap() + w.len()..];
            }
        }
    }
    // The acts themselves
    if to_files && step == Step::Semantic && matches!(format, OutputFormat::Json | OutputFormat::Yaml) {
        for (id, m) in check_acts {
            let bytes = &got[&format!("{id}.{ext}")];
            let act: Act = if format == OutputFormat::Json { serde_json::from_slice(bytes).unwrap() } else { singleton_yaml::from_slice(bytes).unwrap() };
            same_act(&act, m)?;
        }
    }
    Ok(())
}

fn same_act(act: &Act, m: &PAct) -> CaseResult {
    let (mut act, mut expected) = (clear(act), clear(m.expected.as_ref().unwrap()));
    act.contained_abbreviations.clear();
    actgen::drop_empty_quoted(&mut act);
    actgen::drop_empty_quoted(&mut expected);
    drop_quoted_layout(&mut act);
    drop_quoted_layout(&mut expected);
    super::structure::compare(&act, &expected, &m.lines)
}

/// Positions in quoted lines are not those of the model
fn drop_quoted_layout(a: &mut Act) {
    let mut v = serde_json::to_value(&*a).unwrap();
    fn rec(v: &mut serde_json::Value) {
        match v {
            serde_json::Value::Object(m) => {
                if let Some(serde_json::Value::Array(l)) = m.get_mut("lines") {
                    for x in l {
                        if let Some(serde_json::Value::Array(p)) = x.get_mut("parts") {
                            p.dedup_by(|a, b| a["content"] == " " && b["content"] == " ");
                            for y in p.iter_mut() {
                                if let Some(dx) = y.get_mut("dx") {
                                    *dx = serde_json::json!(0.0);
                                }
                                // (spaces are only gaps)
                                if y["content"] == " " {
                                    y["bold"] = serde_json::json!(false);
                                }
                            }
                            let t: String = p.iter().map(|y| y["content"].as_str().unwrap()).collect();
                            x["cached_content"] = serde_json::json!(t);
                            x["cached_bold"] = serde_json::json!(false);
                        }
                    }
                }
                m.values_mut().for_each(rec);
            }
            serde_json::Value::Array(x) => x.iter_mut().for_each(rec),
            _ => (),
        }
    }
    rec(&mut v);
    *a = serde_json::from_value(v).unwrap();
}

fn c23_interactive(c: &mut Case) -> CaseResult {
    let src = &mut c.src;
    let date = NaiveDate::from_ymd_opt(2012, 3, 4).unwrap();
    let id = ActIdentifier { year: 2012, number: src.range(1, 250) as i32 };
    let mut act = gen_pact(src, id, date);
    if act.expected.is_none() {
        return Ok(());
    }
    // Lines with an error, or additional lines around an empty one
    let mut errors = 0;
    let mut texts: Vec<usize> = (0..act.lines.len()).filter(|i| !act.lines[*i].chars.is_empty()).collect();
    for _ in 0..src.usize(0, 2) {
        if texts.is_empty() {
            break;
        }
        let k = src.usize(0, texts.len() - 1);
        let at = texts.remove(k);
        let l = &act.lines[at];
        // (a correction at the end of a line makes it a short one)
        let gaps: Vec<usize> = (1..l.chars.len()).filter(|i| l.chars[*i].1 == ' ' && l.chars[*i - 1].1 != ' ').collect();
        let end = l.chars.len();
        let pos = match (l.justified, gaps.is_empty()) {
            (true, true) => continue,
            (false, true) => end,
            (j, false) => if j || src.bool() { *src.pick(&gaps) } else { end },
        };
        let mut chars = l.chars[..pos].to_vec();
        let x0 = chars.last().unwrap().0 + 5.0;
        let extra = " „HIBA".chars().count() as f64 * 5.0;
        for (k, ch) in " „HIBA".chars().enumerate() {
            chars.push((x0 + k as f64 * 5.0, ch, false));
        }
        chars.extend(l.chars[pos..].iter().map(|(x, c, b)| (x + extra, *c, *b)));
        act.lines[at] = MLine { chars, justified: l.justified };
        errors += 1;
    }
    let empties: Vec<usize> = (0..act.lines.len()).filter(|i| act.lines[*i].chars.is_empty()).collect();
    let mut extra = 0;
    if !empties.is_empty() && (errors == 0 || src.bool()) {
        let at = *src.pick(&empties);
        extra = src.usize(1, 3);
        let mut add = vec![];
        for _ in 0..extra {
            add.push(line(60.0, "„HIBASOR", false, false));
            add.push(MLine::default());
        }
        act.lines.splice(at + 1..at + 1, add);
    }
    if errors + extra == 0 {
        return Ok(());
    }
    let forced = src.chance(1, 4);
    // Other acts of the issue, before and after it
    let mut acts = vec![PAct { model: act.model.clone(), expected: None, lines: act.lines.clone() }];
    let mut others = vec![];
    for k in 0..if forced { 0 } else { src.weighted(&[2, 2, 1]) } {
        let oid = ActIdentifier { year: 2012, number: 251 + k as i32 };
        let o = gen_pact(src, oid, date);
        if o.expected.is_some() {
            others.push(oid);
            let at = if src.bool() { 0 } else { acts.len() };
            acts.insert(at, o);
        }
    }
    let issue = PIssue { year: 2012, number: 5, date, acts, broken: false };
    let dir = scratch();
    let d = dir.path();
    fs::create_dir(d.join("tmp")).unwrap();
    fs::create_dir(d.join("out")).unwrap();
    let pdf = issue_pdf(src, &issue);
    put(d.join("cache/MK/2012/5.pdf"), &pdf);
    let one_by_one = src.bool();
    let refuse = src.chance(1, 8);
    let which = if one_by_one { "0,/HIBA/" } else { "" };
    put(
        d.join("editor.sh"),
        format!("#!/bin/sh\necho x >>\"{}\"\nsed -i -e '{which}{{s/^.*HIBASOR.*$//;s/ „HIBA//}}' \"$1\"\n", d.join("sessions").display()),
    );
    fs::set_permissions(d.join("editor.sh"), fs::Permissions::from_mode(0o755)).unwrap();
    let mut args: Vec<String> = ["--mk", "2012/5", "-i", "-o", "out", "-t", "json", "-e", "./editor.sh"].iter().map(|s| s.to_string()).collect();
    if forced {
        args.push("--force-fixup-editor".into());
    }
    let show = || format!("{errors} errors, {extra} additional lines, one by one: {one_by_one}, forced: {forced}, refused: {refuse}\n{}", actgen::show_lines(&act.lines));
    c.nontrivial = true;
    c.label_if(extra > 1, "several additional lines");
    c.label_if(errors > 0, "errors");
    c.label_if(one_by_one && errors + extra > 1, "several sessions");
    c.label_if(refuse, "refused");
    c.label_if(!others.is_empty(), "other acts");
    c.input(show());
    c.describe(show);
    // What is wanted: the text without the errors
    let n = if one_by_one { errors + extra } else { 1 };
    // A forced editor may be used again when there is nothing left to correct
    let src = &mut c.src;
    let more = if forced { src.usize(0, 2) } else { 0 };
    let mut answers = String::new();
    if !refuse {
        for _ in 0..n + more {
            answers.push_str(*src.pick(&["y", "y", "Y", "yes", "Yes", "", " "]));
            answers.push('\n');
        }
    }
    for _ in 0..10 {
        answers.push_str(*src.pick(&["n", "n", "N", "no", "No", "nem", "x", "anyway"]));
        answers.push('\n');
    }
    let expect_others = |stage: &str| -> CaseResult {
        let pages = parse_pdf(&pdf, DEFAULT_MK_CROP.clone()).map_err(|e| Fail { sig: "PDF refused".into(), msg: format!("{e:?}") })?;
        for raw in parse_mk_pages_into_acts(&pages).map_err(|e| Fail { sig: "issue refused".into(), msg: format!("{e:?}") })? {
            let oid = raw.identifier;
            if others.contains(&oid) {
                let want = process(raw, &d.join("data/fixups"), Step::Semantic, 105, OutputFormat::Json).map_err(|e| Fail { sig: "act refused".into(), msg: format!("{e:?}") })?;
                let got = fs::read(d.join(format!("out/{oid}.json"))).ok();
                check!(got == Some(want), "output of another act", "{stage}: {oid}");
            }
        }
        Ok(())
    };
    let ran = tool(d, &args, &answers)?;
    let sessions = fs::read_to_string(d.join("sessions")).map_or(0, |s| s.lines().count());
    let ctx = || format!("{} sessions\n{}\n{}", sessions, show(), ran.stderr);
    if refuse {
        check!(!ran.ok && sessions == 0, "refused correction", "{}", ctx());
        if forced {
            return Ok(());
        }
        check!(!d.join(format!("out/{id}.json")).exists(), "output of a refused act", "{}", ctx());
        return expect_others("refused");
    }
    // An act that can be processed before all errors are corrected needs no more sessions
    check!(sessions >= 1 && sessions <= n + more, "sessions", "{}", ctx());
    check_eq!(ran.ok, !forced, "exit status", "{}", ctx());
    expect_others("corrected")?;
    let path = d.join(format!("out/{id}.json"));
    let bytes = fs::read(&path).unwrap_or_default();
    let got: Act = match serde_json::from_slice(&bytes) {
        Ok(a) => a,
        Err(e) => return fail("output of a corrected act", format!("{e}\n{}\n{}", String::from_utf8_lossy(&bytes), ctx())),
    };
    if sessions >= n {
        same_act(&got, &PAct { model: act.model.clone(), expected: act.expected.clone(), lines: act.lines.clone() })?;
    }
    // And now without the editor
    fs::remove_file(&path).unwrap();
    let args: Vec<String> = ["--mk", "2012/5", "-o", "out", "-t", "json"].iter().map(|s| s.to_string()).collect();
    let again = tool(d, &args, "")?;
    check!(again.ok && fs::read(&path).unwrap_or_default() == bytes, "corrections kept", "{}\n{}", ctx(), again.stderr);
    Ok(())
}
