//! C14: a gazette issue is split into exactly its acts
use chrono::{Datelike, NaiveDate};
use hun_law::{
    identifier::ActIdentifier,
    parser::{
        mk_act_section::{parse_mk_pages_into_acts, ActRawText},
        pdf::PageOfLines,
    },
    util::indentedline::{IndentedLine, EMPTY_LINE},
};

use super::{
    hun::days_in,
    lines::{same, MLine},
};
use crate::{
    check, check_eq,
    engine::{fail, no_panic, Arm, Case, CaseResult, Kind, Prop, Src},
    model::roman,
};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C14",
        level: "exploration",
        rule: "An issue is generated from a model (cover page, sections in any order, acts with subject, body, footnote and signature, decoys in the texts), laid out on pages with breaks at random places, extracted, and every act is compared with the model, every line character by character. Non-trivial: at least one act and at least two pages of sections; arbitrary pages: a header and a signature line are present.",
        assumptions: &[
            "an act has at least two lines before its signature; header, signature block and footnote are not broken across pages; the footnote is one line at the bottom of the page of the act's header and follows at least one body line",
            "no two acts start on one page",
            "a page break inside an act stands for one empty line; empty lines directly before the signature are not compared",
        ],
        arms: vec![
            Arm { name: "issue", kind: Kind::Random(600_000, 15_000_000), f: c14_issue },
            Arm { name: "cover", kind: Kind::Random(100_000, 2_000_000), f: c14_cover },
            Arm { name: "arbitrary", kind: Kind::Random(400_000, 10_000_000), f: c14_arbitrary },
            Arm { name: "empty-lines", kind: Kind::Random(100_000, 1_000_000), f: c14_empty_lines },
        ],
    }]
}

pub fn tline(src: &mut Src, text: &str, bold: bool) -> MLine {
    let mut x = 60.0 + src.range(0, 400) as f64 / 8.0;
    let step = src.range(8, 80) as f64 / 8.0;
    MLine {
        chars: text
            .chars()
            .map(|c| {
                let r = (x, c, bold);
                x += step;
                r
            })
            .collect(),
        justified: src.bool(),
    }
}

pub const START: &str = "II. Törvények";
const STOPS: [&str; 6] = [
    "III. Kormányrendeletek",
    "IV. A Magyar Nemzeti Bank elnökének rendeletei",
    "V. A Kormány tagjainak rendeletei",
    "VI. Az Alkotmánybíróság határozatai",
    "VII. A Kúria határozatai",
    "IX. Határozatok Tára",
];
const TITLES: [&str; 3] = [
    "köztársasági elnök az Országgyűlés elnöke",
    "köztársasági elnök az Országgyűlés alelnöke",
    "az Országgyűlés elnöke, az Országgyűlés alelnöke,",
];
const MONTHS: [&str; 12] = [
    "január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október",
    "november", "december",
];
const DAYS: [&str; 7] = ["hétfő", "kedd", "szerda", "csütörtök", "péntek", "szombat", "vasárnap"];

fn gen_date(src: &mut Src) -> NaiveDate {
    let y = src.range(1990, 2030) as i32;
    let m = src.range(1, 12) as u32;
    let d = src.range(1, days_in(y, m) as i64) as u32;
    NaiveDate::from_ymd_opt(y, m, d).unwrap()
}

fn act_header(id: ActIdentifier) -> String {
    format!("{}. évi {}. törvény", id.year, roman(id.number as u32).unwrap())
}

fn gen_act_id(src: &mut Src) -> ActIdentifier {
    ActIdentifier {
        year: src.range(1990, 2030) as i16,
        number: if src.bool() { src.range(1, 20) } else { src.range(1, 399) } as i32,
    }
}

#[derive(Debug)]
struct MAct {
    id: ActIdentifier,
    subject: String,
    /// None: empty line
    body: Vec<Option<MLine>>,
}

/// A line on a page
#[derive(Debug, Clone)]
enum It {
    L(MLine),
    Empty,
    /// The end of a page, which is also the only place for footnotes
    Break,
}

const BODY_TEXTS: [&str; 22] = [
    "1. § E törvény alkalmazásában",
    "a) hatósági ügy: minden olyan ügy, amelyben",
    "(2) A miniszter felhatalmazást kap, hogy",
    "2. §",
    "ELSŐ RÉSZ",
    "2010. évi I. törvény",
    "2012. évi C. törvény a Büntető Törvénykönyvről",
    "köztársasági elnök az Országgyűlés elnöke és más",
    "a köztársasági elnök az Országgyűlés elnöke",
    "IX. Határozatok",
    "I. Utasítások",
    "II. Törvények és más",
    "– –",
    "hatályba lép.*",
    "Ez a törvény a kihirdetését követő napon lép hatályba.",
    "„5. § (1) Idézett szöveg”",
    "x",
    "III. FEJEZET",
    "MAGYAR KÖZLÖNY",
    "2011. június 28., kedd",
    "Dr. Kövér László s. k.,",
    "V. A Kormány tagjai",
];

fn gen_text(src: &mut Src) -> String {
    src.pick(&BODY_TEXTS).to_string()
}

/// Section titles that do not count because they are not bold
fn gen_body_line(src: &mut Src) -> MLine {
    match src.weighted(&[14, 1, 1]) {
        0 => {
            let t = gen_text(src);
            let bold = src.chance(1, 5);
            tline(src, &t, bold)
        }
        1 => tline(src, START, false),
        _ => {
            let t = *src.pick(&STOPS);
            tline(src, t, false)
        }
    }
}

struct Issue {
    pages: Vec<Vec<MLine>>,
    acts: Vec<MAct>,
    date: NaiveDate,
    footnotes: usize,
    breaks_in_acts: usize,
}

fn subject_words(src: &mut Src) -> Vec<String> {
    const W: [&str; 9] = [
        "a népesedésről", "egyes törvények módosításáról", "a jogalkotás-", "alkotás egyes kérdéseiről", "köz-",
        "és magánterületekről", "Magyarország 2012. évi", "költségvetéséről*-", "és vagy",
    ];
    (0..src.usize(1, 4)).map(|_| src.pick(&W).to_string()).collect()
}

fn join(words: &[String]) -> String {
    let mut s = String::new();
    for w in words {
        if w.is_empty() {
            continue;
        }
        if !s.is_empty() && (!s.ends_with('-') || w.starts_with("és ") || w.starts_with("vagy ")) {
            s.push(' ');
        }
        s.push_str(w);
    }
    s
}

fn gen_cover(src: &mut Src, date: NaiveDate, ids: &[ActIdentifier], bold_toc: bool) -> Vec<MLine> {
    let n = src.range(1, 200);
    let wd = DAYS[date.weekday().num_days_from_monday() as usize];
    let mut v = vec![
        tline(src, &format!("MAGYAR KÖZLÖNY {n}. szám"), true),
        MLine::default(),
        tline(src, "MAGYARORSZÁG HIVATALOS LAPJA", false),
        tline(
            src,
            &format!("{}. {} {}., {wd}", date.year(), MONTHS[date.month0() as usize], date.day()),
            false,
        ),
    ];
    if src.bool() {
        v.push(MLine::default());
        v.push(tline(src, "Tartalomjegyzék", true));
    } else {
        v.push(tline(src, "Tartalom", false));
    }
    for id in ids {
        let t = format!("{} A címről {}", act_header(*id), src.range(1, 9999));
        v.push(tline(src, &t, bold_toc));
    }
    if src.bool() {
        v.push(tline(src, "1/2012. (I. 1.) Korm. rendelet A rendeletről 123", false));
    }
    v
}

fn gen_issue(src: &mut Src) -> Issue {
    let date = gen_date(src);
    // Without section titles the extraction is started by the table of contents
    let no_titles = src.chance(1, 6);
    let mut acts: Vec<MAct> = Vec::new();
    let mut items: Vec<It> = Vec::new();
    let mut footnotes = 0;
    let n_sections = src.usize(1, 4);
    for s in 0..n_sections {
        let is_acts = if no_titles { s == 0 } else { src.chance(2, 3) };
        if is_acts {
            if !no_titles {
                items.push(It::L(tline(src, START, true)));
            }
            let n_acts = src.small(if no_titles { 1 } else { 0 }, 4);
            for k in 0..n_acts {
                if k > 0 || !no_titles {
                    // Acts start after a gap
                    for _ in 0..src.weighted(&[0, 8, 1]) {
                        items.push(It::Empty);
                    }
                    if src.chance(1, 6) {
                        items.push(It::L(tline(src, "Az Országgyűlés közleménye", false)));
                        items.push(It::Empty);
                    }
                }
                gen_act(src, &mut acts, &mut items, &mut footnotes);
            }
        } else {
            let t = *src.pick(&STOPS);
            let t = if src.chance(1, 3) { format!("{t} és folytatása") } else { t.to_string() };
            items.push(It::L(tline(src, &t, true)));
            for _ in 0..src.usize(0, 4) {
                match src.weighted(&[3, 2, 1, 1]) {
                    0 => items.push(It::L(gen_body_line(src))),
                    1 => items.push(It::Empty),
                    2 => {
                        // Looks like an act
                        items.push(It::Empty);
                        items.push(It::L(tline(src, "2013. évi V. törvény", false)));
                        items.push(It::L(tline(src, "a Polgári Törvénykönyvről*", false)));
                    }
                    _ => {
                        items.push(It::Empty);
                        items.push(It::L(tline(src, "Dr. Áder János s. k., Dr. Kövér László s. k.,", false)));
                        items.push(It::L(tline(src, TITLES[0], false)));
                    }
                }
                if src.chance(1, 5) {
                    items.push(It::Break);
                }
            }
        }
        // Sections start on a page of their own, or not
        if src.bool() {
            items.push(It::Break);
        }
    }
    items.push(It::Break);
    let ids: Vec<ActIdentifier> = acts.iter().map(|a| a.id).collect();
    let bold_toc = no_titles || (src.chance(1, 4) && !no_titles);
    let mut toc = ids;
    if toc.is_empty() && no_titles {
        toc.push(gen_act_id(src));
    }
    let mut pages = vec![gen_cover(src, date, &toc, bold_toc)];
    // Assemble the pages; real ones have no empty lines at either end
    let mut page: Vec<MLine> = Vec::new();
    let mut breaks_in_acts = 0;
    let n = items.len();
    for (i, it) in items.into_iter().enumerate() {
        match it {
            It::L(m) => page.push(m),
            It::Empty => page.push(MLine::default()),
            It::Break => {
                if !page.is_empty() || src.chance(1, 20) {
                    pages.push(std::mem::take(&mut page));
                    if i + 1 < n {
                        breaks_in_acts += 1;
                    }
                }
            }
        }
    }
    if pages.len() < 2 {
        pages.push(vec![]);
    }
    Issue { pages, acts, date, footnotes, breaks_in_acts }
}

fn gen_act(src: &mut Src, acts: &mut Vec<MAct>, items: &mut Vec<It>, footnotes: &mut usize) {
    let a = acts.len();
    // No two acts start on one page
    if a > 0 {
        let since: Vec<&It> = items.iter().rev().take_while(|i| !matches!(i, It::Break)).collect();
        let started = since.iter().any(|i| matches!(i, It::L(m) if m.text().ends_with(". törvény")));
        if started {
            items.push(It::Break);
            if src.chance(1, 4) {
                items.push(It::Empty);
            }
        }
    }
    let id = gen_act_id(src);
    let bold = src.bool();
    items.push(It::L(tline(src, &act_header(id), bold)));
    let mut words = subject_words(src);
    words.last_mut().unwrap().push('*');
    let subject = join(&words);
    let subject = subject.strip_suffix('*').unwrap().to_string();
    for (i, w) in words.iter().enumerate() {
        if i > 0 && src.chance(1, 12) {
            items.push(It::Break);
        }
        items.push(It::L(tline(src, w, bold)));
    }
    // A subject that ended early would be another subject
    let mut body: Vec<Option<MLine>> = Vec::new();
    let n = src.usize(2, 9);
    for i in 0..n {
        if src.chance(1, 4) && i + 1 < n {
            body.push(None);
        } else {
            body.push(Some(gen_body_line(src)));
        }
    }
    // The last line before the signature is text
    let with_footnote = src.chance(3, 4);
    let foot = tline(src, "* A törvényt az Országgyűlés a 2010. november 22-i ülésnapján fogadta el.", false);
    // Where the page of the header ends: after body line k (or after the signature)
    let first_text = body.iter().position(|b| b.is_some()).unwrap();
    let end_at = if src.chance(1, 4) { None } else { Some(src.usize(first_text, n - 1)) };
    let mut footnote_done = !with_footnote;
    let mut after_text = false;
    for (i, b) in body.iter_mut().enumerate() {
        let follows_text = std::mem::replace(&mut after_text, b.is_some());
        match b {
            Some(m) => {
                // Star lines are ordinary text once the footnote is gone, and also before it
                // unless they stand alone like a footnote
                if with_footnote && (footnote_done || follows_text) && src.chance(1, 8) {
                    *m = tline(src, "* csillagos sor", false);
                }
                items.push(It::L(m.clone()));
            }
            None => items.push(It::Empty),
        }
        if Some(i) == end_at {
            if with_footnote {
                items.push(It::Empty);
                items.push(It::L(foot.clone()));
                footnote_done = true;
                *footnotes += 1;
            }
            items.push(It::Break);
        } else if end_at.map(|e| i > e).unwrap_or(false) && src.chance(1, 6) {
            items.push(It::Break);
        }
    }
    // Signature
    if !matches!(items.last(), Some(It::Break)) || src.bool() {
        items.push(It::Empty);
    }
    items.push(It::L(tline(src, "Dr. Schmitt Pál s. k., Dr. Kövér László s. k.,", false)));
    let t = *src.pick(&TITLES);
    items.push(It::L(tline(src, t, false)));
    if !footnote_done {
        if src.bool() {
            items.push(It::Empty);
        }
        items.push(It::L(foot));
        items.push(It::Break);
    }
    acts.push(MAct { id, subject, body });
}

fn to_pages(pages: &[Vec<MLine>]) -> Vec<PageOfLines> {
    pages
        .iter()
        .map(|p| PageOfLines { lines: p.iter().map(|m| if m.chars.is_empty() { EMPTY_LINE } else { m.build() }).collect() })
        .collect()
}

fn show(pages: &[Vec<MLine>]) -> String {
    pages
        .iter()
        .map(|p| {
            p.iter()
                .map(|m| format!("{}{}", if m.chars.first().map(|c| c.2).unwrap_or(false) { "!" } else { "" }, m.text()))
                .collect::<Vec<_>>()
                .join(" | ")
        })
        .collect::<Vec<_>>()
        .join("\n--- ")
}

fn c14_issue(c: &mut Case) -> CaseResult {
    let issue = gen_issue(&mut c.src);
    c.input(show(&issue.pages));
    c.describe(|| show(&issue.pages));
    c.nontrivial = !issue.acts.is_empty() && issue.pages.len() > 2;
    c.label_if(issue.acts.len() > 1, "several acts");
    c.label_if(issue.footnotes > 0, "footnote");
    c.label_if(issue.breaks_in_acts > 0, "page breaks");
    let pages = to_pages(&issue.pages);
    let got = match no_panic("parse_mk_pages_into_acts", || parse_mk_pages_into_acts(&pages))? {
        Ok(g) => g,
        Err(e) => return fail("issue refused", format!("{e:?}\n{}", show(&issue.pages))),
    };
    let ids: Vec<ActIdentifier> = got.iter().map(|a| a.identifier).collect();
    let want: Vec<ActIdentifier> = issue.acts.iter().map(|a| a.id).collect();
    check_eq!(ids, want, "acts found", "{}", show(&issue.pages));
    for (g, w) in got.iter().zip(&issue.acts) {
        check_eq!(g.subject, w.subject, "subject", "");
        check_eq!(g.publication_date, issue.date, "publication date", "");
        compare_body(g, w, &issue)?;
    }
    Ok(())
}

/// Whether a page ends directly after body line `m` (found by identity of its layout)
fn compare_body(g: &ActRawText, w: &MAct, issue: &Issue) -> CaseResult {
    let lines: Vec<&IndentedLine> = g.body.iter().collect();
    let mut gi = 0;
    let skip_empty = |gi: &mut usize| {
        let mut n = 0;
        while *gi < lines.len() && lines[*gi].is_empty() {
            *gi += 1;
            n += 1;
        }
        n
    };
    let mut gap = false;
    let mut prev: Option<&MLine> = None;
    for b in &w.body {
        let Some(m) = b else {
            gap = true;
            continue;
        };
        let n = skip_empty(&mut gi);
        let broken = prev.map(|p| page_break_between(issue, p, m)).unwrap_or(Some(false));
        if let Some(broken) = broken {
            if prev.is_some() {
                check_eq!(n, (gap || broken) as usize, "empty lines in the body", "before {:?} (page break: {broken})", m.text());
            } else if !gap {
                check_eq!(n, 0, "empty lines before the body", "before {:?}", m.text());
            } else {
                check_eq!(n, 1, "empty lines before the body", "before {:?}", m.text());
            }
        }
        check!(gi < lines.len(), "body ends early", "before {:?} of {:?}", m.text(), w.id);
        same(lines[gi], m, "body line", true)?;
        gi += 1;
        gap = false;
        prev = Some(m);
    }
    check!(skip_empty(&mut gi) <= 1, "empty lines after the body", "{:?}", w.id);
    if gi < lines.len() {
        return fail("extra line in the body", format!("{:?} in {:?}", lines[gi].content(), w.id));
    }
    Ok(())
}

fn page_break_between(issue: &Issue, a: &MLine, b: &MLine) -> Option<bool> {
    let find = |m: &MLine| {
        let mut it = issue
            .pages
            .iter()
            .enumerate()
            .flat_map(|(pi, p)| p.iter().filter(|x| x.chars == m.chars && x.justified == m.justified).map(move |_| pi));
        let first = it.next();
        if it.next().is_some() {
            None // the very same line twice: undecided
        } else {
            first
        }
    };
    Some(find(a)? != find(b)?)
}

fn c14_cover(c: &mut Case) -> CaseResult {
    let date = gen_date(&mut c.src);
    let mut cover = gen_cover(&mut c.src, date, &[], false);
    let mut n_pages = 2;
    let what = c.src.weighted(&[2, 1, 1, 1, 1, 1]);
    match what {
        0 => {
            // Nothing is needed after the date
            if c.src.chance(1, 3) {
                cover.truncate(4);
            }
        }
        1 => n_pages = c.src.usize(0, 1),
        2 => cover.truncate(c.src.usize(0, 3)),
        3 => {
            let t = *c.src.pick(&["MAGYAR KOZLÖNY 1. szám", "Magyar Közlöny", "HIVATALOS ÉRTESÍTŐ", ""]);
            cover[0] = tline(&mut c.src, t, true);
        }
        4 => {
            let t = *c.src.pick(&["kedd", "", "2011. júniusz 28., kedd", "2011. február 29., kedd", "2011. június 31."]);
            cover[3] = tline(&mut c.src, t, false);
        }
        _ => {
            cover.insert(0, tline(&mut c.src, "2011. június 28., kedd", false));
        }
    }
    let mut pages = vec![cover, vec![tline(&mut c.src, "szöveg", false)]];
    pages.truncate(n_pages);
    c.nontrivial = true;
    c.input(show(&pages));
    c.describe(|| show(&pages));
    c.label_if(what == 0, "good");
    let p = to_pages(&pages);
    let r = no_panic("parse_mk_pages_into_acts", || parse_mk_pages_into_acts(&p))?;
    match r {
        Ok(v) => {
            check!(what == 0, "bad cover accepted", "{}", show(&pages));
            check!(v.is_empty(), "acts out of nothing", "{}", show(&pages));
        }
        Err(e) => check!(what != 0, "good cover refused", "{e:?}\n{}", show(&pages)),
    }
    Ok(())
}

fn c14_arbitrary(c: &mut Case) -> CaseResult {
    let date = gen_date(&mut c.src);
    let ids = [gen_act_id(&mut c.src)];
    let bold = c.src.bool();
    let cover = gen_cover(&mut c.src, date, &ids, bold);
    let mut pages = vec![cover];
    let mut header = false;
    let mut signature = false;
    for _ in 0..c.src.usize(1, 4) {
        let mut p = Vec::new();
        for _ in 0..c.src.usize(0, 10) {
            let m = match c.src.weighted(&[4, 4, 3, 2, 2, 2, 1, 1, 1]) {
                0 => gen_body_line(&mut c.src),
                1 => MLine::default(),
                2 => {
                    header = true;
                    let t = act_header(gen_act_id(&mut c.src));
                    tline(&mut c.src, &t, false)
                }
                3 => tline(&mut c.src, "valamiről*", false),
                4 => {
                    signature = true;
                    let t = *c.src.pick(&TITLES);
                    tline(&mut c.src, t, false)
                }
                5 => tline(&mut c.src, START, true),
                6 => tline(&mut c.src, "* lábjegyzet", false),
                7 => tline(&mut c.src, "2100. évi IIIIIVX. törvény", true),
                _ => {
                    let t = *c.src.pick(&STOPS);
                    tline(&mut c.src, t, true)
                }
            };
            p.push(m);
        }
        pages.push(p);
    }
    c.nontrivial = header && signature;
    c.input(show(&pages));
    c.describe(|| show(&pages));
    let p = to_pages(&pages);
    let got = match no_panic("parse_mk_pages_into_acts", || parse_mk_pages_into_acts(&p))? {
        Ok(g) => g,
        Err(e) => return fail("good cover refused", format!("{e:?}")),
    };
    c.label_if(!got.is_empty(), "acts");
    // Whatever is found is made of lines of the issue, in their order, and every line is used once
    let all: Vec<&MLine> = pages.iter().flatten().filter(|m| !m.chars.is_empty()).collect();
    let mut i = 0;
    for a in &got {
        check_eq!(a.publication_date, date, "publication date", "");
        let id_text = act_header(a.identifier);
        while i < all.len() && !all[i].text().starts_with(&id_text) {
            i += 1;
        }
        check!(i < all.len(), "act without a header", "{id_text} in {}", show(&pages));
        i += 1;
        for (k, l) in a.body.iter().enumerate() {
            if l.is_empty() {
                check!(k == 0 || !a.body[k - 1].is_empty(), "two empty lines in a row", "{id_text}");
                continue;
            }
            while i < all.len() && same(l, all[i], "", true).is_err() {
                i += 1;
            }
            check!(i < all.len(), "body line not in the issue", "{:?} of {id_text} in {}", l.content(), show(&pages));
            i += 1;
        }
    }
    Ok(())
}

fn c14_empty_lines(c: &mut Case) -> CaseResult {
    let n = c.src.usize(0, 10);
    let body: Vec<MLine> =
        (0..n).map(|_| if c.src.bool() { MLine::default() } else { gen_body_line(&mut c.src) }).collect();
    let want: Vec<&MLine> = body
        .iter()
        .enumerate()
        .filter(|(i, m)| !m.chars.is_empty() || *i == 0 || !body[i - 1].chars.is_empty())
        .map(|x| x.1)
        .collect();
    c.nontrivial = want.len() != n;
    c.input(show(&[body.clone()]));
    c.describe(|| show(&[body.clone()]));
    let mut act = ActRawText { body: body.iter().map(|m| m.build()).collect(), ..Default::default() };
    no_panic("remove_double_empty_lines", || act.remove_double_empty_lines())?;
    check_eq!(act.body.len(), want.len(), "number of lines", "");
    for (l, m) in act.body.iter().zip(want) {
        same(l, m, "line", !m.chars.is_empty())?;
    }
    Ok(())
}
