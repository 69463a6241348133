//! C12, C13: text extraction from PDF documents
//!
//! A document is generated together with the meaning of its content streams: every operator that is written
//! is also carried out by a small interpreter of its own (double precision, written from the PDF standard).
//! The glyphs it draws are then put in lines by the rules of the statement and compared with parse_pdf.
use std::{collections::BTreeMap, rc::Rc};

use hun_law::{
    parser::pdf::{parse_pdf, CropBox, PageOfLines},
    util::indentedline::IndentedLine,
};

use crate::{
    check, check_eq,
    engine::{fail, no_panic, Arm, Case, CaseResult, Kind, Prop, Src},
};

const RULE: &str = "A PDF document is generated operator by operator (text and line matrices, leading, spacings, scaling, rise, transformation matrices, saved states, forms, marked content, fonts of all supported kinds) while an independent interpreter records where each glyph lands; the lines assembled from those glyphs are compared with the extracted ones character by character (text, position, boldness, justification, empty lines). Non-trivial: at least two lines of two or more visible glyphs drawn in at least three pieces";

pub fn props() -> Vec<Prop> {
    let assumptions: &'static [&'static str] = &[
        "text is drawn from left to right, not rotated, mirrored or vertical; glyphs of a line do not start at the same place",
        "cases where a distance is within 0.03 of one of the thresholds are not compared",
        "fonts have an Encoding and Widths, as the gazette's have; composite fonts are Identity-H",
        "saved states and marked content are balanced and nested",
    ];
    vec![
        Prop {
            id: "C12",
            level: "exploration",
            rule: RULE,
            assumptions,
            arms: vec![
                Arm { name: "layout", kind: Kind::Random(200_000, 6_000_000), f: c12_layout },
                Arm { name: "operators", kind: Kind::Random(150_000, 6_000_000), f: c12_operators },
            ],
        },
        Prop {
            id: "C13",
            level: "exploration",
            rule: RULE,
            assumptions,
            arms: vec![
                Arm { name: "fonts", kind: Kind::Random(100_000, 3_000_000), f: c13_fonts },
                Arm { name: "state", kind: Kind::Random(100_000, 3_000_000), f: c13_state },
                Arm { name: "all", kind: Kind::Random(60_000, 2_000_000), f: c13_all },
            ],
        },
    ]
}

// ---------------------------------------------------------------- fonts

#[derive(Debug, Clone, Copy, PartialEq)]
enum Base {
    WinAnsi,
    MacRoman,
    Standard,
    Symbol,
    MacExpert,
    None,
    Identity,
}

#[derive(Debug, Clone)]
struct MFont {
    name: String,
    bold: bool,
    truetype: bool,
    base: Base,
    diffs: BTreeMap<u32, &'static str>,
    to_unicode: BTreeMap<u32, String>,
    widths: BTreeMap<u32, i64>,
    default_width: i64,
    /// Codes to draw with
    codes: Vec<u32>,
}

/// Glyph names of the Adobe glyph list, and some which are not in it
const GLYPHS: [(&str, &str); 30] = [
    ("a", "a"),
    ("b", "b"),
    ("A", "A"),
    ("T", "T"),
    ("one", "1"),
    ("period", "."),
    ("parenright", ")"),
    ("aacute", "á"),
    ("eacute", "é"),
    ("iacute", "í"),
    ("oacute", "ó"),
    ("odieresis", "ö"),
    ("odblacute", "ő"),
    ("uacute", "ú"),
    ("udieresis", "ü"),
    ("udblacute", "ű"),
    ("Eacute", "É"),
    ("Odblacute", "Ő"),
    ("otilde", "ő"),
    ("ucircumflex", "ű"),
    ("Otilde", "Ő"),
    ("Ucircumflex", "Ű"),
    ("section", "§"),
    ("endash", "–"),
    ("quotedblbase", "„"),
    ("quotedblright", "”"),
    ("fi", "\u{fb01}"),
    ("space", " "),
    ("g37", ""),
    ("glyph12", ""),
];

fn win_ansi(code: u32) -> Option<char> {
    const HIGH: [u32; 32] = [
        0x20AC, 0, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0, 0x017D, 0,
        0, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0, 0x017E,
        0x0178,
    ];
    match code {
        0x20..=0x7e => char::from_u32(code),
        0x80..=0x9f => match HIGH[code as usize - 0x80] {
            // No glyph is assigned to these: they are shown as bullets
            0 => Some('•'),
            u => char::from_u32(u),
        },
        0xa1..=0xac | 0xae..=0xff => char::from_u32(code),
        _ => None,
    }
}

fn mac_roman(code: u32) -> Option<char> {
    Some(match code {
        0x20..=0x7e => char::from_u32(code)?,
        0x80 => 'Ä',
        0x83 => 'É',
        0x85 => 'Ö',
        0x86 => 'Ü',
        0x87 => 'á',
        0x8e => 'é',
        0x92 => 'í',
        0x97 => 'ó',
        0x9a => 'ö',
        0x9c => 'ú',
        0x9f => 'ü',
        0xa4 => '§',
        0xd0 => '–',
        0xd2 => '“',
        0xd3 => '”',
        0xe3 => '„',
        0xff => 'ˇ',
        _ => return None,
    })
}

fn standard(code: u32) -> Option<char> {
    Some(match code {
        0x27 => '’',
        0x60 => '‘',
        // The encoding table of the library has a soft hyphen here
        0x2d => return None,
        0x20..=0x7e => char::from_u32(code)?,
        0xa7 => '§',
        0xb1 => '–',
        0xb9 => '„',
        0xba => '”',
        _ => return None,
    })
}

fn symbol(code: u32) -> Option<char> {
    Some(match code {
        0x21 | 0x25 | 0x28..=0x29 | 0x2c | 0x2e..=0x3f => char::from_u32(code)?,
        0x22 => '∀',
        0x24 => '∃',
        0x2d => '−',
        0x61 => 'α',
        0x62 => 'β',
        0x64 => 'δ',
        0x67 => 'γ',
        0x70 => 'π',
        _ => return None,
    })
}

fn mac_expert(code: u32) -> Option<char> {
    Some(match code {
        0x20 | 0x2c | 0x2e | 0x3a | 0x3b => char::from_u32(code)?,
        0x2f => '⁄',
        0x47 => '¼',
        0x48 => '½',
        0x49 => '¾',
        0x57 => 'ﬁ',
        0x58 => 'ﬂ',
        _ => return None,
    })
}

/// Codes that the encoding has no character for
fn unassigned(base: Base) -> Option<u32> {
    match base {
        Base::Standard => Some(0x85),
        Base::MacExpert => Some(0x41),
        Base::None => Some(0x7f),
        Base::Identity => Some(0xd9ab),
        _ => None,
    }
}

impl MFont {
    fn composite(&self) -> bool {
        self.base == Base::Identity
    }

    fn decode(&self, code: u32) -> Option<String> {
        if let Some(s) = self.to_unicode.get(&code) {
            return Some(s.clone());
        }
        if let Some(g) = self.diffs.get(&code) {
            return Some(GLYPHS.iter().find(|x| x.0 == *g).unwrap().1.to_string());
        }
        let c = match self.base {
            Base::WinAnsi => win_ansi(code),
            Base::MacRoman => mac_roman(code),
            Base::Standard => standard(code),
            Base::Symbol => symbol(code),
            Base::MacExpert => mac_expert(code),
            Base::None => None,
            Base::Identity => char::from_u32(code),
        };
        c.map(|c| c.to_string())
    }

    fn width(&self, code: u32) -> f64 {
        *self.widths.get(&code).unwrap_or(&self.default_width) as f64 / 1000.0
    }

    /// In units of the font size
    fn space(&self) -> f64 {
        let w = self.width(32);
        if w == 0.0 || w == 1.0 {
            0.25
        } else {
            w
        }
    }

    fn gen(src: &mut Src, rich: bool) -> MFont {
        let bold = src.chance(1, 3);
        let name = if bold {
            *src.pick(&["Helvetica-Bold", "ABCDEF+TimesNewRomanPS-BoldMT", "Arial,BoldItalic", "Garamond-Semibold"])
        } else {
            *src.pick(&["Helvetica", "ABCDEF+TimesNewRomanPSMT", "Arial,Italic", "BOLDOG"])
        }
        .to_string();
        let base = if rich {
            *src.pick(&[Base::WinAnsi, Base::WinAnsi, Base::Identity, Base::Identity, Base::MacRoman, Base::Standard, Base::None, Base::Symbol, Base::MacExpert])
        } else {
            Base::WinAnsi
        };
        let mut f = MFont {
            name,
            bold,
            truetype: src.bool(),
            base,
            diffs: BTreeMap::new(),
            to_unicode: BTreeMap::new(),
            widths: BTreeMap::new(),
            default_width: 0,
            codes: Vec::new(),
        };
        if base == Base::Identity {
            f.default_width = *src.pick(&[1000, 500, 600]);
            let start = *src.pick(&[1u32, 30, 36, 500, 995, 1020, 4000]);
            let n = src.usize(6, 14) as u32;
            for i in 0..n {
                let code = start + i * src.usize(1, 3) as u32;
                if f.to_unicode.contains_key(&code) {
                    continue;
                }
                let s = gen_unicode(src);
                f.to_unicode.insert(code, s);
                if src.chance(2, 3) {
                    f.widths.insert(code, src.range(200, 1100));
                }
                f.codes.push(code);
            }
            if src.bool() {
                f.to_unicode.insert(3, " ".into());
                f.codes.push(3);
                f.widths.insert(3, 250);
            }
            if src.bool() {
                f.widths.insert(32, src.range(200, 400));
            }
            // Codes without a unicode map stand for themselves
            for c in ['a', 'k', '.', 'ő', '§'] {
                if src.chance(1, 4) && !f.to_unicode.contains_key(&(c as u32)) {
                    f.codes.push(c as u32);
                }
            }
            return f;
        }
        let pool: Vec<u32> = (32..=255).filter(|c| f.decode(*c).is_some()).collect();
        let n = if rich { src.usize(4, 14) } else { 14 };
        if base == Base::None {
            for _ in 0..n {
                // Subset fonts often count from 0
                let code = if src.chance(1, 3) { src.range(0, 31) } else { src.range(33, 255) } as u32;
                let g = src.pick(&GLYPHS).0;
                f.diffs.insert(code, g);
                f.codes.push(code);
            }
        } else {
            for _ in 0..n {
                let letters = src.chance(2, 3) && !matches!(base, Base::Symbol | Base::MacExpert);
                let code = if letters { *src.pick(b"abcdefgrstzAEIT.,)1") as u32 } else { *src.pick(&pool) };
                f.codes.push(code);
            }
            if src.chance(1, 3) && f.decode(255).is_some() {
                f.codes.push(255);
            }
        }
        f.codes.push(32);
        if matches!(base, Base::None | Base::Symbol) {
            f.diffs.insert(32, "space");
        }
        if rich {
            for _ in 0..src.usize(0, 4) {
                let code = *src.pick(&f.codes.clone());
                if code != 32 && src.chance(2, 3) {
                    f.diffs.insert(code, src.pick(&GLYPHS).0);
                }
                if code != 32 && src.chance(1, 2) {
                    let s = gen_unicode(src);
                    f.to_unicode.insert(code, s);
                }
            }
        }
        for code in f.codes.clone() {
            f.widths.insert(code, src.range(200, 1100));
        }
        f.widths.insert(32, *src.pick(&[250, 278, 333, 500, 0, 1000]));
        f
    }
}

fn gen_unicode(src: &mut Src) -> String {
    match src.weighted(&[12, 2, 1]) {
        0 => src.pick(&["a", "b", "c", "g", "n", "t", "z", "á", "ő", "ű", "É", "A", "T", "§", "1", ".", "„", "”", "õ", "Û"]).to_string(),
        1 => src.pick(&["fi", "ffi", "st", "ab"]).to_string(),
        _ => " ".to_string(),
    }
}

// ---------------------------------------------------------------- content streams

#[derive(Debug, Clone, Copy, PartialEq)]
struct Mat {
    a: f64,
    d: f64,
    e: f64,
    f: f64,
}

const ID: Mat = Mat { a: 1.0, d: 1.0, e: 0.0, f: 0.0 };

impl Mat {
    /// First self, then o
    fn then(&self, o: &Mat) -> Mat {
        Mat { a: self.a * o.a, d: self.d * o.d, e: self.e * o.a + o.e, f: self.f * o.d + o.f }
    }
    fn shift(e: f64, f: f64) -> Mat {
        Mat { a: 1.0, d: 1.0, e, f }
    }
    fn back(&self, x: f64, y: f64) -> (f64, f64) {
        ((x - self.e) / self.a, (y - self.f) / self.d)
    }
}

#[derive(Debug, Clone)]
enum Op {
    Raw(&'static str),
    Save,
    Restore,
    Cm(Mat),
    Bt,
    Et,
    Tm(Mat),
    Td(f64, f64),
    TdLeading(f64, f64),
    Next,
    Tl(f64),
    Tc(f64),
    Tw(f64),
    Tz(f64),
    Ts(f64),
    Tf(String, f64),
    Gs(String),
    Tj(Vec<u32>),
    TjArray(Vec<(Vec<u32>, f64)>),
    NextShow(Vec<u32>),
    NextShowSpaced(f64, f64, Vec<u32>),
    Mark(&'static str),
    ActualText(String),
    /// The name of a property list
    NamedText(String),
    EndMark,
    Form(String),
}

#[derive(Debug, Default)]
struct Res {
    fonts: BTreeMap<String, usize>,
    gs: BTreeMap<String, (usize, f64)>,
    forms: BTreeMap<String, usize>,
    props: BTreeMap<String, String>,
}

#[derive(Debug)]
struct Form {
    matrix: Option<Mat>,
    /// None: those of the page
    res: Option<usize>,
    ops: Vec<Op>,
    two_byte: Vec<bool>,
    /// Does not depend on the font in force when it is drawn
    own_font: bool,
}

#[derive(Debug, Clone)]
struct State {
    ctm: Mat,
    tm: Mat,
    tlm: Mat,
    tc: f64,
    tw: f64,
    th: f64,
    tl: f64,
    rise: f64,
    font: Option<usize>,
    size: f64,
}

#[derive(Debug, Clone)]
struct Glyph {
    x: f64,
    y: f64,
    width: f64,
    space: f64,
    bold: bool,
    c: char,
    /// The position is a number that both sides represent exactly
    exact: bool,
}

#[derive(Debug)]
struct Span {
    text: String,
    start: Option<(f64, f64, f64, bool)>,
    end: f64,
    /// Marked content depth
    depth: usize,
}

struct Opts {
    pages: usize,
    fonts: usize,
    rich_fonts: bool,
    state: bool,
    forms: bool,
    marks: bool,
    gs: bool,
    crop: bool,
    cm: bool,
    text_state: bool,
    /// Some text is drawn where no font is selected
    fontless: bool,
    /// Some of it has no character
    unknown: bool,
}

struct Builder<'a> {
    src: &'a mut Src,
    o: &'a Opts,
    fonts: Rc<Vec<MFont>>,
    res: Vec<Res>,
    forms: Vec<Form>,
    // of the page
    glyphs: Vec<Glyph>,
    pieces: usize,
    st: State,
    stack: Vec<State>,
    cur_res: usize,
    marks: usize,
    span: Option<Span>,
    out: Vec<Op>,
    two_byte: Vec<bool>,
    cells: Vec<(f64, usize)>,
    /// left and right end of the columns
    cols: Vec<(f64, f64)>,
    depth: usize,
    /// Forms that are complete
    done: Vec<bool>,
    crop: CropBox,
    /// The text matrix was just set
    placed: bool,
    /// Text may be drawn where no font is selected
    fontless: bool,
    refused: bool,
    /// Inside of forms whose font is not known here
    own_font: usize,
}

fn q(v: f64) -> f64 {
    (v * 1000.0).round() / 1000.0
}

fn quirk(c: char) -> char {
    match c {
        'õ' => 'ő',
        'Õ' => 'Ő',
        'û' => 'ű',
        'Û' => 'Ű',
        c => c,
    }
}

fn fresh() -> State {
    State { ctm: ID, tm: ID, tlm: ID, tc: 0.0, tw: 0.0, th: 1.0, tl: 0.0, rise: 0.0, font: None, size: 0.0 }
}

impl Builder<'_> {
    // ---- the interpreter

    fn show(&mut self, codes: &[u32]) {
        let f = self.st.font.unwrap();
        let fonts = self.fonts.clone();
        let font = &fonts[f];
        for (i, code) in codes.iter().enumerate() {
            let exact = i == 0 && self.placed && self.st.rise == 0.0 && self.st.ctm == ID;
            let m = Mat { a: self.st.th * self.st.size, d: self.st.size, e: 0.0, f: self.st.rise }
                .then(&self.st.tm)
                .then(&self.st.ctm);
            let w = font.width(*code);
            if let Some(s) = &mut self.span {
                s.start.get_or_insert((m.e, m.f, font.space() * m.a, font.bold));
                s.end = m.e + w * m.a;
            } else {
                match font.decode(*code) {
                    Some(text) => self.put(&text, m.e, m.f, w * m.a, font.space() * m.a, font.bold, exact),
                    None => self.refused = true,
                }
            }
            let sp = self.st.tc + if *code == 32 && !font.composite() { self.st.tw } else { 0.0 };
            let tx = (w * self.st.size + sp) * self.st.th;
            self.st.tm = Mat::shift(tx, 0.0).then(&self.st.tm);
        }
    }

    fn put(&mut self, text: &str, x: f64, y: f64, width: f64, space: f64, bold: bool, exact: bool) {
        let n = text.chars().count() as f64;
        for (i, c) in text.chars().enumerate() {
            let w = width / n;
            self.glyphs.push(Glyph { x: x + w * i as f64, y, width: w, space, bold, c: quirk(c), exact: exact && i == 0 });
        }
    }

    fn next_line(&mut self) {
        let m = Mat::shift(0.0, -self.st.tl).then(&self.st.tlm);
        self.st.tlm = m;
        self.st.tm = m;
    }

    fn apply(&mut self, op: &Op) {
        match op {
            Op::Raw(_) | Op::Et => (),
            Op::Save => self.stack.push(self.st.clone()),
            Op::Restore => self.st = self.stack.pop().unwrap(),
            Op::Cm(m) => self.st.ctm = m.then(&self.st.ctm),
            Op::Bt => {
                self.st.tm = ID;
                self.st.tlm = ID;
            }
            Op::Tm(m) => {
                self.st.tm = *m;
                self.st.tlm = *m;
            }
            Op::Td(x, y) | Op::TdLeading(x, y) => {
                if matches!(op, Op::TdLeading(..)) {
                    self.st.tl = -y;
                }
                let m = Mat::shift(*x, *y).then(&self.st.tlm);
                self.st.tlm = m;
                self.st.tm = m;
            }
            Op::Next => self.next_line(),
            Op::Tl(v) => self.st.tl = *v,
            Op::Tc(v) => self.st.tc = *v,
            Op::Tw(v) => self.st.tw = *v,
            Op::Tz(v) => self.st.th = v / 100.0,
            Op::Ts(v) => self.st.rise = *v,
            Op::Tf(n, size) => {
                self.st.font = Some(self.res[self.cur_res].fonts[n]);
                self.st.size = *size;
            }
            Op::Gs(n) => {
                let (f, size) = self.res[self.cur_res].gs[n];
                self.st.font = Some(f);
                self.st.size = size;
            }
            Op::Tj(codes) => self.show(codes),
            Op::TjArray(v) => {
                for (codes, adj) in v {
                    self.show(codes);
                    let tx = -adj / 1000.0 * self.st.size * self.st.th;
                    self.st.tm = Mat::shift(tx, 0.0).then(&self.st.tm);
                }
            }
            Op::NextShow(codes) => {
                self.next_line();
                self.show(codes)
            }
            Op::NextShowSpaced(w, c, codes) => {
                self.st.tw = *w;
                self.st.tc = *c;
                self.next_line();
                self.show(codes)
            }
            Op::Mark(_) => self.marks += 1,
            Op::ActualText(t) => self.begin_span(t.clone()),
            Op::NamedText(n) => {
                let t = self.res[self.cur_res].props[n].clone();
                self.begin_span(t)
            }
            Op::EndMark => {
                if self.span.as_ref().is_some_and(|s| s.depth == self.marks) {
                    let s = self.span.take().unwrap();
                    if let Some((x, y, space, bold)) = s.start {
                        self.put(&s.text, x, y, s.end - x, space, bold, false);
                    }
                }
                self.marks -= 1;
            }
            Op::Form(n) => {
                let i = self.res[self.cur_res].forms[n];
                let f = &self.forms[i];
                let (m, r, ops) = (f.matrix, f.res, f.ops.clone());
                self.stack.push(self.st.clone());
                let saved = self.cur_res;
                if let Some(m) = m {
                    self.st.ctm = m.then(&self.st.ctm);
                }
                self.cur_res = r.unwrap_or(saved);
                for o in &ops {
                    self.apply(o);
                }
                self.cur_res = saved;
                self.st = self.stack.pop().unwrap();
            }
        }
    }

    /// Within a span with replacement text everything belongs to the outer span
    fn begin_span(&mut self, text: String) {
        self.marks += 1;
        if self.span.is_none() {
            self.span = Some(Span { text, start: None, end: 0.0, depth: self.marks });
        }
    }

    // ---- the generator

    fn emit(&mut self, op: Op) {
        let two = self.st.font.map(|f| self.fonts[f].composite()).unwrap_or(false);
        self.apply(&op);
        match &op {
            Op::Tm(_) => self.placed = true,
            Op::Mark(_) | Op::ActualText(_) | Op::NamedText(_) | Op::Raw(_) | Op::Tf(..) | Op::Gs(_) => (),
            _ => self.placed = false,
        }
        self.two_byte.push(two);
        self.out.push(op);
    }

    fn noise(&mut self) {
        if self.src.chance(1, 8) {
            let r = *self.src.pick(&["0 g", "1 0 0 rg", "0.5 w", "0 Tr", "0 0 m 10 10 l S", "10 10 5 5 re W n", "/Artifact MP", "/Image0 Do"]);
            self.emit(Op::Raw(r));
        }
    }

    fn choose_font(&mut self) {
        let r = &self.res[self.cur_res];
        let size = *self.src.pick(&[10.0, 8.0, 11.5, 12.0, 9.0]);
        if !r.gs.is_empty() && self.src.chance(1, 3) {
            let names: Vec<String> = r.gs.keys().cloned().collect();
            let n = self.src.pick(&names).clone();
            self.emit(Op::Gs(n));
        } else {
            let names: Vec<String> = r.fonts.keys().cloned().collect();
            let n = self.src.pick(&names).clone();
            self.emit(Op::Tf(n, size));
        }
    }

    fn text_state(&mut self) {
        if !self.o.text_state {
            return;
        }
        while self.src.chance(1, 4) {
            let op = match self.src.below(5) {
                0 => Op::Tc(*self.src.pick(&[0.0, 0.2, -0.1, 1.0, 0.05])),
                1 => Op::Tw(*self.src.pick(&[0.0, 1.0, 5.0, -0.5])),
                2 => Op::Tz(*self.src.pick(&[100.0, 80.0, 120.0, 50.0])),
                3 => Op::Ts(*self.src.pick(&[0.0, 3.0, -2.0])),
                _ => Op::Tl(*self.src.pick(&[0.0, 12.0, 14.0])),
            };
            self.emit(op);
        }
    }

    /// Takes a free cell of the page, if there is one
    fn take_cell(&mut self, col: Option<usize>) -> Option<(f64, usize)> {
        let free: Vec<usize> = (0..self.cells.len()).filter(|i| col.map(|c| self.cells[*i].1 == c).unwrap_or(true)).collect();
        if free.is_empty() {
            return None;
        }
        let i = *self.src.pick(&free);
        Some(self.cells.swap_remove(i))
    }

    fn codes(&mut self, room: f64, wide: f64) -> Vec<u32> {
        let fonts = self.fonts.clone();
        let font = &fonts[self.st.font.unwrap()];
        let scale = self.st.size * self.st.th * self.st.tm.a * self.st.ctm.a;
        let mut x = 0.0;
        let mut v = Vec::new();
        for _ in 0..self.src.small(1, 14) {
            let c = *self.src.pick(&font.codes);
            let sp = (self.st.tc + wide + if c == 32 { self.st.tw.max(0.0) } else { 0.0 }) * self.st.th * self.st.tm.a * self.st.ctm.a;
            x += font.width(c) * scale + sp;
            if x > room {
                break;
            }
            v.push(c);
        }
        v
    }

    /// One piece of text somewhere on the page. False: it is full.
    fn piece(&mut self) -> bool {
        self.noise();
        if self.fontless && self.st.font.is_none() && self.own_font == 0 && self.src.bool() {
            let r = *self.src.pick(&["(ab) Tj", "[(a) 20 (b)] TJ", "<6162> '", "0 0 (a) \""]);
            self.emit(Op::Raw(r));
            self.refused = true;
        }
        if self.st.font.is_none() || self.src.chance(1, 3) {
            self.choose_font();
        }
        self.text_state();
        // By moving to the next line, with the same left end
        let here = self.st.tlm.then(&self.st.ctm);
        let col = self.cols.iter().position(|(l, r)| here.e >= *l && here.e <= *l + (r - l) * 0.5);
        let by_lines = if self.o.text_state && self.src.chance(1, 4) { col } else { None };
        let Some((y, c)) = self.take_cell(by_lines).or_else(|| self.take_cell(None)) else {
            return false;
        };
        let by_lines = by_lines.filter(|b| *b == c);
        let (left, right) = self.cols[c];
        let y = y + if self.src.chance(1, 4) { 0.0 } else { self.src.range(0, 18) as f64 / 40.0 };
        let mut show_by = None;
        if by_lines.is_some() && self.st.tlm.d > 0.0 {
            let up = self.st.rise * self.st.tlm.d * self.st.ctm.d;
            let tl = q((here.f + up - y) / (self.st.tlm.d * self.st.ctm.d));
            self.emit(Op::Tl(tl));
            match self.src.below(3) {
                0 => self.emit(Op::Next),
                n => show_by = Some(n),
            }
        } else {
            let mut x = left + self.src.range(0, 40) as f64 * 0.5;
            // Exactly at the edge of the crop box
            if self.o.crop && self.src.chance(1, 8) {
                let edge = *self.src.pick(&[self.crop.left as f64, self.crop.right as f64]);
                if edge >= left && edge < right - 10.0 {
                    x = edge;
                }
            }
            let (ux, uy) = self.st.ctm.back(x, y);
            match self.src.weighted(&[3, 3, 2]) {
                0 => {
                    let (a, d) = *self.src.pick(&[(1.0, 1.0), (1.0, 1.0), (2.0, 1.5), (0.5, 0.5), (0.8, 1.0)]);
                    let m = Mat { a, d, e: q(ux), f: q(uy - self.st.rise * d) };
                    self.emit(Op::Tm(m));
                }
                n => {
                    let (tx, ty) = self.st.tlm.back(ux, uy - self.st.rise * self.st.tlm.d);
                    if n == 1 {
                        self.emit(Op::Td(q(tx), q(ty)));
                    } else {
                        self.emit(Op::TdLeading(q(tx), q(ty)));
                    }
                }
            }
        }
        let now = self.st.tm.then(&self.st.ctm);
        let room = right - now.e;
        let span = self.o.marks && self.span.is_none() && self.src.chance(1, 4);
        let mut marks = 0;
        if self.o.marks && self.src.chance(1, 6) {
            let m = *self.src.pick(&["/P BMC", "/Span BMC", "/Span <</MCID 3>> BDC", "/P <</ActualText (nem)>> BDC"]);
            self.emit(Op::Mark(m));
            marks += 1;
        }
        if span {
            let t = self.src.pick(&["fi", "ő", "ab cd", "Ödön", "", "„x”", "1. §"]).to_string();
            let names: Vec<String> = self.res[self.cur_res].props.keys().cloned().collect();
            if !names.is_empty() && self.src.chance(1, 3) {
                let n = self.src.pick(&names).clone();
                self.emit(Op::NamedText(n));
            } else {
                self.emit(Op::ActualText(t));
            }
            marks += 1;
            if self.src.chance(1, 4) {
                let op = if self.src.bool() { Op::Mark("/Span <</Lang (hu)>> BDC") } else { Op::ActualText("belső".into()) };
                self.emit(op);
                marks += 1;
            }
        }
        match show_by {
            Some(1) => {
                let codes = self.codes(room, 0.0);
                self.emit(Op::NextShow(codes));
            }
            Some(_) => {
                let (w, c) = (*self.src.pick(&[0.0, 2.0]), *self.src.pick(&[0.0, 0.1]));
                let codes = self.codes(room, 2.0);
                self.emit(Op::NextShowSpaced(w, c, codes));
            }
            None if self.src.bool() => {
                let codes = self.codes(room, 0.0);
                self.emit(Op::Tj(codes));
                if span && marks > 1 && self.span.is_some() && self.src.bool() {
                    self.emit(Op::EndMark);
                    marks -= 1;
                }
                // Go on in the same line
                if self.src.chance(1, 4) {
                    if self.src.chance(1, 2) {
                        self.choose_font();
                    }
                    let now = self.st.tm.then(&self.st.ctm);
                    let codes = self.codes(right - now.e, 0.0);
                    self.emit(Op::Tj(codes));
                }
            }
            None => {
                let codes = self.codes(room - 20.0, 1.0);
                let mut v: Vec<(Vec<u32>, f64)> = Vec::new();
                for c in codes {
                    if v.is_empty() || self.src.chance(1, 2) {
                        if let Some(l) = v.last_mut() {
                            l.1 = if self.src.bool() {
                                self.src.range(-300, 60) as f64
                            } else {
                                *self.src.pick(&[0.0, -20.0, 50.0, -250.0, -500.0, 15.5])
                            };
                        }
                        v.push((vec![c], 0.0));
                    } else {
                        v.last_mut().unwrap().0.push(c);
                    }
                }
                // The room for the adjustments
                let total: f64 = v.iter().map(|x| (-x.1).max(0.0)).sum::<f64>() / 1000.0 * self.st.size * self.st.th * self.st.tm.a * self.st.ctm.a;
                if total > 15.0 {
                    v.iter_mut().for_each(|x| x.1 = x.1.max(-20.0));
                }
                self.emit(Op::TjArray(v));
            }
        }
        if span && self.o.gs && self.src.chance(1, 6) {
            self.choose_font();
        }
        for _ in 0..marks {
            self.emit(Op::EndMark);
        }
        self.pieces += 1;
        true
    }

    /// Items outside of text objects
    fn items(&mut self, n: usize) {
        for _ in 0..n {
            self.noise();
            match self.src.weighted(&[6, self.o.state as u32 * 2, self.o.forms as u32 * 2, self.o.marks as u32, self.o.cm as u32 * 2]) {
                0 => {
                    self.emit(Op::Bt);
                    for _ in 0..self.src.usize(1, 4) {
                        if !self.piece() {
                            break;
                        }
                    }
                    self.emit(Op::Et);
                }
                1 if self.depth < 3 => {
                    self.depth += 1;
                    self.emit(Op::Save);
                    if self.o.cm && self.src.chance(1, 3) {
                        self.cm();
                    }
                    if self.src.chance(1, 3) {
                        self.choose_font();
                    }
                    self.text_state();
                    let n = self.src.usize(0, 3);
                    self.items(n);
                    self.emit(Op::Restore);
                    self.depth -= 1;
                }
                2 if self.depth < 3 => self.form(),
                3 if self.span.is_none() && self.depth < 3 => {
                    self.depth += 1;
                    let m = *self.src.pick(&["/P BMC", "/Span BMC", "/Artifact <</Type /Pagination>> BDC"]);
                    self.emit(Op::Mark(m));
                    let n = self.src.usize(0, 2);
                    self.items(n);
                    self.emit(Op::EndMark);
                    self.depth -= 1;
                }
                4 if self.st.ctm.a < 4.0 && self.st.ctm.a > 0.2 && self.st.ctm.d < 4.0 && self.st.ctm.d > 0.2 => self.cm(),
                _ => (),
            }
        }
    }

    fn gen_mat(&mut self) -> Mat {
        let (a, d) = *self.src.pick(&[(1.0, 1.0), (1.0, 1.0), (2.0, 2.0), (0.5, 0.5), (1.0, 0.8), (1.25, 1.0)]);
        Mat { a, d, e: q(self.src.range(-800, 800) as f64 / 8.0), f: q(self.src.range(-800, 800) as f64 / 8.0) }
    }

    fn cm(&mut self) {
        let m = self.gen_mat();
        self.emit(Op::Cm(m));
    }

    fn form(&mut self) {
        let i = self.forms.len();
        // The same form again, elsewhere
        let again: Vec<usize> = (0..i).filter(|k| self.forms[*k].own_font && self.done[*k]).collect();
        if !again.is_empty() && self.src.chance(1, 3) {
            let k = *self.src.pick(&again);
            let name = format!("Fm{k}");
            self.res[self.cur_res].forms.insert(name.clone(), k);
            self.emit(Op::Save);
            let dy = q(self.src.range(-400, 400) as f64 / 3.0);
            self.emit(Op::Cm(Mat::shift(0.0, if dy == 0.0 { 1.0 } else { dy })));
            self.emit(Op::Form(name));
            self.emit(Op::Restore);
            return;
        }
        if i >= 6 {
            return;
        }
        let name = format!("Fm{i}");
        let own_res = self.src.chance(2, 3);
        let matrix = if self.o.cm && self.src.bool() { Some(self.gen_mat()) } else { None };
        let res = if own_res {
            let r = gen_res(self.src, &self.fonts, self.o);
            self.res.push(r);
            Some(self.res.len() - 1)
        } else {
            None
        };
        let own_font = own_res && self.src.bool();
        self.forms.push(Form { matrix, res, ops: vec![], two_byte: vec![], own_font });
        self.done.push(false);
        self.res[self.cur_res].forms.insert(name.clone(), i);
        // Carry out what Do does, while generating
        let saved_out = std::mem::take(&mut self.out);
        let saved_two = std::mem::take(&mut self.two_byte);
        let saved_res = self.cur_res;
        self.stack.push(self.st.clone());
        if let Some(m) = matrix {
            self.st.ctm = m.then(&self.st.ctm);
        }
        self.cur_res = res.unwrap_or(saved_res);
        if own_font {
            self.st.font = None;
        }
        self.own_font += own_font as usize;
        self.depth += 1;
        let n = self.src.usize(1, 3);
        self.items(n);
        self.depth -= 1;
        self.done[i] = true;
        self.own_font -= own_font as usize;
        self.cur_res = saved_res;
        self.st = self.stack.pop().unwrap();
        self.forms[i].ops = std::mem::replace(&mut self.out, saved_out);
        self.forms[i].two_byte = std::mem::replace(&mut self.two_byte, saved_two);
        self.two_byte.push(false);
        self.out.push(Op::Form(name));
    }
}

fn gen_res(src: &mut Src, fonts: &[MFont], o: &Opts) -> Res {
    let mut r = Res::default();
    let n = src.usize(1, 3.min(fonts.len()));
    // The same names mean different things at different places
    for i in 0..n {
        r.fonts.insert(format!("F{i}"), src.below(fonts.len() as u64) as usize);
    }
    if o.gs {
        for i in 0..src.usize(0, 2) {
            let f = src.below(fonts.len() as u64) as usize;
            r.gs.insert(format!("GS{i}"), (f, *src.pick(&[10.0, 9.0])));
        }
        if o.marks && src.bool() {
            r.props.insert("MC0".into(), src.pick(&["név", "x", "ab"]).to_string());
        }
    }
    r
}

// ---------------------------------------------------------------- writing

fn num(v: f64) -> String {
    let s = format!("{:.3}", v);
    let s = s.trim_end_matches('0').trim_end_matches('.');
    if s == "-0" || s.is_empty() { "0".into() } else { s.to_string() }
}

fn mat(m: &Mat) -> String {
    format!("{} 0 0 {} {} {}", num(m.a), num(m.d), num(m.e), num(m.f))
}

fn string(codes: &[u32], two: bool) -> Vec<u8> {
    let bytes: Vec<u8> =
        codes.iter().flat_map(|c| if two { vec![(*c >> 8) as u8, *c as u8] } else { vec![*c as u8] }).collect();
    // Literal or hexadecimal, by the first byte
    if !two && bytes.first().map(|b| b % 3 != 0).unwrap_or(true) {
        let mut v = vec![b'('];
        for b in bytes {
            match b {
                b'(' | b')' | b'\\' => v.extend([b'\\', b]),
                b'\r' | b'\n' => v.extend(format!("\\{b:03o}").bytes()),
                b if b > 0x7e && b % 2 == 0 => v.extend(format!("\\{b:03o}").bytes()),
                b => v.push(b),
            }
        }
        v.push(b')');
        v
    } else {
        let mut s = String::from("<");
        bytes.iter().for_each(|b| s.push_str(&format!("{b:02X}")));
        s.push('>');
        s.into_bytes()
    }
}

fn utf16(s: &str, bom: bool) -> String {
    let mut h = String::from(if bom { "<FEFF" } else { "<" });
    for u in s.encode_utf16() {
        h.push_str(&format!("{u:04X}"));
    }
    h.push('>');
    h
}

fn write_ops(ops: &[Op], two: &[bool]) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    for (op, two) in ops.iter().zip(two) {
        match op {
            Op::Raw(s) | Op::Mark(s) => v.extend(s.bytes()),
            Op::Save => v.push(b'q'),
            Op::Restore => v.push(b'Q'),
            Op::Cm(m) => v.extend(format!("{} cm", mat(m)).bytes()),
            Op::Bt => v.extend(b"BT"),
            Op::Et => v.extend(b"ET"),
            Op::Tm(m) => v.extend(format!("{} Tm", mat(m)).bytes()),
            Op::Td(x, y) => v.extend(format!("{} {} Td", num(*x), num(*y)).bytes()),
            Op::TdLeading(x, y) => v.extend(format!("{} {} TD", num(*x), num(*y)).bytes()),
            Op::Next => v.extend(b"T*"),
            Op::Tl(x) => v.extend(format!("{} TL", num(*x)).bytes()),
            Op::Tc(x) => v.extend(format!("{} Tc", num(*x)).bytes()),
            Op::Tw(x) => v.extend(format!("{} Tw", num(*x)).bytes()),
            Op::Tz(x) => v.extend(format!("{} Tz", num(*x)).bytes()),
            Op::Ts(x) => v.extend(format!("{} Ts", num(*x)).bytes()),
            Op::Tf(n, s) => v.extend(format!("/{n} {} Tf", num(*s)).bytes()),
            Op::Gs(n) => v.extend(format!("/{n} gs").bytes()),
            Op::Tj(c) => {
                v.extend(string(c, *two));
                v.extend(b" Tj");
            }
            Op::TjArray(a) => {
                v.push(b'[');
                for (c, adj) in a {
                    v.extend(string(c, *two));
                    if *adj != 0.0 {
                        v.extend(format!(" {} ", num(*adj)).bytes());
                    }
                }
                v.extend(b"] TJ");
            }
            Op::NextShow(c) => {
                v.extend(string(c, *two));
                v.extend(b" '");
            }
            Op::NextShowSpaced(w, s, c) => {
                v.extend(format!("{} {} ", num(*w), num(*s)).bytes());
                v.extend(string(c, *two));
                v.extend(b" \"");
            }
            Op::ActualText(t) => v.extend(format!("/Span <</ActualText {}>> BDC", utf16(t, true)).bytes()),
            Op::NamedText(n) => v.extend(format!("/Span /{n} BDC").bytes()),
            Op::EndMark => v.extend(b"EMC"),
            Op::Form(n) => v.extend(format!("/{n} Do").bytes()),
        }
        v.push(b'\n');
    }
    v
}

#[derive(Default)]
pub struct Pdf {
    objs: Vec<Vec<u8>>,
}

impl Pdf {
    pub fn reserve(&mut self) -> usize {
        self.objs.push(Vec::new());
        self.objs.len()
    }
    pub fn set(&mut self, id: usize, body: impl Into<Vec<u8>>) {
        self.objs[id - 1] = body.into();
    }
    pub fn add(&mut self, body: impl Into<Vec<u8>>) -> usize {
        self.objs.push(body.into());
        self.objs.len()
    }
    pub fn stream(dict: &str, data: &[u8]) -> Vec<u8> {
        let mut v = format!("<<{dict} /Length {}>>\nstream\n", data.len()).into_bytes();
        v.extend(data);
        v.extend(b"\nendstream");
        v
    }
    pub fn finish(&self, root: usize) -> Vec<u8> {
        let mut v = b"%PDF-1.6\n".to_vec();
        let mut offs = Vec::new();
        for (i, o) in self.objs.iter().enumerate() {
            offs.push(v.len());
            v.extend(format!("{} 0 obj\n", i + 1).bytes());
            v.extend(o);
            v.extend(b"\nendobj\n");
        }
        let x = v.len();
        v.extend(format!("xref\n0 {}\n0000000000 65535 f \n", offs.len() + 1).bytes());
        for o in offs {
            v.extend(format!("{o:010} 00000 n \n").bytes());
        }
        v.extend(format!("trailer\n<</Size {} /Root {root} 0 R>>\nstartxref\n{x}\n%%EOF\n", self.objs.len() + 1).bytes());
        v
    }
}

fn write_cmap(src: &mut Src, f: &MFont) -> Vec<u8> {
    let hex = |c: u32| if f.composite() { format!("<{c:04X}>") } else { format!("<{c:02X}>") };
    let mut s = String::from("/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n1 begincodespacerange\n<0000> <FFFF>\nendcodespacerange\n");
    for (c, t) in &f.to_unicode {
        let u = utf16(t, false);
        match src.below(3) {
            0 => s.push_str(&format!("1 beginbfchar\n{} {u}\nendbfchar\n", hex(*c))),
            1 => s.push_str(&format!("1 beginbfrange\n{} {} {u}\nendbfrange\n", hex(*c), hex(*c))),
            _ => s.push_str(&format!("1 beginbfrange\n{} {} [{u}]\nendbfrange\n", hex(*c), hex(*c))),
        }
    }
    s.push_str("endcmap\nend\nend\n");
    s.into_bytes()
}

fn write_font(src: &mut Src, pdf: &mut Pdf, f: &MFont) -> String {
    let tu = if f.to_unicode.is_empty() {
        String::new()
    } else {
        let d = write_cmap(src, f);
        let id = pdf.add(Pdf::stream("", &d));
        format!(" /ToUnicode {id} 0 R")
    };
    let desc = pdf.add(format!(
        "<</Type /FontDescriptor /FontName /{} /Flags 32 /FontBBox [0 0 1000 1000] /ItalicAngle 0 /Ascent 800 /Descent -200 /CapHeight 700 /StemV 80>>",
        f.name
    ));
    if f.composite() {
        let mut w = String::new();
        let codes: Vec<u32> = f.widths.keys().copied().collect();
        let mut i = 0;
        while i < codes.len() {
            let mut j = i + 1;
            while j < codes.len() && codes[j] == codes[j - 1] + 1 {
                j += 1;
            }
            if j == i + 1 && src.bool() {
                w.push_str(&format!("{} {} {} ", codes[i], codes[i], f.widths[&codes[i]]));
            } else {
                let l: Vec<String> = codes[i..j].iter().map(|c| f.widths[c].to_string()).collect();
                w.push_str(&format!("{} [{}] ", codes[i], l.join(" ")));
            }
            i = j;
        }
        let dw = if f.default_width == 1000 && src.bool() { String::new() } else { format!(" /DW {}", f.default_width) };
        let d = pdf.add(format!(
            "<</Type /Font /Subtype /CIDFontType2 /BaseFont /{} /CIDSystemInfo <</Registry (Adobe) /Ordering (Identity) /Supplement 0>> /FontDescriptor {desc} 0 R{dw} /W [{w}] /CIDToGIDMap /Identity>>",
            f.name
        ));
        return format!(
            "<</Type /Font /Subtype /Type0 /BaseFont /{} /Encoding /Identity-H /DescendantFonts [{d} 0 R]{tu}>>",
            f.name
        );
    }
    let base = match f.base {
        Base::WinAnsi => Some("WinAnsiEncoding"),
        Base::MacRoman => Some("MacRomanEncoding"),
        Base::Standard => Some("StandardEncoding"),
        Base::Symbol => Some("SymbolEncoding"),
        Base::MacExpert => Some("MacExpertEncoding"),
        _ => None,
    };
    let enc = if f.diffs.is_empty() && base.is_some() {
        format!("/{}", base.unwrap())
    } else {
        let mut s = String::from("<</Type /Encoding");
        if let Some(b) = base {
            s.push_str(&format!(" /BaseEncoding /{b}"));
        }
        s.push_str(" /Differences [");
        let mut prev = None;
        for (c, g) in &f.diffs {
            if prev != Some(c.wrapping_sub(1)) {
                s.push_str(&format!("{c} "));
            }
            s.push_str(&format!("/{g} "));
            prev = Some(*c);
        }
        s.push_str("]>>");
        if src.bool() {
            let id = pdf.add(s);
            format!("{id} 0 R")
        } else {
            s
        }
    };
    let first = *f.widths.keys().next().unwrap();
    let last = *f.widths.keys().last().unwrap();
    let w: Vec<String> = (first..=last).map(|c| f.widths.get(&c).copied().unwrap_or(0).to_string()).collect();
    format!(
        "<</Type /Font /Subtype /{} /BaseFont /{} /FirstChar {first} /LastChar {last} /Widths [{}] /FontDescriptor {desc} 0 R /Encoding {enc}{tu}>>",
        if f.truetype { "TrueType" } else { "Type1" },
        f.name,
        w.join(" ")
    )
}

// ---------------------------------------------------------------- the document

struct Doc {
    bytes: Vec<u8>,
    pages: Vec<Vec<Glyph>>,
    crop: CropBox,
    pieces: usize,
    text: String,
    /// Text is drawn somewhere without a font
    refused: bool,
}

fn gen_doc(src: &mut Src, o: &Opts) -> Doc {
    let n_fonts = src.usize(1, o.fonts);
    let mut fonts: Vec<MFont> = (0..n_fonts).map(|_| MFont::gen(src, o.rich_fonts)).collect();
    if o.unknown && src.chance(1, 12) {
        let f = src.below(n_fonts as u64) as usize;
        if let Some(code) = unassigned(fonts[f].base).filter(|c| fonts[f].decode(*c).is_none()) {
            fonts[f].codes.push(code);
            fonts[f].widths.insert(code, 500);
        }
    }
    let fonts = Rc::new(fonts);
    let crop = if o.crop && src.bool() {
        CropBox {
            bottom: src.range(0, 300) as f32,
            left: src.range(0, 100) as f32,
            top: src.range(500, 900) as f32,
            right: src.range(300, 700) as f32,
        }
    } else {
        CropBox::default()
    };
    let n_pages = src.small(1, o.pages);
    let fontless = o.fontless && src.chance(1, 6);
    let mut b = Builder {
        src,
        o,
        fonts: fonts.clone(),
        res: vec![],
        forms: vec![],
        glyphs: vec![],
        pieces: 0,
        st: fresh(),
        stack: vec![],
        cur_res: 0,
        marks: 0,
        span: None,
        out: vec![],
        two_byte: vec![],
        cells: vec![],
        cols: vec![],
        depth: 0,
        done: vec![],
        crop: crop.clone(),
        placed: false,
        fontless,
        refused: false,
        own_font: 0,
    };
    let mut page_data: Vec<(usize, Vec<u8>)> = Vec::new();
    let mut pages = Vec::new();
    for _ in 0..n_pages {
        // Sometimes the resources of the page before it
        let r = if !b.res.is_empty() && b.src.chance(1, 4) {
            page_data.last().unwrap().0
        } else {
            let r = gen_res(b.src, &fonts, o);
            b.res.push(r);
            b.res.len() - 1
        };
        b.cur_res = r;
        b.st = fresh();
        b.glyphs = vec![];
        b.cols = match b.src.below(3) {
            0 => vec![(60.0, 540.0)],
            1 => vec![(60.0, 270.0), (290.0, 540.0)],
            _ => vec![(20.0, 180.0), (200.0, 380.0), (400.0, 580.0)],
        };
        let mut y = b.src.range(600, 800) as f64;
        let mut ys = vec![];
        for _ in 0..b.src.usize(1, 8) {
            ys.push(y);
            let edges = [b.crop.top as f64, b.crop.bottom as f64];
            if let Some(e) = edges.iter().find(|e| **e < y && **e > y - 100.0) {
                if b.src.chance(1, 4) {
                    y = *e;
                    continue;
                }
            }
            y -= if b.src.chance(1, 3) {
                b.src.range(146, 174) as f64 / 10.0
            } else {
                *b.src.pick(&[12.0, 12.0, 14.0, 20.0, 40.0, 3.0, 1.5, 0.7, 100.0])
            };
        }
        b.cells = ys.iter().flat_map(|y| (0..b.cols.len()).map(move |c| (*y, c))).collect();
        if b.src.chance(1, 3) {
            let keep = b.src.usize(1, b.cells.len());
            while b.cells.len() > keep {
                let i = b.src.below(b.cells.len() as u64) as usize;
                b.cells.swap_remove(i);
            }
        }
        let n = if b.src.chance(1, 16) { 0 } else { b.src.usize(1, 7) };
        b.items(n);
        let data = write_ops(&std::mem::take(&mut b.out), &std::mem::take(&mut b.two_byte));
        page_data.push((r, data));
        pages.push(std::mem::take(&mut b.glyphs));
    }
    let (res, forms, pieces, refused) = (b.res, b.forms, b.pieces, b.refused);
    // Write it
    let mut pdf = Pdf::default();
    let root = pdf.reserve();
    let tree = pdf.reserve();
    pdf.set(root, format!("<</Type /Catalog /Pages {tree} 0 R>>"));
    // Sometimes the object numbers of the fonts agree in their last 8 bits
    let apart = src.chance(1, 40);
    let mut font_ids: Vec<usize> = Vec::new();
    for f in fonts.iter() {
        let d = write_font(src, &mut pdf, f);
        if let (true, Some(prev)) = (apart, font_ids.last()) {
            while pdf.objs.len() + 1 < prev + 256 {
                pdf.add("null");
            }
        }
        font_ids.push(pdf.add(d));
    }
    let form_ids: Vec<usize> = forms.iter().map(|_| pdf.reserve()).collect();
    let image = pdf.add(Pdf::stream("/Type /XObject /Subtype /Image /Width 1 /Height 1 /BitsPerComponent 8 /ColorSpace /DeviceGray", b"A"));
    let mut res_text = Vec::new();
    for r in &res {
        let mut s = String::from("<</Font <<");
        for (n, f) in &r.fonts {
            if src.chance(1, 4) {
                let d = write_font(src, &mut pdf, &fonts[*f]);
                s.push_str(&format!("/{n} {d} "));
            } else {
                s.push_str(&format!("/{n} {} 0 R ", font_ids[*f]));
            }
        }
        s.push_str(">>");
        if !r.gs.is_empty() {
            s.push_str(" /ExtGState <<");
            for (n, (f, size)) in &r.gs {
                s.push_str(&format!("/{n} <</Type /ExtGState /Font [{} 0 R {}]>> ", font_ids[*f], num(*size)));
            }
            s.push_str(">>");
        }
        {
            s.push_str(&format!(" /XObject <</Image0 {image} 0 R "));
            for (n, i) in &r.forms {
                s.push_str(&format!("/{n} {} 0 R ", form_ids[*i]));
            }
            s.push_str(">>");
        }
        if !r.props.is_empty() {
            s.push_str(" /Properties <<");
            for (n, t) in &r.props {
                s.push_str(&format!("/{n} <</ActualText {}>> ", utf16(t, true)));
            }
            s.push_str(">>");
        }
        s.push_str(">>");
        res_text.push(if src.bool() {
            let id = pdf.add(s);
            format!("{id} 0 R")
        } else {
            s
        });
    }
    for (f, id) in forms.iter().zip(&form_ids) {
        let mut d = String::from("/Type /XObject /Subtype /Form /BBox [0 0 1000 1000]");
        if let Some(m) = &f.matrix {
            d.push_str(&format!(" /Matrix [{}]", mat(m)));
        }
        if let Some(r) = f.res {
            d.push_str(&format!(" /Resources {}", res_text[r]));
        }
        pdf.set(*id, Pdf::stream(&d, &write_ops(&f.ops, &f.two_byte)));
    }
    let mut kids = Vec::new();
    let mut text = String::new();
    // Pages whose resources are those of their parent
    let inherited = if src.chance(1, 4) { Some(page_data[0].0) } else { None };
    for (r, data) in &page_data {
        let contents = if data.is_empty() && src.bool() {
            String::new()
        } else if src.chance(1, 4) {
            let cut = data.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|x| x.0 + 1).collect::<Vec<_>>();
            let at = if cut.is_empty() { 0 } else { *src.pick(&cut) };
            let a = pdf.add(Pdf::stream("", &data[..at]));
            let b = pdf.add(Pdf::stream("", &data[at..]));
            format!(" /Contents [{a} 0 R {b} 0 R]")
        } else {
            let a = pdf.add(Pdf::stream("", data));
            format!(" /Contents {a} 0 R")
        };
        let rs = if inherited == Some(*r) { String::new() } else { format!(" /Resources {}", res_text[*r]) };
        kids.push(pdf.add(format!("<</Type /Page /Parent {tree} 0 R /MediaBox [0 0 595 842]{rs}{contents}>>")));
        text.push_str(&String::from_utf8_lossy(data));
        text.push_str("--- page end\n");
    }
    let k: Vec<String> = kids.iter().map(|k| format!("{k} 0 R")).collect();
    let rs = inherited.map(|r| format!(" /Resources {}", res_text[r])).unwrap_or_default();
    pdf.set(tree, format!("<</Type /Pages /Kids [{}] /Count {}{rs}>>", k.join(" "), kids.len()));
    Doc { bytes: pdf.finish(root), pages, crop, pieces, text, refused }
}

// ---------------------------------------------------------------- the oracle

#[derive(Debug)]
struct WLine {
    chars: Vec<Glyph>,
    /// Whether there is a space before each character
    space: Vec<bool>,
    justified: bool,
    empty_before: bool,
}

const TOL: f64 = 0.03;

/// None: too close to one of the thresholds to tell
fn lines_of(glyphs: &[Glyph], crop: &CropBox) -> Option<Vec<WLine>> {
    let mut v: Vec<&Glyph> = Vec::new();
    for g in glyphs {
        let edges = [(g.x, crop.left), (g.x, crop.right), (g.y, crop.bottom), (g.y, crop.top)];
        // What is exactly on the edge is inside
        if edges.iter().any(|(a, b)| (a - *b as f64).abs() < 0.005 && !(g.exact && *a == *b as f64)) {
            return None;
        }
        let inside = g.x >= crop.left as f64 && g.x <= crop.right as f64 && g.y >= crop.bottom as f64 && g.y <= crop.top as f64;
        if inside && !g.c.is_whitespace() {
            v.push(g);
        }
    }
    v.sort_by(|a, b| b.y.partial_cmp(&a.y).unwrap());
    let margin = v.iter().map(|g| g.x + g.width).fold(0.0, f64::max);
    let mut out: Vec<WLine> = Vec::new();
    let mut i = 0;
    while i < v.len() {
        let top = v[i].y;
        let mut j = i;
        while j < v.len() && top - v[j].y < 0.5 {
            j += 1;
        }
        if v.iter().any(|g| (top - g.y - 0.5).abs() < TOL) {
            return None;
        }
        let mut chars: Vec<Glyph> = v[i..j].iter().map(|g| (*g).clone()).collect();
        chars.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap());
        if chars.windows(2).any(|w| w[1].x - w[0].x < 0.02) {
            return None;
        }
        let mut space = vec![false];
        for w in chars.windows(2) {
            let gap = w[1].x - w[0].x - w[0].width;
            let lim = w[0].space * 0.5;
            if w[1].c != '„' && (gap - lim).abs() < TOL {
                return None;
            }
            space.push(gap > lim || w[1].c == '„');
        }
        let last = chars.last().unwrap();
        let end = last.x + last.width + last.space * 0.8;
        if (end - margin).abs() < TOL {
            return None;
        }
        let prev_top = if i == 0 { None } else { Some(out.last().unwrap().chars.iter().map(|g| g.y).fold(f64::MIN, f64::max)) };
        let gap = prev_top.map(|p| p - top).unwrap_or(0.0);
        if (gap - 16.0).abs() < TOL {
            return None;
        }
        out.push(WLine { chars, space, justified: end > margin, empty_before: gap > 16.0 });
        i = j;
    }
    Some(out)
}

fn compare(page: &PageOfLines, want: &[WLine], no: usize) -> CaseResult {
    let text = |w: &WLine| -> String {
        w.chars.iter().zip(&w.space).flat_map(|(g, s)| [if *s { Some(' ') } else { None }, Some(g.c)]).flatten().collect()
    };
    let mut exp: Vec<String> = Vec::new();
    let mut lines: Vec<Option<&WLine>> = Vec::new();
    for w in want {
        if w.empty_before {
            exp.push(String::new());
            lines.push(None);
        }
        exp.push(text(w));
        lines.push(Some(w));
    }
    let mut got: Vec<String> = page.lines.iter().map(|l| l.content().to_string()).collect();
    // A page without text is nothing or an empty line
    if want.is_empty() && got == [""] {
        got.clear();
    }
    check_eq!(got, exp, "lines", "page {}", no + 1);
    for (l, w) in page.lines.iter().zip(&lines) {
        let Some(w) = w else {
            check!(l.is_empty(), "empty line", "{l:?}");
            continue;
        };
        compare_line(l, w, no)?;
    }
    Ok(())
}

fn compare_line(l: &IndentedLine, w: &WLine, no: usize) -> CaseResult {
    let close = |a: f64, b: f64| (a - b).abs() < 0.02;
    let mut i = 0i64;
    let mut bold = 0;
    for (g, s) in w.chars.iter().zip(&w.space) {
        if *s {
            bold += l.slice(i, Some(i + 1)).is_bold() as usize;
            i += 1;
        }
        let at = l.indent_at(i);
        check!(close(at, g.x), "position", "page {} line {:?} char {i} ({:?}): {at} instead of {}", no + 1, l.content(), g.c, g.x);
        let one = l.slice(i, Some(i + 1));
        check_eq!(one.is_bold(), g.bold, "boldness", "page {} line {:?} char {i} ({:?})", no + 1, l.content(), g.c);
        bold += g.bold as usize;
        i += 1;
    }
    check!(close(l.indent(), w.chars[0].x), "indent", "line {:?}: {}", l.content(), l.indent());
    check_eq!(l.is_bold(), bold * 3 > i as usize * 2, "boldness of the line", "line {:?}", l.content());
    check_eq!(l.is_justified(), w.justified, "justified", "page {} line {:?}", no + 1, l.content());
    Ok(())
}

fn run(c: &mut Case, o: &Opts) -> CaseResult {
    let doc = gen_doc(&mut c.src, o);
    c.input(&doc.bytes);
    c.describe(|| {
        let t: Vec<String> = doc.pages.iter().map(|p| p.iter().map(|g| g.c).collect()).collect();
        format!("crop {:?}\nglyphs in the order of drawing: {t:?}\n{}", doc.crop, doc.text)
    });
    let mut want = Vec::new();
    for p in &doc.pages {
        match lines_of(p, &doc.crop) {
            Some(l) => want.push(Some(l)),
            None => want.push(None),
        }
    }
    let decided = want.iter().flatten().flatten().filter(|l| l.chars.len() >= 2).count();
    c.nontrivial = decided >= 2 && doc.pieces >= 3;
    c.label_if(doc.pages.len() > 1, "several pages");
    c.label_if(want.iter().any(|w| w.is_none()), "page at a threshold");
    c.label_if(
        doc.pages.iter().flatten().any(|g| g.exact && (g.x == doc.crop.left as f64 || g.x == doc.crop.right as f64 || g.y == doc.crop.top as f64 || g.y == doc.crop.bottom as f64)),
        "glyph on the edge of the crop box",
    );
    c.label_if(want.iter().flatten().flatten().any(|l| l.space.iter().any(|s| *s)), "spaces");
    c.label_if(want.iter().flatten().flatten().any(|l| l.empty_before), "empty lines");
    c.label_if(want.iter().flatten().flatten().any(|l| !l.justified), "not justified");
    c.label_if(doc.refused, "text without a font or a character");
    if doc.refused {
        if no_panic("parse_pdf", || parse_pdf(&doc.bytes, doc.crop.clone()))?.is_ok() {
            return fail("text accepted that cannot be read", "no font is selected where some of the text is drawn, or its font has no character for a code");
        }
        c.nontrivial = doc.pieces >= 3;
        return Ok(());
    }
    let got = match no_panic("parse_pdf", || parse_pdf(&doc.bytes, doc.crop.clone()))? {
        Ok(g) => g,
        Err(e) => {
            let e = format!("{e:?}");
            let kind: String = e.chars().take_while(|c| !c.is_ascii_digit()).take(40).collect();
            return fail(format!("document refused: {kind}"), e.chars().take(300).collect::<String>());
        }
    };
    check_eq!(got.len(), doc.pages.len(), "number of pages", "");
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        if let Some(w) = w {
            compare(g, w, i)?;
        }
    }
    Ok(())
}

const PLAIN: Opts = Opts {
    pages: 1,
    fonts: 2,
    rich_fonts: false,
    state: false,
    forms: false,
    marks: false,
    gs: false,
    crop: true,
    cm: false,
    text_state: false,
    fontless: false,
    unknown: false,
};

fn c12_layout(c: &mut Case) -> CaseResult {
    run(c, &PLAIN)
}

fn c12_operators(c: &mut Case) -> CaseResult {
    run(c, &Opts { text_state: true, cm: true, state: true, forms: true, pages: 2, ..PLAIN })
}

fn c13_fonts(c: &mut Case) -> CaseResult {
    run(c, &Opts { pages: 4, fonts: 6, rich_fonts: true, gs: true, crop: false, text_state: true, unknown: true, ..PLAIN })
}

fn c13_state(c: &mut Case) -> CaseResult {
    run(c, &Opts { pages: 2, fonts: 3, state: true, forms: true, marks: true, gs: true, crop: false, fontless: true, ..PLAIN })
}

fn c13_all(c: &mut Case) -> CaseResult {
    run(
        c,
        &Opts {
            pages: 3,
            fonts: 5,
            rich_fonts: true,
            state: true,
            forms: true,
            marks: true,
            gs: true,
            crop: true,
            cm: true,
            text_state: true,
            fontless: true,
            unknown: false,
        },
    )
}
