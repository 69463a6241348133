# Specifications of the planted bugs (mkseed.py writes /verif/seeded from these)
PRE = r'''
#![allow(dead_code, unused_imports)]
use hun_law::{identifier::*, parser::{mk_act_section::ActRawText, structure::parse_act_structure},
              structure::*, util::indentedline::{IndentedLine, IndentedLinePart, EMPTY_LINE}};

fn act_of(lines: &[&str]) -> anyhow::Result<Act> {
    parse_act_structure(&ActRawText {
        identifier: ActIdentifier { year: 2012, number: 1 },
        subject: "a tesztről".into(),
        publication_date: chrono::NaiveDate::from_ymd_opt(2012, 1, 2).unwrap(),
        body: lines.iter().map(|l| IndentedLine::from_test_str(l)).collect(),
    })
}
'''

SEEDS = []


def seed(id, property, needs, breaks, edits, demo, pre=PRE, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=pre + demo, **kw))


S = "src/parser/structure/"
seed("subtitle_digit", "C01", "a numbered subtitle whose title starts with a digit",
     "the subtitle is swallowed by the article before it",
     [(S + "subtitle.rs", r'\\. ([^é§].*)$', r'\\. ([^é§0-9].*)$')],
     r'''
fn main() {
    let act = act_of(&["1. § Ez az első szakasz.", "", "<BOLD>2. 2013 utáni szabályok", "", "2. § Ez a második."]).unwrap();
    assert_eq!(act.children.len(), 3, "{act:#?}");
    assert!(matches!(&act.children[1], ActChild::Subtitle(s) if s.title == "2013 utáni szabályok"));
}
''')

seed("quote_punct", "C02", "a quoted block with a line inside that ends in a closing quote and punctuation, at quote level zero",
     "the punctuation after the quote is dropped from the act",
     [(S + "quote.rs",
       "if !line.is_empty() && !self.quote_checker.end_is_quoted && line.content().ends_with('”')\n",
       "if !line.is_empty()\n            && !self.quote_checker.end_is_quoted\n            && line.content().trim_end_matches(['.', ',', ';']).ends_with('”')\n")],
     r'''
fn main() {
    // Whatever the parser makes of it, no character may disappear
    let lines = ["1. § A törvény a következő szöveggel lép hatályba:", "„elsőül ez”;", "„másodikul az”"];
    let Ok(act) = act_of(&lines) else { return };
    let text = serde_json::to_string(&act).unwrap();
    assert!(text.contains(';'), "{text}");
}
''')

seed("bold_article_gap", "C03", "a full act in which a bold article header skips a number",
     "an act with a gap in its article numbers is accepted",
     [(S + "article.rs", "            if !identifier.is_next_from(last_id) {\n",
       "            let trusted = line.is_bold() && identifier > last_id;\n            if !trusted && !identifier.is_next_from(last_id) {\n")],
     r'''
fn main() {
    let act = act_of(&["<BOLD>1. § Első szakasz.", "<BOLD>2. § Második szakasz.", "<BOLD>4. § Negyedik szakasz."]);
    if let Ok(act) = act {
        let ids: Vec<String> = act.articles().map(|a| a.identifier.to_string()).collect();
        assert_eq!(ids, ["1", "2"], "gap accepted");
    }
}
''')

BA = r'''
use hun_law::{reference::{builder::*, parts::*, structural::*}, semantic_info, identifier::range::IdentifierRangeFrom};
fn line(s: &str) -> IndentedLine { IndentedLine::from_test_str(s) }
fn amendment(phrase: semantic_info::SpecialPhrase, lines: &[&str]) -> Act {
    let mut act = act_of(&["1. § Ez a szakasz."]).unwrap();
    let p = &mut act.articles_mut().next().unwrap().children[0];
    p.body = SAEBody::Children {
        intro: "Helyébe lép:".into(),
        children: ParagraphChildren::QuotedBlock(vec![QuotedBlock { intro: None, lines: lines.iter().map(|l| line(l)).collect(), wrap_up: None }]),
        wrap_up: None,
    };
    p.semantic_info.special_phrase = Some(phrase);
    act.convert_block_amendments().unwrap();
    act
}
'''

seed("rest_of_wrap_up", "C04", "an amended paragraph that is not the last one, with points and a wrap-up of several unjustified lines",
     "only the first remaining line of the wrap-up is kept",
     [(S + "sae.rs", "                        for l in rest_of_wrap_up {\n", "                        for l in rest_of_wrap_up.into_iter().take(1) {\n")],
     BA + r'''
fn main() {
    let pos = ReferenceBuilder::new()
        .set_part(ActIdentifier { year: 2010, number: 5 })
        .set_part(RefPartArticle::from_single(3.into()))
        .set_part(RefPartParagraph::from_range(1.into(), 2.into()))
        .build().unwrap();
    let act = amendment(
        semantic_info::BlockAmendment { position: pos, pure_insertion: false }.into(),
        &["(1) A kérelemhez csatolni kell", "<NJ>a) az okiratot,", "<NJ>b) a térképet,", "<NJ>és minden mást,",
          "<NJ>amit a hatóság kér,", "<NJ>ha ezt jogszabály előírja.", "(2) A határidő tíz nap."],
    );
    let text = serde_json::to_string(&act).unwrap();
    for w in ["és minden mást,", "amit a hatóság kér,", "ha ezt jogszabály előírja.", "tíz nap"] {
        assert!(text.contains(w), "'{w}' is missing: {text}");
    }
}
''')

seed("one_line_header", "C04", "a single amended paragraph of one line, quoted with the header of its article",
     "the conversion fails on an amendment that is all right",
     [(S + "block_amendment.rs", "            let lines_to_parse = if lines[0].content().starts_with(&article_header) {\n",
       "            let lines_to_parse = if lines.len() > 1 && lines[0].content().starts_with(&article_header) {\n")],
     BA + r'''
fn main() {
    let pos = ReferenceBuilder::new()
        .set_part(ActIdentifier { year: 2010, number: 5 })
        .set_part(RefPartArticle::from_single(3.into()))
        .set_part(RefPartParagraph::from_single(2.into()))
        .build().unwrap();
    let act = amendment(
        semantic_info::BlockAmendment { position: pos, pure_insertion: false }.into(),
        &["3. § (2) A határidő tíz nap."],
    );
    let text = serde_json::to_string(&act).unwrap();
    assert!(text.contains("A határidő tíz nap.") && !text.contains("3. §"), "{text}");
}
''')

seed("book_ignored", "C05", "an article identifier with a malformed or too large book number",
     "the text is misread as an article without a book",
     [("src/identifier/article.rs",
       "        if let Some((book_str, id_str)) = value.split_once(':') {\n            Ok(Self {\n                book: Some(book_str.parse()?),\n",
       "        if let Some((book_str, id_str)) = value.split_once(':') {\n            Ok(Self {\n                book: book_str.parse().ok(),\n")],
     r'''
fn main() {
    assert!("300:5".parse::<ArticleIdentifier>().is_err());
    assert!(":5".parse::<ArticleIdentifier>().is_err());
    assert_eq!("3:5/A".parse::<ArticleIdentifier>().unwrap().to_string(), "3:5/A");
}
''')

seed("skip_w", "C06", "points after v)", "x) is taken for the successor of v) although w) is between them",
     [("src/identifier/alphabetic.rs", "            (Self::Latin(b'r'), Self::Latin(b'p')) => true,\n",
       "            (Self::Latin(b'r'), Self::Latin(b'p')) | (Self::Latin(b'x'), Self::Latin(b'v')) => true,\n")],
     r'''
fn main() {
    let id = |s: &str| s.parse::<AlphabeticIdentifier>().unwrap();
    assert!(!id("x").is_next_from(id("v")));
    assert!(id("r").is_next_from(id("p")));
}
''')

seed("suffix_after_range", "C06", "a range that ends in an unsuffixed digraph or a suffixed inserted identifier",
     "ly) counts as before l) in ranges and sorting",
     [("src/identifier/alphabetic.rs", "HungarianIdentifierChar::Ly => (b'l' as u16) * 2 + 1,", "HungarianIdentifierChar::Ly => (b'k' as u16) * 2 + 1,")],
     r'''
use hun_law::identifier::range::*;
fn main() {
    let id = |s: &str| s.parse::<AlphabeticIdentifier>().unwrap();
    assert!(id("ly") > id("l"));
    assert!(!IdentifierRange::from_range(id("a"), id("l")).contains(id("ly")));
    assert!(IdentifierRange::from_range(id("l"), id("m")).contains(id("ly")));
}
''')

seed("actless_parent", "C08", "a reference without an act compared to one with an act",
     "a relative reference contains elements of any act",
     [("src/reference/mod.rs", "        if self.act != other.act {\n            false\n", "        if self.act.is_some() && self.act != other.act {\n            false\n")],
     r'''
use hun_law::{reference::{Reference, builder::*, parts::*}, identifier::range::IdentifierRangeFrom};
fn main() {
    let a = Reference::from(RefPartArticle::from_single(5.into()));
    let b = ReferenceBuilder::new()
        .set_part(ActIdentifier { year: 2012, number: 3 })
        .set_part(RefPartArticle::from_single(5.into()))
        .set_part(RefPartParagraph::from_single(2.into()))
        .build().unwrap();
    assert!(!a.contains(&b) && !a.is_parent_of(&b));
}
''')

seed("numeric_subpoint_position", "C09", "an alphabetic point with numeric subpoints",
     "the subpoints are visited with a position without the act",
     [("src/util/walker.rs", "                    AlphabeticPointChildren::NumericSubpoint(b) => b.$walk_fn(base, visitor),\n",
       "                    AlphabeticPointChildren::NumericSubpoint(b) => b.$walk_fn(&base.without_act(), visitor),\n")],
     r'''
use hun_law::{reference::Reference, util::walker::*};
struct V(Vec<Reference>);
impl SAEVisitor for V {
    fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, p: &Reference, _e: &SubArticleElement<IT, CT>) -> anyhow::Result<()> {
        self.0.push(p.clone());
        Ok(())
    }
}
fn main() {
    let act = act_of(&["1. § Ezek:", "   a) első", "      1. egy", "      2. kettő", "   b) második"]).unwrap();
    let mut v = V(vec![]);
    act.walk_saes(&mut v).unwrap();
    assert_eq!(v.0.len(), 5);
    assert!(v.0.iter().all(|r| r.act().is_some()), "{:?}", v.0);
}
''')

seed("abbreviation_lost", "C10", "an element whose semantic information is only an abbreviation",
     "the abbreviation is not written",
     [("src/semantic_info.rs", "            && self.new_abbreviations.is_empty()\n", "")],
     r'''
fn main() {
    let mut act = act_of(&["1. § Ez a szakasz."]).unwrap();
    act.articles_mut().next().unwrap().children[0].semantic_info.new_abbreviations
        .insert("Tv.".into(), ActIdentifier { year: 2001, number: 4 });
    let s = serde_json::to_string(&act).unwrap();
    assert_eq!(serde_json::from_str::<Act>(&s).unwrap(), act);
}
''')

seed("narrow_wrap", "C11", "text in a deeply nested element that is longer than the width",
     "the text is wrapped beyond the requested width",
     [("src/output/text.rs", "self.indentation_level * 5)) {", "self.indentation_level * 4)) {")],
     r'''
use hun_law::output::*;
fn main() {
    let long = "szó ".repeat(60);
    let act = act_of(&["1. § Ezek:", &format!("   a) {long}első"), &format!("   b) {long}második")]).unwrap();
    let mut out = Vec::new();
    act.cli_output(60, OutputFormat::Plain, &mut out).unwrap();
    for l in String::from_utf8(out).unwrap().lines() {
        assert!(l.chars().count() <= 60, "{l}");
    }
}
''')

seed("child_wrap_up_lost", "C11", "an element with children without any text of their own and a wrap-up",
     "the wrap-up is not printed",
     [("src/output/text.rs", "                if let Some(wrap_up) = wrap_up {\n                    params.write_wrapped_line(writer, wrap_up)?;\n                }\n",
       "                if let (Some(wrap_up), false) = (wrap_up, children.is_empty()) {\n                    params.write_wrapped_line(writer, wrap_up)?;\n                }\n")],
     r'''
use hun_law::output::*;
fn main() {
    let mut act = act_of(&["1. § Ez a szakasz."]).unwrap();
    act.articles_mut().next().unwrap().children[0].body = SAEBody::Children {
        intro: "Bevezető".into(),
        children: ParagraphChildren::AlphabeticPoint(vec![AlphabeticPoint {
            identifier: "a".parse().unwrap(), body: "".into(), semantic_info: Default::default(), last_change: None }]),
        wrap_up: Some("Zárszöveg".into()),
    };
    let mut out = Vec::new();
    act.cli_output(60, OutputFormat::Plain, &mut out).unwrap();
    assert!(String::from_utf8(out).unwrap().contains("Zárszöveg"));
}
''')

MK = r'''
use hun_law::parser::{mk_act_section::parse_mk_pages_into_acts, pdf::PageOfLines};
fn page(lines: &[&str]) -> PageOfLines {
    PageOfLines { lines: lines.iter().map(|l| IndentedLine::from_test_str(l)).collect() }
}
'''
seed("star_line", "C14", "a body line that starts with an asterisk, with text before it and an empty line after it, before the footnote",
     "the line is taken for the footnote and lost",
     [("src/parser/mk_act_section.rs", "            && body[body.len() - 2].is_empty()\n            && body[body.len() - 1]", "            && body[body.len() - 1]")],
     MK + r'''
fn main() {
    let pages = vec![
        page(&["MAGYAR KÖZLÖNY 5. szám", "", "A KÖZTÁRSASÁG HIVATALOS LAPJA", "2012. január 3., kedd"]),
        page(&["<BOLD>II. Törvények", "", "<BOLD>2012. évi I. törvény", "<BOLD>a tesztről*", "", "1. § Első szakasz.", "A táblázat jelölése:",
               "* jelű sor", "", "2. § Második szakasz.", "3. § Harmadik.", "",
               "Áder János s. k., Kövér László s. k.,", "köztársasági elnök az Országgyűlés elnöke", ""]),
    ];
    let acts = parse_mk_pages_into_acts(&pages).unwrap();
    assert_eq!(acts.len(), 1);
    assert!(acts[0].body.iter().any(|l| l.content() == "* jelű sor"), "{:?}", acts[0].body.iter().map(|l| l.content()).collect::<Vec<_>>());
}
''')

seed("section_roman", "C14", "a bold line inside the acts section that starts like the title of another section, e.g. a chapter title 'V. A Kormány ...'",
     "an act is cut off where a chapter title starts like a section title",
     [("src/parser/mk_act_section.rs", '    "V. A Kormány tagjainak rendeletei",\n', '    "V. A Kormány",\n')],
     MK + r'''
fn main() {
    let pages = vec![
        page(&["MAGYAR KÖZLÖNY 5. szám", "", "A KÖZTÁRSASÁG HIVATALOS LAPJA", "2012. január 3., kedd"]),
        page(&["<BOLD>II. Törvények", "", "<BOLD>2012. évi I. törvény", "<BOLD>a tesztről*", "", "1. § Első szakasz.",
               "", "<BOLD>V. A Kormány feladatai", "", "2. § Második szakasz.", "3. § Harmadik.", "",
               "Áder János s. k., Kövér László s. k.,", "köztársasági elnök az Országgyűlés elnöke", ""]),
    ];
    let acts = parse_mk_pages_into_acts(&pages).unwrap();
    assert_eq!(acts.len(), 1);
    assert!(acts[0].body.iter().any(|l| l.content() == "2. § Második szakasz."));
}
''')

FIX = r'''
use hun_law::fixups::Fixup;
fn bold_line(s: &str) -> IndentedLine {
    IndentedLine::from_parts(s.chars().map(|c| IndentedLinePart { dx: 5.0, content: c, bold: true }).collect(), true)
}
'''
seed("fixup_context_empty", "C15", "a fixup with context of which a line is empty in the body",
     "the context is matched ignoring empty lines, so that a fixup is applied where its context does not match",
     [("src/fixups.rs", "            .position(|w| w == needle)\n", "            .position(|w| w.iter().zip(&needle).all(|(l, n)| l == n || (l.is_empty() && *n != self.old)))\n"),
      ("src/fixups.rs", "            .filter(|w| *w == needle)\n            .count();\n", "            .filter(|w| w.iter().zip(&needle).all(|(l, n)| l == n || (l.is_empty() && *n != self.old)))\n            .count();\n")],
     FIX + r'''
fn main() {
    let mut lines = vec![bold_line("valami"), EMPTY_LINE, bold_line("rossz")];
    let r = Fixup { after: vec!["más".into()], old: "rossz".into(), new: "jó".into(), set_bold: false }.apply(&mut lines);
    assert!(r.is_err());
    assert_eq!(lines[2].content(), "rossz");
}
''')

seed("join_overlap", "C17", "joining lines of which a later one starts left of the end of the one before it",
     "the later characters are moved from their positions",
     [("src/util/indentedline.rs", "                        dx: part.dx - x,\n", "                        dx: (part.dx - x).max(0.0),\n")],
     r'''
fn l(x: f64, s: &str) -> IndentedLine {
    IndentedLine::from_parts(s.chars().enumerate().map(|(i, c)| IndentedLinePart { dx: if i == 0 { x } else { 5.0 }, content: c, bold: false }).collect(), false)
}
fn main() {
    let j = IndentedLine::from_multiple(&[&l(10.0, "abcdef"), &l(20.0, "xyz")]);
    assert!((j.indent_at(6) - 20.0).abs() < 1e-9, "{}", j.indent_at(6));
    assert!((j.slice(7, None).indent() - 25.0).abs() < 1e-9);
}
''')

seed("quote_low", "C17", "a line that closes more quotes than are open and opens them again",
     "the quote level after a line with several quotes is wrong",
     [("src/util/mod.rs", "        self.quote_level -= line.content().matches('”').count() as i64;\n",
       "        self.quote_level -= line.content().split(' ').filter(|w| w.contains('”')).count() as i64;\n")],
     r'''
use hun_law::util::QuoteCheck;
fn main() {
    let mut q = QuoteCheck::default();
    q.update(&IndentedLine::from_test_str("„valami „belső szöveg””")).unwrap();
    assert!(!q.end_is_quoted);
    q.check_end().unwrap();
}
''')

seed("month_prefix", "C19", "a misspelt month name with the right first letters",
     "a wrong month name is accepted",
     [("src/util/hun_str.rs", '        "augusztus" => Ok(8),\n', '        s if s.starts_with("aug") => Ok(8),\n')],
     r'''
use hun_law::util::hun_str::FromHungarianString;
fn main() {
    assert!(chrono::NaiveDate::from_hungarian("2012. augusztuss 20.").is_err());
    assert!(chrono::NaiveDate::from_hungarian("2012. augusztus 20.").is_ok());
}
''')

PDF = r'''
use hun_law::parser::pdf::{parse_pdf, CropBox};
/// A document with one page, one or two fonts (N: each character 500 wide, B: bold, 1000 wide), and forms
fn pdf(content: &str, forms: &[&str]) -> Vec<u8> {
    let mut objs: Vec<String> = vec![];
    let widths = |w: &str| vec![w; 224].join(" ");
    for (name, w) in [("Normal", "500"), ("Normal-Bold", "1000")] {
        let n = objs.len();
        objs.push(format!("<</Type /Font /Subtype /TrueType /BaseFont /{name} /Encoding /WinAnsiEncoding /FirstChar 32 /LastChar 255 /Widths [{}] /FontDescriptor {} 0 R>>", widths(w), n + 2));
        objs.push(format!("<</Type /FontDescriptor /FontName /{name} /Flags 32 /FontBBox [0 0 1000 1000] /ItalicAngle 0 /Ascent 800 /Descent -200 /CapHeight 700 /StemV 80>>"));
    }
    let mut xobjects = String::new();
    for (i, f) in forms.iter().enumerate() {
        objs.push(format!("<</Type /XObject /Subtype /Form /BBox [0 0 2000 2000] /Resources <</Font <</N 1 0 R /B 3 0 R>>>> /Length {}>>\nstream\n{f}\nendstream", f.len()));
        xobjects.push_str(&format!("/F{i} {} 0 R ", objs.len()));
    }
    objs.push(format!("<</Length {}>>\nstream\n{content}\nendstream", content.len()));
    let c = objs.len();
    objs.push(format!("<</Type /Page /Parent {} 0 R /MediaBox [0 0 1000 1000] /Contents {c} 0 R /Resources <</Font <</N 1 0 R /B 3 0 R>> /XObject <<{xobjects}>>>>>>", c + 2));
    objs.push(format!("<</Type /Pages /Count 1 /Kids [{} 0 R]>>", c + 1));
    objs.push(format!("<</Type /Catalog /Pages {} 0 R>>", c + 2));
    let mut out = b"%PDF-1.4\n".to_vec();
    let mut offsets = vec![];
    for (i, o) in objs.iter().enumerate() {
        offsets.push(out.len());
        out.extend(format!("{} 0 obj\n{o}\nendobj\n", i + 1).bytes());
    }
    let at = out.len();
    out.extend(format!("xref\n0 {}\n0000000000 65535 f \n", objs.len() + 1).bytes());
    for o in offsets {
        out.extend(format!("{o:010} 00000 n \n").bytes());
    }
    out.extend(format!("trailer\n<</Size {} /Root {} 0 R>>\nstartxref\n{at}\n%%EOF\n", objs.len() + 1, c + 3).bytes());
    out
}
fn lines(content: &str, forms: &[&str]) -> Vec<IndentedLine> {
    parse_pdf(&pdf(content, forms), CropBox::default()).unwrap().remove(0).lines
}
'''
P = "src/parser/pdf/"
seed("tz_adjust", "C12", "a TJ adjustment while the horizontal scaling is not 100 %",
     "the text after the adjustment is put at the wrong place (a word gap appears or disappears)",
     [(P + "page.rs", "                                -delta * self.state.horizontal_scale * self.state.font_size\n                                    / 1000.0,\n",
       "                                -delta * self.state.font_size / 1000.0,\n")],
     PDF + r'''
fn main() {
    let l = lines("BT /N 10 Tf 200 Tz 1 0 0 1 50 500 Tm [(a) -400 (b)] TJ ET", &[]);
    assert!((l[0].indent_at(-1) - 68.0).abs() < 0.01, "{}", l[0].indent_at(-1));
}
''')
seed("q_keeps_scale", "C13", "a text scaling set between q and Q, with text drawn after Q",
     "the scaling leaks out of the saved graphics state",
     [(P + "page.rs", "                    .ok_or_else(|| anyhow!(\"State stack empty\"))?\n            }\n",
       "                    .map(|saved| TextState {\n                        horizontal_scale: self.state.horizontal_scale,\n                        ..saved\n                    })\n                    .ok_or_else(|| anyhow!(\"State stack empty\"))?\n            }\n")],
     PDF + r'''
fn main() {
    let l = lines("q BT /N 10 Tf 300 Tz 1 0 0 1 50 500 Tm (ab) Tj ET Q BT /N 10 Tf 1 0 0 1 50 400 Tm (cd) Tj ET", &[]);
    let last = l.last().unwrap();
    assert_eq!(last.content(), "cd");
    assert!((last.indent_at(1) - 55.0).abs() < 0.01, "{}", last.indent_at(1));
}
''')
seed("form_leak", "C13", "a form drawn before any font was selected, and text drawn after the form without selecting one",
     "the font of the form is used for the text after it",
     [(P + "page.rs", "        self.state_stack.push(self.state.clone());\n        if let Some(matrix)", "        self.state_stack.push(self.state.clone());\n        let font = self.state.font.clone();\n        if let Some(matrix)"),
      (P + "page.rs", "        self.state = self\n            .state_stack\n            .pop()\n            .ok_or_else(|| anyhow!(\"State stack empty after Form rendering\"))?;\n        self.resources",
       "        let inner_font = self.state.font.take();\n        self.state = self\n            .state_stack\n            .pop()\n            .ok_or_else(|| anyhow!(\"State stack empty after Form rendering\"))?;\n        if font.is_none() {\n            self.state.font = inner_font;\n        }\n        self.resources")],
     PDF + r'''
fn main() {
    // No font was selected outside of the form
    let r = parse_pdf(&pdf("/F0 Do BT 1 0 0 1 50 400 Tm (cd) Tj ET", &["BT /B 10 Tf 1 0 0 1 50 500 Tm (ab) Tj ET"]), CropBox::default());
    assert!(r.is_err(), "{r:?}");
}
''')
seed("range_subpoint", "C07", "a reference to a range of points, read from its compact or serialized form, with a subpoint after it",
     "a reference with parts after a range is built",
     [("src/reference/unchecked.rs", "            if point.is_range() {\n", "            if point.is_range() && self.article.is_some() {\n")],
     r'''
use hun_law::{identifier::range::IdentifierRangeFrom, reference::{builder::{ReferenceBuilder, ReferenceBuilderSetPart}, parts::*}};
fn main() {
    let mut b = ReferenceBuilder::new();
    b.set_part(RefPartPoint::from_range("1".parse::<NumericIdentifier>().unwrap(), "3".parse::<NumericIdentifier>().unwrap()));
    b.set_part(RefPartSubpoint::from_single("a".parse::<PrefixedAlphabeticIdentifier>().unwrap()));
    assert!(b.build().is_err());
}
''')
seed("bold_mark_space", "C16", "a line is marked <BOLD> at its end, after a space",
     "the stored text of the line ends with a space, which is not what was typed",
     [("src/bin/hun_law/fixup_editor.rs", "                    .replace(\"<BOLD>\", \"\")\n                    .trim()\n                    .to_owned(),", "                    .replace(\"<BOLD>\", \"\")\n                    .trim_start()\n                    .to_owned(),")],
     r'''
mod editor {
    include!(concat!(env!("HV_REPO"), "/src/bin/hun_law/fixup_editor.rs"));
}
fn main() {
    use std::os::unix::fs::PermissionsExt;
    let dir = tempfile::tempdir().unwrap();
    std::env::set_current_dir(dir.path()).unwrap();
    std::fs::write("ed.sh", "#!/bin/sh\nsed -i -e '2s/egy hiba/egy javítva <BOLD>/' \"$1\"\n").unwrap();
    std::fs::set_permissions("ed.sh", std::fs::Permissions::from_mode(0o755)).unwrap();
    let body: Vec<IndentedLine> = ["eleje", "egy hiba", "közepe", "egy hiba", "vége"].iter().map(|s| IndentedLine::from_test_str(s)).collect();
    let act = ActRawText { identifier: ActIdentifier { year: 2012, number: 1 }, subject: "x".into(),
        publication_date: chrono::NaiveDate::from_ymd_opt(2012, 1, 2).unwrap(), body: body.clone() };
    editor::run_fixup_editor(&act, "./ed.sh").unwrap();
    let mut b = body;
    hun_law::fixups::Fixups::load(act.identifier).unwrap().apply(&mut b).unwrap();
    let t: Vec<&str> = b.iter().map(|l| l.content()).collect();
    assert_eq!(t, ["eleje", "egy javítva", "közepe", "egy hiba", "vége"]);
}
''')
seed("cache_century", "C18", "two issues of years a century apart",
     "they share a cache entry, the wrong issue is returned",
     [("src/mk_downloader.rs", '        format!("MK/{}/{}.pdf", self.year, self.issue)\n', '        format!("MK/{:04}/{}.pdf", 2000 + self.year.rem_euclid(100), self.issue)\n')],
     r'''
use hun_law::mk_downloader::*;
fn main() {
    let dir = tempfile::tempdir().unwrap();
    for (y, t) in [("2011", "új"), ("1911", "régi")] {
        let p = dir.path().join(format!("MK/{y}"));
        std::fs::create_dir_all(&p).unwrap();
        std::fs::write(p.join("5.pdf"), t).unwrap();
    }
    assert_eq!(download_mk_issue(&"2011/5".parse().unwrap(), dir.path()).unwrap(), "új".as_bytes());
    assert_eq!(download_mk_issue(&"1911/5".parse().unwrap(), dir.path()).unwrap(), "régi".as_bytes());
}
''')
seed("overlapping_places", "C15", "the old line with its context is found twice, and the two places overlap",
     "the fixup is applied to the first of them instead of being refused",
     [("src/fixups.rs", """        let found_places = lines_as_strs
            .windows(needle.len())
            .filter(|w| *w == needle)
            .count();
""", """        let mut found_places = 0;
        let mut rest = &lines_as_strs[..];
        while rest.len() >= needle.len() {
            if rest[..needle.len()] == needle[..] {
                found_places += 1;
                rest = &rest[needle.len()..];
            } else {
                rest = &rest[1..];
            }
        }
""")],
     FIX + r'''
fn main() {
    let mut lines: Vec<IndentedLine> = ["a", "a", "a", "b"].iter().map(|s| IndentedLine::from_test_str(s)).collect();
    let f = Fixup { after: vec!["a".into()], old: "a".into(), new: "c".into(), set_bold: false };
    assert!(f.apply(&mut lines).is_err());
    let t: Vec<&str> = lines.iter().map(|l| l.content()).collect();
    assert_eq!(t, ["a", "a", "a", "b"]);
}
''')
