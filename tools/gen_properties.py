#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=hook)))

prop("C01", "Structure parsing recovers exactly the act that was laid out",
  "For every act typeset by the official layout conventions (books, parts, titles, chapters, subtitles, articles with and without titles, numbered paragraphs, numeric and alphabetic points, subpoints, wrap-ups, quoted amendment blocks, suffixed and inserted identifiers), parsing its lines gives exactly that structure. Every element comes back with its kind, identifier, title and full text, in its own place in the hierarchy, and preamble, subject, identifier and publication date are carried over unchanged.",
  ["inputs"], "every act tree of the supported shapes, every line breaking of its texts, every admissible indentation",
  "the data tests are a handful of real acts; they reach one line breaking per act and never vary nesting, numbering, hyphenation or indentation together",
  ["src/parser/structure/act.rs", "src/parser/structure/article.rs", "src/parser/structure/sae.rs", "src/parser/structure/structural_element.rs", "src/parser/structure/subtitle.rs", "src/parser/structure/quote.rs"],
  [("header recognition and numbering checks per element kind", "src/parser/structure/*.rs: parse_header"), ("indentation based child and wrap-up extraction", "src/parser/structure/sae.rs: extract_multiple")],
  ["parse_act_structure result compared with the generated act"])
prop("C02", "Structure parsing neither loses, invents nor reorders text",
  "Whenever the structure parser accepts a sequence of lines, the text of the resulting act read in document order (headers, titles, intros, points, quoted lines, wrap-ups) is the text of the lines, word by word. Nothing is dropped, duplicated, moved or merged, whatever the lines were, up to white space and the joining of a hyphenated line end.",
  ["inputs"], "every sequence of lines, well formed or not, that the parser accepts",
  "tests compare a few golden outputs; a text lost only for an unusual mixture of quotes, headers and indents is outside all of them",
  ["src/parser/structure/act.rs", "src/parser/structure/article.rs", "src/parser/structure/sae.rs", "src/parser/structure/quote.rs", "src/util/indentedline.rs"],
  [("line-by-line state machines that append every line somewhere", "src/parser/structure/*.rs"), ("joining rule", "src/util/indentedline.rs: append_to")],
  ["parse_act_structure result linearised and compared with the input lines"])
prop("C03", "Structure parsing never panics and only accepts consecutive numbering",
  "For any sequence of lines with any indentation, boldness and content, structure parsing ends with an act or an error, never with a panic or an endless loop. In every act it produces, sibling articles, paragraphs, points and subpoints are numbered consecutively from the first identifier, and article numbers run on across books, parts, titles and chapters.",
  ["inputs"], "every sequence of lines",
  "tests only feed sensible acts",
  ["src/parser/structure/act.rs", "src/parser/structure/article.rs", "src/parser/structure/sae.rs", "src/parser/structure/quote.rs"],
  [("numbering checks", "src/parser/structure/sae.rs: parse, src/parser/structure/article.rs"), ("ensure!/bail! on malformed input", "src/parser/structure/act.rs")],
  ["parse_act_structure outcome"])
prop("C04", "Block amendments become exactly the amended elements",
  "When an article's quoted block is marked as an amendment of given articles, paragraphs, points or structural elements, conversion replaces the quoted lines by exactly the elements those lines spell, with their identifiers, titles and texts, and keeps intro, wrap-up and every other part of the act unchanged. Content that does not start with the first identifier of the amended position, and a block without usable content, is an error and never a panic or a silently different act.",
  ["inputs"], "every amended position and every content of the quoted block, matching or not",
  "the data tests for conversion are a few acts and do not even build here (they need the semantic parser)",
  ["src/parser/structure/block_amendment.rs", "src/parser/structure/sae.rs", "src/parser/structure/act.rs"],
  [("dispatch on the kind of the amended position", "src/parser/structure/block_amendment.rs")],
  ["Act::convert_block_amendments result compared with the generated elements"])
prop("C05", "Identifiers survive every text form, and only identifiers parse",
  "Every act, article, paragraph, point and subpoint identifier printed in its official, compact or serialized form parses back to the same identifier, and the compact form of a range parses back to the same range. The printed forms are the official Hungarian ones (roman act numbers, slashed suffixes, digraph letters), parsing is never ambiguous, and malformed texts are rejected instead of misread or panicking.",
  ["inputs"], "all identifiers of every kind, all short strings over the identifier alphabet",
  "tests sample a dozen identifiers out of a space with suffixes, digraphs and roman numerals",
  ["src/identifier/act.rs", "src/identifier/article.rs", "src/identifier/numeric.rs", "src/identifier/alphabetic.rs", "src/identifier/prefixed_alphabetic.rs", "src/identifier/paragraph.rs", "src/identifier/range.rs", "src/util/hun_str.rs"],
  [("FromStr, Display, CompactString and serde implementations", "src/identifier/*.rs")],
  ["to_string/parse/compact_string/serde of identifiers"])
prop("C06", "Identifier order, succession and ranges follow legal numbering",
  "Identifiers are totally ordered by their position in the legal numbering (with inserted suffixed ones after their base, Hungarian digraphs in alphabetical place), and 'is next of' holds exactly for the pairs that may follow each other in an act. A range contains exactly the identifiers between its ends, and is_first, is_range and range ends agree with that order.",
  ["inputs"], "all pairs and triples of identifiers of each kind",
  "an order is a law over all triples; tests check single pairs",
  ["src/identifier/numeric.rs", "src/identifier/article.rs", "src/identifier/alphabetic.rs", "src/identifier/prefixed_alphabetic.rs", "src/identifier/paragraph.rs", "src/identifier/range.rs"],
  [("derived and hand written Ord", "src/identifier/*.rs"), ("IsNextFrom", "src/identifier/*.rs"), ("IdentifierRange", "src/identifier/range.rs")],
  ["comparison operators, is_next_from, range contains"])
prop("C07", "References are always well formed and survive every text form",
  "A reference can only be built from parts that have a legal meaning together (no gap in the chain of parts, a range only as the last part, subpoints fitting their point), by every way of building one, and everything that is built prints in compact and serialized form and reads back as the same reference. Malformed texts are rejected without panicking.",
  ["inputs", "histories"], "every sequence of builder calls, every reference, every short string over the compact alphabet",
  "tests list some references; the rules are about all combinations of parts",
  ["src/reference/mod.rs", "src/reference/builder.rs", "src/reference/unchecked.rs", "src/reference/string.rs", "src/reference/parts.rs", "src/reference/structural.rs"],
  [("UncheckedReference to Reference validation", "src/reference/unchecked.rs"), ("builder", "src/reference/builder.rs"), ("compact form", "src/reference/string.rs")],
  ["Reference construction, compact_string, from_compact_string, serde"])
prop("C08", "Reference containment, order and relative references are consistent",
  "A reference contains another exactly when every element the second one names is named or enclosed by the first. The order of references is total and follows document order, and parent, first-in-range, last-in-range and relative-to operations give exactly the reference that naming the parts one by one gives.",
  ["inputs"], "all pairs and triples of references",
  "laws over pairs and triples (transitivity, antisymmetry, agreement with set inclusion) cannot be sampled by examples",
  ["src/reference/mod.rs", "src/reference/parts.rs", "src/reference/builder.rs"],
  [("contains, parent, relative_to, Ord", "src/reference/mod.rs")],
  ["Reference methods against a set model"])
prop("C09", "Walking an act visits every element exactly once, at its own position",
  "A read-only or mutating walk of any act, article, paragraph or list of points enters and leaves every paragraph, point and subpoint of it exactly once, in document order, with the full reference of exactly that element as its position. Contents of quoted blocks and block amendments are not visited, a change made by a mutating visitor lands in exactly the visited element, and an error of the visitor stops the walk and is returned. Looking up articles (one by identifier, or all of them, read-only or mutable) gives the first article with that identifier, all articles in order, and nothing for an absent identifier, and an element is empty exactly if there is no text in it at any depth.",
  ["inputs"], "every act tree and every part of it, every visitor behaviour",
  "the existing tests walk one small act",
  ["src/util/walker.rs", "src/reference/to_element.rs", "src/structure.rs"],
  [("WalkSAE and visitor traversal", "src/util/walker.rs"), ("position of an element", "src/reference/to_element.rs"), ("article lookups and is_empty", "src/structure.rs")],
  ["sequence of visitor callbacks", "the act after a mutating walk", "lookup results"])
prop("C10", "Serialized acts, raw texts and fixups come back unchanged",
  "Every act, with all its structure, semantic information and quoted lines, written as JSON or YAML reads back as an equal act, and writing it again gives the same bytes. The singleton and compact notations are used in both directions consistently, for every identifier, reference, date and text, including texts that look like other YAML types.",
  ["inputs"], "every act value",
  "golden files contain only the shapes of a few acts; untagged and singleton encodings can confuse variants that never occur in them",
  ["src/structure.rs", "src/semantic_info.rs", "src/util/singleton_yaml.rs", "src/util/indentedline.rs", "src/output/mod.rs"],
  [("serde attributes and singleton yaml encoding", "src/util/singleton_yaml.rs, src/structure.rs")],
  ["serde_json and serde_yaml round trips, cli output"])
prop("C11", "Text output shows all of the act, in order, within the width",
  "The plain text output of any act or list of lines contains every identifier, title and text of it, in document order, indented by nesting, for any width, and running text is wrapped at the requested width (a line is longer only if its header or a single word does not fit). The colored output shows the same words in the same order as the plain one, with color codes added.",
  ["inputs", "configurations"], "every act, every width and output option",
  "golden outputs exist for a few acts at one width",
  ["src/output/text.rs", "src/output/mod.rs"],
  [("TextOutput implementations and wrapping", "src/output/text.rs")],
  ["written output"])
prop("C12", "PDF extraction gives the lines that are drawn on the page",
  "For every page whose text is drawn from left to right, in any order of drawing and through any combination of text positioning, spacing and scaling operators and coordinate transforms (also in nested forms), the extracted lines are the drawn lines from top to bottom: glyphs less than 0.5 points apart vertically are one line, with its characters from left to right at their positions, a space where the gap is more than half a space wide (and always before an opening quote), an empty line where the distance to the line above is more than 16 points, and justified exactly if it ends within 0.8 space widths of the rightmost text of the page. Text outside the crop box is ignored and nothing inside it is lost.",
  ["inputs", "configurations"], "all page layouts, all operator sequences that draw them",
  "tests extract a few real PDFs",
  ["src/parser/pdf/collector.rs", "src/parser/pdf/page.rs", "src/parser/pdf/page_of_lines.rs", "src/parser/pdf/textstate.rs", "src/parser/pdf/mod.rs"],
  [("operator interpreter", "src/parser/pdf/page.rs"), ("glyph sorting and line assembly", "src/parser/pdf/collector.rs, page_of_lines.rs")],
  ["parse_pdf on generated documents"])
prop("C13", "PDF fonts, encodings and graphics state are applied where they hold",
  "Each drawn character is decoded with the font, encoding and replacement text (ActualText) in force where it is drawn: its unicode map, else its glyph name or its base encoding; its width and boldness are those of that font. Fonts, resources, replacement texts, forms and saved graphics states affect exactly the text within their scope, so that neighbouring pages, forms and save/restore blocks never leak state into each other: text drawn where no font is selected is refused instead of borrowing the font of another scope, and a code that its font has no character for is refused instead of being dropped.",
  ["inputs", "histories"], "all sequences of font, state and drawing operators over all font kinds",
  "real PDFs of the tests use a few fonts in one style",
  ["src/parser/pdf/font.rs", "src/parser/pdf/page.rs", "src/parser/pdf/actual_text.rs", "src/parser/pdf/textstate.rs"],
  [("font cache and decoding", "src/parser/pdf/font.rs"), ("state stack", "src/parser/pdf/page.rs")],
  ["parse_pdf on generated documents"])
prop("C14", "A gazette issue is split into exactly its acts",
  "For every issue of the gazette, made of a cover page, an acts section and other sections in any order, the acts extracted are exactly the acts of the acts section, each with its identifier, subject, date of publication and its complete body. Footnotes of adoption, signatures and text of other sections are not part of any act, and where the pages break changes nothing, except that a break inside an act leaves one empty line there.",
  ["inputs"], "every composition of an issue and every page breaking of it",
  "tests split a few issues",
  ["src/parser/mk_act_section.rs", "src/util/hun_str.rs"],
  [("line fed state machine", "src/parser/mk_act_section.rs")],
  ["parse_mk_pages_into_acts result"])
prop("C15", "Fixups change exactly the line they name and nothing else",
  "Applying a list of fixups to a body replaces exactly the named lines by exactly the new contents (including their boldness and formatting choices), in order, and leaves every other line, its indentation and every untouched character's position as it was. A fixup whose old text or context does not match is an error that names it, never a silent or partial misapplication.",
  ["inputs", "histories"], "all bodies and all sequences of fixups",
  "unit tests apply single fixups to two-line bodies",
  ["src/fixups.rs", "src/util/indentedline.rs"],
  [("context search and replacement", "src/fixups.rs: Fixup::apply"), ("position preserving replacement", "src/fixups.rs")],
  ["Fixups::apply on generated bodies"])
prop("C16", "Fixup editing sessions reproduce the edited text from the original",
  "After any sequence of interactive editing sessions of an act, with any editor and way of saving, loading the saved fixups and applying them to the original text gives exactly the text as last edited. A session without changes saves nothing new, a session that ends in an error leaves the stored fixups as they were, and stored fixups of other acts are never touched.",
  ["histories", "fault_sequences"], "all sequences of edits over several sessions, all editor failures",
  "unit tests turn one edit into one fixup",
  ["src/bin/hun_law/fixup_editor.rs", "src/fixups.rs"],
  [("diff to fixups", "src/bin/hun_law/fixup_editor.rs"), ("fixup store", "src/fixups.rs")],
  ["contents of the fixup store after scripted sessions"])
prop("C17", "Lines stay consistent under slicing, joining and quote tracking",
  "A line's content, its per-character positions, boldness and indentation always agree: slicing gives exactly the characters and positions of the slice, joining concatenates, trimming and appending follow the joining rule, and equality and serialization see all of it. Quote tracking reports, for every line of a sequence, the exact nesting level before and after it.",
  ["inputs", "histories"], "all lines and all sequences of operations on them",
  "unit tests slice a few lines",
  ["src/util/indentedline.rs", "src/util/mod.rs"],
  [("IndentedLine and its parts", "src/util/indentedline.rs"), ("QuoteCheck", "src/util/mod.rs")],
  ["IndentedLine accessors against a list-of-characters model"])
prop("C18", "The issue cache returns exactly what the server sent, or nothing",
  "Once an issue was fetched successfully, every later request returns the same bytes without the network, whatever happens in between. A failed, truncated or interrupted download returns an error and never leaves anything in the cache that a later request would return as the issue, and different issues never share a cache entry.",
  ["histories", "fault_sequences", "crash_points"], "all sequences of requests, all server faults, interruption at any point of storing",
  "the downloader has no tests at all",
  ["src/mk_downloader.rs"],
  [("cache file per issue", "src/mk_downloader.rs: download_mk_issue")],
  ["return value and cache directory after each request"])
prop("C19", "Hungarian dates and numerals are read exactly",
  "Every date from 1900 to 2100 written in the official Hungarian form is read as that date, every Hungarian ordinal and numeral in the supported range is read as its number in each letter case, and other words, impossible days and misspelt months are rejected. Writing and reading are inverse for every numeral that is written.",
  ["inputs"], "all dates and numerals of the range, all near misses",
  "tests read a few dates",
  ["src/util/hun_str.rs", "src/identifier/numeric.rs"],
  [("from_hungarian/to_hungarian", "src/util/hun_str.rs")],
  ["FromHungarianString, ToHungarianString"])
prop("C20", "References in legal text are found exactly, and nothing else is cited",
  "In every text worded by the official conventions, each citation of an act or of its articles, paragraphs, points and subpoints (single, listed or as ranges, with suffixed identifiers, by the number of the act or by an abbreviation defined earlier) gives a reference that names exactly the cited elements, at exactly the bytes of the text that cite them. Relative citations are completed from the preceding ones, definitions of abbreviations are recorded with the right act, and text that cites nothing gives no reference. No text makes the analysis panic.",
  ["inputs"], "every sentence built from the official phrasing of references, every text for the last part",
  "data tests hold some hundred sentences and do not build in the offline environment at all",
  ["hun_law_grammar/grammar.ebnf", "src/parser/semantic_info/reference.rs", "src/parser/semantic_info/abbreviation.rs", "src/reference/"],
  [("PEG parser generated from the grammar", "hun_law_grammar/grammar.ebnf"), ("conversion of parse results to references", "src/parser/semantic_info/reference.rs"), ("abbreviations found in an act", "src/parser/semantic_info/abbreviation.rs")],
  ["Act::add_semantic_info: outgoing_references, new_abbreviations"])
prop("C21", "Amending, repealing and enforcing phrases are understood as written",
  "Every sentence that orders a block amendment or insertion, the amendment of a structural element, subtitle or article title, the replacement of words, a repeal of elements, structural elements or words, or that sets enforcement dates, in the official phrasing, becomes the special phrase it expresses. The phrase has exactly the affected positions, texts, dates and exceptions, the right kind (amendment or insertion) and nothing that the sentence does not say: an order that no phrase can express (the repeal of only a title, an introduction or an attachment, a day that does not exist) never becomes another one. (Where both its book and another enclosing element are named, the book may be left out of a position.)",
  ["inputs"], "every sentence built from the official phrasing",
  "data tests hold a few sentences of each kind and do not build in the offline environment",
  ["hun_law_grammar/grammar.ebnf", "src/parser/semantic_info/"],
  [("PEG parser generated from the grammar", "hun_law_grammar/grammar.ebnf"), ("conversion to special phrases", "src/parser/semantic_info/*.rs")],
  ["Act::add_semantic_info: special_phrase"])
prop("C22", "Semantic analysis of an act puts everything to the element that says it",
  "For every act, each element gets the references, abbreviations and special phrases of its own sentence, completed by the introductions above it and the closing texts below it and cut to the bytes of its own text. Abbreviations are in force from their definition on, in document order. Analysis changes nothing else in the act, repeating it gives the same result, and analysis followed by conversion of the amendments turns every quoted block of an officially worded amendment into exactly the amended elements.",
  ["inputs"], "every act whose sentences are spread over introductions, points, subpoints and closing texts",
  "the data tests are a handful of acts and do not build in the offline environment",
  ["src/parser/semantic_info/mod.rs", "src/structure/semantic_info.rs", "src/parser/structure/block_amendment.rs"],
  [("sentence completed from the parents and cut to the element", "src/parser/semantic_info/"), ("walk in document order with a common cache of abbreviations", "src/parser/semantic_info/"), ("conversion", "src/parser/structure/block_amendment.rs")],
  ["Act::add_semantic_info, Act::convert_block_amendments"])
prop("C23", "The command line tool writes exactly the processed acts, and reports failures",
  "For every set of gazette issues and every combination of its arguments, the hun_law tool writes exactly the requested acts, each processed to the requested step and in the requested format, to the files or stream asked for, with the stored corrections applied. One act or issue that cannot be processed keeps no other from being written and leaves no damaged output of its own, and the exit status is zero only if everything requested was written. Corrections made in the editor are stored, take effect in the same run, and have the same effect in later ones.",
  ["inputs", "histories"], "every issue, argument combination and editing session",
  "the repository has no test of the tool as a whole; the tool does not build in the offline environment",
  ["src/bin/hun_law/main.rs", "src/bin/hun_law/fixup_editor.rs", "src/fixups.rs", "src/output/", "src/parser/mk_act_section.rs"],
  [("processing loop and exit status", "src/bin/hun_law/main.rs: main"), ("interactive correction", "src/bin/hun_law/main.rs: process_single_act_interactive"), ("output selection", "src/bin/hun_law/main.rs: get_output")],
  ["exit status, output files and standard output of the hun_law process"],
  state=[("fixups/*.yml", "stored corrections of an act", "src/fixups.rs"), ("cache/MK", "cached gazette issues", "src/cache.rs")])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
