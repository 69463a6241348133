//! C05: identifiers survive every textual form. C06: identifier order, succession, ranges.
use std::{fmt::Debug, str::FromStr};

use hun_law::{
    identifier::{
        range::{IdentifierRange, IdentifierRangeFrom},
        ActIdentifier, AlphabeticIdentifier, ArticleIdentifier, IdentifierCommon, NumericIdentifier,
        ParagraphIdentifier, PrefixedAlphabeticIdentifier,
    },
    util::compact_string::CompactString,
};
use serde::{de::DeserializeOwned, Serialize};

use crate::{
    check, check_eq,
    engine::{Arm, Case, CaseResult, Kind, Prop},
    model::*,
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            level: "exploration",
            rule: "Identifiers are built from an independent model (number/suffix/book/prefix/letter) and printed by the model in every documented style; a case is non-trivial if the identifier has a suffix, book, prefix or digraph, is a range, or (reject arm) differs from a valid form. Numbers 0..=65535, all letters, all two-letter prefixes, all acts of the roman range are enumerated.",
            assumptions: &[
                "PrefixedAlphabeticIdentifier values are limited to two single latin letters: 'sz' read as s+z is a limitation documented in the code's own tests",
                "a '+' sign and non-ASCII digits in front of numbers are outside the domain",
            ],
            arms: vec![
                Arm { name: "numeric_all", kind: Kind::Enum(65536, 1, 8), f: c05_numeric_all },
                Arm { name: "numeric_suffix_all", kind: Kind::Enum(35 * 130, 1, 1), f: c05_numeric_suffix },
                Arm { name: "article", kind: Kind::Random(200_000, 5_000_000), f: c05_article },
                Arm { name: "alphabetic_all", kind: Kind::Enum(34 * 3, 1, 1), f: c05_alphabetic },
                Arm { name: "prefixed_all", kind: Kind::Enum(27 * 26 * 4, 1, 1), f: c05_prefixed },
                Arm { name: "act_all", kind: Kind::Enum(3999, 1, 20), f: c05_act },
                Arm { name: "range", kind: Kind::Random(200_000, 4_000_000), f: c05_range },
                Arm { name: "reject", kind: Kind::Random(1_000_000, 30_000_000), f: c05_reject },
            ],
        },
        Prop {
            id: "C06",
            level: "exploration",
            rule: "Pairs/triples of identifiers built from the model, biased towards neighbours; the order, succession, first-ness and range membership are compared with the model's. Non-trivial: the pair differs and (for succession) at least one is suffixed, booked, prefixed or a digraph, or the two are consecutive.",
            assumptions: &["the collation is: number, then no suffix before suffixes, suffix letters in the Hungarian alphabet with digraphs right after their first letter"],
            arms: vec![
                Arm { name: "letters_all", kind: Kind::Enum(34 * 34, 1, 1), f: c06_letters },
                Arm { name: "numeric", kind: Kind::Random(2_000_000, 60_000_000), f: c06_numeric },
                Arm { name: "article", kind: Kind::Random(1_500_000, 50_000_000), f: c06_article },
                Arm { name: "prefixed", kind: Kind::Random(800_000, 20_000_000), f: c06_prefixed },
                Arm { name: "act", kind: Kind::Random(10_000, 400_000), f: c06_act },
                Arm { name: "range", kind: Kind::Random(500_000, 20_000_000), f: c06_range },
                Arm { name: "chain", kind: Kind::Random(200_000, 5_000_000), f: c06_chain },
            ],
        },
    ]
}

/// Every way of writing the value must be read as the same value; that value must be printed as given; the
/// machine-readable forms must be inverses.
fn roundtrip<T>(
    c: &mut Case,
    spellings: &[String],
    display: &str,
    compact: &str,
    serde: bool,
) -> Result<T, crate::engine::Fail>
where
    T: FromStr<Err = anyhow::Error>
        + std::fmt::Display
        + Debug
        + PartialEq
        + Copy
        + CompactString
        + Serialize
        + DeserializeOwned,
{
    let ty = std::any::type_name::<T>().rsplit("::").next().unwrap();
    c.describe(|| format!("{ty} {spellings:?} display={display:?} compact={compact:?}"));
    let value = match T::from_str(&spellings[0]) {
        Ok(v) => v,
        Err(e) => {
            return crate::engine::fail(
                format!("{ty}: valid form rejected"),
                format!("{:?} is rejected: {e:?}", spellings[0]),
            )
        }
    };
    for s in spellings {
        let r = T::from_str(s);
        check!(
            matches!(&r, Ok(v) if *v == value),
            format!("{ty}: spelling"),
            "{s:?} should be the same as {:?}, got {r:?}",
            spellings[0]
        );
    }
    check_eq!(value.to_string(), display, format!("{ty}: display"), "printed form of {spellings:?}");
    check_eq!(
        value.compact_string().to_string(),
        compact,
        format!("{ty}: compact"),
        "compact form of {spellings:?}"
    );
    let back = T::from_compact_string(compact);
    check!(
        matches!(&back, Ok(v) if *v == value),
        format!("{ty}: compact read"),
        "compact form {compact:?} is read as {back:?} instead of {value:?}"
    );
    if serde {
        let j = serde_json::to_string(&value).map_err(|e| crate::engine::Fail {
            sig: format!("{ty}: json"),
            msg: e.to_string(),
        })?;
        let back = serde_json::from_str::<T>(&j);
        check!(
            matches!(&back, Ok(v) if *v == value),
            format!("{ty}: json"),
            "{value:?} → {j} → {back:?}"
        );
        let y = serde_yaml::to_string(&value).map_err(|e| crate::engine::Fail {
            sig: format!("{ty}: yaml"),
            msg: e.to_string(),
        })?;
        let back = serde_yaml::from_str::<T>(&y);
        check!(
            matches!(&back, Ok(v) if *v == value),
            format!("{ty}: yaml"),
            "{value:?} → {y} → {back:?}"
        );
    }
    Ok(value)
}

fn suffix_spellings(i: usize) -> Vec<String> {
    let s = ALPHABET[i];
    let mut v = vec![s.to_string(), s.to_uppercase()];
    if s.len() == 2 {
        v.push(capitalize(s));
    }
    v
}

fn num_spellings(n: Num) -> Vec<String> {
    match n.suffix {
        None => vec![n.num.to_string(), format!("0{}", n.num)],
        Some(s) => suffix_spellings(s)
            .iter()
            .flat_map(|x| [format!("{}{x}", n.num), format!("{}/{x}", n.num)])
            .collect(),
    }
}

fn check_numeric(c: &mut Case, n: Num, serde: bool) -> CaseResult {
    c.input(n);
    let v: NumericIdentifier = roundtrip(c, &num_spellings(n), &n.compact(), &n.compact(), serde)?;
    check_eq!(v.with_slash().to_string(), n.slash(), "numeric: with_slash", "{n:?}");
    if n.suffix.is_none() {
        check_eq!(NumericIdentifier::from(n.num), v, "numeric: from u16", "{n:?}");
    }
    let suffix = n.suffix.map(|s| ALPHABET[s]);
    let tail = suffix.map(|s| format!("/{s}")).unwrap_or_default();
    match (roman(n.num as u32), v.to_roman()) {
        (Some(r), Ok(got)) => {
            check_eq!(got, format!("{r}{tail}"), "numeric: to_roman", "{n:?}");
            let mut forms = vec![format!("{r}{tail}")];
            if let Some(s) = n.suffix {
                forms.extend(suffix_spellings(s).iter().map(|x| format!("{r}/{x}")));
            }
            for f in forms {
                let back = NumericIdentifier::from_roman(&f);
                check!(
                    matches!(&back, Ok(x) if *x == v),
                    "numeric: from_roman",
                    "{f:?} is read as {back:?}, not {v:?}"
                );
            }
        }
        (None, Err(_)) => (),
        (e, g) => return crate::engine::fail("numeric: to_roman", format!("{n:?}: got {g:?}, expected {e:?}")),
    }
    match (hungarian_ordinal(n.num), v.to_hungarian()) {
        (Some(h), Ok(got)) => check_eq!(got, format!("{h}{tail}"), "numeric: to_hungarian", "{n:?}"),
        (None, Err(_)) => (),
        (e, g) => return crate::engine::fail("numeric: to_hungarian", format!("{n:?}: got {g:?}, expected {e:?}")),
    }
    // The paragraph identifier is the same thing, or nothing
    let p: ParagraphIdentifier = roundtrip(c, &num_spellings(n), &n.compact(), &n.compact(), serde)?;
    check_eq!(p.map(|x| x), Some(v), "paragraph: value", "{n:?}");
    check_eq!(ParagraphIdentifier::from(v), p, "paragraph: from numeric", "{n:?}");
    check!(!p.is_empty(), "paragraph: is_empty", "{n:?}");
    Ok(())
}

fn c05_numeric_all(c: &mut Case) -> CaseResult {
    let num = c.src.below(65536) as u16;
    c.nontrivial = num > 0;
    check_numeric(c, Num { num, suffix: None }, num % 16 == 0)?;
    let suffix = Some(c.src.below(34) as usize);
    check_numeric(c, Num { num, suffix }, num % 16 == 1)
}

fn c05_numeric_suffix(c: &mut Case) -> CaseResult {
    let i = c.src.below(35 * 130);
    let num = (i / 35) as u16;
    let suffix = match i % 35 {
        0 => None,
        x => Some(x as usize - 1),
    };
    c.nontrivial = suffix.is_some();
    if i == 0 {
        let p: ParagraphIdentifier = roundtrip(c, &["".to_string()], "", "", true)?;
        check!(p.is_empty() && p.map(|x| x).is_none(), "paragraph: empty", "{p:?}");
        check_eq!(p, ParagraphIdentifier::default(), "paragraph: empty", "default");
    }
    check_numeric(c, Num { num, suffix }, true)
}

fn c05_article(c: &mut Case) -> CaseResult {
    let a = gen_art(&mut c.src);
    c.input(a);
    c.nontrivial = a.book.is_some() || a.id.suffix.is_some();
    c.label_if(a.book.is_some(), "book");
    c.label_if(a.id.suffix.is_some(), "suffix");
    let spellings: Vec<String> = num_spellings(a.id)
        .iter()
        .map(|s| match a.book {
            Some(b) => format!("{b}:{s}"),
            None => s.clone(),
        })
        .collect();
    let v: ArticleIdentifier = roundtrip(c, &spellings, &a.display(), &a.compact(), true)?;
    check_eq!(
        ArticleIdentifier::from_book_and_id(a.book, a.id.id()),
        v,
        "article: from_book_and_id",
        "{a:?}"
    );
    if a.book.is_none() && a.id.suffix.is_none() {
        check_eq!(ArticleIdentifier::from(a.id.num), v, "article: from u16", "{a:?}");
    }
    Ok(())
}

fn c05_alphabetic(c: &mut Case) -> CaseResult {
    let i = c.src.below(34 * 3);
    let letter = (i / 3) as usize;
    c.input(i);
    c.nontrivial = true;
    let sp = suffix_spellings(letter);
    let v: AlphabeticIdentifier = roundtrip(c, &sp, ALPHABET[letter], ALPHABET[letter], true)?;
    check_eq!(
        v.to_uppercase().to_string(),
        ALPHABET[letter].to_uppercase(),
        "alphabetic: uppercase",
        "{letter}"
    );
    if ALPHABET[letter].len() == 1 {
        let ch = ALPHABET[letter].chars().next().unwrap();
        for ch in [ch, ch.to_ascii_uppercase()] {
            let r = AlphabeticIdentifier::try_from(ch);
            check!(matches!(&r, Ok(x) if *x == v), "alphabetic: from char", "{ch:?}: {r:?}");
        }
    }
    Ok(())
}

fn c05_prefixed(c: &mut Case) -> CaseResult {
    let i = c.src.below(27 * 26 * 4);
    let style = i % 4;
    let (p, l) = ((i / 4) / 26, (i / 4) % 26);
    let id = Pref {
        prefix: if p == 0 { None } else { Some(latin(p as usize - 1)) },
        chr: latin(l as usize),
    };
    c.input(i);
    c.nontrivial = id.prefix.is_some();
    let base = id.display();
    let s = match style {
        0 => base.clone(),
        1 => base.to_uppercase(),
        2 => capitalize(&base),
        _ => base.chars().rev().collect::<String>().to_lowercase().chars().rev().collect(),
    };
    let v: PrefixedAlphabeticIdentifier = roundtrip(c, &[s, base.clone()], &base, &base, true)?;
    let want = id.prefix.map(|p| Alpha(p).id());
    check_eq!(v.get_prefix(), want, "prefixed: prefix", "{base}");
    check!(v.prefix_is(want), "prefixed: prefix_is", "{base}");
    let other = Some(Alpha(latin(((p + 3) % 26) as usize)).id());
    check_eq!(v.prefix_is(other), want == other, "prefixed: prefix_is", "{base}");
    check_eq!(v.prefix_is(None), want.is_none(), "prefixed: prefix_is", "{base}");
    Ok(())
}

fn c05_act(c: &mut Case) -> CaseResult {
    let number = c.src.below(3999) as i32 + 1;
    let year = c.src.range(1000, 9999) as i16;
    c.input((year, number));
    c.nontrivial = true;
    let id = ActIdentifier { year, number };
    let classic = format!("{year}. évi {}. törvény", roman(number as u32).unwrap());
    let spellings: Vec<String> = vec![
        format!("{year}/{number}"),
        format!("{year}_{number}"),
        format!("{year}.{number}"),
        format!("{year}-{number}"),
        classic.clone(),
    ];
    let v: ActIdentifier = roundtrip(c, &spellings, &classic, &format!("{year}.{number}"), true)?;
    check_eq!(v, id, "act: value", "{spellings:?}");
    check_eq!(format!("{v:?}"), format!("{year}.{number}"), "act: debug", "{spellings:?}");
    // Large numbers have no roman form, but the rest must keep working, and printing must not crash
    let number = match c.src.below(3) {
        0 => 0,
        1 => 4000 + c.src.below(1000) as i32,
        _ => 4000 + c.src.below(1_000_000_000) as i32,
    };
    let id = ActIdentifier { year, number };
    for s in [format!("{year}/{number}"), format!("{year}.{number}")] {
        let r = s.parse::<ActIdentifier>();
        check!(matches!(&r, Ok(x) if *x == id), "act: value", "{s}: {r:?}");
    }
    let r = ActIdentifier::from_compact_string(id.compact_string().to_string());
    check!(matches!(&r, Ok(x) if *x == id), "act: compact", "{id:?}: {r:?}");
    let printed = id.to_string();
    check!(
        printed.starts_with(&format!("{year}. évi ")) && printed.ends_with(". törvény") && printed.contains(&number.to_string()),
        "act: display",
        "{printed}"
    );
    Ok(())
}

fn range_rt<T>(c: &mut Case, a: T, b: T, ca: String, cb: String) -> CaseResult
where
    T: IdentifierCommon + std::fmt::Display + Serialize + DeserializeOwned + 'static,
{
    let r = IdentifierRange::from_range(a, b);
    let ty = std::any::type_name::<T>().rsplit("::").next().unwrap();
    let compact = if a == b { ca.clone() } else { format!("{ca}-{cb}") };
    c.describe(|| format!("range of {ty}: {compact}"));
    c.input(&compact);
    c.input(ty);
    check_eq!(r.compact_string().to_string(), compact, format!("range {ty}: compact"), "");
    let back = IdentifierRange::<T>::from_compact_string(&compact);
    check!(matches!(&back, Ok(x) if *x == r), format!("range {ty}: compact read"), "{compact}: {back:?}");
    check_eq!(r.first_in_range(), a, format!("range {ty}: first"), "{compact}");
    check_eq!(r.last_in_range(), b, format!("range {ty}: last"), "{compact}");
    check_eq!(r.is_range(), a != b, format!("range {ty}: is_range"), "{compact}");
    check_eq!(IdentifierRange::from_single(a).is_range(), false, format!("range {ty}: single"), "{compact}");
    check_eq!(
        IdentifierRange::from_single(a),
        IdentifierRange::from_range(a, a),
        format!("range {ty}: single"),
        "{compact}"
    );
    let j = serde_json::to_value(r).unwrap();
    let want = if a == b {
        serde_json::to_value(a).unwrap()
    } else {
        serde_json::json!({"start": a, "end": b})
    };
    check_eq!(j, want, format!("range {ty}: json"), "{compact}");
    let back = serde_json::from_value::<IdentifierRange<T>>(j);
    check!(matches!(&back, Ok(x) if *x == r), format!("range {ty}: json read"), "{compact}: {back:?}");
    let y = serde_yaml::to_string(&r).unwrap();
    let back = serde_yaml::from_str::<IdentifierRange<T>>(&y);
    check!(matches!(&back, Ok(x) if *x == r), format!("range {ty}: yaml read"), "{compact}: {y} {back:?}");
    // Optional values: nothing is the empty string
    let o = Some(r);
    check_eq!(o.compact_string().to_string(), compact, format!("range {ty}: option"), "");
    let back = Option::<IdentifierRange<T>>::from_compact_string(&compact);
    check!(matches!(&back, Ok(x) if *x == o), format!("range {ty}: option"), "{compact}: {back:?}");
    let none: Option<IdentifierRange<T>> = None;
    check_eq!(none.compact_string().to_string(), "", format!("range {ty}: option"), "");
    let back = Option::<IdentifierRange<T>>::from_compact_string("");
    check!(matches!(&back, Ok(None)), format!("range {ty}: option"), "{back:?}");
    Ok(())
}

fn c05_range(c: &mut Case) -> CaseResult {
    let same = c.src.chance(1, 6);
    c.nontrivial = !same;
    match c.src.below(4) {
        0 => {
            let (mut a, mut b) = (gen_num(&mut c.src), gen_num(&mut c.src));
            if same {
                b = a
            } else if a > b {
                std::mem::swap(&mut a, &mut b)
            }
            range_rt(c, a.id(), b.id(), a.compact(), b.compact())
        }
        1 => {
            let (mut a, mut b) = (gen_art(&mut c.src), gen_art(&mut c.src));
            if same {
                b = a
            } else if a > b {
                std::mem::swap(&mut a, &mut b)
            }
            range_rt(c, a.id(), b.id(), a.compact(), b.compact())
        }
        2 => {
            let (mut a, mut b) = (gen_alpha(&mut c.src), gen_alpha(&mut c.src));
            if same {
                b = a
            } else if a > b {
                std::mem::swap(&mut a, &mut b)
            }
            range_rt(c, a.id(), b.id(), a.display().into(), b.display().into())
        }
        _ => {
            let (mut a, mut b) = (gen_pref(&mut c.src), gen_pref(&mut c.src));
            if same {
                b = a
            } else if a > b {
                std::mem::swap(&mut a, &mut b)
            }
            range_rt(c, a.id(), b.id(), a.display(), b.display())
        }
    }
}

/// Independent recogniser for the numeric identifier: value, or nothing
fn read_numeric(s: &str) -> Option<Num> {
    let digits: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
    let num: u16 = digits.parse::<u32>().ok()?.try_into().ok()?;
    let rest = &s[digits.len()..];
    if rest.is_empty() {
        return Some(Num::plain(num));
    }
    let letter = rest.strip_prefix('/').unwrap_or(rest);
    Some(Num {
        num,
        suffix: Some(read_letter(letter)?),
    })
}

fn roman_table() -> &'static std::collections::HashMap<String, u32> {
    static T: std::sync::OnceLock<std::collections::HashMap<String, u32>> = std::sync::OnceLock::new();
    T.get_or_init(|| (1..4000u32).map(|n| (roman(n).unwrap(), n)).collect())
}

fn read_letter(s: &str) -> Option<usize> {
    (0..34).find(|i| suffix_spellings(*i).iter().any(|x| x == s))
}

fn c05_reject(c: &mut Case) -> CaseResult {
    // Valid forms with random edits, or random short strings over a nasty alphabet
    const CHARS: [char; 30] = [
        '1', '2', '0', '9', '6', '5', 'a', 'b', 'c', 's', 'z', 'A', 'S', 'Z', 'y', '/', ':', '.', '-', '_', ' ', '(',
        ')', '§', 'é', 'ő', 'I', 'V', 'X', '٣',
    ];
    let mut s: Vec<char> = if c.src.bool() {
        let n = c.src.usize(0, 5);
        (0..n).map(|_| *c.src.pick(&CHARS)).collect()
    } else {
        let a = gen_art(&mut c.src);
        let base = match c.src.below(4) {
            0 => a.display(),
            1 => a.compact(),
            2 => a.id.slash(),
            _ => gen_pref(&mut c.src).display(),
        };
        base.chars().collect()
    };
    let edits = c.src.usize(0, 2);
    for _ in 0..edits {
        let pos = c.src.usize(0, s.len());
        match c.src.below(3) {
            0 => s.insert(pos, *c.src.pick(&CHARS)),
            1 if pos < s.len() => {
                s.remove(pos);
            }
            _ if pos < s.len() => s[pos] = *c.src.pick(&CHARS),
            _ => (),
        }
    }
    let s: String = s.into_iter().collect();
    c.input(&s);
    c.describe(|| format!("{s:?}"));
    let want_num = read_numeric(&s);
    c.label(if want_num.is_some() { "numeric" } else { "not numeric" });
    c.nontrivial = edits > 0 || want_num.is_none();

    let got = NumericIdentifier::from_str(&s).ok();
    check_eq!(got, want_num.map(|n| n.id()), "numeric: reads", "{s:?}");
    let got = NumericIdentifier::from_compact_string(&s).ok();
    check_eq!(got, want_num.map(|n| n.id()), "numeric: reads compact", "{s:?}");
    let got = ParagraphIdentifier::from_str(&s).ok();
    let want = if s.is_empty() {
        Some(ParagraphIdentifier::default())
    } else {
        want_num.map(|n| n.id().into())
    };
    check_eq!(got, want, "paragraph: reads", "{s:?}");

    let read_book = |b: &str| -> Option<u8> {
        if b.is_empty() || !b.chars().all(|c| c.is_ascii_digit()) {
            None
        } else {
            b.parse().ok()
        }
    };
    let read_art = |sep: char| match s.split_once(sep) {
        Some((b, i)) => read_book(b).and_then(|b| {
            read_numeric(i).map(|id| Art {
                book: Some(b),
                id,
            })
        }),
        None => want_num.map(|id| Art { book: None, id }),
    };
    let got = ArticleIdentifier::from_str(&s).ok();
    check_eq!(got, read_art(':').map(|a| a.id()), "article: reads", "{s:?}");
    let got = ArticleIdentifier::from_compact_string(&s).ok();
    check_eq!(got, read_art('.').map(|a| a.id()), "article: reads compact", "{s:?}");

    let got = AlphabeticIdentifier::from_str(&s).ok();
    check_eq!(got, read_letter(&s).map(|l| Alpha(l).id()), "alphabetic: reads", "{s:?}");
    let lower = s.to_ascii_lowercase();
    let want = if (1..=2).contains(&lower.chars().count()) && lower.chars().all(|c| c.is_ascii_lowercase()) {
        let l: Vec<usize> = lower.bytes().map(|b| latin((b - b'a') as usize)).collect();
        Some(Pref {
            prefix: if l.len() == 2 { Some(l[0]) } else { None },
            chr: l[l.len() - 1],
        })
    } else {
        None
    };
    let got = PrefixedAlphabeticIdentifier::from_str(&s).ok();
    check_eq!(got, want.map(|w| w.id()), "prefixed: reads", "{s:?}");

    // Roman: strict numerals only, an optional suffix after a slash or a lowercase letter
    let rom: String = s.chars().take_while(|c| "IVXLCDM".contains(*c)).collect();
    let rest = &s[rom.len()..];
    let value = roman_table().get(&rom).copied();
    let suffix = if rest.is_empty() {
        Some(None)
    } else {
        read_letter(rest.strip_prefix('/').unwrap_or(rest)).map(Some)
    };
    let want = value.zip(suffix).map(|(v, suffix)| Num { num: v as u16, suffix }.id());
    let got = NumericIdentifier::from_roman(&s).ok();
    check_eq!(got, want, "numeric: reads roman", "{s:?}");

    // Ranges: split at the (only) dash
    let want = match s.split_once('-') {
        Some((a, b)) => read_numeric(a)
            .zip(read_numeric(b))
            .map(|(a, b)| IdentifierRange::from_range(a.id(), b.id())),
        None => want_num.map(|n| IdentifierRange::from_single(n.id())),
    };
    let got = IdentifierRange::<NumericIdentifier>::from_compact_string(&s).ok();
    check_eq!(got, want, "range: reads", "{s:?}");
    // No crash on anything
    let _ = ActIdentifier::from_str(&s);
    let _ = ActIdentifier::from_compact_string(&s);
    Ok(())
}

// ---------------------------------------------------------------- C06

fn laws<M: Ord + Copy + Debug, T: IdentifierCommon>(
    c: &mut Case,
    name: &'static str,
    ms: [M; 3],
    ids: [T; 3],
    follows: impl Fn(M, M) -> bool,
    first: impl Fn(M) -> bool,
) -> CaseResult {
    for i in 0..3 {
        check_eq!(
            ids[i].is_first(),
            first(ms[i]),
            format!("{name}: is_first"),
            "{:?}",
            ms[i]
        );
        for j in 0..3 {
            check_eq!(
                ids[i].cmp(&ids[j]),
                ms[i].cmp(&ms[j]),
                format!("{name}: order"),
                "{:?} against {:?}",
                ids[i],
                ids[j]
            );
            check_eq!(
                ids[i].partial_cmp(&ids[j]),
                Some(ms[i].cmp(&ms[j])),
                format!("{name}: order"),
                "{:?} against {:?}",
                ids[i],
                ids[j]
            );
            check_eq!(
                ids[i] == ids[j],
                ms[i] == ms[j],
                format!("{name}: equality"),
                "{:?} against {:?}",
                ids[i],
                ids[j]
            );
            let next = ids[i].is_next_from(ids[j]);
            check_eq!(
                next,
                follows(ms[i], ms[j]),
                format!("{name}: succession"),
                "{:?} after {:?}",
                ids[i],
                ids[j]
            );
            if next {
                check!(ids[i] > ids[j], format!("{name}: succession is increasing"), "{:?} after {:?}", ids[i], ids[j]);
                c.label("consecutive");
                c.nontrivial = true;
            }
        }
    }
    // Range membership
    let (lo, hi) = (ms[0].min(ms[1]), ms[0].max(ms[1]));
    let (ilo, ihi) = if ms[0] <= ms[1] { (ids[0], ids[1]) } else { (ids[1], ids[0]) };
    let r = IdentifierRange::from_range(ilo, ihi);
    check_eq!(
        r.contains(ids[2]),
        lo <= ms[2] && ms[2] <= hi,
        format!("{name}: range membership"),
        "{:?} in {:?}-{:?}",
        ids[2],
        ilo,
        ihi
    );
    check!(r.contains(ilo) && r.contains(ihi), format!("{name}: range ends"), "{ilo:?}-{ihi:?}");
    Ok(())
}

fn c06_letters(c: &mut Case) -> CaseResult {
    let i = c.src.below(34 * 34) as usize;
    let (a, b) = (i / 34, i % 34);
    c.input(i);
    c.nontrivial = a != b;
    c.describe(|| format!("{} and {}", ALPHABET[a], ALPHABET[b]));
    for k in 0..34 {
        let ms = [Alpha(a), Alpha(b), Alpha(k)];
        laws(c, "alphabetic", ms, ms.map(|m| m.id()), |x, y| letter_follows(x.0, y.0), |x| x.0 == 0)?;
    }
    Ok(())
}

fn near_num(c: &mut Case, n: Num) -> Num {
    match c.src.below(6) {
        0 => n.next(&mut c.src, 8),
        1 => Num { num: n.num, suffix: Some(c.src.below(34) as usize) },
        2 => Num { num: n.num.wrapping_add(1), suffix: n.suffix },
        3 => Num { num: n.num.wrapping_sub(1), suffix: if c.src.bool() { n.suffix } else { None } },
        4 => Num { num: n.num, suffix: n.suffix.map(|s| (s + c.src.usize(1, 2)) % 34) },
        _ => gen_num(&mut c.src),
    }
}

fn safe_num(c: &mut Case) -> Num {
    let mut n = gen_num(&mut c.src);
    if n.num == 65535 && c.src.bool() {
        n.num = 65530;
    }
    n
}

fn c06_numeric(c: &mut Case) -> CaseResult {
    let mut a = safe_num(c);
    a.num = a.num.min(65533);
    let b = near_num(c, a);
    let d = if b.num < 65535 { near_num(c, b) } else { a };
    let ms = [a, b, d];
    c.input(ms);
    c.describe(|| format!("{ms:?}"));
    c.nontrivial = a != b && (a.suffix.is_some() || b.suffix.is_some());
    laws(c, "numeric", ms, ms.map(|m| m.id()), |x, y| x.follows(y), |x| x == Num::plain(1))?;
    let ps = ms.map(|m| ParagraphIdentifier::from(m.id()));
    laws(c, "paragraph", ms, ps, |x, y| x.follows(y), |x| x == Num::plain(1))?;
    // The empty paragraph identifier is before everything, and follows nothing
    let e = ParagraphIdentifier::default();
    check!(e < ps[0] && e.is_empty() && !ps[0].is_empty(), "paragraph: empty", "");
    check!(!e.is_first() && !e.is_next_from(ps[0]) && !ps[0].is_next_from(e) && !e.is_next_from(e), "paragraph: empty", "");
    Ok(())
}

fn c06_article(c: &mut Case) -> CaseResult {
    let mut a = gen_art(&mut c.src);
    a.id.num = a.id.num.min(65533);
    let near = |c: &mut Case, x: Art| -> Art {
        match c.src.below(7) {
            0 => Art { book: x.book, id: x.id.next(&mut c.src, 6) },
            1 => Art { book: x.book.map(|b| b.wrapping_add(1)), id: Num::plain(1) },
            2 => Art { book: x.book.map(|b| b.wrapping_add(1)), id: x.id },
            3 => Art { book: if x.book.is_some() { None } else { Some(1) }, id: x.id },
            4 => Art { book: x.book, id: near_num(c, x.id) },
            5 => Art { book: x.book.map(|b| b.wrapping_add(2)), id: Num::plain(1) },
            _ => gen_art(&mut c.src),
        }
    };
    let b = near(c, a);
    let d = if b.id.num < 65534 { near(c, b) } else { a };
    let ms = [a, b, d];
    c.input(ms);
    c.describe(|| format!("{ms:?}"));
    c.nontrivial = a != b && (a.book.is_some() || b.book.is_some() || a.id.suffix.is_some() || b.id.suffix.is_some());
    laws(
        c,
        "article",
        ms,
        ms.map(|m| m.id()),
        |x, y| x.follows(y),
        |x| x.id == Num::plain(1) && matches!(x.book, None | Some(1)),
    )
}

fn c06_prefixed(c: &mut Case) -> CaseResult {
    let a = gen_pref(&mut c.src);
    let near = |c: &mut Case, x: Pref| match c.src.below(5) {
        0 | 1 => {
            let mut chr = (x.chr + 1) % 34;
            while is_digraph(chr) {
                chr = (chr + 1) % 34;
            }
            Pref { prefix: x.prefix, chr }
        }
        2 => Pref { prefix: x.prefix, chr: latin(c.src.below(26) as usize) },
        3 => Pref { prefix: gen_pref(&mut c.src).prefix, chr: x.chr },
        _ => gen_pref(&mut c.src),
    };
    let b = near(c, a);
    let d = near(c, b);
    let ms = [a, b, d];
    c.input(ms);
    c.describe(|| format!("{ms:?}"));
    c.nontrivial = a != b && (a.prefix.is_some() || b.prefix.is_some());
    laws(
        c,
        "prefixed",
        ms,
        ms.map(|m| m.id()),
        |x, y| x.follows(y),
        |x| x.chr == 0,
    )
}

fn c06_act(c: &mut Case) -> CaseResult {
    let mut g = || (c.src.range(1990, 1993) as i16, c.src.range(1, 4) as i32);
    let (a, b) = (g(), g());
    c.input((a, b));
    c.nontrivial = a != b;
    let id = |x: (i16, i32)| ActIdentifier { year: x.0, number: x.1 };
    check_eq!(id(a).cmp(&id(b)), a.cmp(&b), "act: order", "{a:?} {b:?}");
    check_eq!(id(a) == id(b), a == b, "act: equality", "{a:?} {b:?}");
    Ok(())
}

fn c06_range(c: &mut Case) -> CaseResult {
    // Membership in a range equals appearance in the document order between the ends
    let n = c.src.usize(2, 40);
    let mut ids = vec![Num::plain(c.src.range(1, 50) as u16)];
    for _ in 1..n {
        let last = *ids.last().unwrap();
        ids.push(last.next(&mut c.src, 4));
    }
    let i = c.src.usize(0, n - 1);
    let j = c.src.usize(i, n - 1);
    let r = IdentifierRange::from_range(ids[i].id(), ids[j].id());
    c.input((ids[0], i, j, n));
    c.input(&ids);
    c.nontrivial = i != j && ids.iter().any(|x| x.suffix.is_some());
    c.describe(|| format!("{}..{} in {:?}", ids[i].compact(), ids[j].compact(), ids.iter().map(|x| x.compact()).collect::<Vec<_>>()));
    for (k, id) in ids.iter().enumerate() {
        check_eq!(r.contains(id.id()), i <= k && k <= j, "range: document order", "{id:?} in {r:?}");
    }
    Ok(())
}

fn c06_chain(c: &mut Case) -> CaseResult {
    // A well-formed enumeration is accepted step by step, and any step left out, repeated or swapped is not
    let n = c.src.usize(3, 30);
    let mut ids = vec![Num::plain(1)];
    for _ in 1..n {
        let last = *ids.last().unwrap();
        ids.push(last.next(&mut c.src, 3));
    }
    c.input(&ids);
    c.nontrivial = ids.iter().any(|x| x.suffix.is_some());
    c.describe(|| format!("{:?}", ids.iter().map(|x| x.compact()).collect::<Vec<_>>()));
    let v: Vec<NumericIdentifier> = ids.iter().map(|x| x.id()).collect();
    check!(v[0].is_first(), "chain: first", "{v:?}");
    for w in v.windows(2) {
        check!(w[1].is_next_from(w[0]), "chain: accepted", "{:?} after {:?}", w[1], w[0]);
        check!(!w[0].is_next_from(w[1]), "chain: swapped", "{:?} after {:?}", w[0], w[1]);
        check!(!w[0].is_next_from(w[0]), "chain: repeated", "{:?} after itself", w[0]);
    }
    Ok(())
}
