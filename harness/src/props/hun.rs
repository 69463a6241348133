//! C19: Hungarian dates and numerals.
use chrono::{Datelike, NaiveDate};
use hun_law::{
    identifier::NumericIdentifier,
    util::hun_str::{text_to_month_hun, FromHungarianString, ToHungarianString},
};

use crate::{
    check,
    engine::{no_panic, Arm, Case, CaseResult, Kind, Prop},
    model::*,
};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        level: "exploration",
        rule: "All days (and non-days 0, 29..32) of 1900-2100 in the official form with plain and zero-padded day and with the usual endings, all numbers 0..=65535 as ordinals in three letter cases through u8 and u16, all ordinals as NumericIdentifier, then mutated texts that are not a date or numeral by an independent recogniser. Non-trivial: a valid date or numeral, or a text at edit distance 1-2 from one.",
        assumptions: &["the text after 'YYYY. month D.' is free (the gazette appends endings such as -én); any character is accepted in place of the two dots, which is not relied on either way"],
        arms: vec![
            Arm { name: "dates_all", kind: Kind::Enum(201 * 12 * 33, 1, 1), f: dates_all },
            Arm { name: "dates_wide", kind: Kind::Random(40_000, 1_000_000), f: dates_wide },
            Arm { name: "date_mutants", kind: Kind::Random(200_000, 6_000_000), f: date_mutants },
            Arm { name: "numerals_all", kind: Kind::Enum(65536, 1, 1), f: numerals_all },
            Arm { name: "numeral_mutants", kind: Kind::Random(200_000, 6_000_000), f: numeral_mutants },
        ],
    }]
}

pub const MONTHS: [&str; 12] = [
    "január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október",
    "november", "december",
];

pub fn days_in(y: i32, m: u32) -> u32 {
    match m {
        2 => {
            if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

fn one_date(c: &mut Case, y: i32, m: u32, d: u32) -> CaseResult {
    let valid = d >= 1 && d <= days_in(y, m);
    c.nontrivial = valid;
    c.label(if valid { "valid" } else { "invalid" });
    let month = MONTHS[m as usize - 1];
    let mut days = vec![d.to_string()];
    if d < 10 {
        days.push(format!("0{d}"));
    }
    let months = [month.to_string(), ];
    for month in &months {
        for day in &days {
            for tail in ["", "-én", "-i ülésnapján fogadta el."] {
                let s = format!("{y}. {month} {day}.{tail}");
                let r = no_panic("date", || NaiveDate::from_hungarian(&s))?;
                if valid {
                    check!(
                        matches!(&r, Ok(x) if x.year() == y && x.month() == m && x.day() == d),
                        "date: read",
                        "{s:?}: {r:?}"
                    );
                } else {
                    check!(r.is_err(), "date: invalid accepted", "{s:?}: {r:?}");
                }
            }
        }
    }
    let r = text_to_month_hun(month);
    check!(matches!(r, Ok(x) if x as u32 == m), "date: month", "{m}: {r:?}");
    Ok(())
}

fn dates_all(c: &mut Case) -> CaseResult {
    let n = c.src.below(201 * 12 * 33) as u32;
    let (y, m, d) = (1900 + (n / (12 * 33)) as i32, n / 33 % 12 + 1, n % 33);
    c.input(n);
    c.describe(|| format!("{y}-{m}-{d}"));
    one_date(c, y, m, d)
}

fn dates_wide(c: &mut Case) -> CaseResult {
    let y = c.src.range(1000, 9999) as i32;
    let m = c.src.range(1, 12) as u32;
    let d = c.src.range(0, 32) as u32;
    c.input((y, m, d));
    c.describe(|| format!("{y}-{m}-{d}"));
    one_date(c, y, m, d)
}

/// What is certainly a date text; None: certainly not one; Err: the code may do as it likes
fn recognise_date(s: &str) -> Result<Option<(i32, u32, u32)>, ()> {
    let cs: Vec<char> = s.chars().collect();
    if cs.iter().take(40).any(|c| c.is_numeric() && !c.is_ascii_digit()) {
        return Err(());
    }
    let sloppy = |c: Option<&char>| match c {
        Some('.') => 2,
        Some('\n') | None => 0,
        Some(_) => 1,
    };
    if cs.len() < 6 || !cs[..4].iter().all(|c| c.is_ascii_digit()) {
        return Ok(None);
    }
    let mut strict = true;
    match sloppy(cs.get(4)) {
        0 => return Ok(None),
        1 => strict = false,
        _ => (),
    }
    if cs.get(5) != Some(&' ') {
        return Ok(None);
    }
    let rest: String = cs[6..].iter().collect();
    let Some((month, rest)) = rest.split_once(' ') else { return Ok(None) };
    let Some(m) = MONTHS.iter().position(|x| *x == month) else { return Ok(None) };
    let digits: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
    let after = rest[digits.len()..].chars().next();
    if digits.is_empty() {
        return Ok(None);
    }
    if digits.len() > 2 {
        // "123." : the any-character dot may take the third digit
        return Err(());
    }
    match sloppy(after.as_ref()) {
        0 if digits.len() == 2 => return Err(()),
        0 => return Ok(None),
        1 => strict = false,
        _ => (),
    }
    if !strict {
        return Err(());
    }
    let y: i32 = cs[..4].iter().collect::<String>().parse().unwrap();
    let d: u32 = digits.parse().unwrap();
    if d == 0 || d > days_in(y, m as u32 + 1) {
        return Ok(None);
    }
    Ok(Some((y, m as u32 + 1, d)))
}

fn mutate(c: &mut Case, s: &str, alphabet: &[char]) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..c.src.range(1, 2) {
        let n = cs.len() as u64;
        match c.src.below(6) {
            0 if n > 0 => {
                cs.remove(c.src.below(n) as usize);
            }
            1 => cs.insert(c.src.below(n + 1) as usize, *c.src.pick(alphabet)),
            2 if n > 0 => {
                let i = c.src.below(n) as usize;
                cs[i] = *c.src.pick(alphabet);
            }
            3 if n > 1 => {
                let i = c.src.below(n - 1) as usize;
                cs.swap(i, i + 1);
            }
            4 if n > 0 => {
                let i = c.src.below(n) as usize;
                cs[i] = cs[i].to_uppercase().next().unwrap();
            }
            _ => cs.truncate(c.src.below(n + 1) as usize),
        }
    }
    cs.into_iter().collect()
}

fn date_mutants(c: &mut Case) -> CaseResult {
    let y = c.src.range(1900, 2100) as i32;
    let m = c.src.range(0, 11) as usize;
    let d = c.src.range(0, 35) as u32;
    let s = format!("{y}. {} {d}.", MONTHS[m]);
    let alphabet: Vec<char> = "0123456789. januárfeböőúüíél-IVX\n\t".chars().collect();
    let t = mutate(c, &s, &alphabet);
    c.input(&t);
    c.describe(|| t.clone());
    let r = no_panic("date", || NaiveDate::from_hungarian(&t))?;
    let Ok(want) = recognise_date(&t) else {
        c.label("unspecified");
        return Ok(());
    };
    c.nontrivial = true;
    c.label(if want.is_some() { "still a date" } else { "not a date" });
    match (want, &r) {
        (Some((y, m, d)), Ok(x)) => {
            check!(x.year() == y && x.month() == m && x.day() == d, "date: read", "{t:?}: {x:?}")
        }
        (Some(_), Err(e)) => return crate::engine::fail("date: read", format!("{t:?}: {e:?}")),
        (None, Ok(x)) => return crate::engine::fail("date: misread", format!("{t:?} is no date but was read as {x}")),
        (None, Err(_)) => (),
    }
    Ok(())
}

fn numerals_all(c: &mut Case) -> CaseResult {
    let n = c.src.below(65536) as u16;
    c.input(n);
    c.nontrivial = n <= 100;
    match hungarian_ordinal(n) {
        Some(s) => {
            c.describe(|| format!("{n} = {s}"));
            let r = n.to_hungarian();
            check!(matches!(&r, Ok(x) if *x == s), "hungarian: print", "{n}: {r:?}, expected {s}");
            let r = NumericIdentifier::from(n).to_hungarian();
            check!(matches!(&r, Ok(x) if *x == s), "hungarian: print identifier", "{n}: {r:?}, expected {s}");
            let r = (n as u8).to_hungarian();
            check!(matches!(&r, Ok(x) if *x == s), "hungarian: print u8", "{n}: {r:?}, expected {s}");
            for f in [s.clone(), s.to_uppercase(), capitalize(&s)] {
                let r = u16::from_hungarian(&f);
                check!(matches!(&r, Ok(x) if *x == n), "hungarian: read", "{f}: {r:?}, expected {n}");
                let r = u8::from_hungarian(&f);
                check!(matches!(&r, Ok(x) if *x as u16 == n), "hungarian: read u8", "{f}: {r:?}, expected {n}");
            }
        }
        None => {
            let r = no_panic("to_hungarian", || n.to_hungarian().map(|s| s.to_string()))?;
            check!(r.is_err(), "hungarian: out of range", "{n}");
            if n < 256 {
                check!((n as u8).to_hungarian().is_err(), "hungarian: out of range", "{n}");
            }
        }
    }
    Ok(())
}

fn numeral_mutants(c: &mut Case) -> CaseResult {
    let n = c.src.below(101) as u16;
    let base = hungarian_ordinal(n).unwrap();
    let base = match c.src.below(3) {
        0 => base,
        1 => base.to_uppercase(),
        _ => capitalize(&base),
    };
    let alphabet: Vec<char> = "aákdikőöeézyt EN1-/".chars().collect();
    let t = mutate(c, &base, &alphabet);
    c.input(&t);
    c.describe(|| t.clone());
    let want = (0..=100u16).find(|i| {
        let s = hungarian_ordinal(*i).unwrap();
        s == t || s.to_uppercase() == t || capitalize(&s) == t
    });
    c.nontrivial = true;
    c.label(if want.is_some() { "still a numeral" } else { "not a numeral" });
    let r16 = no_panic("numeral", || u16::from_hungarian(&t))?;
    let r8 = no_panic("numeral", || u8::from_hungarian(&t))?;
    check!(r16.as_ref().ok().copied() == want, "hungarian: reject", "{t:?}: {r16:?}, expected {want:?}");
    check!(r8.as_ref().ok().map(|x| *x as u16) == want, "hungarian: reject", "{t:?}: {r8:?}, expected {want:?}");
    Ok(())
}
