//! Independent models of the identifiers of Hungarian legal texts.
use hun_law::identifier::{
    AlphabeticIdentifier, ArticleIdentifier, NumericIdentifier, PrefixedAlphabeticIdentifier,
};

use crate::engine::Src;

/// The identifier alphabet in its collation order
pub const ALPHABET: [&str; 34] = [
    "a", "b", "c", "cs", "d", "dz", "e", "f", "g", "gy", "h", "i", "j", "k", "l", "ly", "m", "n", "ny", "o", "p",
    "q", "r", "s", "sz", "t", "ty", "u", "v", "w", "x", "y", "z", "zs",
];

pub fn is_digraph(i: usize) -> bool {
    ALPHABET[i].len() == 2
}

/// Indices of the single letters
pub fn latin(i: usize) -> usize {
    let c = (b'a' + i as u8) as char;
    ALPHABET
        .iter()
        .position(|s| *s == c.to_string())
        .unwrap()
}

/// `b` may directly follow `a` in an enumeration
pub fn letter_follows(b: usize, a: usize) -> bool {
    // The next one in the alphabet, the next one with the (optional) digraphs skipped, and
    // the old tradition of skipping 'q'
    b == a + 1
        || (b == a + 2 && is_digraph(a + 1))
        || (ALPHABET[a] == "p" && ALPHABET[b] == "r")
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Num {
    pub num: u16,
    pub suffix: Option<usize>,
}

impl Num {
    pub fn plain(num: u16) -> Self {
        Num { num, suffix: None }
    }
    pub fn follows(self, prev: Num) -> bool {
        match (self.suffix, prev.suffix) {
            (None, _) => self.num as u32 == prev.num as u32 + 1,
            (Some(s), None) => self.num == prev.num && s == 0,
            (Some(s), Some(p)) => self.num == prev.num && letter_follows(s, p),
        }
    }
    /// "12", "12a"
    pub fn compact(self) -> String {
        match self.suffix {
            Some(s) => format!("{}{}", self.num, ALPHABET[s]),
            None => self.num.to_string(),
        }
    }
    /// "12", "12/A"
    pub fn slash(self) -> String {
        match self.suffix {
            Some(s) => format!("{}/{}", self.num, ALPHABET[s].to_uppercase()),
            None => self.num.to_string(),
        }
    }
    pub fn id(self) -> NumericIdentifier {
        self.compact().parse().unwrap()
    }
    pub fn next(self, src: &mut Src, suffix_chance: u64) -> Num {
        match self.suffix {
            None => {
                if src.chance(suffix_chance, 16) {
                    Num {
                        num: self.num,
                        suffix: Some(0),
                    }
                } else {
                    Num::plain(self.num + 1)
                }
            }
            Some(s) => {
                if s + 1 < ALPHABET.len() && src.chance(8, 16) {
                    Num {
                        num: self.num,
                        suffix: Some(next_letter(s, src)),
                    }
                } else {
                    Num::plain(self.num + 1)
                }
            }
        }
    }
}

/// Next letter with digraphs mostly skipped, as in real texts. `a` must not be the last one ("zs").
pub fn next_letter(a: usize, src: &mut Src) -> usize {
    let mut n = a + 1;
    if is_digraph(n) && n + 1 < ALPHABET.len() && !src.chance(1, 4) {
        n += 1;
    }
    n
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Art {
    pub book: Option<u8>,
    pub id: Num,
}

impl Art {
    pub fn follows(self, prev: Art) -> bool {
        match (self.book, prev.book) {
            (None, None) => self.id.follows(prev.id),
            (Some(b), Some(p)) if b == p => self.id.follows(prev.id),
            (Some(b), Some(p)) if b as u16 == p as u16 + 1 => self.id == Num::plain(1),
            _ => false,
        }
    }
    pub fn display(self) -> String {
        match self.book {
            Some(b) => format!("{b}:{}", self.id.slash()),
            None => self.id.slash(),
        }
    }
    pub fn compact(self) -> String {
        match self.book {
            Some(b) => format!("{b}.{}", self.id.compact()),
            None => self.id.compact(),
        }
    }
    pub fn id(self) -> ArticleIdentifier {
        self.display().parse().unwrap()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Alpha(pub usize);
impl Alpha {
    pub fn display(self) -> &'static str {
        ALPHABET[self.0]
    }
    pub fn id(self) -> AlphabeticIdentifier {
        self.display().parse().unwrap()
    }
}

/// Prefix and letter: both single latin letters ("sz" is read as 's' prefix + 'z': documented limitation)
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pref {
    pub prefix: Option<usize>,
    pub chr: usize,
}
impl Pref {
    pub fn follows(self, prev: Pref) -> bool {
        self.prefix == prev.prefix && letter_follows(self.chr, prev.chr)
    }
    pub fn display(self) -> String {
        match self.prefix {
            Some(p) => format!("{}{}", ALPHABET[p], ALPHABET[self.chr]),
            None => ALPHABET[self.chr].to_string(),
        }
    }
    pub fn id(self) -> PrefixedAlphabeticIdentifier {
        self.display().parse().unwrap()
    }
}

pub fn roman(mut n: u32) -> Option<String> {
    if n == 0 || n > 3999 {
        return None;
    }
    // Digit by digit, unlike the implementation
    let mut out = String::new();
    for (unit, i, v, x) in [(1000, 'M', '?', '?'), (100, 'C', 'D', 'M'), (10, 'X', 'L', 'C'), (1, 'I', 'V', 'X')] {
        let d = n / unit;
        n %= unit;
        match d {
            0..=3 => (0..d).for_each(|_| out.push(i)),
            4 => {
                out.push(i);
                out.push(v);
            }
            5..=8 => {
                out.push(v);
                (5..d).for_each(|_| out.push(i));
            }
            _ => {
                out.push(i);
                out.push(x);
            }
        }
    }
    Some(out)
}

pub fn hungarian_ordinal(n: u16) -> Option<String> {
    const UNITS: [&str; 10] = [
        "", "egyedik", "kettedik", "harmadik", "negyedik", "ötödik", "hatodik", "hetedik", "nyolcadik", "kilencedik",
    ];
    const ROUND: [&str; 10] = [
        "", "tizedik", "huszadik", "harmincadik", "negyvenedik", "ötvenedik", "hatvanadik", "hetvenedik",
        "nyolcvanadik", "kilencvenedik",
    ];
    const TENS: [&str; 10] = [
        "", "tizen", "huszon", "harminc", "negyven", "ötven", "hatvan", "hetven", "nyolcvan", "kilencven",
    ];
    match n {
        0 => Some("nulladik".into()),
        1 => Some("első".into()),
        2 => Some("második".into()),
        100 => Some("századik".into()),
        3..=99 => {
            let (t, u) = ((n / 10) as usize, (n % 10) as usize);
            Some(if u == 0 {
                ROUND[t].to_string()
            } else {
                format!("{}{}", TENS[t], UNITS[u])
            })
        }
        _ => None,
    }
}

pub fn capitalize(s: &str) -> String {
    let mut c = s.chars();
    match c.next() {
        Some(f) => f.to_uppercase().chain(c).collect(),
        None => String::new(),
    }
}

// ---- generators ----

pub fn gen_num(src: &mut Src) -> Num {
    let num = match src.weighted(&[6, 4, 2, 1, 1]) {
        0 => src.range(1, 12) as u16,
        1 => src.range(1, 120) as u16,
        2 => src.range(1, 4500) as u16,
        3 => src.range(0, 65535) as u16,
        _ => *src.pick(&[0u16, 65535, 65534, 3999, 4000, 99, 100, 101, 255, 256]),
    };
    let suffix = if src.chance(2, 5) {
        Some(src.below(34) as usize)
    } else {
        None
    };
    Num { num, suffix }
}

pub fn gen_art(src: &mut Src) -> Art {
    let id = gen_num(src);
    let book = if src.chance(1, 3) {
        Some(match src.below(3) {
            0 => src.range(1, 9) as u8,
            1 => src.range(0, 255) as u8,
            _ => *src.pick(&[0u8, 1, 254, 255]),
        })
    } else {
        None
    };
    Art { book, id }
}

pub fn gen_alpha(src: &mut Src) -> Alpha {
    Alpha(src.below(34) as usize)
}

pub fn gen_pref(src: &mut Src) -> Pref {
    let chr = latin(src.below(26) as usize);
    let prefix = if src.bool() {
        Some(latin(src.below(26) as usize))
    } else {
        None
    };
    Pref { prefix, chr }
}
