//! A dictionary for the generators: the literals of the sources under test.
//!
//! Literals which the sources did not have when the monitors were written are
//! preferred, since a special case on a certain value is likely to mention it.
//! This guides the generation of data only and has no influence on verdicts.

use std::{collections::BTreeSet, path::Path, sync::OnceLock};

#[derive(Debug, Default)]
pub struct Dict {
    pub ints: BTreeSet<u64>,
    /// bits of floats
    pub floats: BTreeSet<u32>,
    pub texts: BTreeSet<Vec<u8>>,
}

/// What is new in the sources.
#[derive(Debug, Default)]
pub struct Novel {
    pub ints: Vec<u64>,
    pub floats: Vec<f32>,
    pub texts: Vec<Vec<u8>>,
}

static NOVEL: OnceLock<Novel> = OnceLock::new();

pub fn novel() -> Option<&'static Novel> {
    NOVEL.get()
}

const KNOWN: &str = include_str!("known_literals.txt");

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

impl Dict {
    pub fn lines(&self) -> BTreeSet<String> {
        let mut v = BTreeSet::new();
        v.extend(self.ints.iter().map(|i| format!("i {i}")));
        v.extend(self.floats.iter().map(|f| format!("f {f:08x}")));
        v.extend(self.texts.iter().map(|t| format!("s {}", hex(t))));
        v
    }
    /// Collect the literals of all sources in a folder.
    pub fn of(dir: &Path) -> Dict {
        let mut d = Dict::default();
        if let Ok(rd) = std::fs::read_dir(dir) {
            for e in rd.flatten() {
                if e.path().extension().is_some_and(|x| x == "rs") {
                    if let Ok(s) = std::fs::read_to_string(e.path()) {
                        let code = s.split("#[cfg(test)]").next().unwrap_or_default();
                        d.scan(code.as_bytes());
                    }
                }
            }
        }
        d
    }
    fn scan(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
            match b[i] {
                b'/' if b.get(i + 1) == Some(&b'/') => {
                    while i < b.len() && b[i] != b'\n' {
                        i += 1;
                    }
                }
                b'"' => {
                    let mut t = vec![];
                    i += 1;
                    while i < b.len() && b[i] != b'"' {
                        i = character(b, i, &mut t);
                    }
                    i += 1;
                    if (1..=64).contains(&t.len()) {
                        self.texts.insert(t);
                    }
                }
                b'\'' => {
                    let mut t = vec![];
                    let j = character(b, i + 1, &mut t);
                    if b.get(j) == Some(&b'\'') {
                        if t.len() == 1 {
                            self.ints.insert(u64::from(t[0]));
                        }
                        i = j + 1;
                    } else {
                        i += 1;
                    }
                }
                c if c.is_ascii_digit() && !prev_ident => i = self.number(b, i),
                _ => i += 1,
            }
        }
    }
    fn number(&mut self, b: &[u8], i: usize) -> usize {
        let mut j = i;
        let radix = match b.get(i..i + 2) {
            Some(b"0x") => 16,
            Some(b"0b") => 2,
            Some(b"0o") => 8,
            _ => 10,
        };
        if radix != 10 {
            j += 2;
        }
        let mut t = String::new();
        while j < b.len() && ((b[j] as char).is_digit(radix) || b[j] == b'_') {
            if b[j] != b'_' {
                t.push(b[j] as char);
            }
            j += 1;
        }
        let mut float = false;
        if radix == 10 {
            if b.get(j) == Some(&b'.') && b.get(j + 1).is_some_and(u8::is_ascii_digit) {
                float = true;
                t.push('.');
                j += 1;
                while j < b.len() && (b[j].is_ascii_digit() || b[j] == b'_') {
                    if b[j] != b'_' {
                        t.push(b[j] as char);
                    }
                    j += 1;
                }
            }
            let sign = usize::from(matches!(b.get(j + 1), Some(b'-' | b'+')));
            if matches!(b.get(j), Some(b'e' | b'E')) && b.get(j + 1 + sign).is_some_and(u8::is_ascii_digit) {
                float = true;
                t.push('e');
                j += 1;
                while j < b.len() && (b[j].is_ascii_digit() || b[j] == b'-' || b[j] == b'+') {
                    t.push(b[j] as char);
                    j += 1;
                }
            }
        }
        // the type
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
            j += 1;
        }
        if float {
            if let Ok(f) = t.parse::<f32>() {
                self.floats.insert(f.to_bits());
                if f.abs() < 4e9 {
                    self.ints.insert(f.abs() as u64);
                }
            }
        } else if let Ok(v) = u64::from_str_radix(&t, radix) {
            if v <= u64::from(u32::MAX) {
                self.ints.insert(v);
            }
        }
        j
    }
}

/// One character of a text literal; returns the position behind it.
fn character(b: &[u8], i: usize, out: &mut Vec<u8>) -> usize {
    match b.get(i) {
        None => i + 1,
        Some(b'\\') => {
            let simple = |c: u8, out: &mut Vec<u8>| {
                out.push(c);
                i + 2
            };
            match b.get(i + 1) {
                Some(b'n') => simple(b'\n', out),
                Some(b'r') => simple(b'\r', out),
                Some(b't') => simple(b'\t', out),
                Some(b'0') => simple(0, out),
                Some(b'x') => {
                    let h = b.get(i + 2..i + 4).and_then(|h| std::str::from_utf8(h).ok());
                    if let Some(v) = h.and_then(|h| u8::from_str_radix(h, 16).ok()) {
                        out.push(v);
                    }
                    i + 4
                }
                Some(b'u') => {
                    let end = b[i..].iter().position(|c| *c == b'}').map_or(b.len(), |p| i + p);
                    let h = b.get(i + 3..end).and_then(|h| std::str::from_utf8(h).ok());
                    if let Some(v) = h.and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32) {
                        out.extend(v.to_string().bytes());
                    }
                    end + 1
                }
                Some(c) => simple(*c, out),
                None => i + 2,
            }
        }
        Some(c) => {
            out.push(*c);
            let mut j = i + 1;
            if *c >= 0x80 {
                while b.get(j).is_some_and(|c| *c & 0xC0 == 0x80) {
                    out.push(b[j]);
                    j += 1;
                }
            }
            j
        }
    }
}

/// The integers to use as interesting values; also sets what is new.
pub fn load(dir: &Path) -> Vec<u64> {
    let d = Dict::of(dir);
    let known: BTreeSet<&str> = KNOWN.lines().collect();
    let mut ints = vec![];
    for v in d.ints.iter().filter(|i| !known.contains(format!("i {i}").as_str())) {
        ints.push(*v);
    }
    let floats: Vec<f32> = d
        .floats
        .iter()
        .filter(|f| !known.contains(format!("f {f:08x}").as_str()))
        .map(|f| f32::from_bits(*f))
        .collect();
    let texts: Vec<Vec<u8>> =
        d.texts.iter().filter(|t| !known.contains(format!("s {}", hex(t)).as_str())).cloned().collect();
    let mut all: Vec<u64> = d.ints.iter().copied().collect();
    // half of all picks
    let n = all.len();
    for i in 0..if ints.is_empty() { 0 } else { n } {
        all.push(ints[i % ints.len()]);
    }
    if !ints.is_empty() || !floats.is_empty() || !texts.is_empty() {
        let _ = NOVEL.set(Novel { ints, floats, texts });
    }
    all
}
