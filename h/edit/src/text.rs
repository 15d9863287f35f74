//! Documents, edits and UTF-16 positions, written separately from the server.
use serde_json::{json, Value};
use vkit::Rng;

pub fn corpus() -> Vec<String> {
    let path = format!("{}/corpus/programs.json", std::env::var("VK_VERIF").unwrap_or("/verif".into()));
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("corpus")).expect("corpus");
    v.as_array().unwrap().iter().map(|x| x["src"].as_str().unwrap().to_string()).collect()
}

/// Lines with the place each starts at; a line keeps its terminator out.
pub fn lines(t: &str) -> Vec<(usize, &str)> {
    let mut v = vec![];
    let mut at = 0;
    for l in t.split('\n') {
        v.push((at, l));
        at += l.len() + 1;
    }
    v
}

pub fn pos(t: &str, at: usize) -> (u32, u32) {
    let before = &t[..at];
    let line = before.matches('\n').count();
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    (line as u32, before[start..].chars().map(|c| c.len_utf16() as u32).sum())
}

/// Where a position lies: None when it is no position of the text.
pub fn at(t: &str, line: u64, character: u64) -> Option<usize> {
    let ls = lines(t);
    let (start, l) = *ls.get(line as usize)?;
    let mut n = 0;
    for (i, c) in l.char_indices() {
        if n == character {
            return Some(start + i);
        }
        if n > character {
            return None;
        }
        n += c.len_utf16() as u64;
    }
    (n == character).then_some(start + l.len())
}

pub fn boundary(t: &str, r: &mut Rng) -> usize {
    if t.is_empty() {
        return 0;
    }
    let mut i = r.below(t.len() + 1);
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    // between the two halves of a line ending is no place an editor names
    if i > 0 && i < t.len() && t.as_bytes()[i - 1] == b'\r' && t.as_bytes()[i] == b'\n' {
        i -= 1;
    }
    i
}

const BITS: &[&str] = &[
    "Let y be 7.", "Show x.", "Set x to x + 1.", "\n", "\n    ", "\"", "\"naïve 😀 text\"", "## Main\n", "## To f (n: Int) -> Int:\n    Return n + 1.\n",
    "If x is greater than 3:\n", "Push 4 to items.", ".", "x", "é", "𝔘𝔫", "   ", "\t", "Let p be a new Point with x 1 and y 2.", "## Note\nJust words.\n",
    "Repeat for i from 1 to 3:\n        Show i.\n", "Call f with 3.", "(", ")", "## Definition\n    A Point has:\n        an x, which is Int.\n", "-- comment\n", "0", "1e", "🦀🦀",
];

pub fn fragment(c: &[String], r: &mut Rng) -> String {
    match r.below(8) {
        0..=3 => r.pick(BITS).to_string(),
        4 => String::new(),
        5 => {
            let s = r.pick(c);
            let ls: Vec<&str> = s.lines().collect();
            let k = r.below(ls.len());
            ls[k..(k + 1 + r.below(3)).min(ls.len())].join("\n")
        }
        6 => (0..1 + r.below(6)).map(|_| char::from_u32([97, 32, 46, 0x3b1, 0x1f600, 10, 34, 123][r.below(8)]).unwrap()).collect(),
        _ => format!("{}{}", r.pick(BITS), r.pick(BITS)),
    }
}

pub fn document(c: &[String], r: &mut Rng) -> String {
    let mut t = match r.below(6) {
        0 => String::new(),
        1 => (0..r.below(12)).map(|_| fragment(c, r)).collect(),
        _ => r.pick(c).clone(),
    };
    if t.len() > 3000 {
        let mut k = 3000;
        while !t.is_char_boundary(k) {
            k -= 1;
        }
        t.truncate(k);
    }
    for _ in 0..r.below(3) {
        let i = boundary(&t, r);
        t.insert_str(i, &fragment(c, r));
    }
    t = t.replace('\r', "");
    if r.chance(1, 8) {
        t = t.replace('\n', "\r\n");
    }
    t
}

/// One content change, applied here and described for the server.
pub fn edit(t: &mut String, c: &[String], r: &mut Rng) -> Value {
    let new = fragment(c, r).replace('\r', "");
    if r.chance(1, 12) {
        *t = document(c, r);
        return json!({"text": t.clone()});
    }
    let a = boundary(t, r);
    let mut b = if r.chance(1, 2) { a } else { boundary(t, r) };
    if r.chance(3, 4) && b > a + 12 {
        b = a + 12;
        while !t.is_char_boundary(b) {
            b -= 1;
        }
        if t.as_bytes().get(b) == Some(&b'\n') && t.as_bytes()[b - 1] == b'\r' {
            b -= 1;
        }
    }
    let (a, b) = (a.min(b), a.max(b));
    let (pa, mut pb) = (pos(t, a), pos(t, b));
    // past the end of a line means its end; past the last line means the end of the text
    if !t.contains('\r') && (b == t.len() || t.as_bytes()[b] == b'\n') && r.chance(1, 6) {
        pb.1 += 1 + r.below(5) as u32;
    }
    if b == t.len() && r.chance(1, 8) {
        pb = (pb.0 + 1 + r.below(3) as u32, r.below(3) as u32);
    }
    let v = json!({"range": {"start": {"line": pa.0, "character": pa.1}, "end": {"line": pb.0, "character": pb.1}}, "text": new});
    t.replace_range(a..b, &new);
    v
}
