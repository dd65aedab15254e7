//! Pattern lists and inputs for the tokenizer.
use crate::rx::{self, Lex, Support};
use crate::util::Rng;

const ALPHABETS: &[&[char]] = &[
    &['a', 'b'],
    &['a', 'b', 'c'],
    &['x', 'y', 'z', '0', '1'],
    &['0', '1', '5', '9', '.', '-'],
    &['a', 'z', 'A', 'Z', '_', '0', '9'],
    &['\u{0}', 'a', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}'],
    &['é', 'あ', 'ん', '漢', 'a'],
    &['\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'a'],
    &['😀', '🎉', 'k', '\u{212a}', 'ſ', 's'],
    &['<', '=', '>', '&', '|'],
    &['\u{feff}', '\r', '\n', 'a', ' '],
    &['\u{85}', '\u{2028}', '\u{a0}', '\t', ' ', 'b'],
    &['e', '\u{301}', 'é', '\u{200b}', '\u{fffd}', '\u{1a}'],
];

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub alpha: &'static [char],
    pub big: bool,
}
fn esc(c: char) -> String {
    match c {
        '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' | '\\' | '-' | '&' | '~' | '#' => format!("\\{}", c),
        '\u{0}'..='\u{1f}' | '\u{7f}'..='\u{ff}' => format!("\\x{:02x}", c as u32),
        '\u{200b}' | '\u{301}' | '\u{2028}' | '\u{feff}' | '\u{fffd}' | '\u{d7ff}' | '\u{e000}' | '\u{ffff}' | '\u{10ffff}' => format!("\\u{{{:x}}}", c as u32),
        c => c.to_string(),
    }
}
impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng) -> Gen<'a> {
        let alpha = *rng.pick(ALPHABETS);
        Gen { rng, alpha, big: false }
    }
    fn ch(&mut self) -> char {
        *self.rng.pick(self.alpha)
    }
    pub fn class(&mut self) -> String {
        match self.rng.below(20) {
            0 => return ".".into(),
            1 => return "(?s:.)".into(),
            2 if self.big => return "\\w".into(),
            2 => return "[[:alpha:]]".into(),
            3 => return "[0-9&&[^5]]".into(),
            4 => return "[[:xdigit:]]".into(),
            5 => return format!("(?i:{})", esc(self.ch())),
            6 => return "\\s".into(),
            7 => return format!("(?i:[{}])", esc(self.ch())),
            _ => {}
        }
        let neg = if self.rng.chance(1, 5) { "^" } else { "" };
        let mut s = format!("[{}", neg);
        for _ in 0..self.rng.range(1, 3) {
            let (a, b) = (self.ch(), self.ch());
            if self.rng.chance(1, 2) {
                s.push_str(&esc(a));
            } else {
                let (lo, hi) = (a.min(b) as u32, a.max(b) as u32);
                // move the edges a little so that ranges of different patterns nearly coincide
                let jit = |r: &mut Rng, c: u32, up: bool| {
                    let d = r.below(3) as u32;
                    let v = if up { c + d } else { c.saturating_sub(d) };
                    char::from_u32(v).unwrap_or(char::from_u32(c).unwrap())
                };
                let (lo, hi) = (jit(self.rng, lo, false), jit(self.rng, hi, true));
                s.push_str(&format!("{}-{}", esc(lo), esc(hi)));
            }
        }
        s.push(']');
        s
    }
    pub fn rep(&mut self) -> String {
        let q = match self.rng.below(12) {
            0 | 1 => "?".to_string(),
            2 | 3 | 4 => "*".to_string(),
            5 | 6 => "+".to_string(),
            7 => format!("{{{}}}", self.rng.below(5)),
            8 => format!("{{{},}}", self.rng.below(4)),
            _ => {
                let a = self.rng.below(4);
                let b = a + self.rng.below(4);
                format!("{{{},{}}}", a, b)
            }
        };
        if self.rng.chance(1, 8) {
            q + "?"
        } else {
            q
        }
    }
    fn group(&mut self, s: String) -> String {
        match self.rng.below(9) {
            0 | 1 | 2 => format!("(?:{})", s),
            3 => format!("(?i:{})", s),
            4 => format!("(?U:{})", s),
            5 => format!("(?x: {} )", s),
            _ => format!("({})", s),
        }
    }
    pub fn re(&mut self, depth: usize) -> String {
        if depth == 0 {
            return if self.rng.chance(2, 3) { esc(self.ch()) } else { self.class() };
        }
        match self.rng.below(10) {
            0 | 1 | 2 | 3 => {
                let n = self.rng.range(2, 3);
                let mut s = String::new();
                for _ in 0..n {
                    let x = self.re(depth - 1);
                    s.push_str(&if x.contains('|') { self.group(x) } else { x });
                }
                s
            }
            4 | 5 => {
                let n = self.rng.range(2, 3);
                let v: Vec<String> = (0..n).map(|_| self.re(depth - 1)).collect();
                let s = v.join("|");
                self.group(s)
            }
            6 | 7 | 8 => {
                let x = self.re(depth - 1);
                let g = self.group(x);
                format!("{}{}", g, self.rep())
            }
            _ => {
                let x = if self.rng.chance(1, 2) { esc(self.ch()) } else { self.class() };
                format!("{}{}", x, self.rep())
            }
        }
    }
    pub fn word(&mut self) -> String {
        let n = self.rng.range(1, 4);
        (0..n).map(|_| esc(self.ch())).collect()
    }
}

pub const CURATED: &[&[&str]] = &[
    &["true", "false", "null", r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?", r#""([^"\\]|\\.)*""#, r"\{", r"\}", r"\[", r"\]", ":", ",", r"[ \t\r\n]+"],
    &["if", "else", "while", "return", "[A-Za-z_][A-Za-z0-9_]*", "[0-9]+", "==", "=", "<=", "<", "<<", "<<=", ">", ">=", r"\+", r"\+\+", r"\+=", "-", "->", r"/\*([^*]|\*+[^*/])*\*+/", "//[^\n]*", r"[ \n]+"],
    &[r"\d+(\.\d*)?|\.\d+", r"\+", "-", r"\*", "/", r"\(", r"\)", "sqrt", "."],
    &["(a*b)?c", "x(ba*)?", "(a|b)*abb", "a{2,4}", "(ab){2}", "(ab)+", "a*"],
    &["a[0-4]|b[0-8]", "c[0-4]x|d[0-8]x"],
    &["[a-f]", "[c-h]", "[e-z]", "[a-z]"],
    &["[a-z]+", "[a-z]+[0-9]", "[a-z]+[0-9]+z", "[0-9]+"],
    &["/[^/]*/", "//.*", "/", r"[^/]+"],
    &["ab", "abcd", "abcdef", "abcdefgh", "[a-h]"],
    &["(?s:.)*end", "e", "en", "[^e]"],
    &["0x[0-9a-fA-F]+", "0b[01]+", "0o[0-7]+", "0", "[1-9][0-9]*", "[a-z]+"],
    &["\u{3042}+", "[\u{3041}-\u{3096}]+", "[\u{4e00}-\u{9fff}]", "\u{1f600}|\u{1f389}", "[\u{10000}-\u{10ffff}]{2}"],
    &["(a{0,2}b{0,2}){2}", "a{3,}", "b{1,2}(c|d){3}", "(ab?){1,3}"],
    &["(?i:select|from|where)", "(?i:[a-z]+)", r"'[^']*'", r"\*", r"\s+"],
    &["[0-9]{4}-[0-9]{2}-[0-9]{2}", "[0-9]{2}:[0-9]{2}", "[0-9]+", "-", ":"],
    &["((a|b)*c)*d", "((ab)*|c)*e", "(a+b+)+", "((a?b)?c)?d"],
    &["a|b|c|d|e|f|g", "ab|cd|ef", "abc|def", "g{5}"],
    &["[^a]", "[^b]", "a"],
    &["a+?b", "a*?", "(ab)??c", "a{2,3}?"],
    &["\\x00", "[\\x00-\\x1f]+", "\\x7f", "[\\x80-\\xff]", "[\\x{d7ff}\\x{e000}]", "\\x{10ffff}"],
    &["x*", "y*", "z"],
    &["a?b?c?", "abc", "ab"],
    &["[ab]{0,3}c", "[bc]{0,3}a", "[ca]{1,3}b"],
    &["(0|1|2|3|4|5|6|7|8|9)+", "(0|2|4|6|8)+x", "9{6}"],
    &["aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "a"],
    &["(a|b)*a(a|b){4}", "b+"],
    &["begin(.|\n)*?end", "[a-z]+", "\n"],
    &["--[^-]*--", "-", "--", "---"],
];

fn big_lists() -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = Vec::new();
    // many patterns
    let mut v: Vec<String> = (0..70).map(|i| format!("k{}", i)).collect();
    v.push("[a-z][a-z0-9]*".into());
    out.push(v);
    let mut v: Vec<String> = (0..300).map(|i| format!("{}{}", char::from(b'a' + (i / 26) as u8), char::from(b'a' + (i % 26) as u8))).collect();
    v.push("[a-z]".into());
    out.push(v);
    // many ranges in one class, and many literal alternatives
    let cls: String = (0..60).map(|i| char::from_u32(0x100 + 3 * i).unwrap()).collect();
    out.push(vec![format!("[{}]+", cls), format!("[{}]", cls), "[\u{100}-\u{1ff}]".into()]);
    // long counted repetitions and a long literal
    out.push(vec!["a{40}".into(), "a{10,30}b".into(), "(ab){20,}".into(), "a".into(), "b".into()]);
    out.push(vec!["x".repeat(300), "x{260,270}y".into(), "x".into()]);
    // many states that differ only in the ends of their ranges
    out.push((0..12).map(|i| format!("{}[0-{}]|{}[0-{}]", char::from(b'a' + i), i % 10, char::from(b'n' + i), (i + 3) % 10)).collect());
    out.push((0..8).map(|i| format!("{}[a-{}]z", i, char::from(b'b' + i))).collect());
    out
}

/// A pattern list for the case; `None` when the draw has to be skipped.
pub fn lists(stage: &str, index: u64, rng: &mut Rng) -> Vec<String> {
    if stage == "curated" {
        let bl = big_lists();
        let i = index as usize % (CURATED.len() + bl.len());
        return if i < CURATED.len() { CURATED[i].iter().map(|s| s.to_string()).collect() } else { bl[i - CURATED.len()].clone() };
    }
    if rng.chance(1, 12) {
        // a curated list, changed a little: reordered, thinned out or joined by a random pattern
        let mut v: Vec<String> = rng.pick(CURATED).iter().map(|s| s.to_string()).collect();
        rng.shuffle(&mut v);
        let keep = rng.range(1, v.len());
        v.truncate(keep);
        if rng.chance(1, 2) {
            let p = Gen::new(rng).re(1);
            v.insert(0, p);
        }
        return v;
    }
    let n = match rng.below(10) {
        0..=3 => rng.range(1, 2),
        4..=8 => rng.range(2, 4),
        _ => rng.range(5, 9),
    };
    let mut g = Gen::new(rng);
    g.big = g.rng.chance(1, 30);
    let mut v = Vec::new();
    for _ in 0..n {
        let d = g.rng.below(4);
        v.push(match g.rng.below(6) {
            0 => g.word(),
            _ => g.re(d),
        });
    }
    if g.rng.chance(1, 4) {
        // ranges that differ in one end only
        let (a, b) = (g.ch(), g.ch());
        let k = g.rng.below(3) as u32 + 1;
        let hi = char::from_u32((a as u32).max(b as u32) + k).unwrap_or(a.max(b));
        v.push(format!("{}[{}-{}]", esc(b), esc(a.min(b)), esc(a.max(b))));
        v.push(format!("{}[{}-{}]", esc(a), esc(a.min(b)), esc(hi)));
    }
    v
}

/// Reference for a list that is supported, has no empty sub-expression, and is small enough to explore completely.
pub fn lex_for(pats: &[String]) -> Option<Lex> {
    let mut size = 0u64;
    for p in pats {
        let h = rx::parse(p)?;
        if rx::support(&h) != Support::Yes || rx::has_empty_class(&h) {
            return None;
        }
        size += rx::unrolled(&h);
    }
    if size > 4000 {
        return None;
    }
    let mut l = Lex::new(pats)?;
    if l.explore(700, 60_000).is_err() {
        return None;
    }
    Some(l)
}

/// Inputs that reach every state of the reference by every kind of character, then recover; plus random ones.
pub fn inputs(l: &mut Lex, rng: &mut Rng, limit: usize) -> Vec<Vec<char>> {
    let acc = l.access();
    let comp = l.completion();
    let n = l.nstates();
    let na = l.natoms();
    let mut out: Vec<Vec<char>> = vec![vec![]];
    let total = n * na;
    let walk_share = limit / 2;
    let cover = limit - walk_share;
    let mut k = 0usize;
    let stride = if total <= cover { 1 } else { total / cover };
    let mut off = if stride > 1 { rng.below(stride) } else { 0 };
    while off < total && k < cover {
        let (s, a) = (off / na, off % na);
        off += if stride > 1 { rng.range(1, 2 * stride - 1) } else { 1 };
        if !l.usable(a) {
            continue;
        }
        k += 1;
        let mut v: Vec<char> = acc[s].iter().map(|x| l.rep(*x, rng)).collect();
        v.push(l.rep(a, rng));
        let t = l.step_atom(s as i32, a);
        if t >= 0 {
            for x in &comp[t as usize] {
                v.push(l.rep(*x, rng));
            }
        }
        if rng.chance(1, 3) {
            let w = l.walk(rng, 3, &comp);
            v.extend(w.chars());
        }
        out.push(v);
    }
    for i in 0..walk_share {
        let mut s = String::new();
        let parts = if i % 7 == 0 { rng.range(6, 14) } else { rng.range(1, 4) };
        for _ in 0..parts {
            let len = rng.below(7);
            let w = l.walk(rng, len, &comp);
            s.push_str(&w);
        }
        let mut v: Vec<char> = s.chars().collect();
        if rng.chance(1, 3) && !v.is_empty() {
            for _ in 0..rng.range(1, 3) {
                let at = rng.below(v.len());
                let a = rng.below(na);
                let c = if l.usable(a) { l.rep(a, rng) } else { 'a' };
                match rng.below(3) {
                    0 => v[at] = c,
                    1 => v.insert(at, c),
                    _ => {
                        v.remove(at);
                        if v.is_empty() {
                            break;
                        }
                    }
                }
            }
        }
        out.push(v);
    }
    out
}

/// Arbitrary pattern strings, mostly near the border between valid, unsupported and invalid.
pub fn wild_pattern(rng: &mut Rng) -> String {
    const BITS: &[&str] = &[
        "^", "$", r"\b", r"\B", r"\A", r"\z", "(?m:^)", "(?m:$)", "(?-u:a)", r"(?-u:\xff)", r"(?-u:[\x00-\x7f])", r"(?-u:\w)", r"(?-u:\b)", "(?-u:.)", "(?-u:é)", "(", ")", "[", "]", "{", "}", "*", "+", "?", "a", "b", "|", "{2}", "{2,1}", "{,3}",
        "{0}", "{1,}", "\\", r"\p{Greek}", r"\p{L}", r"\pN", r"\p{nope}", r"\u{110000}", r"\x", r"\q", "[z-a]", "[a-", "[^]", "[[:alpha:]]", "(?P<x>a)", "(?P<x>b)", "(?i)", "(?z)", "(?", "(?:", "(?=a)", r"\1", "é", "\u{10ffff}", ".", "(?s:.)", "[a&&b]",
        "()", "(?:)", "a{5}", r"\d", r"\n", "(?x) a # c\n b", "*?", "{1,2}?", "(^a)", "(a$)*", "(?:^){0}", r"(\b|a)", "a|^", "[^\\x00-\\x{10FFFF}]", "#", " ", "-", "&", "~", "]a", "}a", "(?-s:.)", "(?u:a)", "\u{0}", "(?U)a*", "[\\d--5]", "[a~~b]", "[[a]b]", "(?-u)",
    ];
    let mut s = String::new();
    match rng.below(5) {
        0 | 1 => {
            for _ in 0..rng.range(1, 5) {
                s.push_str(rng.pick(BITS))
            }
        }
        2 => {
            // a valid pattern with something put in the middle
            let d = rng.below(3);
            let p: Vec<char> = Gen::new(rng).re(d).chars().collect();
            let at = rng.below(p.len() + 1);
            s.extend(&p[..at]);
            s.push_str(rng.pick(BITS));
            s.extend(&p[at..]);
        }
        3 => {
            // nested inside operators
            s = rng.pick(BITS).to_string();
            for _ in 0..rng.range(1, 4) {
                s = match rng.below(8) {
                    0 => format!("({})*", s),
                    1 => format!("(?:{}){{2}}", s),
                    2 => format!("a{}", s),
                    3 => format!("(?:{}|b)", s),
                    4 => format!("(?:{}){{0,3}}", s),
                    5 => format!("(b|{})", s),
                    6 => format!("({}){{1,}}", s),
                    _ => format!("{}c", s),
                };
            }
        }
        _ => {
            let d = rng.below(4);
            s = Gen::new(rng).re(d);
        }
    }
    s
}

pub const BIG: u64 = 14;
/// Big lists and inputs made for them; sizes lie around those at which a narrow counter or a fixed-size table would give way.
pub fn big(index: u64, rng: &mut Rng, max: usize) -> (Vec<String>, Vec<Vec<char>>) {
    const SIZES: &[usize] = &[63, 64, 65, 127, 129, 200, 255, 256, 257, 300, 400, 511, 513, 700, 1023, 1025, 1500, 2049];
    let sizes: Vec<usize> = SIZES.iter().copied().filter(|n| *n <= max).collect();
    let n = *rng.pick(&sizes);
    let pats: Vec<String>;
    let mut ins: Vec<String> = Vec::new();
    let sep = |rng: &mut Rng| *rng.pick(&["", " ", "x", "k", "1"]);
    match index % BIG {
        0 => {
            // keywords of one family, with an identifier pattern before, after or not at all
            let mut v: Vec<String> = (0..n).map(|i| format!("k{}x", i)).collect();
            match rng.below(3) {
                0 => v.push("[a-z][a-z0-9]*".into()),
                1 => v.insert(0, "[a-z][a-y0-9]*".into()),
                _ => {}
            }
            v.push(" ".into());
            for _ in 0..30 {
                let mut s = String::new();
                for _ in 0..rng.range(1, 6) {
                    let i = if rng.chance(1, 2) { n - 1 - rng.below(3) } else { rng.below(n + 2) };
                    s.push_str(&format!("k{}{}{}", i, sep(rng), sep(rng)));
                }
                ins.push(s);
            }
            pats = v;
        }
        1 => {
            // all binary words up to a length, as patterns in random order
            let mut v: Vec<String> = (1..n.min(600)).map(|i| format!("{:b}", i + 1)).collect();
            rng.shuffle(&mut v);
            for _ in 0..30 {
                ins.push((0..rng.range(1, 60)).map(|_| *rng.pick(&['0', '1'])).collect());
            }
            pats = v;
        }
        2 => {
            let n = n.min(1025);
            let w: String = (0..n).map(|i| if (i * i) % 7 < 3 { 'x' } else { 'y' }).collect();
            for k in [n, n - 1, 1, n / 2] {
                let mut s = w[..k].to_string();
                ins.push(s.clone());
                s.push_str(&w);
                ins.push(s.clone());
                s.push('z');
                ins.push(s);
            }
            pats = vec![w, "x".into(), "y+".into()];
        }
        3 => {
            let n = n.min(700);
            for k in [n - 1, n, n + 1, 2 * n, 2 * n + 1, 3] {
                ins.push("a".repeat(k));
                ins.push("a".repeat(k) + "b");
            }
            pats = vec![format!("a{{{}}}", n), "a".into(), "b".into()];
        }
        4 => {
            let n = n.min(400);
            let m = rng.below(n);
            for k in [m, m + 1, n - 1, n, n + 1, m.max(1) - 1, (m + n) / 2] {
                ins.push("a".repeat(k) + "b");
                ins.push("a".repeat(k));
            }
            pats = vec![format!("a{{{},{}}}b", m, n), "a".into(), "b".into()];
        }
        5 => {
            // a class of very many ranges, and one that shares every other of them
            let base = *rng.pick(&[0x100u32, 0x3000, 0xd000, 0xfff0, 0x10f000]);
            let chars: Vec<char> = (0..3 * n as u32).filter_map(|i| char::from_u32(base + 2 * i + (i % 3))).collect();
            let all: String = chars.iter().collect();
            let half: String = chars.iter().step_by(2).collect();
            for _ in 0..30 {
                ins.push(
                    (0..rng.range(1, 12))
                        .map(|_| {
                            let c = *rng.pick(&chars) as u32;
                            char::from_u32(c + rng.below(3) as u32).unwrap_or('a')
                        })
                        .collect(),
                );
            }
            pats = vec![format!("[{}]", half), format!("[{}]+", all), "[a-z]".into()];
        }
        6 => {
            let words: Vec<String> = (0..n).map(|i| format!("w{}{}", i % 37, char::from(b'a' + (i % 26) as u8).to_string().repeat(1 + i % 4))).collect();
            for _ in 0..30 {
                let mut s = String::new();
                for _ in 0..rng.range(1, 5) {
                    s.push_str(rng.pick(&words));
                    s.push_str(sep(rng));
                }
                ins.push(s);
            }
            pats = vec![words.join("|"), "w[0-9]+".into(), "[a-z]".into()];
        }
        7 => {
            // a long look-ahead that fails: everything is handed back
            for k in [n, 5 * n, 20 * n] {
                ins.push("x".to_string() + &"a".repeat(k));
                ins.push("x".to_string() + &"a".repeat(k) + "!");
                ins.push("x".to_string() + &"a".repeat(k) + "?x!");
                ins.push(("x".to_string() + &"ab".repeat(k / 4) + "1").repeat(3));
            }
            ins.push("x".to_string() + &"a".repeat(70_000) + "1");
            pats = vec!["x[a-z]*!".into(), "x".into(), "[a-w]+".into(), "[0-9]".into()];
        }
        8 => {
            // long streams
            let words = ["if", "iffy", "12", "==", "=", " ", "x1", "1x"];
            for k in [n, 10 * n, 30_000] {
                ins.push((0..k).map(|_| *rng.pick(&words)).collect());
            }
            pats = vec!["if".into(), "[a-z][a-z0-9]*".into(), "[0-9]+".into(), "==".into(), "=".into(), " +".into()];
        }
        9 => {
            // counted repetitions inside counted repetitions
            let (a, b) = (rng.range(2, 9), rng.range(2, 9));
            let unit = "a".repeat(a) + "b";
            for k in [b - 1, b, b + 1, 2 * b, 2 * b + 1] {
                ins.push(unit.repeat(k) + "c");
                ins.push((unit.repeat(b) + "c").repeat(k));
                ins.push(unit.repeat(k) + &"a".repeat(a - 1));
            }
            pats = vec![format!("((a{{{}}}b){{{}}}c){{1,{}}}", a, b, b), format!("(a{{1,{}}}b?)+", a), "[abc]".into()];
        }
        10 => {
            // every pattern matches the same word
            let n = n.min(700);
            for i in [0, 1, n / 2, n - 2, n - 1] {
                ins.push(format!("p{}", i));
                ins.push(format!("ap{}a", i));
            }
            pats = (0..n).map(|i| if i % 2 == 0 { format!("p{}|a", i) } else { format!("a|p{}|aa", i) }).collect();
        }
        11 => {
            // one character each, over all planes
            let step = 0x110000 / (n as u32 + 1);
            let chars: Vec<char> = (0..n as u32).filter_map(|i| char::from_u32(0x41 + i * step)).filter(|c| !"\\.+*?()|[]{}^$#&-~".contains(*c)).collect();
            for _ in 0..20 {
                ins.push((0..rng.range(1, 20)).map(|_| *rng.pick(&chars)).collect());
                ins.push((0..rng.range(1, 4)).map(|_| char::from_u32(*rng.pick(&chars) as u32 + 1).unwrap_or('a')).collect());
            }
            pats = chars.iter().map(|c| c.to_string()).collect();
        }
        12 => {
            // deep nesting of groups
            let d = rng.range(20, 60);
            let mut p = "a".to_string();
            for i in 0..d {
                p = format!("({}{}){}", p, char::from(b'b' + (i % 5) as u8), ["*", "?", "+", ""][i % 4]);
            }
            for _ in 0..30 {
                ins.push((0..rng.range(1, 40)).map(|_| *rng.pick(&['a', 'b', 'c', 'd', 'e', 'f'])).collect());
            }
            pats = vec![p, "[a-f]".into()];
        }
        _ => {
            // a chain of prefixes: the longest is wanted, and handed back step by step otherwise
            let n = n.min(300);
            let w: String = (0..n).map(|i| char::from(b'a' + (i % 26) as u8)).collect();
            for k in [1, 2, n / 3, n / 2, n - 1, n] {
                ins.push(w[..k].to_string());
                ins.push(w[..k].to_string() + "0" + &w);
                ins.push(w[..k].to_string().repeat(3));
            }
            pats = (1..=n).filter(|k| k % 3 == 0 || *k == 1).map(|k| w[..k].to_string()).rev().chain(Some("[a-z]".to_string())).collect();
        }
    }
    (pats, ins.into_iter().map(|s| s.chars().collect()).collect())
}
