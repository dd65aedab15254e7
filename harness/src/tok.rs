//! Monitors for the tokenizer (C01-C07 and the tokenizer half of C20, C21).
use crate::rx::{self, expected, Lex, Support, Want};
use crate::tokgen;
use crate::util::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use tokenizer::{DFATokenizer, Tokenize};

/// An input item: not clonable, so that every token item must be the very item that was read.
pub struct Item {
    pub id: u32,
    pub ch: char,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Tok {
    pub pat: usize,
    pub text: String,
    pub ids: Vec<u32>,
    pub chars: Vec<char>,
}
pub type Tk = DFATokenizer<Tok, Item>;
pub type TkC = DFATokenizer<Tok, char>;

pub fn build_with<T: 'static>(pats: &[String], f: impl Fn(T) -> (u32, char) + Copy + 'static) -> Result<Result<(DFATokenizer<Tok, T>, Vec<String>), String>, Bad> {
    guard(|| {
        let mut b = DFATokenizer::<Tok, T>::builder();
        for (i, p) in pats.iter().enumerate() {
            b = b.pattern(p, move |s: &str, items: Vec<T>| {
                step();
                let (ids, chars) = items.into_iter().map(f).unzip();
                Tok { pat: i, text: s.to_string(), ids, chars }
            });
        }
        match b.build() {
            Ok((t, w)) => Ok((t, w.iter().map(|x| format!("{:?}", x)).collect())),
            Err(e) => Err(format!("{:?}", e)),
        }
    })
}
pub fn build(pats: &[String]) -> Result<Result<(Tk, Vec<String>), String>, Bad> {
    build_with::<Item>(pats, |i| (i.id, i.ch))
}
pub fn build_c(pats: &[String]) -> Result<Result<(TkC, Vec<String>), String>, Bad> {
    build_with::<char>(pats, |c| (u32::MAX, c))
}
pub fn must_build(pats: &[String]) -> Result<(Tk, Vec<String>), String> {
    match build(pats) {
        Err(b) => Err(format!("building {:?}: {}", pats, b)),
        Ok(Err(e)) => Err(format!("building {:?} failed: {}", pats, e)),
        Ok(Ok(x)) => Ok(x),
    }
}

/// A source that counts what is taken from it.
pub struct Source {
    chars: Vec<char>,
    at: usize,
    hint: Hint,
    pub pulled: Rc<Cell<usize>>,
    pub calls: Rc<Cell<usize>>,
}
impl Iterator for Source {
    type Item = Item;
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint.of(self.chars.len() - self.at)
    }
    fn next(&mut self) -> Option<Item> {
        step();
        self.calls.set(self.calls.get() + 1);
        if self.at < self.chars.len() {
            let i = self.at;
            self.at += 1;
            self.pulled.set(self.at);
            Some(Item { id: i as u32, ch: self.chars[i] })
        } else {
            None
        }
    }
}
pub fn source(input: &[char]) -> (Source, Rc<Cell<usize>>, Rc<Cell<usize>>) {
    let (p, c) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
    (Source { chars: input.to_vec(), at: 0, hint: Hint::new(&input), pulled: p.clone(), calls: c.clone() }, p, c)
}

pub struct Observed {
    pub toks: Vec<Tok>,
    /// items pulled / source calls when the token was handed over
    pub pulled: Vec<usize>,
    pub calls: Vec<usize>,
    pub at_end: (usize, usize),
    pub before: usize,
}
pub fn observe(t: &Tk, input: &[char]) -> Result<Observed, Bad> {
    set_budget(40 * (input.len() as u64 + 4) * (input.len() as u64 + 4) + 1000);
    guard(|| {
        let (s, p, c) = source(input);
        let mut it = s.tokenize_with(t, |i: &Item| i.ch);
        let before = c.get();
        let mut o = Observed { toks: vec![], pulled: vec![], calls: vec![], at_end: (0, 0), before };
        while let Some(tok) = it.next() {
            o.toks.push(tok);
            o.pulled.push(p.get());
            o.calls.push(c.get());
            if o.toks.len() > 2 * input.len() + 4 {
                std::panic::panic_any(Budget);
            }
        }
        o.at_end = (p.get(), c.get());
        o
    })
}
pub fn show(pats: &[String], input: &[char]) -> String {
    format!("patterns {}, input {}", cut(format!("{:?}", pats), 1200), cut(format!("{:?}", input.iter().collect::<String>()), 600))
}
fn short(t: &[Tok]) -> Vec<(usize, &str)> {
    t.iter().take(40).map(|t| (t.pat, t.text.as_str())).collect()
}
fn text(input: &[char], w: &Want) -> String {
    input[w.start..w.end].iter().collect()
}

pub fn check_longest(pats: &[String], input: &[char], want: &[Want], got: &[Tok]) -> Verdict {
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            None => return Err(format!("{}: stream ended after {} tokens, but pattern {} matches {:?} next; got {:?}", show(pats, input), i, w.pat, text(input, w), short(got))),
            Some(g) if g.pat != w.pat || g.text != text(input, w) => {
                return Err(format!("{}: token {} is pattern {} with {:?}, must be pattern {} with {:?}", show(pats, input), i, g.pat, g.text, w.pat, text(input, w)))
            }
            _ => {}
        }
    }
    if got.len() > want.len() {
        return Err(format!("{}: token {} (pattern {}, {:?}) where no pattern matches", show(pats, input), want.len(), got[want.len()].pat, got[want.len()].text));
    }
    Ok(())
}
/// `lex`: with it, the end of the stream is judged too.
pub fn check_cover(pats: &[String], input: &[char], lex: Option<&mut Lex>, got: &[Tok]) -> Verdict {
    let mut pos = 0;
    for (i, g) in got.iter().enumerate() {
        if g.chars.is_empty() {
            return Err(format!("{}: token {} is empty", show(pats, input), i));
        }
        let n = g.chars.len();
        if g.ids != (pos as u32..(pos + n) as u32).collect::<Vec<_>>() || pos + n > input.len() || g.chars != input[pos..pos + n] {
            return Err(format!("{}: token {} got items {:?} {:?}, the next items are from {}", show(pats, input), i, g.ids, g.chars, pos));
        }
        let s: String = g.chars.iter().collect();
        if g.text != s {
            return Err(format!("{}: token {} got text {:?} with items {:?}", show(pats, input), i, g.text, s));
        }
        pos += n;
    }
    // end of stream only where nothing matches
    if let Some(l) = lex {
        let mut s = 0;
        for (k, c) in input[pos..].iter().enumerate() {
            s = l.step(s, *c);
            if s < 0 {
                break;
            }
            if let Some(p) = l.accept(s).first() {
                return Err(format!("{}: the stream ended at item {} after {} tokens, though pattern {} matches the next {} items", show(pats, input), pos, got.len(), p, k + 1));
            }
        }
    }
    Ok(())
}
/// Number of items after which no match that starts at `pos` can be continued; `None`: only the end of input tells.
fn settles(lex: &mut Lex, input: &[char], pos: usize) -> Option<usize> {
    let mut s = 0;
    for i in pos..input.len() {
        s = lex.step(s, input[i]);
        if s < 0 {
            return Some(i + 1);
        }
    }
    None
}
pub fn check_lazy(pats: &[String], input: &[char], lex: &mut Lex, o: &Observed) -> Verdict {
    if o.before != 0 {
        return Err(format!("{}: creating the stream pulled {} times", show(pats, input), o.before));
    }
    let mut allowed = 0usize;
    let mut pos = 0;
    for (i, t) in o.toks.iter().enumerate() {
        match settles(lex, input, pos) {
            Some(s) => allowed = allowed.max(s),
            None => return Ok(()), // from here on the whole input may have been read
        }
        if o.calls[i] > allowed {
            return Err(format!("{}: {} reads of the source when token {} ({:?}) appeared, {} items settle it", show(pats, input), o.calls[i], i, t.text, allowed));
        }
        pos += t.chars.len();
    }
    if let Some(s) = settles(lex, input, pos) {
        if o.at_end.1 > allowed.max(s) {
            return Err(format!("{}: {} reads of the source when the stream ended, {} items settle it", show(pats, input), o.at_end.1, allowed.max(s)));
        }
    }
    Ok(())
}
/// The tokens that need no end of the input come from a source without an end, too.
pub fn check_endless(pats: &[String], input: &[char], t: &Tk, want: &[Want], o: &Observed, ctx: &mut Ctx) -> Verdict {
    let n = want.iter().take_while(|w| w.settled.is_some()).count();
    if n == 0 || o.toks.len() < n {
        return Ok(());
    }
    set_budget(40 * (input.len() as u64 + 4) * (input.len() as u64 + 4) + 1000);
    no_end(true);
    let got = guard(|| {
        let (s, _, _) = source(input);
        s.tokenize_with(t, |i: &Item| i.ch).take(n).collect::<Vec<_>>()
    });
    no_end(false);
    let got = got.map_err(|b| format!("{} and on without an end: {}", show(pats, input), b))?;
    ctx.stat("tokens from sources that claim to be endless", n as u64);
    if got != o.toks[..n] {
        return Err(format!("{} and on without an end: {:?}", show(pats, input), short(&got)));
    }
    Ok(())
}
fn nontrivial(want: &[Want], input: &[char]) -> bool {
    // at least two tokens or a token after which characters had to be handed back
    !want.is_empty() && (want.len() > 1 || want.iter().any(|w| w.settled.map_or(w.end < input.len(), |s| s > w.end + 1)))
}

pub fn case_stream(prop: &str, stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let mut pats = tokgen::lists(stage, index, rng);
    let mut lex = tokgen::lex_for(&pats);
    for _ in 0..20 {
        if lex.is_some() {
            break;
        }
        ctx.stat("pattern lists skipped (too big, or with empty sub-expression)", 1);
        pats = tokgen::lists("random", index, rng);
        lex = tokgen::lex_for(&pats);
    }
    let Some(mut lex) = lex else { return Ok(()) };
    let (tk, _) = must_build(&pats)?;
    // by value and over plain characters, a share of the inputs
    let mut own = match build_c(&pats) {
        Ok(Ok((t, _))) => Some(t),
        Ok(Err(e)) => return Err(format!("second build of {:?} failed: {}", pats, e)),
        Err(b) => return Err(format!("second build of {:?}: {}", pats, b)),
    };
    ctx.stat("pattern lists", 1);
    ctx.stat("reference states", lex.nstates() as u64);
    ctx.max("reference states", lex.nstates() as u64);
    ctx.max("patterns", pats.len() as u64);
    let key = hash_of(&pats);
    let inputs = tokgen::inputs(&mut lex, rng, if stage == "curated" { 700 } else { 120 });
    let mut offset_map_done = false;
    for (n, input) in inputs.iter().enumerate() {
        let (want, _) = expected(&mut lex, input);
        let o = observe(&tk, input).map_err(|b| format!("{}: {}", show(&pats, input), b))?;
        ctx.saw(if nontrivial(&want, input) { Some(hash_of(&(key, input))) } else { None });
        ctx.stat("tokens observed", o.toks.len() as u64);
        ctx.stat("items observed", input.len() as u64);
        ctx.stat("tokens with handed-back look-ahead", want.iter().filter(|w| w.settled.map_or(w.end < input.len(), |s| s > w.end + 1)).count() as u64);
        ctx.max("token length", want.iter().map(|w| w.end - w.start).max().unwrap_or(0) as u64);
        ctx.max("characters handed back", want.iter().map(|w| w.settled.unwrap_or(input.len()) - w.end).max().unwrap_or(0) as u64);
        match prop {
            "C01" => check_longest(&pats, input, &want, &o.toks)?,
            "C02" => check_cover(&pats, input, Some(&mut lex), &o.toks)?,
            _ => {
                check_lazy(&pats, input, &mut lex, &o)?;
                if n % 5 == 0 {
                    check_endless(&pats, input, &tk, &want, &o, ctx)?
                }
            }
        }
        if n % 5 == 0 && prop != "C03" {
            // the same input as plain characters
            set_budget(1000 + 40 * (input.len() as u64 + 4) * (input.len() as u64 + 4));
            // now and then by value, which goes through code of its own
            let got = if n % 40 == 20 && tk.goto.len() < 400 {
                let Ok(Ok((t, _))) = build_c(&pats) else { return Err(format!("another build of {:?} failed", pats)) };
                ctx.stat("inputs cut by a tokenizer handed over by value", 1);
                guard(|| input.iter().copied().tokenize(t).take(2 * input.len() + 4).collect::<Vec<_>>())
            } else {
                let t = own.as_ref().unwrap();
                guard(|| input.iter().copied().tokenize(t).take(2 * input.len() + 4).collect::<Vec<_>>())
            };
            let got = got.map_err(|b| format!("{}: {}", show(&pats, input), b))?;
            let got: Vec<Tok> = renumber(got);
            ctx.saw(None);
            if prop == "C01" {
                check_longest(&pats, input, &want, &got)?
            } else {
                check_cover(&pats, input, Some(&mut lex), &got)?
            }
        }
        if prop == "C02" && n % 11 == 3 && !offset_map_done {
            // items whose character is computed by the mapping function
            offset_map_done = true;
            let items: Vec<Item> = input.iter().enumerate().map(|(i, c)| Item { id: i as u32, ch: *c }).collect();
            let shifted: Vec<char> = input.clone();
            let got = guard(|| {
                let key = RefCell::new(0usize);
                items
                    .into_iter()
                    .map(|i| Item { id: i.id, ch: '\u{1}' })
                    .tokenize_with(&tk, |i: &Item| {
                        *key.borrow_mut() += 1;
                        shifted[i.id as usize]
                    })
                    .take(2 * input.len() + 4)
                    .collect::<Vec<_>>()
            })
            .map_err(|b| format!("{}: {}", show(&pats, input), b))?;
            let mut pos = 0;
            for (i, g) in got.iter().enumerate() {
                let n = g.ids.len();
                if g.ids.iter().enumerate().any(|(k, id)| *id as usize != pos + k) || g.chars.iter().any(|c| *c != '\u{1}') || n == 0 || g.text != shifted[pos..pos + n].iter().collect::<String>() {
                    return Err(format!("{}: mapped items: token {} got items {:?} and text {:?} at {}", show(&pats, input), i, g.ids, g.text, pos));
                }
                pos += n;
            }
            if got.len() != o.toks.len() {
                return Err(format!("{}: mapped items: {} tokens instead of {}", show(&pats, input), got.len(), o.toks.len()));
            }
            ctx.saw(None);
        }
        ctx.sample(997, || format!("{} -> {:?}", show(&pats, input), short(&o.toks)));
    }
    if prop != "C03" {
        // last input: tokenizer passed by value
        if let (Some(t), Some(input)) = (own.take(), inputs.iter().max_by_key(|i| i.len())) {
            let (want, _) = expected(&mut lex, input);
            set_budget(1000 + 40 * (input.len() as u64 + 4) * (input.len() as u64 + 4));
            let got = guard(|| input.iter().copied().tokenize(t).take(2 * input.len() + 4).collect::<Vec<_>>()).map_err(|b| format!("{}: {}", show(&pats, input), b))?;
            let got = renumber(got);
            if prop == "C01" {
                check_longest(&pats, input, &want, &got)?
            } else {
                check_cover(&pats, input, Some(&mut lex), &got)?
            }
        }
    }
    // inputs that end in the middle of a long look-ahead many times over
    if stage == "curated" {
        let comp = lex.completion();
        let mut s = String::new();
        for _ in 0..200 {
            let len = rng.below(6);
            s.push_str(&lex.walk(rng, len, &comp));
        }
        let input: Vec<char> = s.chars().collect();
        let (want, _) = expected(&mut lex, &input);
        let o = observe(&tk, &input).map_err(|b| format!("{}: {}", show(&pats, &input), b))?;
        ctx.saw(Some(hash_of(&(key, &input))));
        match prop {
            "C01" => check_longest(&pats, &input, &want, &o.toks)?,
            "C02" => check_cover(&pats, &input, Some(&mut lex), &o.toks)?,
            _ => check_lazy(&pats, &input, &mut lex, &o)?,
        }
    }
    Ok(())
}
fn renumber(v: Vec<Tok>) -> Vec<Tok> {
    let mut n = 0u32;
    v.into_iter()
        .map(|mut t| {
            t.ids = t.chars.iter().enumerate().map(|(i, _)| n + i as u32).collect();
            n += t.chars.len() as u32;
            t
        })
        .collect()
}

/// Big lists, long tokens, long streams.
pub fn case_big(prop: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let (pats, inputs) = tokgen::big(index, rng, 2049);
    let Some(mut lex) = Lex::new(&pats) else { return Err(format!("the reference does not know {:?}", pats)) };
    let (tk, _) = must_build(&pats).map_err(|m| cut(m, 2000))?;
    ctx.stat("big pattern lists", 1);
    ctx.max("patterns", pats.len() as u64);
    ctx.max("states", tk.goto.len() as u64);
    let key = hash_of(&pats);
    for input in &inputs {
        let (want, _) = expected(&mut lex, input);
        let o = observe(&tk, input).map_err(|b| format!("{}: {}", show(&pats, input), b))?;
        ctx.saw(if nontrivial(&want, input) { Some(hash_of(&(key, input))) } else { None });
        ctx.stat("tokens observed", o.toks.len() as u64);
        ctx.stat("items observed", input.len() as u64);
        ctx.max("token length", want.iter().map(|w| w.end - w.start).max().unwrap_or(0) as u64);
        ctx.max("input length", input.len() as u64);
        ctx.max("characters handed back", want.iter().map(|w| w.settled.unwrap_or(input.len()) - w.end).max().unwrap_or(0) as u64);
        match prop {
            "C01" => check_longest(&pats, input, &want, &o.toks)?,
            "C02" => check_cover(&pats, input, Some(&mut lex), &o.toks)?,
            _ => check_lazy(&pats, input, &mut lex, &o)?,
        }
    }
    Ok(())
}

/// Exhaustive small words over a tiny alphabet for one random pattern list.
pub fn case_exhaustive(prop: &str, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let alpha = ['a', 'b', 'c'];
    let n = rng.range(1, 3);
    let pats: Vec<String> = {
        let mut g = tokgen::Gen { rng, alpha: &['a', 'b', 'c'], big: false };
        (0..n)
            .map(|_| {
                let d = g.rng.range(1, 3);
                g.re(d)
            })
            .collect()
    };
    let Some(mut lex) = tokgen::lex_for(&pats) else {
        ctx.stat("pattern lists skipped (too big, or with empty sub-expression)", 1);
        return Ok(());
    };
    let (tk, _) = must_build(&pats)?;
    ctx.stat("pattern lists", 1);
    let key = hash_of(&pats);
    for len in 0..=6usize {
        for code in 0..3usize.pow(len as u32) {
            let mut c = code;
            let input: Vec<char> = (0..len)
                .map(|_| {
                    let x = alpha[c % 3];
                    c /= 3;
                    x
                })
                .collect();
            let (want, _) = expected(&mut lex, &input);
            let o = observe(&tk, &input).map_err(|b| format!("{}: {}", show(&pats, &input), b))?;
            ctx.saw(if nontrivial(&want, &input) { Some(hash_of(&(key, &input))) } else { None });
            ctx.stat("tokens observed", o.toks.len() as u64);
            match prop {
                "C01" => check_longest(&pats, &input, &want, &o.toks)?,
                "C02" => check_cover(&pats, &input, Some(&mut lex), &o.toks)?,
                _ => check_lazy(&pats, &input, &mut lex, &o)?,
            }
        }
    }
    Ok(())
}

/// Nullable patterns and patterns with empty sub-expressions: only conservation and termination are judged, not which text matches.
pub fn case_c02_any(rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    const P: &[&str] = &["", "a|", "()a", "a||b", "(|b)*c", "a*", "(a|b)*", "a?", "b{0}", "(a?b?)*", "c{0,2}", "(?:)", "(a*)*", "((a)|)+"];
    let n = rng.range(1, 3);
    let pats: Vec<String> = (0..n).map(|_| rng.pick(P).to_string()).collect();
    let (tk, _) = must_build(&pats)?;
    ctx.stat("pattern lists", 1);
    for _ in 0..40 {
        let input: Vec<char> = (0..rng.below(9)).map(|_| *rng.pick(&['a', 'b', 'c', 'd'])).collect();
        let o = observe(&tk, &input).map_err(|b| format!("{}: {}", show(&pats, &input), b))?;
        ctx.saw(if o.toks.is_empty() { None } else { Some(hash_of(&(&pats, &input))) });
        check_cover(&pats, &input, None, &o.toks)?;
    }
    Ok(())
}

/// Many builds of one list (hash seeds and heap layout differ each time), judged on covering inputs.
pub fn case_rebuild(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let mut pats = tokgen::lists(stage, index, rng);
    let mut lex = tokgen::lex_for(&pats);
    for _ in 0..20 {
        if lex.is_some() && lex.as_ref().unwrap().nstates() < 200 {
            break;
        }
        pats = tokgen::lists("random", index, rng);
        lex = tokgen::lex_for(&pats);
    }
    let Some(mut lex) = lex else { return Ok(()) };
    let inputs = tokgen::inputs(&mut lex, rng, 60);
    let wants: Vec<_> = inputs.iter().map(|i| expected(&mut lex, i)).collect();
    for _ in 0..12 {
        let (tk, _) = must_build(&pats)?;
        ctx.stat("rebuilds", 1);
        for (input, (want, _)) in inputs.iter().zip(&wants) {
            let o = observe(&tk, input).map_err(|b| format!("{}: {}", show(&pats, input), b))?;
            ctx.saw(if nontrivial(want, input) { Some(hash_of(&(&pats, input))) } else { None });
            check_longest(&pats, input, want, &o.toks)?;
        }
    }
    Ok(())
}

/// The listed inputs on which empty sub-expressions are known to match arbitrary text. Returns the ones that still do.
pub fn known_empty() -> Vec<(String, String, String, String)> {
    let mut out = Vec::new();
    for (p, i, wanted) in [("", "abc", ""), ("a|", "axyz", "a"), ("()a", "zzza", ""), ("a||b", "c", "")] {
        let pats = vec![p.to_string()];
        if let Ok(Ok((tk, _))) = build(&pats) {
            let input: Vec<char> = i.chars().collect();
            if let Ok(o) = observe(&tk, &input) {
                let first = o.toks.first().map(|t| t.text.clone()).unwrap_or_default();
                out.push((p.to_string(), i.to_string(), first, wanted.to_string()));
            }
        }
    }
    out
}

pub fn case_c04(stage: &str, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let n = match stage {
        "single" => 1,
        _ => rng.below(5),
    };
    let mut pats: Vec<String> = (0..n)
        .map(|_| {
            if stage == "mixed" && rng.chance(2, 3) {
                let d = rng.below(3);
                tokgen::Gen::new(rng).re(d)
            } else {
                tokgen::wild_pattern(rng)
            }
        })
        .collect();
    let mut want_ok = true;
    let mut size = 0;
    let mut kinds = BTreeSet::new();
    for p in &pats {
        match rx::parse(p) {
            None => {
                want_ok = false;
                kinds.insert("invalid");
            }
            Some(h) => {
                size += rx::unrolled(&h);
                match rx::support(&h) {
                    Support::No => {
                        want_ok = false;
                        kinds.insert("unsupported");
                    }
                    Support::HasEmpty => {
                        kinds.insert("with empty sub-expression");
                    }
                    Support::Yes => {
                        kinds.insert("supported");
                    }
                }
            }
        }
    }
    if size > 600 {
        pats.truncate(1);
        ctx.stat("lists skipped as too big", 1);
        return Ok(());
    }
    if want_ok {
        // keep the automaton small
        let ok = match Lex::new(&pats) {
            Some(mut l) => l.explore(300, 60_000).is_ok(),
            None => pats.iter().map(|p| rx::parse(p)).all(|h| h.map_or(false, |h| rx::unrolled(&h) < 60)),
        };
        if !ok {
            ctx.stat("lists skipped as too big", 1);
            return Ok(());
        }
    }
    for k in &kinds {
        ctx.stat(&format!("lists containing a pattern that is {}", k), 1);
    }
    if pats.is_empty() {
        ctx.stat("empty lists", 1);
    }
    let r = build(&pats).map_err(|b| format!("building {:?}: {}", pats, b))?;
    ctx.saw(Some(hash_of(&pats)));
    ctx.sample(499, || format!("{:?} -> {}", pats, r.is_ok()));
    match (want_ok, r) {
        (true, Err(e)) => Err(format!("building {:?} failed though all patterns are supported: {}", pats, e)),
        (false, Ok(_)) => Err(format!("building {:?} succeeded though a pattern is invalid or unsupported", pats)),
        (true, Ok((tk, w))) => {
            if pats.is_empty() {
                let o = observe(&tk, &['a', 'b']).map_err(|b| format!("empty list: {}", b))?;
                if !o.toks.is_empty() || !w.is_empty() {
                    return Err(format!("the empty list yields tokens or warnings: {:?} {:?}", o.toks, w));
                }
            }
            // it can be used, too
            let input: Vec<char> = "ab0 é\u{10ffff}a".chars().collect();
            observe(&tk, &input).map_err(|b| format!("{}: {}", show(&pats, &input), b))?;
            Ok(())
        }
        _ => Ok(()),
    }
}

fn ints(s: &str) -> Vec<usize> {
    let mut out = Vec::new();
    let mut cur: Option<usize> = None;
    for c in s.chars() {
        if let Some(d) = c.to_digit(10) {
            cur = Some(cur.unwrap_or(0).saturating_mul(10).saturating_add(d as usize));
        } else if let Some(v) = cur.take() {
            out.push(v)
        }
    }
    out.extend(cur);
    out
}
pub fn case_c05(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let pats = if stage == "big" {
        tokgen::big(index, rng, 700).0
    } else if stage == "pairs" {
        // heavily overlapping: several patterns over one tiny alphabet
        let n = rng.range(2, 5);
        let mut g = tokgen::Gen { rng, alpha: &['a', 'b'], big: false };
        (0..n)
            .map(|_| {
                let d = g.rng.below(3);
                g.re(d)
            })
            .collect()
    } else {
        tokgen::lists(stage, index, rng)
    };
    let lex = if stage == "big" { Lex::new(&pats).and_then(|mut l| l.explore(4000, 4_000_000).is_ok().then_some(l)) } else { tokgen::lex_for(&pats) };
    let Some(lex) = lex else {
        ctx.stat("pattern lists skipped (too big, or with empty sub-expression)", 1);
        return Ok(());
    };
    ctx.max("patterns", pats.len() as u64);
    let want = lex.overlaps();
    for _ in 0..2 {
        let (_, w) = must_build(&pats)?;
        ctx.saw(if want.is_empty() { None } else { Some(hash_of(&pats)) });
        ctx.stat("warnings observed", w.len() as u64);
        ctx.stat(if want.is_empty() { "lists without overlap" } else { "lists with overlap" }, 1);
        ctx.stat("overlapping neighbour pairs", want.len() as u64);
        let parsed: Option<BTreeSet<(usize, usize)>> = w
            .iter()
            .map(|s| {
                let v = ints(s);
                if v.len() == 2 {
                    Some((v[0].min(v[1]), v[0].max(v[1])))
                } else {
                    None
                }
            })
            .collect();
        match parsed {
            Some(p) => {
                if p != want {
                    return Err(format!("patterns {:?}: overlaps reported {:?}, real {:?}", pats, p, want));
                }
            }
            None => {
                ctx.stat("warnings in an unknown format, judged by presence only", 1);
                if w.is_empty() != want.is_empty() {
                    return Err(format!("patterns {:?}: warnings {:?}, real overlaps {:?}", pats, w, want));
                }
            }
        }
        ctx.sample(199, || format!("{:?} -> {:?}", pats, want));
    }
    Ok(())
}

/// Canonical form of an automaton: breadth-first numbering from the start along ordered ranges.
pub type Canon = Vec<(Option<usize>, Vec<(u32, u32, usize)>)>;
pub fn canon<E, T>(t: &DFATokenizer<E, T>) -> Result<Canon, String> {
    let n = t.goto.len();
    let mut num: HashMap<usize, usize> = HashMap::new();
    let mut order = vec![t.begin];
    num.insert(t.begin, 0);
    let mut i = 0;
    while i < order.len() {
        let s = order[i];
        if s >= n {
            return Err(format!("state {} does not exist", s));
        }
        let mut rs: Vec<(u32, usize)> = t.goto[s].iter().map(|(r, v)| (r.range.start, *v)).collect();
        rs.sort();
        for (_, v) in rs {
            if !num.contains_key(&v) {
                num.insert(v, order.len());
                order.push(v);
            }
        }
        i += 1;
    }
    if order.len() != n {
        return Err(format!("{} of {} states cannot be reached", n - order.len(), n));
    }
    for k in t.end.keys() {
        if *k >= n {
            return Err(format!("accepting state {} does not exist", k));
        }
    }
    Ok(order
        .iter()
        .map(|s| {
            let mut v: Vec<(u32, u32, usize)> = t.goto[*s].iter().map(|(r, v)| (r.range.start, r.range.end, num[v])).collect();
            v.sort();
            (t.end.get(s).copied(), v)
        })
        .collect())
}
fn well_formed(c: &Canon, npats: usize) -> Verdict {
    for (i, (e, v)) in c.iter().enumerate() {
        if e.map_or(false, |e| e >= npats) {
            return Err(format!("state {} accepts pattern {:?} of {}", i, e, npats));
        }
        for (a, b, _) in v {
            if a >= b || *b > 0x110000 {
                return Err(format!("state {} has the range {}..{}", i, a, b));
            }
        }
        for w in v.windows(2) {
            if w[0].1 > w[1].0 {
                return Err(format!("state {} has overlapping ranges {:?} {:?}", i, w[0], w[1]));
            }
        }
    }
    Ok(())
}
/// Number of states that can be told apart by some continuation (the missing transition is a sink of its own).
fn classes(c: &Canon) -> usize {
    let mut bounds: Vec<u32> = vec![0];
    for (_, v) in c {
        for (a, b, _) in v {
            bounds.push(*a);
            bounds.push(*b);
        }
    }
    bounds.sort();
    bounds.dedup();
    let next = |s: usize, ch: u32| -> usize {
        let v = &c[s].1;
        let i = v.partition_point(|r| r.0 <= ch);
        if i > 0 && ch < v[i - 1].1 {
            v[i - 1].2
        } else {
            c.len()
        }
    };
    let table: Vec<Vec<usize>> = (0..c.len()).map(|s| bounds.iter().map(|b| next(s, *b)).collect()).collect();
    let mut cls: Vec<usize> = c.iter().map(|(e, _)| e.map_or(0, |x| x + 1)).collect();
    cls.push(usize::MAX);
    loop {
        let mut ids: BTreeMap<(usize, Vec<usize>), usize> = BTreeMap::new();
        let mut new = Vec::new();
        for s in 0..c.len() {
            let key = (cls[s], table[s].iter().map(|t| cls[*t]).collect::<Vec<_>>());
            let n = ids.len();
            new.push(*ids.entry(key).or_insert(n));
        }
        let before = cls[..c.len()].iter().collect::<BTreeSet<_>>().len();
        let done = ids.len() == before;
        new.push(usize::MAX);
        cls = new;
        if done {
            return ids.len();
        }
    }
}
pub fn case_c06(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    if stage == "big" {
        let pats = tokgen::big(index, rng, 300).0;
        return c06_list(&pats, 2, false, rng, ctx).map_err(|m| cut(m, 3000));
    }
    let mut pats = tokgen::lists(stage, index, rng);
    let cap = if stage == "many" { 60 } else { 700 };
    let mut ok = false;
    for _ in 0..20 {
        if let Some(l) = tokgen::lex_for(&pats) {
            if l.nstates() <= cap {
                ok = true;
                break;
            }
        }
        pats = tokgen::lists("random", index, rng);
    }
    if !ok {
        return Ok(());
    }
    c06_list(&pats, if stage == "many" { 40 } else { 5 }, false, rng, ctx)
}
fn c06_list(pats: &[String], builds: usize, shared: bool, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let mut first: Option<Canon> = None;
    let mut junk: Vec<Vec<u8>> = Vec::new();
    for b in 0..builds {
        let (tk, _) = must_build(pats)?;
        let c = canon(&tk).map_err(|e| format!("patterns {:?}: {}", pats, e))?;
        well_formed(&c, pats.len()).map_err(|e| format!("patterns {:?}: {}", pats, e))?;
        let k = classes(&c);
        if k != c.len() {
            return Err(format!("patterns {:?}: {} states, of which only {} can be told apart", pats, c.len(), k));
        }
        ctx.saw(if c.len() > 2 { Some(hash_of(&(pats, b))) } else { None });
        ctx.stat("automata", 1);
        ctx.stat("states inspected", c.len() as u64);
        ctx.max("states", c.len() as u64);
        if let Some(f) = &first {
            if *f != c {
                return Err(format!("patterns {:?}: build {} differs from build 0: {:?} / {:?}", pats, b, c, f));
            }
        } else {
            ctx.sample(97, || format!("{:?} -> {} states", pats, c.len()));
            if shared {
                ctx.facts.insert(format!("{:?}", pats), format!("{:016x}", hash_of(&c)));
            }
            first = Some(c);
        }
        // disturb the heap so that node addresses come in another order
        for _ in 0..rng.below(40) {
            junk.push(vec![0; rng.below(200)]);
        }
        if rng.chance(1, 2) {
            rng.shuffle(&mut junk);
            let keep = junk.len() / 2;
            junk.truncate(keep);
        }
    }
    Ok(())
}

/// C07: build, use, fail to build, drop; the live bytes of the thread must return to where they were.
pub fn case_c07(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let mut given = None;
    let mut pats: Vec<String> = match stage {
        "big" => {
            let (p, mut i) = tokgen::big(index, rng, 2049);
            rng.shuffle(&mut i);
            i.truncate(6);
            given = Some(i);
            p
        }
        "errors" => {
            let n = rng.range(1, 3);
            let mut v: Vec<String> = (0..n)
                .map(|_| {
                    let d = rng.below(3);
                    tokgen::Gen::new(rng).re(d)
                })
                .collect();
            let p = tokgen::wild_pattern(rng);
            let at = rng.below(v.len() + 1);
            v.insert(at, p);
            v
        }
        "tiny" => {
            const P: &[&[&str]] = &[&["a*b|c", "[a-c]+"], &["(ab?){1,2}", "b"], &["x(ba*)?", "[0-3]|[2-5]"], &["(a|b)*c", "c{2,}"], &["", "a|"], &["^a"], &["(?:a+b)?", "é"], &["a{0}", "[^a]"], &["a{3}", "(b|c){0,2}"], &["(", "a"], &[], &["(?s:.)x", "a"], &["a{2,3}|b{1,}", "a"], &["(?-u:a)", "b"], &["(a{0,2}){2}"], &["[a-z]&&b", "\\bx"]];
            P[index as usize % P.len()].iter().map(|s| s.to_string()).collect()
        }
        _ => tokgen::lists(stage, index, rng),
    };
    let mut lex = None;
    for _ in 0..if given.is_some() { 0 } else { 20 } {
        let bounded = pats.iter().all(|p| rx::parse(p).map_or(true, |h| rx::unrolled(&h) < 300));
        let sup = pats.iter().all(|p| rx::parse(p).map_or(false, |h| rx::support(&h) != Support::No && !rx::has_empty_class(&h)));
        if bounded && !sup {
            break;
        }
        if bounded {
            if let Some(mut l) = Lex::new(&pats) {
                if l.explore(200, 30_000).is_ok() {
                    lex = Some(l);
                    break;
                }
            }
        }
        pats = tokgen::lists("random", index, rng);
    }
    let inputs = match (given, &mut lex) {
        (Some(i), _) => i,
        (_, Some(l)) => tokgen::inputs(l, rng, if stage == "tiny" { 6 } else { 20 }),
        _ => vec!["abc".chars().collect()],
    };
    let abandon = rng.below(3);
    let (mut built, mut toks) = (0u64, 0u64);
    let mut msg = None;
    // lazily initialised globals of the standard library are filled by something unrelated first
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| {
        let warm: Vec<String> = vec!["(q|w)*e{2}".into(), "[r-t]".into(), "(?i:k)".into()];
        if let Ok(Ok((tk, _))) = build(&warm) {
            let _ = observe(&tk, &"qwee".chars().collect::<Vec<_>>());
        }
        let _ = build(&["^(".to_string()]);
        let _ = build(&["a$".to_string()]);
    });
    for _round in 0..2 {
        let before = live_bytes();
        {
            match build(&pats) {
                Err(b) => msg = Some(format!("building {:?}: {}", pats, b)),
                Ok(Ok((tk, _w))) => {
                    built += 1;
                    for (n, i) in inputs.iter().enumerate() {
                        if n % 3 == abandon {
                            // abandon the stream in the middle
                            set_budget(u64::MAX);
                            let (s, _, _) = source(i);
                            let mut it = s.tokenize_with(&tk, |i: &Item| i.ch);
                            let _ = guard(|| it.next());
                        }
                        match observe(&tk, i) {
                            Ok(o) => toks += o.toks.len() as u64,
                            Err(b) => msg = Some(format!("{}: {}", show(&pats, i), b)),
                        }
                    }
                }
                Ok(Err(_)) => {}
            }
        }
        if let Some(m) = msg {
            return Err(m);
        }
        let after = live_bytes();
        if after != before {
            return Err(format!("patterns {:?}: {} bytes stay allocated after everything is dropped", pats, after - before));
        }
    }
    ctx.saw(Some(hash_of(&pats)));
    ctx.stat("tokenizers built and dropped", built);
    ctx.stat("failed builds", if built == 0 { 2 } else { 0 });
    ctx.stat("tokens observed", toks);
    ctx.sample(97, || format!("{:?}: {} builds, {} tokens, balance 0", pats, built, toks));
    Ok(())
}

/// Curated lists, many builds each.
pub fn case_c06_many_curated(index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let pats = tokgen::lists("curated", index, rng);
    match tokgen::lex_for(&pats) {
        Some(l) if l.nstates() <= 120 => {}
        _ => return Ok(()),
    }
    c06_list(&pats, 30, false, rng, ctx)
}
/// The same lists in every process: the driver compares the canonical forms across processes.
pub fn case_c06_shared(index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let n = tokgen::CURATED.len() as u64 + 7;
    let pats = tokgen::lists(if index < n { "curated" } else { "random" }, index, rng);
    match tokgen::lex_for(&pats) {
        Some(l) if l.nstates() <= 400 => {}
        _ => return Ok(()),
    }
    c06_list(&pats, 1, true, rng, ctx)
}
