//! C26 (text to tree), C27 (what a parser holds is released), C28 (memory of a token stream).
use crate::gram::*;
use crate::par::{self, allowance, note, pick_from, same_as_reference, Ev, Kind, Res, Tt, cap_for};
use crate::rx::{expected, expected_within, Lex};
use crate::tok::{self, Item, Tok};
use crate::tokgen;
use crate::util::*;
use parser::enum_index::EnumIndex;
use parser::{LR1Parser, Parse, ParseError, Rule, Symbol, Syntax};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use tokenizer::Tokenize;

// ---------------------------------------------------------------- C26

/// Patterns with texts they match, or nearly match.
const WORDS: &[(&str, &[&str])] = &[
    ("if", &["if", "i", "iff"]),
    ("else", &["else", "el"]),
    ("[a-z_][a-z0-9_]*", &["x", "foo", "ifx", "else_", "_9"]),
    ("[0-9]+(\\.[0-9]+)?", &["0", "12", "3.5", "7."]),
    ("[0-9]+(\\.[0-9]+)?[eE][+-]?[0-9]+", &["1e5", "2.5E-3", "1e", "1e+"]),
    ("\\+", &["+"]),
    ("\\+\\+", &["++"]),
    ("-|->", &["-", "->"]),
    ("=", &["="]),
    ("==", &["=="]),
    ("===", &["===", "===="]),
    ("<(<=?)?", &["<", "<<", "<<="]),
    ("\\(", &["("]),
    ("\\)", &[")"]),
    ("\\[", &["["]),
    ("\\]", &["]"]),
    ("\\{", &["{"]),
    ("\\}", &["}"]),
    (";", &[";"]),
    (",", &[","]),
    ("\\.", &["."]),
    ("\\.\\.\\.", &["...", ".."]),
    ("\"([^\"\\\\]|\\\\.)*\"", &["\"\"", "\"a b\"", "\"\\\"\"", "\""]),
    ("'[^']'", &["'a'", "'漢'", "'"]),
    ("[А-Яа-я]+", &["Да", "я"]),
    ("[\\p{Han}]{1,3}", &["漢", "漢字", "漢字漢字"]),
    ("\\*", &["*"]),
    ("/", &["/"]),
    ("/=", &["/="]),
    ("#[A-F0-9]{2}", &["#0A", "#0"]),
    ("@+!", &["@!", "@@@@@!", "@@@"]),
    ("@", &["@"]),
];
const SKIP: &[&str] = &["[ \\t\\n]+", "/\\*([^*]|\\*+[^*/])*\\*+/", "//[^\\n]*\\n"];

struct Words {
    pats: Vec<String>,
    /// terminal (none: skipped) and texts of each pattern
    of: Vec<(Option<usize>, Vec<String>)>,
}
fn words(g: &Gram, rng: &mut Rng) -> Words {
    let mut pool: Vec<usize> = (0..WORDS.len()).collect();
    rng.shuffle(&mut pool);
    let mut all: Vec<(String, Option<usize>, Vec<String>)> = Vec::new();
    for t in 0..g.nt {
        match pool.pop() {
            Some(k) => all.push((WORDS[k].0.to_string(), Some(t), WORDS[k].1.iter().map(|s| s.to_string()).collect())),
            None => all.push((format!("w{}!", t), Some(t), vec![format!("w{}!", t), format!("w{}", t)])),
        }
    }
    // now and then a second pattern for a terminal
    if g.nt > 0 && rng.chance(1, 3) {
        if let Some(k) = pool.pop() {
            all.push((WORDS[k].0.to_string(), Some(rng.below(g.nt)), WORDS[k].1.iter().map(|s| s.to_string()).collect()));
        }
    }
    if let Some(k) = pool.pop() {
        all.push((WORDS[k].0.to_string(), Some(g.nt), WORDS[k].1.iter().map(|s| s.to_string()).collect()));
    }
    for (i, s) in SKIP.iter().enumerate() {
        if i == 0 || rng.chance(1, 2) {
            all.push((s.to_string(), None, [vec![" ", "\n\t "], vec!["/**/", "/* x */", "/*"], vec!["// y\n", "//"]][i].iter().map(|s| s.to_string()).collect()));
        }
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut all);
    }
    Words { pats: all.iter().map(|x| x.0.clone()).collect(), of: all.into_iter().map(|x| (x.1, x.2)).collect() }
}
fn render(w: &Words, toks: &[usize], rng: &mut Rng) -> Vec<char> {
    let style = rng.below(4);
    let mut s = String::new();
    for t in toks {
        let c: Vec<&Vec<String>> = w.of.iter().filter(|x| x.0 == Some(*t)).map(|x| &x.1).collect();
        if !c.is_empty() {
            let v = *rng.pick(&c);
            // the last texts of a list are near misses
            let k = if rng.chance(7, 8) { rng.below(v.len().min(2)) } else { rng.below(v.len()) };
            s.push_str(&v[k]);
        } else {
            s.push('?');
        }
        let sep = match style {
            0 => true,
            1 => false,
            _ => rng.chance(1, 2),
        };
        if sep {
            let c: Vec<&Vec<String>> = w.of.iter().filter(|x| x.0.is_none()).map(|x| &x.1).collect();
            s.push_str(&rng.pick(&c)[0]);
        }
    }
    let mut v: Vec<char> = s.chars().collect();
    if rng.chance(1, 5) && !v.is_empty() {
        let at = rng.below(v.len());
        match rng.below(3) {
            0 => {
                v.remove(at);
            }
            1 => v.insert(at, *rng.pick(&['?', ' ', 'x', '\u{10ffff}', '=', '\0'])),
            _ => v.truncate(at),
        }
    }
    v
}

/// Counts the characters taken, in `par::MARK`.
struct Chars<I>(I);
impl<I: Iterator> Iterator for Chars<I> {
    type Item = I::Item;
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn next(&mut self) -> Option<I::Item> {
        step();
        let c = self.0.next();
        if c.is_some() {
            par::MARK.with(|m| m.set(m.get() + 1));
        }
        c
    }
}

pub fn case_c26(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let kind = match (stage, index % 3) {
        ("curated", _) => Kind::Any,
        (_, 0) => Kind::Clean,
        (_, 1) => Kind::Error,
        _ => Kind::Any,
    };
    let Some((g, lr)) = pick_from(kind, stage, index, rng, ctx, true) else { return Ok(()) };
    let w = words(&g, rng);
    let Some(mut lex) = Lex::new(&w.pats) else { return Ok(()) };
    note(ctx, &g, &lr);
    let (p, _) = par::build(&g)?;
    let (tk, _) = tok::must_build(&w.pats)?;
    let mut by_value = match tok::build_c(&w.pats) {
        Ok(Ok((t, _))) => Some(t),
        _ => None,
    };
    let mut seqs = inputs(&g, Some(&lr), rng, if stage == "curated" { 120 } else { 40 });
    rng.shuffle(&mut seqs);
    seqs.truncate(if stage == "curated" { 400 } else { 60 });
    let mut endless = 0;
    let key = hash_of(&(&g, &w.pats));
    for toks in seqs {
        let input = render(&w, &toks, rng);
        let (want, fin) = expected(&mut lex, &input);
        // characters that may have been read once raw token i is known
        let mut bound = Vec::with_capacity(want.len() + 1);
        let mut far = 0;
        for t in &want {
            far = far.max(t.settled.unwrap_or(input.len()));
            bound.push(far);
        }
        bound.push(far.max(fin.unwrap_or(input.len())));
        let kept: Vec<usize> = (0..want.len()).filter(|i| w.of[want[*i].pat].0.is_some()).collect();
        let toks: Vec<usize> = kept.iter().map(|i| w.of[want[*i].pat].0.unwrap()).collect();
        let Some(steps) = allowance(&lr, &toks, &mut endless) else {
            ctx.stat("inputs skipped: the reference automaton does not end within its steps", 1);
            continue;
        };
        let mut seen = Vec::new();
        let (ev, out, notes) = drive_seen(&lr, &toks, cap_for(toks.len()), &mut seen);
        let say = || format!("{}; {}", tok::show(&w.pats, &input), par::show(&g, &toks));
        let log: RefCell<Vec<Tok>> = RefCell::new(Vec::new());
        let number = Cell::new(0);
        let keep = |t: Tok| -> Option<Tt> {
            let of = w.of.get(t.pat).and_then(|x| x.0);
            log.borrow_mut().push(t);
            of.map(|idx| {
                let id = number.get();
                number.set(id + 1);
                Tt { idx, id }
            })
        };
        let budget = steps + 40 * (input.len() as u64 + 4) * (input.len() as u64 + 4);
        let value = by_value.is_some() && rng.chance(1, 20);
        let r = par::run_any(budget, || {
            if value {
                Chars(input.iter().copied()).tokenize(by_value.take().unwrap()).filter_map(keep).parse(&p)
            } else {
                Chars(input.iter().enumerate().map(|(i, c)| Item { id: i as u32, ch: *c })).tokenize_with(&tk, |i: &Item| i.ch).filter_map(keep).parse(&p)
            }
        })
        .map_err(|b| format!("{}: {}", say(), b))?;
        let bad = |m: String| Err(format!("{}: {}", say(), m));
        let log = log.into_inner();
        for (i, t) in log.iter().enumerate() {
            let Some(x) = want.get(i) else { return bad(format!("token {} ({:?}) is one too many", i, t.text)) };
            let text: String = input[x.start..x.end].iter().collect();
            if t.pat != x.pat || t.text != text || t.chars != input[x.start..x.end] || (!value && t.ids.iter().copied().ne(x.start as u32..x.end as u32)) {
                return bad(format!("token {} is pattern {} with {:?}, must be pattern {} with {:?}", i, t.pat, t.text, x.pat, text));
            }
        }
        let rs: Vec<(usize, &Vec<par::RArg>)> = r.run.ev.iter().filter_map(|e| if let Ev::Reduce(k, a) = e { Some((*k, a)) } else { None }).collect();
        if let Err(m) = same_as_reference(&rs, &ev) {
            return bad(m);
        }
        let same = match (&r.run.res, &out) {
            (Res::Ok(n, idx), Out::Ok(k)) => n == k && *idx == g.rules[ev[*k].0].0,
            (Res::NoRecovery, Out::NoRecovery) => true,
            _ => false,
        };
        if !same {
            return bad(format!("outcome {:?}, must be {:?}", r.run.res, out));
        }
        let limit = |k: usize| bound[kept.get(seen[k]).copied().unwrap_or(want.len())];
        for (k, m) in r.marks.iter().enumerate() {
            if *m > limit(k) {
                return bad(format!("reducer call {} ran when {} characters had been read, {} settle it", k, m, limit(k)));
            }
        }
        if r.end > limit(ev.len()) {
            return bad(format!("parsing returned when {} characters had been read, {} settle the outcome", r.end, limit(ev.len())));
        }
        ctx.saw(if ev.len() > 1 && input.len() > 2 { Some(hash_of(&(key, &input))) } else { None });
        ctx.stat("characters read", r.end as u64);
        ctx.stat("tokens compared", log.len() as u64);
        ctx.stat("reducer calls compared", ev.len() as u64);
        ctx.stat(if matches!(out, Out::Ok(_)) { "texts accepted" } else { "texts rejected" }, 1);
        if !notes.is_empty() {
            ctx.stat("texts with recovery", 1);
        }
        if fin.is_some() {
            ctx.stat("texts with a place at which no pattern matches", 1);
        }
        ctx.sample(499, || format!("{} -> {:?}, {} reducer calls, {} of {} characters", say(), out, ev.len(), r.end, input.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C27

thread_local! {
    static ALIVE: RefCell<Alive> = RefCell::new(Alive::default());
}
#[derive(Default)]
struct Alive {
    tokens: i64,
    nodes: i64,
    errors: i64,
    made: u64,
    calls: usize,
    fault: usize,
    how: usize,
}
fn alive<R>(f: impl FnOnce(&mut Alive) -> R) -> R {
    ALIVE.with(|a| f(&mut a.borrow_mut()))
}
macro_rules! held {
    ($n:ident, $f:ident) => {
        struct $n(usize, #[allow(dead_code)] Box<u64>);
        impl $n {
            fn new(i: usize) -> $n {
                alive(|a| {
                    a.$f += 1;
                    a.made += 1
                });
                $n(i, Box::new(i as u64))
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                alive(|a| a.$f -= 1)
            }
        }
        impl EnumIndex for $n {
            fn enum_index(&self) -> usize {
                step();
                self.0
            }
        }
    };
}
held!(Ht, tokens);
held!(Hn, nodes);
held!(He, errors);

/// A source that may panic at a token.
struct HSrc<'a>(&'a [usize], usize, Option<usize>, Hint);
impl<'a> Iterator for HSrc<'a> {
    type Item = Ht;
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.3.of(self.0.len().saturating_sub(self.1))
    }
    fn next(&mut self) -> Option<Ht> {
        step();
        if self.2 == Some(self.1) {
            std::panic::panic_any("injected");
        }
        let t = self.0.get(self.1).map(|t| Ht::new(*t));
        self.1 += 1;
        t
    }
}
fn held_syntax(g: &Gram, route: usize, probe: &Rc<()>) -> Syntax<Hn, Ht, He> {
    let mut b = Syntax::<Hn, Ht, He>::builder();
    for (i, (l, r)) in g.rules.iter().enumerate() {
        let (l, probe) = (*l, probe.clone());
        let f = move |_: &mut [Symbol<&mut Hn, &Ht, &[Ht]>]| {
            let _ = &probe;
            step();
            let (k, at, how) = alive(|a| {
                a.calls += 1;
                (a.calls - 1, a.fault, a.how)
            });
            if k == at {
                match how {
                    0 => return Err(He::new(k)),
                    _ => std::panic::panic_any("injected"),
                }
            }
            Ok(Hn::new(l))
        };
        b = b.rule(match (route + i) % 3 {
            0 => Rule::new(
                Hn::new(l),
                &r.iter()
                    .map(|s| match s {
                        Sym::N(n) => Symbol::NonTerminal(Hn::new(*n)),
                        Sym::T(t) => Symbol::Terminal(Ht::new(*t)),
                        Sym::E => Symbol::Error(()),
                    })
                    .collect::<Vec<_>>(),
                f,
            ),
            1 => Rule::new_raw(
                l,
                &r.iter()
                    .map(|s| match s {
                        Sym::N(n) => Symbol::NonTerminal(*n),
                        Sym::T(t) => Symbol::Terminal(*t),
                        Sym::E => Symbol::Error(()),
                    })
                    .collect::<Vec<_>>(),
                f,
            ),
            _ => {
                let mut rb = Rule::<Hn, Ht, He>::builder(Hn::new(l));
                for s in r {
                    rb = match s {
                        Sym::N(n) => rb.non_terminal(Hn::new(*n)),
                        Sym::T(t) => rb.terminal(Ht::new(*t)),
                        Sym::E => rb.error(),
                    };
                }
                rb.build(f)
            }
        });
    }
    if route % 2 == 0 {
        b.build(Hn::new(g.start))
    } else {
        b.build_raw(g.start)
    }
}
pub fn case_c27(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let kind = match (stage, index % 3) {
        ("curated", _) | ("long", _) => Kind::Any,
        (_, 0) => Kind::Clean,
        (_, 1) => Kind::Error,
        _ => Kind::Any,
    };
    let Some((g, lr)) = pick_from(kind, stage, index, rng, ctx, true) else { return Ok(()) };
    note(ctx, &g, &lr);
    let mut ins = if stage == "long" { long_inputs(&g, rng, 2, 9000) } else { inputs(&g, Some(&lr), rng, 20) };
    rng.shuffle(&mut ins);
    ins.truncate(if stage == "curated" { 60 } else { 20 });
    let mut endless = 0;
    // (input, steps, reducer calls)
    let mut plan: Vec<(Vec<usize>, u64, usize)> = Vec::with_capacity(ins.len());
    for t in ins {
        if let Some(s) = allowance(&lr, &t, &mut endless) {
            let n = drive(&lr, &t, cap_for(t.len())).0.len();
            plan.push((t, s, n));
        }
    }
    let key = hash_of(&g);
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| {
        let g = Gram::parse("S -> lp S rp | x | ! y; T -> x");
        let _ = guard(|| {
            let p = LR1Parser::from(held_syntax(&g, 0, &Rc::new(())));
            let _ = HSrc(&[0, 1, 3, 2, 2], 0, None, Hint::new(&0)).parse(&p);
        });
    });
    alive(|a| *a = Alive::default());
    let mut notes: [u64; 6] = [0; 6];
    let seed = rng.next();
    for round in 0..2 {
        let rng = &mut Rng::new(&[seed]);
        let probe = Rc::new(());
        let mut msg: Option<String> = None;
        let before = live_bytes();
        {
            set_budget(u64::MAX);
            let route = rng.below(6);
            let p = guard(|| {
                // a grammar that is taken apart again, and one that becomes a parser
                drop(held_syntax(&g, route + 1, &probe).into_rules());
                drop(held_syntax(&g, route + 2, &probe));
                let s = held_syntax(&g, route, &probe);
                if route < 3 {
                    LR1Parser::from(s)
                } else {
                    LR1Parser::new(s).0
                }
            });
            let p = match p {
                Ok(p) => Some(p),
                Err(b) => {
                    msg = Some(format!("grammar [{:?}]: {}", g, b));
                    None
                }
            };
            if let Some(p) = p {
                let left = alive(|a| (a.tokens, a.nodes));
                if left != (0, 0) {
                    msg = Some(format!("grammar [{:?}]: {} example tokens and {} example symbols are still alive after construction", g, left.0, left.1));
                }
                let closures = Rc::strong_count(&probe) - 1;
                if closures != g.rules.len() {
                    msg = Some(format!("grammar [{:?}]: {} reducers are alive, there are {} rules", g, closures, g.rules.len()));
                }
                for (toks, steps, calls) in &plan {
                    if msg.is_some() {
                        break;
                    }
                    for variant in 0..5 {
                        let (how, fault, src) = match variant {
                            0 => (0, usize::MAX, None),
                            1 | 2 if *calls > 0 => (variant - 1, rng.below(*calls), None),
                            3 if *calls > 0 => (0, *calls - 1, None),
                            4 => (0, usize::MAX, Some(rng.below(toks.len() + 1))),
                            _ => continue,
                        };
                        alive(|a| {
                            a.calls = 0;
                            a.how = how;
                            a.fault = fault;
                        });
                        set_budget(*steps);
                        let r = guard(|| HSrc(toks, 0, src, Hint::new(toks)).parse(&p));
                        let (want, what) = match &r {
                            Ok(Ok(_)) => ((0, 1, 0), 0),
                            Ok(Err(ParseError::RecoveryRuleNotFound)) => ((0, 0, 0), 1),
                            Ok(Err(ParseError::ErrorInReducer(_))) => ((0, 0, 1), 2),
                            Err(Bad::Panic(_)) if how == 1 => ((0, 0, 0), 3),
                            Err(Bad::Panic(_)) if src.is_some() => ((0, 0, 0), 4),
                            Err(b) => {
                                msg = Some(format!("{}: {}", par::show(&g, toks), b));
                                break;
                            }
                        };
                        notes[what] += 1;
                        let got = alive(|a| (a.tokens, a.nodes, a.errors));
                        if got != want {
                            let end = ["success", "a syntax error", "a reducer error", "a panic in a reducer", "a panic in the source"][what];
                            msg = Some(format!("{}: after {} (tokens, nodes, errors) alive are {:?}, must be {:?}", par::show(&g, toks), end, got, want));
                            break;
                        }
                        drop(r);
                        let got = alive(|a| (a.tokens, a.nodes, a.errors));
                        if got != (0, 0, 0) {
                            msg = Some(format!("{}: (tokens, nodes, errors) alive after dropping the result are {:?}", par::show(&g, toks), got));
                            break;
                        }
                        if round == 0 {
                            notes[5] += 1;
                        }
                    }
                }
                drop(p);
                let closures = Rc::strong_count(&probe) - 1;
                if closures != 0 && msg.is_none() {
                    msg = Some(format!("grammar [{:?}]: {} reducers are alive after dropping the parser", g, closures));
                }
            }
        }
        if let Some(m) = msg {
            return Err(m);
        }
        let after = live_bytes();
        if after != before {
            return Err(format!("grammar [{:?}]: {} bytes stay allocated after everything is dropped", g, after - before));
        }
    }
    for (t, _, calls) in &plan {
        for _ in 0..5 {
            ctx.saw(if *calls > 0 { Some(hash_of(&(key, t))) } else { None });
        }
    }
    for (k, n) in ["parses that succeed", "parses that end in a syntax error", "parses ended by a reducer error", "parses ended by a panic in a reducer", "parses ended by a panic in the source"].iter().zip(notes) {
        ctx.stat(k, n);
    }
    ctx.stat("tokens, nodes and errors followed", alive(|a| a.made));
    ctx.sample(97, || format!("[{:?}]: {} parses, balance 0", g, notes[5]));
    Ok(())
}

// ---------------------------------------------------------------- C28

/// An endless-looking source that notes how much memory is in use whenever it is asked.
struct Heavy<'a> {
    text: &'a [char],
    at: usize,
    len: usize,
    base: isize,
    peak: &'a Cell<isize>,
}
impl<'a> Iterator for Heavy<'a> {
    type Item = Item;
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.len - self.at, Some(self.len - self.at))
    }
    fn next(&mut self) -> Option<Item> {
        let now = live_bytes() - self.base;
        if now > self.peak.get() {
            self.peak.set(now);
        }
        if self.at >= self.len {
            return None;
        }
        let i = self.at;
        self.at += 1;
        Some(Item { id: i as u32, ch: self.text[i] })
    }
}
pub fn case_c28(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let (pats, mut lex) = loop {
        let pats = tokgen::lists(stage, index, rng);
        match tokgen::lex_for(&pats) {
            Some(l) => break (pats, l),
            None if stage == "curated" => return Ok(()),
            None => {}
        }
    };
    let (tk, _) = tok::must_build(&pats)?;
    let mut done = 0;
    for part in tokgen::inputs(&mut lex, rng, 60) {
        if part.is_empty() || part.len() > 400 || done >= 4 {
            continue;
        }
        // what one copy and five copies of the text need
        let five: Vec<char> = part.iter().cycle().take(5 * part.len()).copied().collect();
        let (want, _) = expected(&mut lex, &five);
        if want.last().map_or(true, |t| t.end < 4 * part.len()) {
            continue;
        }
        let window = |w: &[crate::rx::Want], n: usize| w.iter().map(|t| t.settled.unwrap_or(n) - t.start).max().unwrap_or(0);
        let first = window(&want[..want.len() * 3 / 5], five.len());
        if first > part.len() + 40 {
            continue;
        }
        let bound = 8192 + 300 * first;
        let n = (4 * bound).min(400_000).min(20_000_000 / first.max(1)) / part.len() * part.len();
        if n < bound {
            continue;
        }
        // every other stream is not the same text again and again: characters are exchanged for others the patterns do not tell apart
        let vary = done % 2 == 1;
        let all: Vec<char> = part.iter().cycle().take(n).map(|c| if vary { lex.any(lex.atom_of(*c), rng) } else { *c }).collect();
        let Some((want, _)) = expected_within(&mut lex, &all, first) else { continue };
        // tokens at the very end may depend on the end: they are few
        let inner = want.iter().filter(|t| t.settled.is_none()).count();
        if window(&want, n) > first || inner > 8 {
            continue;
        }
        done += 1;
        let peak = Cell::new(0);
        let mut toks = 0usize;
        let mut chars = 0usize;
        set_budget(u64::MAX);
        let base = live_bytes();
        guard(|| {
            for t in (Heavy { text: &all, at: 0, len: n, base, peak: &peak }).tokenize_with(&tk, |i: &Item| i.ch) {
                toks += 1;
                chars += t.ids.len();
            }
        })
        .map_err(|b| format!("{} repeated to {} characters: {}", tok::show(&pats, &part), n, b))?;
        if chars < n / 2 {
            ctx.stat("streams that ended early", 1);
            continue;
        }
        if peak.get() > bound as isize {
            return Err(format!("{} repeated to {} characters: {} bytes are in use at the peak though no token needs more than {} characters", tok::show(&pats, &part), n, peak.get(), first));
        }
        ctx.saw(Some(hash_of(&(&pats, &part))));
        ctx.stat("characters streamed", chars as u64);
        ctx.stat(if vary { "streams of varied characters" } else { "streams of repeated text" }, 1);
        ctx.stat("tokens", toks as u64);
        ctx.max("bytes in use", peak.get() as u64);
        ctx.max("characters needed for one token", first as u64);
        ctx.sample(49, || format!("{} x {} characters: {} tokens, peak {} bytes", tok::show(&pats, &part), n, toks, peak.get()));
    }
    Ok(())
}
