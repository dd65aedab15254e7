//! C30: the work per character, per move of the parser and per use does not grow.
//! Measured as processor time of this thread, for a small and a large input of the same kind, and judged only where the
//! difference is far beyond anything caches, allocation or a busy machine can cause, three times in a row.
use crate::gram::*;
use crate::par::{self, note, pick_from, Kind};
use crate::rx::{expected_for, expected_within, Want};
use crate::tok::{self, Item};
use crate::tokgen;
use crate::util::*;
use parser::enum_index::EnumIndex;
use parser::{LR1Parser, Parse, ParseError, Rule, Symbol, Syntax};
use std::cell::Cell;
use tokenizer::{DFATokenizer, Tokenize};

/// How many times as much one unit of work may take in the large case.
const FACTOR: f64 = 16.0;
/// Nothing faster than this is judged, in seconds.
const FLOOR: f64 = 0.5;
/// No run is watched for longer than this.
const LIMIT: f64 = 6.0;

#[repr(C)]
struct Timespec(i64, i64);
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// Processor time this thread has used, in seconds.
pub fn cpu() -> f64 {
    let mut t = Timespec(0, 0);
    // 3: CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.0 as f64 + t.1 as f64 * 1e-9
}
thread_local!(static UNTIL: Cell<(u32, f64)> = const { Cell::new((0, f64::MAX)) });
/// Called from everything the code under test calls.
#[inline]
fn tick() {
    UNTIL.with(|u| {
        let (n, end) = u.get();
        u.set((n.wrapping_add(1), end));
        if n % 256 == 0 && cpu() > end {
            u.set((1, f64::MAX));
            std::panic::panic_any(Budget);
        }
    })
}
/// Time of one run, at most about `LIMIT`.
fn timed(f: impl FnOnce()) -> Result<f64, Bad> {
    let t0 = cpu();
    UNTIL.with(|u| u.set((0, t0 + LIMIT)));
    let r = guard(f);
    UNTIL.with(|u| u.set((0, f64::MAX)));
    let t = cpu() - t0;
    match r {
        Ok(()) => Ok(t),
        Err(Bad::Budget) => Ok(t.max(LIMIT)),
        Err(b) => Err(b),
    }
}
/// `small` and `large` run the code; the numbers are units of work the reference counts.
fn judge(what: &str, small: &mut [(f64, Box<dyn FnMut() + '_>)], large: (f64, &mut dyn FnMut()), ctx: &mut Ctx) -> Verdict {
    let mut unit = 0f64;
    let mut best = f64::MAX;
    for round in 0..3 {
        for (work, f) in small.iter_mut() {
            let mut t = f64::MAX;
            for _ in 0..3 {
                t = t.min(timed(&mut *f).map_err(|b| format!("{}: {}", what, b))?);
            }
            unit = unit.max(t / *work);
        }
        best = best.min(timed(&mut *large.1).map_err(|b| format!("{}: {}", what, b))?);
        let per = best / large.0;
        if round == 0 {
            ctx.max("nanoseconds per unit of work, large", (per * 1e9) as u64);
            ctx.max("hundredths: unit of work in the large case against the small case", (100.0 * per / unit) as u64);
            ctx.stat("units of work timed", large.0 as u64);
        }
        if best < FLOOR || per < FACTOR * unit {
            return Ok(());
        }
    }
    Err(format!("{}: {:.2} s for {} units of work, {:.0} ns each, against {:.0} ns each in the small case", what, best, large.0, best / large.0 * 1e9, unit * 1e9))
}

/// Characters looked at, token by token.
fn work(w: &[Want], end: usize) -> f64 {
    w.iter().map(|t| (t.settled.unwrap_or(end) - t.start) as f64).sum::<f64>() + 1.0
}
struct Chars<'a> {
    text: &'a [char],
    at: usize,
}
impl<'a> Iterator for Chars<'a> {
    type Item = Item;
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.text.len() - self.at, Some(self.text.len() - self.at))
    }
    fn next(&mut self) -> Option<Item> {
        tick();
        let ch = *self.text.get(self.at)?;
        self.at += 1;
        Some(Item { id: self.at as u32 - 1, ch })
    }
}
fn mapped(i: &Item) -> char {
    tick();
    i.ch
}
fn lean(pats: &[String]) -> Result<Option<DFATokenizer<usize, Item>>, String> {
    let r = guard(|| {
        let mut b = DFATokenizer::<usize, Item>::builder();
        for p in pats {
            b = b.pattern(p, move |_, v: Vec<Item>| {
                tick();
                v.len()
            });
        }
        b.build().ok().map(|x| x.0)
    });
    r.map_err(|b| format!("building {:?}: {}", pats, b))
}
pub fn case_tok(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    reset_alloc_budget(u64::MAX);
    set_budget(u64::MAX);
    let stage = if stage == "tokc" { "curated" } else { "random" };
    // every other case: something is opened and never closed, so that the whole text is read for the first token and queued
    let opened = index % 2 == 1;
    // some more: words and numbers that never come again
    let words = stage == "random" && index % 16 == 4;
    let (pats, mut lex) = loop {
        let mut pats = tokgen::lists(stage, index, rng);
        if opened {
            pats.insert(rng.below(pats.len() + 1), (*rng.pick(&["«[^»]*»", "«(?s:.)*»", "«+([^«»]*«?)*»"])).to_string());
            pats.push("«".to_string());
        }
        if words {
            let w = *rng.pick(&["[a-z]+", "[A-Za-z_][A-Za-z_0-9]*", "\\p{Lu}\\p{Ll}*"]);
            let d = *rng.pick(&["[0-9]+", "0x[0-9a-f]+", "[0-9]+(\\.[0-9]+)?"]);
            pats = vec![w.to_string(), d.to_string(), " ".to_string()];
            rng.shuffle(&mut pats);
        }
        match tokgen::lex_for(&pats) {
            Some(l) => break (pats, l),
            None if stage == "curated" => return Ok(()),
            None => {}
        }
    };
    let Some(tk) = lean(&pats)? else { return Ok(()) };
    let mut parts: Vec<Vec<char>> = tokgen::inputs(&mut lex, rng, 60).into_iter().filter(|p| !p.is_empty() && p.len() < 300 && !(opened && p.iter().any(|c| "«»".contains(*c)))).collect();
    rng.shuffle(&mut parts);
    if words {
        parts.insert(0, "Abcdefgh 0x12345678 ".chars().collect());
        parts.insert(0, "Qwertzuiop 12345678 ".chars().collect());
        parts.insert(0, "12345678 ".chars().collect());
        parts.insert(0, "Qwertzuiop ".chars().collect());
    }
    let mut done = 0;
    for part in parts {
        if done >= if words { 4 } else { 2 } {
            break;
        }
        // every other text is not the same again and again: characters are exchanged for others the patterns do not tell apart
        let vary = words || done % 2 == 1;
        let mut text = |n: usize| -> Vec<char> { opened.then_some('«').into_iter().chain(part.iter().cycle().take(n / part.len() * part.len()).map(|c| if vary { lex.any(lex.atom_of(*c), rng) } else { *c })).collect() };
        let (a, mut b) = (text(3_000), text(300_000));
        let more = if vary { text(1_200_000) } else { vec![] };
        // the reference must find that the work is in proportion to the text
        let Some((wa, _)) = expected_within(&mut lex, &a, usize::MAX) else { continue };
        if wa.last().map_or(true, |t| t.end * 10 < a.len() * 9) || work(&wa, a.len()) > 40.0 * a.len() as f64 {
            continue;
        }
        let Some((mut wb, _)) = expected_for(&mut lex, &b, 50 * b.len()) else { continue };
        let kinds = |b: &[char], w: &[Want]| w.iter().map(|t| &b[t.start..t.end]).collect::<std::collections::HashSet<_>>().len();
        let mut n = kinds(&b, &wb);
        if vary && n > 10_000 && n * 3 > wb.len() {
            // nearly every token is one never seen before: go on with them
            b = more;
            let Some((w, _)) = expected_for(&mut lex, &b, 50 * b.len()) else { continue };
            wb = w;
            n = kinds(&b, &wb);
        }
        let (b, wb, kinds) = (b, wb, n);
        if wb.last().map_or(true, |t| t.end * 10 < b.len() * 9) || work(&wb, b.len()) > 50.0 * b.len() as f64 {
            continue;
        }
        done += 1;
        let run = |text: &[char]| {
            let mut chars = 0;
            for c in (Chars { text, at: 0 }).tokenize_with(&tk, mapped) {
                chars += c;
            }
            std::hint::black_box(chars);
        };
        let what = format!("{}, repeated to {} characters", tok::show(&pats, &part), b.len());
        judge(&what, &mut [(work(&wa, a.len()), Box::new(|| run(&a)))], (work(&wb, b.len()), &mut || run(&b)), ctx)?;
        ctx.saw(Some(hash_of(&(&pats, &part))));
        ctx.stat("characters in large texts", b.len() as u64);
        ctx.stat(if vary { "large texts of varied characters" } else { "large texts of repeated text" }, 1);
        ctx.stat("tokens in large texts", wb.len() as u64);
        ctx.max("different texts of tokens in one large text", kinds as u64);
        ctx.max("characters in one token", wb.iter().map(|t| t.end - t.start).max().unwrap_or(0) as u64);
        ctx.sample(19, || format!("{}: {} tokens", what, wb.len()));
    }
    Ok(())
}

struct Lt(usize);
impl EnumIndex for Lt {
    fn enum_index(&self) -> usize {
        self.0
    }
}
struct Ln(usize);
impl EnumIndex for Ln {
    fn enum_index(&self) -> usize {
        self.0
    }
}
fn light(g: &Gram) -> Result<LR1Parser<Ln, Lt, ()>, String> {
    guard(|| {
        let mut b = Syntax::<Ln, Lt, ()>::builder();
        for (l, r) in &g.rules {
            let l = *l;
            let v: Vec<Symbol<Ln, Lt, ()>> = r
                .iter()
                .map(|s| match s {
                    Sym::N(n) => Symbol::NonTerminal(Ln(*n)),
                    Sym::T(t) => Symbol::Terminal(Lt(*t)),
                    Sym::E => Symbol::Error(()),
                })
                .collect();
            b = b.rule(Rule::new(Ln(l), &v, move |_: &mut [Symbol<&mut Ln, &Lt, &[Lt]>]| {
                tick();
                Ok(Ln(l))
            }));
        }
        LR1Parser::new(b.build(Ln(g.start))).0
    })
    .map_err(|b| format!("grammar [{:?}]: {}", g, b))
}
struct Toks<'a>(&'a [usize], usize);
impl<'a> Iterator for Toks<'a> {
    type Item = Lt;
    fn next(&mut self) -> Option<Lt> {
        tick();
        let t = self.0.get(self.1)?;
        self.1 += 1;
        Some(Lt(*t))
    }
}
fn parse(p: &LR1Parser<Ln, Lt, ()>, t: &[usize]) -> u8 {
    match Toks(t, 0).parse(p) {
        Ok(_) => 0,
        Err(ParseError::RecoveryRuleNotFound) => 1,
        Err(ParseError::ErrorInReducer(())) => 2,
    }
}
/// Moves the reference makes on each of these, if they are at most `per` for each token.
fn moves_of(lr: &Lr, t: &[usize], per: f64) -> Option<(f64, bool)> {
    moves();
    let out = drive(lr, t, (per * t.len() as f64) as usize + 200).1;
    let n = moves();
    (out != Out::Cap && n as usize * 2 > t.len()).then_some((n as f64, matches!(out, Out::Ok(_))))
}
/// How long inputs of one kind are made.
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Right,
    /// a token replaced now and then
    Edited,
    /// derived with ERROR alternatives
    Faulty,
    /// one token replaced near the end
    Late,
    /// one construct nobody expects for most of the input
    Junk,
}
fn long(g: &Gram, rng: &mut Rng, n: usize, how: How) -> Option<Vec<usize>> {
    let mut t = (0..4).find_map(|_| derive_long_with(g, rng, n, how == How::Faulty))?;
    match how {
        How::Right | How::Faulty => {}
        How::Edited => {
            let gap = *rng.pick(&[10, 50, 300]);
            let mut at = rng.below(gap);
            while at < t.len() {
                let (x, b) = (rng.below(g.nt.max(1)), (at + 1).min(t.len() - 1));
                match rng.below(3) {
                    0 => t[at] = x,
                    1 => t.swap(at, b),
                    _ => t[at] = g.nt,
                }
                at += 1 + rng.below(2 * gap);
            }
        }
        How::Late => {
            let n = t.len();
            let at = n - 1 - rng.below(n / 20);
            t[at] = rng.below(g.nt + 1);
        }
        How::Junk => {
            let (from, to) = (t.len() / 20, t.len() - t.len() / 20);
            for x in &mut t[from..to] {
                *x = if rng.chance(1, 2) { g.nt } else { rng.below(g.nt + 1) };
            }
        }
    }
    Some(t)
}
pub fn case_par(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    reset_alloc_budget(u64::MAX);
    set_budget(u64::MAX);
    let (kind, stage) = match stage {
        "parc" => (Kind::Any, "curated"),
        _ => ([Kind::Clean, Kind::Clean, Kind::Error, Kind::Any][index as usize % 4], "random"),
    };
    for _ in 0..10 {
        let Some((mut g, mut lr)) = pick_from(kind, stage, index, rng, ctx, true) else { return Ok(()) };
        if kind == Kind::Clean && stage == "random" && rng.chance(2, 3) {
            let h = guarded(&g, rng);
            if let Some(l) = Lr::new(&h, 500) {
                if l.conflict_free() {
                    (g, lr) = (h, l);
                }
            }
        }
        let mut seen = false;
        let mut p = None;
        for how in [How::Right, How::Edited, How::Faulty, How::Late, How::Junk] {
            if how != How::Right && !g.has_error() {
                continue;
            }
            // the reference must find that the moves are in proportion to the input
            let small: Vec<(Vec<usize>, f64, bool)> = (0..3)
                .filter_map(|_| {
                    let t = long(&g, rng, 3_000, how)?;
                    let (m, ok) = moves_of(&lr, &t, 30.0)?;
                    Some((t, m, ok))
                })
                .collect();
            if small.is_empty() || how == How::Edited && small.iter().all(|x| !x.2) && rng.chance(3, 4) {
                continue;
            }
            let per = small.iter().map(|(t, m, _)| m / t.len() as f64).fold(0.0, f64::max);
            let Some(b) = long(&g, rng, 300_000, how) else { continue };
            let Some((mb, ok)) = moves_of(&lr, &b, 1.5 * per) else {
                ctx.stat("kinds of input with moves out of proportion", 1);
                continue;
            };
            if p.is_none() {
                note(ctx, &g, &lr);
                p = Some(light(&g)?);
            }
            let p = p.as_ref().unwrap();
            seen = true;
            let what = format!("{} ({} tokens)", par::show(&g, &b), b.len());
            let mut runs: Vec<(f64, Box<dyn FnMut()>)> = small.iter().map(|(t, m, _)| (*m, Box::new(|| drop(parse(p, t))) as Box<dyn FnMut()>)).collect();
            judge(&what, &mut runs, (mb, &mut || drop(parse(p, &b))), ctx)?;
            ctx.saw(Some(hash_of(&(&g, &b))));
            ctx.stat(&format!("large inputs of kind {:?}, {}", how, if ok { "parsed" } else { "rejected" }), 1);
            ctx.stat("tokens in large inputs", b.len() as u64);
            ctx.sample(19, || format!("{}: {} moves", cut(what, 300), mb));
        }
        if seen || stage == "curated" {
            return Ok(());
        }
    }
    Ok(())
}

const BATCH: usize = 500;
const BATCHES: usize = 80;
/// One instance used again and again: the last uses take no longer than the first.
fn uses(what: &str, f: &mut dyn FnMut(usize), ctx: &mut Ctx) -> Verdict {
    let mut base = 0f64;
    let mut late = f64::MAX;
    for k in 0..BATCHES {
        let t = timed(|| (0..BATCH).for_each(|i| f(k * BATCH + i))).map_err(|b| format!("{}: {}", what, b))?;
        if (1..=5).contains(&k) {
            base = base.max(t);
        }
        if k + 5 >= BATCHES || t >= LIMIT {
            late = late.min(t);
            if t >= LIMIT {
                break;
            }
        }
    }
    ctx.max("hundredths: late uses against early uses", (100.0 * late / base) as u64);
    ctx.stat("uses of one instance", (BATCH * BATCHES) as u64);
    if late > FACTOR * base && late > FLOOR {
        return Err(format!("{}: {} uses take {:.3} s at first and {:.3} s after {} uses", what, BATCH, base, late, BATCH * (BATCHES - 5)));
    }
    Ok(())
}
pub fn uses_tok(index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    reset_alloc_budget(u64::MAX);
    set_budget(u64::MAX);
    let (pats, mut lex) = loop {
        let pats = tokgen::lists(if index % 2 == 0 { "curated" } else { "random" }, rng.next(), rng);
        if let Some(l) = tokgen::lex_for(&pats) {
            break (pats, l);
        }
    };
    let Some(tk) = lean(&pats)? else { return Ok(()) };
    let mut ins: Vec<Vec<char>> = tokgen::inputs(&mut lex, rng, 60).into_iter().filter(|i| i.len() > 3 && i.len() < 40).collect();
    rng.shuffle(&mut ins);
    ins.truncate(16);
    if ins.is_empty() {
        return Ok(());
    }
    let what = tok::show(&pats, &ins[0]);
    let mut n = 0;
    while ins.len() < 4000 {
        let other = ins[n].iter().map(|c| lex.any(lex.atom_of(*c), rng)).collect();
        ins.push(other);
        n += 1;
    }
    uses(
        &what,
        &mut |n| {
            let i = &ins[n % ins.len()];
            let stop = if n % 7 == 6 { 1 } else { usize::MAX };
            std::hint::black_box(Chars { text: i, at: 0 }.tokenize_with(&tk, mapped).take(stop).sum::<usize>());
        },
        ctx,
    )?;
    ctx.saw(Some(hash_of(&(&pats, &ins))));
    Ok(())
}
pub fn uses_par(index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    reset_alloc_budget(u64::MAX);
    set_budget(u64::MAX);
    let kind = [Kind::Clean, Kind::Error, Kind::Any][index as usize % 3];
    let Some((g, lr)) = pick_from(kind, "random", index, rng, ctx, true) else { return Ok(()) };
    let mut ins: Vec<Vec<usize>> = inputs(&g, Some(&lr), rng, 30).into_iter().filter(|t| t.len() < 40 && drive(&lr, t, 400).1 != Out::Cap).collect();
    rng.shuffle(&mut ins);
    ins.truncate(16);
    if ins.is_empty() {
        return Ok(());
    }
    let p = light(&g)?;
    let what = par::show(&g, &ins[0]);
    uses(&what, &mut |n| drop(parse(&p, &ins[n % ins.len()])), ctx)?;
    ctx.saw(Some(hash_of(&(&g, &ins))));
    Ok(())
}
