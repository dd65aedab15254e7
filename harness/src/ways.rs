//! C31: a stream is an ordinary iterator, and how sources, tokenizers and tokens are handed over makes no difference.
use crate::gram::*;
use crate::par::{self, Ev, Kind, Res, Src, Tt, P};
use crate::rx::expected;
use crate::tok::{self, show, source, Item, Tk, Tok};
use crate::tokgen;
use crate::util::*;
use parser::Parse;
use std::cell::Cell;
use std::collections::{LinkedList, VecDeque};
use std::rc::Rc;
use tokenizer::Tokenize;

type Verdict = Result<(), String>;
fn ch(i: &Item) -> char {
    i.ch
}

// ---------------------------------------------------------------- consuming

const USES: &[&str] = &[
    "collect", "for", "fold", "nth", "nth in turn with next", "step_by", "skip", "last", "count", "peekable", "take by reference", "size_hint", "boxed", "find", "position", "try_fold", "zip", "map and filter",
    "take_while by reference", "partition", "extend", "max_by_key", "chain", "scan", "fuse", "enumerate", "any and all", "eq", "reduce", "inspect", "flat_map", "skip_while", "unzip", "for_each",
];
/// Runs the stream one way; the tokens seen, with what the way says should have been seen, given the plain list.
fn consume<'a, S: Iterator<Item = Tok> + 'a>(mut s: S, how: &str, base: &[Tok], rng: &mut Rng) -> Verdict {
    let n = base.len();
    let wrong = |what: String| Err(format!("consumed with {}: {}", how, what));
    let same = |got: &[Tok], want: &[Tok]| if got == want { Ok(()) } else { Err(format!("consumed with {}: {} tokens {:?}, one after the other: {} tokens {:?}", how, got.len(), brief(got), want.len(), brief(want))) };
    match how {
        "collect" => same(&s.collect::<Vec<_>>(), base),
        "for" => {
            let mut v = vec![];
            for t in s {
                v.push(t)
            }
            same(&v, base)
        }
        "fold" => same(
            &s.fold(vec![], |mut v, t| {
                v.push(t);
                v
            }),
            base,
        ),
        "for_each" => {
            let mut v = vec![];
            s.for_each(|t| v.push(t));
            same(&v, base)
        }
        "inspect" => {
            let mut v = vec![];
            let k = s.inspect(|t| v.push(t.clone())).count();
            if k != n {
                return wrong(format!("{} tokens instead of {}", k, n));
            }
            same(&v, base)
        }
        "nth" => {
            let k = rng.below(n + 2);
            match (s.nth(k), base.get(k)) {
                (Some(a), Some(b)) if a == *b => {}
                (None, None) => return Ok(()),
                (a, b) => return wrong(format!("nth({}) is {:?}, must be {:?}", k, a, b)),
            }
            same(&s.collect::<Vec<_>>(), &base[k + 1..])
        }
        "nth in turn with next" => {
            let mut at = 0;
            while at < n {
                let k = rng.below(3);
                let (a, b) = if rng.chance(1, 2) {
                    at += 1;
                    (s.next(), base.get(at - 1))
                } else {
                    at += k + 1;
                    (s.nth(k), base.get(at - 1))
                };
                if a.as_ref() != b {
                    return wrong(format!("token {} is {:?}, must be {:?}", at - 1, a, b));
                }
            }
            Ok(())
        }
        "step_by" => {
            let k = rng.range(1, 5);
            same(&s.step_by(k).collect::<Vec<_>>(), &base.iter().step_by(k).cloned().collect::<Vec<_>>())
        }
        "skip" => {
            let k = rng.below(n + 2);
            same(&s.skip(k).collect::<Vec<_>>(), &base[k.min(n)..])
        }
        "skip_while" => {
            let k = rng.below(n + 2);
            let mut c = 0;
            same(
                &s.skip_while(|_| {
                    c += 1;
                    c <= k
                })
                .collect::<Vec<_>>(),
                &base[k.min(n)..],
            )
        }
        "last" => same(&s.last().into_iter().collect::<Vec<_>>(), &base[n.saturating_sub(1)..]),
        "reduce" => same(&s.fold(None, |_, t| Some(t)).into_iter().collect::<Vec<_>>(), &base[n.saturating_sub(1)..]),
        "count" => {
            let c = s.count();
            if c != n {
                return wrong(format!("{} instead of {}", c, n));
            }
            Ok(())
        }
        "peekable" => {
            let mut p = s.peekable();
            let mut v = vec![];
            loop {
                if rng.chance(1, 2) {
                    let w = base.get(v.len());
                    if p.peek() != w {
                        return wrong(format!("peeked {:?}, must be {:?}", p.peek(), w));
                    }
                }
                match p.next() {
                    Some(t) => v.push(t),
                    None => break,
                }
            }
            same(&v, base)
        }
        "take by reference" => {
            let mut v: Vec<Tok> = vec![];
            while v.len() < n {
                let k = rng.range(1, 4).min(n - v.len());
                v.extend(s.by_ref().take(k));
            }
            same(&v, base)
        }
        "take_while by reference" => {
            let mut v: Vec<Tok> = vec![];
            while v.len() < n {
                let (k, mut c) = (rng.below(3), 0);
                let before = v.len();
                v.extend(s.by_ref().take_while(|_| {
                    c += 1;
                    c <= k
                }));
                // the one that ended it is gone
                if v.len() - before == k && v.len() < n {
                    v.push(base[v.len()].clone());
                } else if v.len() - before != k.min(n - before) {
                    return wrong(format!("{} tokens where {} were to come", v.len() - before, k.min(n - before)));
                }
            }
            same(&v, base)
        }
        "size_hint" => {
            let mut i = 0;
            loop {
                let (lo, hi) = s.size_hint();
                if lo > n - i || hi.map_or(false, |h| h < n - i) {
                    return wrong(format!("({}, {:?}) with {} tokens left", lo, hi, n - i));
                }
                match s.next() {
                    Some(_) if i < n => i += 1,
                    Some(t) => return wrong(format!("token {:?} behind the last one", t)),
                    None => break,
                }
            }
            Ok(())
        }
        "boxed" => {
            let b: Box<dyn Iterator<Item = Tok> + 'a> = Box::new(s);
            same(&b.collect::<Vec<_>>(), base)
        }
        "find" => {
            if n == 0 {
                return Ok(());
            }
            let k = rng.below(n);
            let want = base.iter().position(|t| *t == base[k]).unwrap();
            same(&s.find(|t| *t == base[k]).into_iter().collect::<Vec<_>>(), &base[want..want + 1])?;
            same(&s.collect::<Vec<_>>(), &base[want + 1..])
        }
        "position" => {
            if n == 0 {
                return Ok(());
            }
            let k = rng.below(n);
            let want = base.iter().position(|t| *t == base[k]);
            let got = s.position(|t| t == base[k]);
            if got != want {
                return wrong(format!("{:?}, must be {:?}", got, want));
            }
            Ok(())
        }
        "try_fold" => {
            let k = rng.below(n + 2);
            let mut v = vec![];
            let r = s.try_fold(0, |c, t| {
                v.push(t);
                if c == k {
                    Err(c)
                } else {
                    Ok(c + 1)
                }
            });
            if r != if k < n { Err(k) } else { Ok(n) } {
                return wrong(format!("{:?} after {} of {} tokens", r, k, n));
            }
            if k < n {
                v.extend(s);
            }
            same(&v, base)
        }
        "any and all" => {
            let k = rng.below(n + 1);
            let mut c = 0;
            let r = s.any(|_| {
                c += 1;
                c > k
            });
            if r != (k < n) {
                return wrong(format!("any is {} at {} of {}", r, k, n));
            }
            if r {
                same(&s.collect::<Vec<_>>(), &base[k + 1..])
            } else {
                Ok(())
            }
        }
        "zip" => same(&(0..n).zip(s).map(|x| x.1).collect::<Vec<_>>(), base),
        "enumerate" => {
            let v: Vec<(usize, Tok)> = s.enumerate().collect();
            if v.iter().enumerate().any(|(i, x)| i != x.0) {
                return wrong("wrong numbers".into());
            }
            same(&v.into_iter().map(|x| x.1).collect::<Vec<_>>(), base)
        }
        "map and filter" => {
            let f = |t: &Tok| t.text.len() % 2 == 1;
            same(&s.filter(f).map(|t| t).collect::<VecDeque<_>>().into_iter().collect::<Vec<_>>(), &base.iter().filter(|t| f(t)).cloned().collect::<Vec<_>>())
        }
        "partition" => {
            let f = |t: &Tok| t.pat % 2 == 0;
            let (a, b): (Vec<_>, Vec<_>) = s.partition(f);
            same(&a, &base.iter().filter(|t| f(t)).cloned().collect::<Vec<_>>())?;
            same(&b, &base.iter().filter(|t| !f(t)).cloned().collect::<Vec<_>>())
        }
        "unzip" => {
            let (a, b): (Vec<Tok>, Vec<usize>) = s.map(|t| (t, 0)).unzip();
            if a.len() != b.len() {
                return wrong("uneven".into());
            }
            same(&a, base)
        }
        "extend" => {
            let mut v = Vec::with_capacity(rng.below(2 * n + 1));
            v.extend(s);
            same(&v, base)
        }
        "max_by_key" => {
            let mut k = 0;
            let got = s.max_by_key(|_| {
                k += 1;
                k
            });
            same(&got.into_iter().collect::<Vec<_>>(), &base[n.saturating_sub(1)..])
        }
        "chain" => same(&base.iter().take(2).cloned().collect::<Vec<_>>().into_iter().chain(s).skip(n.min(2)).collect::<Vec<_>>(), base),
        "scan" => same(&s.scan((), |_, t| Some(t)).collect::<Vec<_>>(), base),
        "flat_map" => same(&s.flat_map(|t| vec![t]).collect::<Vec<_>>(), base),
        "fuse" => {
            let mut f = s.fuse();
            let v: Vec<Tok> = f.by_ref().collect();
            if f.next().is_some() {
                return wrong("goes on".into());
            }
            same(&v, base)
        }
        "eq" => {
            if !s.eq(base.iter().cloned()) {
                return wrong("the streams are not equal".into());
            }
            Ok(())
        }
        _ => unreachable!("{}", how),
    }
}
fn brief(t: &[Tok]) -> Vec<(usize, String)> {
    t.iter().take(12).map(|t| (t.pat, cut(t.text.clone(), 30))).collect()
}

// ---------------------------------------------------------------- feeding

const FEEDS: &[&str] = &["source by value", "source by mutable reference", "boxed source", "vector", "two vectors in a row", "function", "peeked source", "stepped source", "reversed twice", "channel"];
fn feed(input: &[char], how: &str) -> Box<dyn Iterator<Item = Item>> {
    let items = || input.iter().enumerate().map(|(i, c)| Item { id: i as u32, ch: *c }).collect::<Vec<_>>();
    let v = items();
    match how {
        "boxed source" => Box::new(source(input).0),
        "vector" => Box::new(v.into_iter()),
        "two vectors in a row" => {
            let mut a = v;
            let b = a.split_off(a.len() / 2);
            Box::new(a.into_iter().chain(b))
        }
        "function" => {
            let mut d: VecDeque<Item> = v.into();
            Box::new(std::iter::from_fn(move || d.pop_front()))
        }
        "peeked source" => {
            let mut p = source(input).0.peekable();
            p.peek();
            Box::new(p)
        }
        "stepped source" => Box::new(v.into_iter().flat_map(|i| vec![i, Item { id: u32::MAX, ch: 'x' }]).step_by(2)),
        "reversed twice" => Box::new(v.into_iter().rev().collect::<Vec<_>>().into_iter().rev()),
        "channel" => {
            let (tx, rx) = std::sync::mpsc::channel();
            for i in v {
                tx.send((i.id, i.ch)).unwrap();
            }
            Box::new(rx.into_iter().map(|(id, ch)| Item { id, ch }))
        }
        _ => unreachable!("{}", how),
    }
}

pub fn case_tok(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let pats = tokgen::lists(if stage == "tokc" { "curated" } else { "random" }, index, rng);
    let Some(mut lex) = tokgen::lex_for(&pats) else {
        ctx.stat("lists skipped: too big or a nullable pattern", 1);
        return Ok(());
    };
    let tk: Tk = tok::must_build(&pats)?.0;
    let own = match tok::build_c(&pats) {
        Ok(Ok(x)) => x.0,
        Ok(Err(e)) => return Err(format!("building {:?} failed: {}", pats, e)),
        Err(b) => return Err(format!("building {:?}: {}", pats, b)),
    };
    let key = hash_of(&pats);
    ctx.stat("pattern lists", 1);
    let mut by_value = 0;
    for input in tokgen::inputs(&mut lex, rng, if stage == "tokc" { 60 } else { 14 }) {
        let say = |m: String| format!("{}: {}", show(&pats, &input), m);
        let o = tok::observe(&tk, &input).map_err(|b| say(format!("{}", b)))?;
        let base = o.toks;
        let budget = 60 * (input.len() as u64 + 4) * (input.len() as u64 + 4) + 4000;
        let many = expected(&mut lex, &input).0.len() > 1;
        for _ in 0..5 {
            let how = *rng.pick(USES);
            ctx.saw(if many { Some(hash_of(&(key, &input, how))) } else { None });
            ctx.stat(&format!("streams consumed with {}", how), 1);
            set_budget(budget);
            let s = source(&input).0.tokenize_with(&tk, ch);
            guard(|| consume(s, how, &base, rng)).map_err(|b| say(format!("consumed with {}: {}", how, b)))?.map_err(say)?;
        }
        for _ in 0..2 {
            let how = *rng.pick(FEEDS);
            ctx.saw(if many { Some(hash_of(&(key, &input, how))) } else { None });
            ctx.stat(&format!("streams fed by {}", how), 1);
            set_budget(budget);
            let cap = 2 * input.len() + 4;
            let run = guard(|| match how {
                "source by value" => Ok(source(&input).0.tokenize_with(&tk, ch).take(cap).collect::<Vec<_>>()),
                "source by mutable reference" => {
                    // some tokens, then the stream is dropped: the source goes on behind what was pulled for them
                    let k = rng.below(base.len() + 1);
                    let (mut s, pulled, _) = source(&input);
                    let v: Vec<Tok> = (&mut s).tokenize_with(&tk, ch).take(k).collect();
                    let at = if k == 0 { 0 } else { o.pulled[k - 1] };
                    if pulled.get() != at || s.map(|i| i.id as usize).ne(at..input.len()) {
                        return Err(format!("{} tokens taken through a mutable reference leave the source at {}, must be {}", k, pulled.get(), at));
                    }
                    let (mut s, _, _) = source(&input);
                    if v != base[..k] {
                        return Ok(v);
                    }
                    Ok((&mut s).tokenize_with(&tk, ch).take(cap).collect())
                }
                _ => Ok(feed(&input, how).tokenize_with(&tk, ch).take(cap).collect()),
            })
            .map_err(|b| say(format!("fed by {}: {}", how, b)))?
            .map_err(say)?;
            if run != base {
                return Err(say(format!("fed by {}: {:?}, otherwise {:?}", how, brief(&run), brief(&base))));
            }
        }
        // plain characters: `tokenize` and `tokenize_with`, from text and from a vector, the tokenizer by reference and by value
        let plain = |t: &Tok| (t.pat, t.text.clone());
        let want: Vec<_> = base.iter().map(plain).collect();
        let text: String = input.iter().collect();
        let cap = 2 * input.len() + 4;
        let mut told: Vec<(&str, Vec<(usize, String)>)> = vec![];
        set_budget(4 * budget);
        guard(|| {
            let f = |v: Vec<Tok>| v.iter().map(plain).collect::<Vec<_>>();
            told.push(("chars of a text, tokenize", f(text.chars().tokenize(&own).take(cap).collect())));
            told.push(("a vector, tokenize", f(input.clone().into_iter().tokenize(&own).take(cap).collect())));
            told.push(("chars of a text, tokenize_with", f(text.chars().tokenize_with(&own, |c: &char| *c).take(cap).collect())));
            let mut n = 0u32;
            told.push((
                "a mapping function with state",
                f(source(&input)
                    .0
                    .tokenize_with(&tk, |i: &Item| {
                        n = n.wrapping_add(1);
                        i.ch
                    })
                    .take(cap)
                    .collect()),
            ));
        })
        .map_err(|b| say(format!("{}", b)))?;
        if by_value < 2 {
            by_value += 1;
            set_budget(4 * budget);
            let a = tok::must_build(&pats)?.0;
            let v: Vec<Tok> = guard(|| source(&input).0.tokenize_with(a, ch).take(cap).collect()).map_err(|b| say(format!("tokenizer by value: {}", b)))?;
            if v != base {
                return Err(say(format!("the tokenizer given by value: {:?}, by reference {:?}", brief(&v), brief(&base))));
            }
            let Ok(Ok((c, _))) = tok::build_c(&pats) else { return Err(say("building again failed".into())) };
            told.push(("a text, tokenizer by value", guard(|| text.chars().tokenize(c).take(cap).map(|t| plain(&t)).collect::<Vec<_>>()).map_err(|b| say(format!("{}", b)))?));
        }
        for (how, got) in told {
            ctx.saw(None);
            if got != want {
                return Err(say(format!("{}: {:?}, otherwise {:?}", how, got.iter().take(12).collect::<Vec<_>>(), brief(&base))));
            }
        }
        ctx.sample(499, || format!("{} -> {} tokens however consumed", show(&pats, &input), base.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- parsing

const HAND: &[&str] = &["vector", "deque", "list", "boxed", "mutable reference", "boxed, by mutable reference", "function", "two in a row", "peeked", "own collection", "mapped", "filtered", "channel", "drained"];
/// A collection of the user's; it must be asked for its iterator once.
struct Own(Vec<usize>, Rc<Cell<u32>>);
impl IntoIterator for Own {
    type Item = Tt;
    type IntoIter = Src;
    fn into_iter(self) -> Src {
        self.1.set(self.1.get() + 1);
        Src::new(self.0)
    }
}
fn toks_of(t: &[usize]) -> Vec<Tt> {
    t.iter().enumerate().map(|(id, idx)| Tt { idx: *idx, id }).collect()
}
pub fn case_par(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let Some((g, lr)) = par::pick(Kind::Any, if stage == "parc" { "curated" } else { "random" }, index, rng, ctx) else { return Ok(()) };
    let (p, _) = par::build(&g)?;
    par::note(ctx, &g, &lr);
    let key = hash_of(&g);
    let mut endless = 0;
    for toks in inputs(&g, Some(&lr), rng, if stage == "parc" { 300 } else { 40 }) {
        let Some(steps) = par::allowance(&lr, &toks, &mut endless) else { continue };
        let say = |m: String| format!("{}: {}", par::show(&g, &toks), m);
        let base = par::run_with(&p, &toks, par::Fault::None, steps).map_err(|b| say(format!("{}", b)))?;
        let all = par::reduces(&base.ev);
        for _ in 0..3 {
            let how = *rng.pick(HAND);
            ctx.saw(if toks.len() > 1 { Some(hash_of(&(key, &toks, how))) } else { None });
            ctx.stat(&format!("tokens handed over as {}", how), 1);
            // a reducer error ends the parse at that call, with the source where it was in the undisturbed parse
            let (fault, calls, res, upto) = match rng.below(3) {
                0 if !all.is_empty() => {
                    let k = rng.below(all.len());
                    let at = base.ev.iter().enumerate().filter(|(_, e)| matches!(e, Ev::Reduce(..))).nth(k).unwrap().0;
                    ctx.stat("parses ended by a reducer error", 1);
                    (par::Fault::ErrAt(k, 7), k + 1, Res::Reducer(7), at)
                }
                _ => (par::Fault::None, all.len(), base.res.clone(), base.ev.len()),
            };
            let pulled = base.ev[..upto].iter().filter(|e| matches!(e, Ev::Pull(_))).count();
            let (got, rest) = hand(&p, &toks, how, fault, steps + 1000).map_err(|b| say(format!("handed over as {}, {:?}: {}", how, fault, b)))?;
            if par::reduces(&got.ev) != all[..calls] || got.res != res {
                return Err(say(format!("handed over as {}, {:?}: {:?} after {} reducer calls, must be {:?} after {}", how, fault, got.res, par::reduces(&got.ev).len(), res, calls)));
            }
            match rest {
                Some(v) if v.iter().copied().ne(pulled..toks.len()) => return Err(say(format!("handed over as {}, {:?}: the source goes on with tokens {:?}, must go on with {}", how, fault, v, pulled))),
                Some(_) => ctx.stat("sources used on after a parse", 1),
                None => {}
            }
        }
        ctx.stat(if matches!(base.res, Res::Ok(..)) { "inputs accepted" } else { "inputs rejected" }, 1);
        ctx.sample(1999, || format!("{} -> {:?} however handed over", par::show(&g, &toks), base.res));
    }
    Ok(())
}
fn hand(p: &P, toks: &[usize], how: &str, fault: par::Fault, steps: u64) -> Result<(par::Run, Option<Vec<usize>>), Bad> {
    let mut v = toks_of(toks);
    let mut rest = None;
    let asked = Rc::new(Cell::new(1));
    let run = par::one_run(fault, steps, || match how {
        "vector" => v.parse(p),
        "deque" => v.into_iter().collect::<VecDeque<_>>().parse(p),
        "list" => v.into_iter().collect::<LinkedList<_>>().parse(p),
        "boxed" => (Box::new(v.into_iter()) as Box<dyn Iterator<Item = Tt>>).parse(p),
        "mutable reference" => {
            let mut s = Src::new(toks.to_vec());
            let r = (&mut s).parse(p);
            rest = Some(s.map(|t| t.id).collect());
            r
        }
        "boxed, by mutable reference" => {
            let mut s: Box<dyn Iterator<Item = Tt>> = Box::new(v.into_iter());
            let r = s.by_ref().parse(p);
            rest = Some(s.map(|t| t.id).collect());
            r
        }
        "function" => {
            let mut s = v.into_iter();
            std::iter::from_fn(move || s.next()).parse(p)
        }
        "two in a row" => {
            let b = v.split_off(v.len() / 2);
            v.into_iter().chain(b).parse(p)
        }
        "peeked" => {
            let mut s = v.into_iter().peekable();
            s.peek();
            s.parse(p)
        }
        "own collection" => {
            asked.set(0);
            Own(toks.to_vec(), asked.clone()).parse(p)
        }
        "mapped" => toks.iter().enumerate().map(|(id, idx)| Tt { idx: *idx, id }).parse(p),
        "filtered" => v.into_iter().flat_map(|t| vec![Tt { idx: 0, id: usize::MAX }, t]).filter(|t| t.id != usize::MAX).parse(p),
        "channel" => {
            let (tx, rx) = std::sync::mpsc::channel();
            for t in v {
                tx.send(t).unwrap();
            }
            drop(tx);
            rx.parse(p)
        }
        "drained" => v.drain(..).parse(p),
        _ => unreachable!("{}", how),
    })?;
    if asked.get() != 1 {
        return Err(Bad::Panic(format!("the collection was asked for its iterator {} times", asked.get())));
    }
    Ok((run, rest))
}
