//! C21 (tokenizer half) and C22.
use crate::gram::{Gram, Sym};
use crate::par::{Er, Nn, Route, Tt};
use crate::util::*;
use parser::{Rule, Symbol, Syntax, TerminalSymbol};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::hash_map::{DefaultHasher, RandomState};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};
use tokenizer::{CharRange, DFATokenizer, Tokenize};

/// Long tokens, many tokens, long look-ahead handed back, on a small stack.
pub fn case_c21_tok(index: u64, size: usize, ctx: &mut Ctx) -> Verdict {
    type Mk = fn(usize) -> String;
    type Ex = fn(usize) -> Vec<(usize, usize, usize)>; // (pattern, token length, how many in a row)
    let fam: &[(&str, &[&str], Mk, Ex)] = &[
        ("one long word", &["[a-z]+", " "], |n| "q".repeat(n), |n| vec![(0, n, 1)]),
        ("one long string literal", &["\"[^\"]*\"", "x"], |n| format!("\"{}\"x", "é".repeat(n)), |n| vec![(0, n + 2, 1), (1, 1, 1)]),
        ("many one-character tokens", &["a", "b"], |n| "ab".repeat(n / 2), |_| vec![]),
        ("long look-ahead handed back once", &["a", "a*b"], |n| format!("{}c", "a".repeat(n.min(2000))), |n| vec![(0, 1, n.min(2000))]),
        ("long counted block", &["(?s:.){3}", "x"], |n| "漢字x".repeat(n / 3), |n| vec![(0, 3, n / 3)]),
        ("nothing matches after a long word", &["[a-z]+!", "[a-z]"], |n| "z".repeat(n.min(2000)), |n| vec![(1, 1, n.min(2000))]),
        ("comment", &["/\\*([^*]|\\*+[^*/])*\\*+/", "y"], |n| format!("/*{}*/y", "* /".repeat(n / 3)), |n| vec![(0, 4 + 3 * (n / 3), 1), (1, 1, 1)]),
    ];
    let (name, pats, mk, ex) = fam[index as usize % fam.len()];
    let h = std::thread::Builder::new()
        .stack_size(256 * 1024)
        .spawn(move || -> Result<(u64, Vec<(usize, usize, usize)>, usize), String> {
            reset_alloc_budget(u64::MAX);
            set_budget(u64::MAX);
            let mut b = DFATokenizer::<(usize, usize, usize), char>::builder();
            for (i, p) in pats.iter().enumerate() {
                b = b.pattern(p, move |s: &str, v: Vec<char>| (i, s.chars().count(), v.len()));
            }
            let (t, _) = guard(|| b.build()).map_err(|b| b.to_string())?.map_err(|e| format!("{:?}", e))?;
            let input = mk(size);
            let mut runs: Vec<(usize, usize, usize)> = Vec::new();
            let mut n = 0u64;
            let mut covered = 0;
            guard(|| {
                for (p, chars, items) in input.chars().tokenize(&t) {
                    n += 1;
                    covered += items;
                    match runs.last_mut() {
                        Some(l) if l.0 == p && l.1 == chars => l.2 += 1,
                        _ => runs.push((p, chars, 1)),
                    }
                    assert_eq!(chars, items, "text and items differ in length");
                }
            })
            .map_err(|b| b.to_string())?;
            Ok((n, runs, covered))
        })
        .unwrap();
    let (n, runs, covered) = h.join().map_err(|_| format!("{}: the thread died", name))?.map_err(|m| format!("{} {:?}, size {}: {}", name, pats, size, m))?;
    let len = mk(size).chars().count();
    let mut want = ex(size);
    if want.is_empty() {
        want = (0..len).map(|i| (i % 2, 1, 1)).collect();
    }
    ctx.saw(Some(hash_of(&(name, size))));
    ctx.stat("characters tokenized on a 256 KiB stack", covered as u64);
    ctx.stat("tokens", n);
    if runs != want {
        return Err(format!("{} {:?} of size {}: tokens (pattern, length, repeated) {:?}, must be {:?}", name, pats, size, &runs[..runs.len().min(4)], &want[..want.len().min(4)]));
    }
    ctx.sample(1, || format!("{} of size {}: {} tokens", name, size, n));
    Ok(())
}

fn fixed_hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}
fn contracts<T: Ord + Hash + Debug>(v: &[T], same: impl Fn(usize, usize) -> bool, what: &str, ctx: &mut Ctx) -> Verdict {
    let rs = RandomState::new();
    for i in 0..v.len() {
        for j in 0..v.len() {
            let (a, b) = (&v[i], &v[j]);
            let eq = a == b;
            ctx.evals += 1;
            if eq != same(i, j) {
                return Err(format!("{}: {:?} == {:?} is {}", what, a, b, eq));
            }
            if (a != b) == eq {
                return Err(format!("{}: == and != agree on {:?} and {:?}", what, a, b));
            }
            let c = a.cmp(b);
            if (c == Ordering::Equal) != eq || c != b.cmp(a).reverse() || a.partial_cmp(b) != Some(c) || (a < b) != (c == Ordering::Less) || (a >= b) != (c != Ordering::Less) {
                return Err(format!("{}: {:?} and {:?} compare as {:?}, the other way {:?}, partially {:?}, equal: {}", what, a, b, c, b.cmp(a), a.partial_cmp(b), eq));
            }
            if eq && (fixed_hash(a) != fixed_hash(b) || rs.hash_one(a) != rs.hash_one(b)) {
                return Err(format!("{}: {:?} and {:?} are equal but hash differently", what, a, b));
            }
        }
    }
    for i in 0..v.len() {
        for j in 0..v.len() {
            if v[i] > v[j] {
                continue;
            }
            for k in 0..v.len() {
                ctx.evals += 1;
                if v[j] <= v[k] && !(v[i] <= v[k]) {
                    return Err(format!("{}: {:?} <= {:?} <= {:?}, but not {:?} <= {:?}", what, v[i], v[j], v[k], v[i], v[k]));
                }
            }
        }
    }
    Ok(())
}
/// Values of a small pool in which equal ones are frequent.
pub fn case_c22(stage: &str, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let n = 16;
    match stage {
        "ranges" => {
            let starts = [0u32, 1, 2, 0x41, 0x42, 0xff, 0x100, 0x101, 0xffff, 0x10000, 0x10ffff, 0x0100_0041];
            let v: Vec<CharRange> = (0..n)
                .map(|_| {
                    let s = *rng.pick(&starts);
                    let e = match rng.below(4) {
                        0 => s + 1,
                        1 => s + 2,
                        2 => s + 1 + rng.below(1000) as u32,
                        _ => 0x110000.max(s + 1),
                    };
                    CharRange { range: s..e }
                })
                .collect();
            ctx.distinct.insert(hash_of(&v.iter().map(|r| (r.range.start, r.range.end)).collect::<Vec<_>>()));
            contracts(&v, |i, j| v[i].range.start == v[j].range.start, "character ranges", ctx)?;
            for (i, a) in v.iter().enumerate() {
                let b: &u32 = a.borrow();
                if *b != a.range.start {
                    return Err(format!("{:?} is borrowed as {}", a, b));
                }
                if fixed_hash(a) != fixed_hash(b) {
                    return Err(format!("{:?} and its start hash differently", a));
                }
                for c in &v {
                    let d: &u32 = c.borrow();
                    if b.cmp(d) != a.cmp(c) || (b == d) != (a == c) {
                        return Err(format!("{:?} and {:?} compare differently from their starts", a, c));
                    }
                }
                let _ = i;
            }
            let hm: HashMap<CharRange, u32> = v.iter().map(|r| (r.clone(), r.range.start)).collect();
            let bm: BTreeMap<CharRange, u32> = v.iter().map(|r| (r.clone(), r.range.start)).collect();
            let known: BTreeSet<u32> = v.iter().map(|r| r.range.start).collect();
            if hm.len() != known.len() || bm.len() != known.len() {
                return Err(format!("maps hold {} and {} ranges with {} different starts", hm.len(), bm.len(), known.len()));
            }
            for s in starts {
                let want = known.contains(&s).then_some(s);
                if hm.get(&s).copied() != want || bm.get(&s).copied() != want {
                    return Err(format!("looking up {} gives {:?} and {:?} instead of {:?}", s, hm.get(&s), bm.get(&s), want));
                }
                let below = bm.range(..=s).next_back().map(|x| *x.1);
                if below != known.range(..=s).next_back().copied() {
                    return Err(format!("the last range starting at most at {} is {:?}", s, below));
                }
                if hm.get(&CharRange { range: s..s + 7 }).copied() != want {
                    return Err(format!("looking up the range from {} differs from looking up its start", s));
                }
            }
            // printing never fails and shows the start
            for r in &v {
                let s = guard(|| format!("{:?}", r)).map_err(|b| format!("printing a range {}..{}: {}", r.range.start, r.range.end, b))?;
                if s.is_empty() {
                    return Err("a range prints as nothing".into());
                }
            }
            ctx.sample(50_000, || format!("{:?}", v));
        }
        "rules" => {
            type Key = (usize, Vec<Sym>);
            let mut keys: Vec<Key> = Vec::new();
            for _ in 0..n {
                if !keys.is_empty() && rng.chance(1, 2) {
                    let mut k = rng.pick(&keys).clone();
                    match rng.below(5) {
                        0 => k.0 = rng.below(3),
                        1 => k.1.push(if rng.chance(1, 2) { Sym::T(rng.below(2)) } else { Sym::E }),
                        2 => {
                            k.1.pop();
                        }
                        3 if !k.1.is_empty() => {
                            let i = rng.below(k.1.len());
                            k.1[i] = match k.1[i] {
                                Sym::T(x) => Sym::N(x),
                                Sym::N(x) => Sym::T(x),
                                Sym::E => Sym::T(0),
                            }
                        }
                        _ => {}
                    }
                    keys.push(k);
                } else {
                    let len = rng.below(4);
                    keys.push((
                        rng.below(3),
                        (0..len)
                            .map(|_| match rng.below(5) {
                                0 | 1 => Sym::T(rng.below(3)),
                                2 | 3 => Sym::N(rng.below(3)),
                                _ => Sym::E,
                            })
                            .collect(),
                    ));
                }
            }
            let g = Gram { nn: 3, nt: 3, rules: keys.clone(), start: 0 };
            let order: Vec<usize> = (0..n).collect();
            let routes = [*rng.pick(&[Route::New, Route::Raw, Route::Builder]), *rng.pick(&[Route::New, Route::Raw, Route::Builder])];
            let num = crate::par::Numbers { n: vec![0, 1, 2], t: vec![0, 1, 2, 3] };
            let syn: Syntax<Nn, Tt, Er> = crate::par::syntax(&g, &num, &routes, &order, true);
            let v: Vec<Rule<Nn, Tt, Er>> = syn.into_rules();
            if v.len() != n {
                return Err(format!("{} rules were declared, {} are there", n, v.len()));
            }
            ctx.distinct.insert(hash_of(&keys));
            contracts(&v, |i, j| keys[i] == keys[j], "rules", ctx)?;
            let hs: HashSet<&Rule<Nn, Tt, Er>> = v.iter().collect();
            let bs: BTreeSet<&Rule<Nn, Tt, Er>> = v.iter().collect();
            let ks: HashSet<&Key> = keys.iter().collect();
            if hs.len() != ks.len() || bs.len() != ks.len() {
                return Err(format!("sets hold {} and {} of {} different rules", hs.len(), bs.len(), ks.len()));
            }
            ctx.sample(50_000, || format!("{:?}", keys));
        }
        _ => {
            let keys: Vec<(usize, usize)> = (0..n).map(|_| (rng.below(3), rng.below(3))).collect();
            let v: Vec<Symbol<usize, usize, usize>> = keys
                .iter()
                .map(|(k, x)| match k {
                    0 => Symbol::NonTerminal(*x),
                    1 => Symbol::Terminal(*x),
                    _ => Symbol::Error(*x),
                })
                .collect();
            ctx.distinct.insert(hash_of(&keys));
            contracts(&v, |i, j| keys[i] == keys[j], "grammar symbols", ctx)?;
            let w: Vec<TerminalSymbol<usize, ()>> = keys
                .iter()
                .map(|(k, x)| match k {
                    0 => TerminalSymbol::Symbol(*x),
                    1 => TerminalSymbol::Error(()),
                    _ => TerminalSymbol::EOI,
                })
                .collect();
            contracts(&w, |i, j| keys[i].0 == keys[j].0 && (keys[i].0 != 0 || keys[i].1 == keys[j].1), "terminal symbols", ctx)?;
            let c = v.clone();
            if c != v {
                return Err("a clone differs from its original".into());
            }
            ctx.sample(50_000, || format!("{:?}", keys));
        }
    }
    ctx.stat(&format!("pools of {}", stage), 1);
    Ok(())
}
