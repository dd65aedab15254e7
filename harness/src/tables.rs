//! C29: tables that were not made by the constructors. The public fields of `DFATokenizer` and `LR1Parser` are all there is to
//! them (the macros fill them with numbers computed while compiling), so any consistent tables must be obeyed to the letter.
use crate::gram::*;
use crate::par::{self, Kind, Numbers, Res, Route, P};
use crate::tok::{self, Item, Tok};
use crate::util::*;
use parser::{Action, LR1Parser, TerminalSymbol};
use std::collections::{BTreeMap, BTreeSet};
use tokenizer::{CharRange, DFATokenizer};

// ---------------------------------------------------------------- tokenizer

struct Dfa {
    /// (first, one after the last, target), disjoint and in order
    rows: Vec<Vec<(u32, u32, usize)>>,
    begin: usize,
    end: BTreeMap<usize, usize>,
    npats: usize,
}
impl Dfa {
    fn step(&self, s: usize, c: char) -> Option<usize> {
        self.rows[s].iter().find(|(a, b, _)| *a <= c as u32 && (c as u32) < *b).map(|x| x.2)
    }
    /// (pattern, first, one after the last) of the tokens
    fn expected(&self, input: &[char]) -> Vec<(usize, usize, usize)> {
        let mut out = vec![];
        let mut pos = 0;
        loop {
            let (mut s, mut last) = (self.begin, None);
            for (i, c) in input.iter().enumerate().skip(pos) {
                match self.step(s, *c) {
                    Some(t) => s = t,
                    None => break,
                }
                if let Some(p) = self.end.get(&s) {
                    last = Some((*p, pos, i + 1));
                }
            }
            match last {
                Some(t) => {
                    out.push(t);
                    pos = t.2;
                }
                None => return out,
            }
        }
    }
}
fn random_dfa(rng: &mut Rng) -> (Dfa, Vec<char>) {
    let n = match rng.below(10) {
        0 => 1,
        1 => 2,
        9 => rng.range(13, 60),
        _ => rng.range(3, 12),
    };
    let npats = rng.range(1, 6);
    // the characters of the workload, and cuts between ranges around them
    let pool: &[u32] = match rng.below(4) {
        0 => &[97, 98, 99, 100],
        1 => &[0, 1, 9, 10, 0x7f, 0x80, 0xff, 0x100],
        2 => &[0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000],
        _ => &[0, 97, 0x10fffe, 0x10ffff, 0x3042, 0x1f600],
    };
    let chars: Vec<char> = pool.iter().filter_map(|c| char::from_u32(*c)).collect();
    let density = rng.range(3, 10);
    let far = rng.chance(1, 3);
    let rows = (0..n)
        .map(|s| {
            let mut cuts: BTreeSet<u32> = BTreeSet::new();
            for c in pool {
                for d in 0..=1 {
                    if rng.chance(2, 3) {
                        cuts.insert((c + d).min(0x110000));
                    }
                }
            }
            if rng.chance(1, 2) {
                cuts.insert(0);
            }
            if rng.chance(1, 2) {
                cuts.insert(0x110000);
            }
            let cuts: Vec<u32> = cuts.into_iter().collect();
            let mut row: Vec<(u32, u32, usize)> = vec![];
            for w in cuts.windows(2) {
                if rng.below(10) < density {
                    let to = if far && s + 1 < n && rng.chance(3, 4) { s + 1 } else { rng.below(n) };
                    row.push((w[0], w[1], to));
                }
            }
            row
        })
        .collect();
    let sparse = rng.range(1, 8);
    let end = (0..n).filter(|_| rng.chance(1, sparse)).map(|s| (s, 0)).collect::<BTreeMap<_, _>>();
    let end = end.into_keys().map(|s| (s, rng.below(npats))).collect();
    (Dfa { rows, begin: rng.below(n), end, npats }, chars)
}
/// States renumbered, and perhaps some that nothing leads to.
fn renumbered(d: &Dfa, rng: &mut Rng) -> Dfa {
    let n = d.rows.len();
    let total = n + if rng.chance(1, 3) { rng.range(1, 5) } else { 0 };
    let mut to: Vec<usize> = (0..total).collect();
    rng.shuffle(&mut to);
    let mut rows: Vec<Vec<(u32, u32, usize)>> = vec![vec![]; total];
    for s in 0..n {
        rows[to[s]] = d.rows[s].iter().map(|(a, b, t)| (*a, *b, to[*t])).collect();
    }
    for s in n..total {
        rows[to[s]] = vec![(0, 0x110000, rng.below(total))];
    }
    Dfa { rows, begin: to[d.begin], end: d.end.iter().map(|(s, p)| (to[*s], *p)).collect(), npats: d.npats }
}
/// A tokenizer from the builder whose public fields are then replaced.
fn assemble(d: &Dfa) -> DFATokenizer<Tok, Item> {
    let mut t = tok::must_build(&["x".to_string()]).expect("a pattern of one letter").0;
    t.goto = d.rows.iter().map(|r| r.iter().map(|(a, b, s)| (CharRange { range: *a..*b }, *s)).collect()).collect();
    t.begin = d.begin;
    t.end = d.end.iter().map(|(s, p)| (*s, *p)).collect();
    t.enum_maker = (0..d.npats)
        .map(|i| {
            let f: Box<dyn Fn(&str, Vec<Item>) -> Tok> = Box::new(move |s, items| {
                step();
                let (ids, chars) = items.into_iter().map(|i| (i.id, i.ch)).unzip();
                Tok { pat: i, text: s.to_string(), ids, chars }
            });
            f
        })
        .collect();
    t
}
fn case_tok(rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let (d, chars) = random_dfa(rng);
    let forms = [renumbered(&d, rng), renumbered(&d, rng)];
    let ts: Vec<_> = forms.iter().map(assemble).collect();
    ctx.stat("automata", 1);
    ctx.stat("automaton states", d.rows.len() as u64);
    for k in 0..60 {
        let len = if k % 20 == 19 { rng.range(100, 600) } else { rng.below(24) };
        let mut input: Vec<char> = vec![];
        let mut s = d.begin;
        // mostly along the edges, restarting where the stream would
        while input.len() < len {
            let open: Vec<char> = chars.iter().copied().filter(|c| d.step(s, *c).is_some()).collect();
            let c = if open.is_empty() || rng.chance(1, 8) { *rng.pick(&chars) } else { *rng.pick(&open) };
            s = d.step(s, c).unwrap_or(d.begin);
            input.push(c);
        }
        let want = d.expected(&input);
        for (form, t) in forms.iter().zip(&ts) {
            let tell = |m: String| format!("automaton {:?} begin {} accepting {:?}, input {:?}: {}", form.rows, form.begin, form.end, input, m);
            let o = tok::observe(t, &input).map_err(|b| tell(format!("{}", b)))?;
            let got: Vec<(usize, usize, usize)> = o.toks.iter().map(|t| (t.pat, t.ids.first().map_or(0, |i| *i as usize), t.ids.last().map_or(0, |i| *i as usize + 1))).collect();
            if got != want {
                return Err(tell(format!("tokens (pattern, from, to) {:?}, must be {:?}", got, want)));
            }
            for (tk, w) in o.toks.iter().zip(&want) {
                let text: String = input[w.1..w.2].iter().collect();
                if tk.text != text || tk.chars[..] != input[w.1..w.2] {
                    return Err(tell(format!("token text {:?} of items {:?}, must be {:?}", tk.text, tk.chars, text)));
                }
            }
            ctx.saw(if want.len() > 1 { Some(hash_of(&(&form.rows, form.begin, &input))) } else { None });
            ctx.stat("tokens compared", want.len() as u64);
        }
        ctx.sample(1999, || format!("{} states, input {:?} -> {:?}", d.rows.len(), input, want));
    }
    Ok(())
}

// ---------------------------------------------------------------- parser

/// Every conflict decided by lot.
fn decide(lr: &mut Lr, rng: &mut Rng) -> u64 {
    let ns = lr.g.rules.len();
    let mut changed = 0;
    for (s, la, shift, reduces) in lr.compete.clone() {
        let k = rng.below(reduces.len() + shift as usize);
        if k == reduces.len() {
            continue; // the shift is there already
        }
        // ERROR is never what the next token is, so nothing can be reduced on it
        let act = if reduces[k] == ns { Act::Accept } else { Act::Reduce(reduces[k]) };
        if la != La::E && lr.action[s].insert(la, act) != Some(act) {
            changed += 1;
        }
    }
    changed
}
/// States with the same items but for the look-aheads become one (as in an LALR table); competing actions are decided by lot.
fn merged(lr: &Lr, rng: &mut Rng) -> Lr {
    let core = |s: usize| lr.states[s].iter().map(|(r, d, _)| (*r, *d)).collect::<BTreeSet<_>>();
    let mut number: BTreeMap<BTreeSet<(usize, usize)>, usize> = BTreeMap::new();
    let mut of = vec![];
    for s in 0..lr.states.len() {
        let n = number.len();
        of.push(*number.entry(core(s)).or_insert(n));
    }
    let n = number.len();
    let mut out = Lr { g: lr.g.clone(), states: vec![BTreeSet::new(); n], action: vec![BTreeMap::new(); n], goto: vec![BTreeMap::new(); n], compete: vec![], error_rules: vec![BTreeSet::new(); n] };
    for s in 0..lr.states.len() {
        let t = of[s];
        out.states[t].extend(lr.states[s].iter().copied());
        out.error_rules[t].extend(lr.error_rules[s].iter().copied());
        for (sym, to) in &lr.goto[s] {
            out.goto[t].insert(*sym, of[*to]);
        }
        for (la, a) in &lr.action[s] {
            let a = if let Act::Shift(x) = a { Act::Shift(of[*x]) } else { *a };
            match out.action[t].get(la) {
                Some(b) if *b != a && (*la == La::E || rng.chance(1, 2)) => {}
                _ => {
                    out.action[t].insert(*la, a);
                }
            }
        }
    }
    out
}
/// Reductions also on tokens after which they lead nowhere, so that errors are noticed later.
fn default_reductions(lr: &mut Lr, rng: &mut Rng) -> u64 {
    let mut n = 0;
    for s in 0..lr.action.len() {
        let rules: BTreeSet<usize> = lr.action[s].values().filter_map(|a| if let Act::Reduce(r) = a { Some(*r) } else { None }).collect();
        let Some(r) = rules.into_iter().next() else { continue };
        if rng.chance(1, 3) {
            continue;
        }
        for la in (0..=lr.g.nt).map(La::T).chain(Some(La::Eoi)) {
            if !lr.action[s].contains_key(&la) && rng.chance(4, 5) {
                lr.action[s].insert(la, Act::Reduce(r));
                n += 1;
            }
        }
    }
    n
}
/// Some moves taken away.
fn thin(lr: &mut Lr, rng: &mut Rng) -> u64 {
    let mut n = 0;
    for s in 0..lr.action.len() {
        let las: Vec<La> = lr.action[s].keys().copied().collect();
        for la in las {
            if !rng.chance(1, 25) {
                continue;
            }
            n += 1;
            if la == La::E {
                // perhaps only one of the alternatives
                if lr.error_rules[s].len() > 1 && rng.chance(1, 2) {
                    let r = *rng.pick(&lr.error_rules[s].iter().copied().collect::<Vec<_>>());
                    lr.error_rules[s].remove(&r);
                    continue;
                }
                lr.error_rules[s].clear();
            }
            lr.action[s].remove(&la);
        }
    }
    n
}
/// A parser from the constructor whose public fields are then replaced. States get numbers by lot.
fn assemble_parser(lr: &Lr, num: &Numbers, rng: &mut Rng) -> P {
    let g = &lr.g;
    let mut order: Vec<usize> = (0..g.rules.len()).collect();
    rng.shuffle(&mut order);
    let mut place = vec![0; order.len()];
    for (at, r) in order.iter().enumerate() {
        place[*r] = at;
    }
    let states: Vec<usize> = {
        let mut set = BTreeSet::new();
        let style = rng.below(3);
        while set.len() < lr.action.len() {
            set.insert(match style {
                0 => set.len(),
                1 => 3 * set.len() + rng.below(2),
                _ => (rng.next() >> rng.below(50)) as usize,
            });
        }
        let mut v: Vec<usize> = set.into_iter().collect();
        rng.shuffle(&mut v);
        v
    };
    let tiny = Gram::parse("S -> a");
    let mut p: P = LR1Parser::new(par::syntax(&tiny, &Numbers::plain(&tiny), &[Route::New], &[0], false)).0;
    p.rules = par::syntax(g, num, &[Route::New, Route::Raw, Route::Builder], &order, false).into_rules();
    p.action_table = lr
        .action
        .iter()
        .enumerate()
        .map(|(s, row)| {
            let row = row.iter().map(|(la, a)| {
                let la = match la {
                    La::T(t) => TerminalSymbol::Symbol(num.t[*t]),
                    La::E => TerminalSymbol::Error(()),
                    La::Eoi => TerminalSymbol::EOI,
                };
                let a = match a {
                    Act::Shift(t) => Action::Shift(states[*t]),
                    Act::Reduce(r) => Action::Reduce(place[*r]),
                    Act::Accept => Action::Accept,
                };
                (la, a)
            });
            (states[s], row.collect())
        })
        .collect();
    p.goto_table = lr
        .goto
        .iter()
        .enumerate()
        .map(|(s, row)| (states[s], row.iter().filter_map(|(sym, t)| if let Sym::N(n) = sym { Some((num.n[*n], states[*t])) } else { None }).collect()))
        .collect();
    p.error_rules = lr.error_rules.iter().enumerate().filter(|(_, e)| !e.is_empty()).map(|(s, e)| (states[s], e.iter().map(|r| place[*r]).collect())).collect();
    p.start = states[0];
    p
}
fn case_par(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let kind = match stage {
        "curated" => Kind::Any,
        _ => *rng.pick(&[Kind::Clean, Kind::Conflict, Kind::Error, Kind::Any]),
    };
    let Some((g, lr)) = par::pick_from(kind, stage, index, rng, ctx, true) else { return Ok(()) };
    par::note(ctx, &g, &lr);
    let inputs = if stage == "curated" { inputs(&g, Some(&lr), rng, 200) } else { inputs(&g, Some(&lr), rng, 60) };
    for round in 0..3 {
        let mut lr = if rng.chance(1, 3) {
            let m = merged(&lr, rng);
            ctx.stat("states merged away", (lr.states.len() - m.states.len()) as u64);
            m
        } else {
            let mut l = Lr { g: g.clone(), states: lr.states.clone(), action: lr.action.clone(), goto: lr.goto.clone(), compete: lr.compete.clone(), error_rules: lr.error_rules.clone() };
            ctx.stat("conflicts decided against the default", decide(&mut l, rng));
            l
        };
        if rng.chance(1, 3) {
            ctx.stat("default reductions added", default_reductions(&mut lr, rng));
        }
        if rng.chance(1, 4) {
            ctx.stat("moves taken away", thin(&mut lr, rng));
        }
        let num = par::numbers(&g, rng);
        let p = assemble_parser(&lr, &num, rng);
        ctx.stat("assembled parsers", 1);
        for toks in &inputs {
            let cap = 2000 + 30 * toks.len();
            let (ev, out, notes) = drive(&lr, toks, cap);
            if out == Out::Cap {
                ctx.stat("inputs skipped: the tables send the parser round and round", 1);
                continue;
            }
            let steps = cap as u64 * (toks.len() as u64 + 100);
            let mapped: Vec<usize> = toks.iter().map(|t| num.t[*t]).collect();
            let tell = |m: String| format!("assembled tables, round {}, {}: {}", round, par::show(&g, toks), m);
            let r = par::run_with(&p, &mapped, par::Fault::None, steps).map_err(|b| tell(format!("{}", b)))?;
            let rs = par::reduces(&r.ev);
            par::same_as_reference(&rs, &ev).map_err(tell)?;
            let same = match (&r.res, &out) {
                (Res::Ok(n, idx), Out::Ok(k)) => n == k && *idx == num.n[g.rules[ev[*k].0].0],
                (Res::NoRecovery, Out::NoRecovery) => true,
                _ => false,
            };
            if !same {
                return Err(tell(format!("outcome {:?}, must be {:?}", r.res, out)));
            }
            ctx.saw(if !ev.is_empty() { Some(hash_of(&(&g, toks, &lr.action))) } else { None });
            ctx.stat(if matches!(out, Out::Ok(_)) { "inputs accepted" } else { "inputs rejected" }, 1);
            if !notes.is_empty() {
                ctx.stat("inputs with recovery", 1);
            }
            ctx.stat("reducer calls observed", rs.len() as u64);
            ctx.sample(1999, || tell(format!("{:?}, {} reducer calls", out, ev.len())));
        }
    }
    Ok(())
}
pub fn case(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    if stage == "tok" {
        case_tok(rng, ctx)
    } else {
        case_par(stage, index, rng, ctx)
    }
}
