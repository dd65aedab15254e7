//! Monitors for the parser (C08-C15, C18, parser halves of C20 and C21).
use crate::gram::*;
use crate::util::*;
use parser::enum_index::EnumIndex;
use parser::{LR1Parser, Parse, ParseError, Rule, Symbol, Syntax};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};

pub struct Tt {
    pub idx: usize,
    pub id: usize,
}
impl EnumIndex for Tt {
    fn enum_index(&self) -> usize {
        step();
        self.idx
    }
}
pub struct Nn {
    pub idx: usize,
    pub node: usize,
}
impl EnumIndex for Nn {
    fn enum_index(&self) -> usize {
        self.idx
    }
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Er(pub u64);
impl std::fmt::Display for Er {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "reducer error no. {}", self.0)
    }
}
impl std::error::Error for Er {}
pub type P = LR1Parser<Nn, Tt, Er>;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum RArg {
    N(usize, usize),
    T(usize, usize),
    E(Slice),
}
/// The tokens in an ERROR slice; a slice may be long and be handed out often.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Slice {
    Run(std::ops::Range<usize>),
    Odd(Vec<usize>),
}
impl Slice {
    fn of(e: &[Tt]) -> Slice {
        let Some(a) = e.first().map(|t| t.id) else { return Slice::Run(0..0) };
        let fits = |i: usize| e[i].id == a.wrapping_add(i);
        // of a very long one, the ends and some places in between
        let run = if e.len() <= 2048 {
            (0..e.len()).all(fits)
        } else {
            (0..64).all(fits) && (e.len() - 64..e.len()).all(fits) && (0..256).all(|k| fits(e.len() / 256 * k))
        };
        if run {
            Slice::Run(a..a + e.len())
        } else {
            Slice::Odd(e.iter().map(|t| t.id).collect())
        }
    }
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ev {
    Pull(usize),
    End,
    Reduce(usize, Vec<RArg>),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    ErrAt(usize, u64),
    PanicAt(usize),
    NestAt(usize),
}
pub struct Rec {
    pub ev: Vec<Ev>,
    pub reduces: usize,
    pub fault: Fault,
    pub keep: bool,
}
thread_local! {
    static REC: RefCell<Rec> = const { RefCell::new(Rec { ev: Vec::new(), reduces: 0, fault: Fault::None, keep: true }) };
    /// what a source has handed out so far, by its own count (C26)
    pub static MARK: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static MARKS: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
    static NEST: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}
fn reduce(rule: usize, lhs: usize, list: &mut [Symbol<&mut Nn, &Tt, &[Tt]>]) -> Result<Nn, Er> {
    step();
    let (k, fault) = REC.with(|r| {
        let mut r = r.borrow_mut();
        let k = r.reduces;
        r.reduces += 1;
        if r.keep {
            let args = list
                .iter_mut()
                .map(|s| match s {
                    Symbol::NonTerminal(n) => RArg::N(std::mem::replace(&mut n.node, usize::MAX), n.idx),
                    Symbol::Terminal(t) => RArg::T(t.id, t.idx),
                    Symbol::Error(e) => RArg::E(Slice::of(e)),
                })
                .collect();
            r.ev.push(Ev::Reduce(rule, args));
            MARKS.with(|m| m.borrow_mut().push(MARK.with(|c| c.get())));
        }
        (k, r.fault)
    });
    match fault {
        Fault::ErrAt(n, code) if n == k => return Err(Er(code)),
        Fault::PanicAt(n) if n == k => std::panic::panic_any("injected".to_string()),
        Fault::NestAt(n) if n == k => {
            let f = NEST.with(|x| x.borrow_mut().take());
            if let Some(mut f) = f {
                f();
            }
        }
        _ => {}
    }
    Ok(Nn { idx: lhs, node: k })
}
pub struct Src {
    toks: Vec<usize>,
    at: usize,
    hint: Hint,
}
impl Src {
    pub fn new(toks: Vec<usize>) -> Src {
        let hint = Hint::new(&toks);
        Src { toks, at: 0, hint }
    }
}
impl Iterator for Src {
    type Item = Tt;
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint.of(self.toks.len() - self.at)
    }
    fn next(&mut self) -> Option<Tt> {
        step();
        let i = self.at;
        REC.with(|r| {
            let mut r = r.borrow_mut();
            if r.keep {
                r.ev.push(if i < self.toks.len() { Ev::Pull(i) } else { Ev::End });
            }
        });
        if i < self.toks.len() {
            self.at += 1;
            Some(Tt { idx: self.toks[i], id: i })
        } else {
            None
        }
    }
}

#[derive(Clone, Debug)]
pub struct Numbers {
    pub n: Vec<usize>,
    pub t: Vec<usize>,
}
impl Numbers {
    pub fn plain(g: &Gram) -> Numbers {
        Numbers { n: (0..g.nn).collect(), t: (0..=g.nt).collect() }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Route {
    New,
    Builder,
    Raw,
}
/// `order`: the order in which the rules are declared; reductions are logged under the original rule number.
pub fn syntax(g: &Gram, num: &Numbers, routes: &[Route], order: &[usize], start_raw: bool) -> Syntax<Nn, Tt, Er> {
    let mut b = Syntax::<Nn, Tt, Er>::builder();
    for (k, i) in order.iter().enumerate() {
        let (l, r) = &g.rules[*i];
        let (i, li) = (*i, num.n[*l]);
        let f = move |list: &mut [Symbol<&mut Nn, &Tt, &[Tt]>]| reduce(i, li, list);
        let nn = |n: usize| Nn { idx: num.n[n], node: 0 };
        let tt = |t: usize| Tt { idx: num.t[t], id: 0 };
        b = b.rule(match routes[k % routes.len()] {
            Route::New => Rule::new(
                nn(*l),
                &r.iter()
                    .map(|s| match s {
                        Sym::N(n) => Symbol::NonTerminal(nn(*n)),
                        Sym::T(t) => Symbol::Terminal(tt(*t)),
                        Sym::E => Symbol::Error(()),
                    })
                    .collect::<Vec<_>>(),
                f,
            ),
            Route::Raw => Rule::new_raw(
                li,
                &r.iter()
                    .map(|s| match s {
                        Sym::N(n) => Symbol::NonTerminal(num.n[*n]),
                        Sym::T(t) => Symbol::Terminal(num.t[*t]),
                        Sym::E => Symbol::Error(()),
                    })
                    .collect::<Vec<_>>(),
                f,
            ),
            Route::Builder => {
                let mut rb = Rule::<Nn, Tt, Er>::builder(nn(*l));
                for s in r {
                    rb = match s {
                        Sym::N(n) => rb.non_terminal(nn(*n)),
                        Sym::T(t) => rb.terminal(tt(*t)),
                        Sym::E => rb.error(),
                    };
                }
                rb.build(f)
            }
        });
    }
    if start_raw {
        b.build_raw(num.n[g.start])
    } else {
        b.build(Nn { idx: num.n[g.start], node: 0 })
    }
}
pub fn build(g: &Gram) -> Result<(P, Vec<String>), String> {
    let order: Vec<usize> = (0..g.rules.len()).collect();
    set_budget(u64::MAX);
    guard(|| {
        let (p, w) = LR1Parser::new(syntax(g, &Numbers::plain(g), &[Route::New], &order, false));
        (p, w.iter().map(|x| format!("{:?}", x)).collect())
    })
    .map_err(|b| format!("building the parser of {:?}: {}", g, b))
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Res {
    /// node, its number
    Ok(usize, usize),
    NoRecovery,
    Reducer(u64),
    Panicked,
}
pub struct Run {
    pub ev: Vec<Ev>,
    pub res: Res,
}
pub fn run_with(p: &P, toks: &[usize], fault: Fault, budget: u64) -> Result<Run, Bad> {
    one_run(fault, budget, || Src::new(toks.to_vec()).parse(p))
}
pub struct Marked {
    pub run: Run,
    /// MARK at each reducer call and at the end
    pub marks: Vec<usize>,
    pub end: usize,
}
pub fn run_any(budget: u64, f: impl FnOnce() -> Result<Nn, ParseError<Er>>) -> Result<Marked, Bad> {
    MARK.with(|c| c.set(0));
    let run = one_run(Fault::None, budget, f)?;
    Ok(Marked { run, marks: MARKS.with(|m| std::mem::take(&mut *m.borrow_mut())), end: MARK.with(|c| c.get()) })
}
pub fn one_run(fault: Fault, budget: u64, f: impl FnOnce() -> Result<Nn, ParseError<Er>>) -> Result<Run, Bad> {
    REC.with(|r| *r.borrow_mut() = Rec { ev: vec![], reduces: 0, fault, keep: true });
    MARKS.with(|m| m.borrow_mut().clear());
    set_budget(budget);
    let r = guard(f);
    let ev = REC.with(|r| std::mem::take(&mut r.borrow_mut().ev));
    let res = match r {
        Ok(Ok(n)) => Res::Ok(n.node, n.idx),
        Ok(Err(ParseError::RecoveryRuleNotFound)) => Res::NoRecovery,
        Ok(Err(ParseError::ErrorInReducer(e))) => Res::Reducer(e.0),
        Err(Bad::Panic(_)) if matches!(fault, Fault::PanicAt(_)) => Res::Panicked,
        Err(b) => return Err(b),
    };
    Ok(Run { ev, res })
}
const STEPS: u64 = 400_000;
const CAP: usize = 100_000;
/// The steps the reference automaton is given.
pub fn cap_for(len: usize) -> usize {
    CAP.max(30 * len).min(1_500_000.max(10 * len))
}
/// The number of steps a parse of `toks` may take before it counts as endless; none if the reference automaton itself
/// needs too many (recovery backs up, and on some inputs does so exponentially often).
pub fn allowance(lr: &Lr, toks: &[usize], endless: &mut u32) -> Option<u64> {
    // a grammar on which many inputs do not end gets only the small limit from then on
    for cap in [cap_for(toks.len()).min(4_000.max(30 * toks.len())), cap_for(toks.len())] {
        if drive(lr, toks, cap).1 != Out::Cap {
            return Some(cap as u64 * (toks.len() as u64 + 100));
        }
        if *endless > 3 {
            break;
        }
    }
    *endless += 1;
    None
}
pub fn show(g: &Gram, toks: &[usize]) -> String {
    let g = cut(format!("{:?}", g), 1500);
    if toks.len() > 200 {
        format!("grammar [{}], {} tokens {:?}...", g, toks.len(), &toks[..60])
    } else {
        format!("grammar [{}], tokens {:?}", g, toks)
    }
}
pub fn reduces(ev: &[Ev]) -> Vec<(usize, &Vec<RArg>)> {
    ev.iter().filter_map(|e| if let Ev::Reduce(r, a) = e { Some((*r, a)) } else { None }).collect()
}

pub struct TreeInfo {
    pub post: Vec<usize>,
    pub leaves: Vec<usize>,
    pub slices: Vec<Slice>,
    pub depth: usize,
}
/// Rebuilds the tree under `root` from the reducer calls and checks it against the grammar.
fn tree(g: &Gram, num: &Numbers, toks: &[usize], rs: &[(usize, &Vec<RArg>)], root: usize) -> Result<TreeInfo, String> {
    let mut info = TreeInfo { post: vec![], leaves: vec![], slices: vec![], depth: 0 };
    let mut used = vec![false; rs.len()];
    // (node, next child)
    if root >= rs.len() {
        return Err(format!("the result is no value a reducer returned ({})", root));
    }
    let mut stack = vec![(root, 0usize)];
    used[root] = true;
    while let Some((n, c)) = stack.pop() {
        info.depth = info.depth.max(stack.len() + 1);
        let (rule, args) = rs[n];
        let rhs = &g.rules[rule].1;
        if c == 0 && args.len() != rhs.len() {
            return Err(format!("rule {} was given {} symbols", rule, args.len()));
        }
        if c == args.len() {
            info.post.push(n);
            continue;
        }
        stack.push((n, c + 1));
        match (&args[c], &rhs[c]) {
            (RArg::N(k, idx), Sym::N(x)) => {
                if *k >= rs.len() || used[*k] {
                    return Err(format!("rule {} child {} is not a fresh value of a reducer ({})", rule, c, *k as isize));
                }
                if num.n[g.rules[rs[*k].0].0] != *idx || num.n[*x] != *idx {
                    return Err(format!("rule {} child {} has the wrong non-terminal", rule, c));
                }
                used[*k] = true;
                stack.push((*k, 0));
            }
            (RArg::T(id, idx), Sym::T(t)) => {
                if *id >= toks.len() || toks[*id] != *idx || num.t[*t] != *idx {
                    return Err(format!("rule {} child {} is token {} of kind {}, want kind {}", rule, c, id, idx, num.t[*t]));
                }
                info.leaves.push(*id);
            }
            (RArg::E(ids), Sym::E) => info.slices.push(ids.clone()),
            (a, s) => return Err(format!("rule {} child {} is {:?} where the rule says {:?}", rule, c, a, s)),
        }
    }
    Ok(info)
}
/// A parse without recovery: every reducer call belongs to the tree, in post-order, leaves are all tokens in order.
pub fn check_tree_exact(g: &Gram, num: &Numbers, toks: &[usize], r: &Run) -> Result<TreeInfo, String> {
    let Res::Ok(root, idx) = r.res else { return Err(format!("outcome {:?} for a sentence", r.res)) };
    if idx != num.n[g.start] {
        return Err("the result is not of the start symbol".into());
    }
    let rs = reduces(&r.ev);
    let t = tree(g, num, toks, &rs, root)?;
    if t.post.len() != rs.len() {
        return Err(format!("{} reducer calls, but the tree has {} nodes", rs.len(), t.post.len()));
    }
    if t.post.iter().enumerate().any(|(i, n)| i != *n) {
        return Err(format!("reducers were not called bottom-up and left to right: {:?}", t.post));
    }
    if !t.slices.is_empty() {
        return Err("a sentence was parsed with ERROR".into());
    }
    if t.leaves.len() != toks.len() || t.leaves.iter().enumerate().any(|(i, l)| i != *l) {
        return Err(format!("the leaves of the tree are tokens {:?}", t.leaves));
    }
    Ok(t)
}
/// A parse with recovery.
fn check_tree_recovered(g: &Gram, num: &Numbers, toks: &[usize], r: &Run) -> Result<TreeInfo, String> {
    let Res::Ok(root, idx) = r.res else { unreachable!() };
    if idx != num.n[g.start] {
        return Err("the result is not of the start symbol".into());
    }
    let rs = reduces(&r.ev);
    let t = tree(g, num, toks, &rs, root)?;
    if t.leaves.windows(2).any(|w| w[0] >= w[1]) {
        return Err(format!("the token leaves are not in input order: {:?}", t.leaves));
    }
    let mut runs: Vec<std::ops::Range<usize>> = t.leaves.iter().map(|l| *l..*l + 1).collect();
    for s in &t.slices {
        match s {
            Slice::Run(r) if r.end <= toks.len() => runs.push(r.clone()),
            s => return Err(format!("ERROR was given {:?}, which is no slice of the input", s)),
        }
    }
    runs.sort_by_key(|r| r.start);
    let mut to = 0;
    for r in runs {
        if r.start > to {
            break;
        }
        to = to.max(r.end);
    }
    if to < toks.len() {
        let i = to;
        return Err(format!("token {} is lost: leaves {:?}, slices {:?}", i, t.leaves, t.slices));
    }
    Ok(t)
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Clean,
    Conflict,
    Error,
    Any,
}
pub fn curated(kind: Kind) -> Vec<Gram> {
    match kind {
        Kind::Clean => CURATED.iter().map(|s| Gram::parse(s)).chain(big_grammars()).collect(),
        Kind::Conflict => CURATED_CONFLICT.iter().map(|s| Gram::parse(s)).chain(big_conflict_grammars()).collect(),
        Kind::Error => CURATED_ERROR.iter().map(|s| Gram::parse(s)).chain(big_error_grammars()).collect(),
        Kind::Any => [Kind::Clean, Kind::Conflict, Kind::Error].iter().flat_map(|k| curated(*k)).collect(),
    }
}
/// A grammar of the wanted kind with its reference automaton.
pub fn pick(kind: Kind, stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Option<(Gram, Lr)> {
    pick_from(kind, stage, index, rng, ctx, false)
}
/// `any`: also grammars with symbols that derive nothing or are not used.
pub fn pick_from(kind: Kind, stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx, any: bool) -> Option<(Gram, Lr)> {
    let cap = 500;
    if stage == "curated" || stage == "long" {
        let src = curated(kind);
        let g = src[index as usize % src.len()].clone();
        let lr = Lr::new(&g, 3000)?;
        let fits = match kind {
            Kind::Clean | Kind::Error => lr.conflict_free(),
            Kind::Conflict => !lr.conflict_free(),
            Kind::Any => true,
        };
        return if fits {
            Some((g, lr))
        } else {
            ctx.stat("curated grammars that do not fit", 1);
            None
        };
    }
    for _ in 0..60 {
        let err = match kind {
            Kind::Error => true,
            Kind::Clean => false,
            _ => rng.chance(1, 4),
        };
        let g = if rng.chance(1, 12) {
            let g = scaled(rng, err);
            if kind == Kind::Conflict || rng.chance(1, 4) {
                mutate(&g, rng, err)
            } else {
                g
            }
        } else if err && rng.chance(1, 4) {
            recovering(rng)
        } else if err && rng.chance(1, 8) {
            guarded(&random(rng, false), rng)
        } else if rng.chance(2, 5) {
            let base = match (kind, err) {
                (_, true) => *rng.pick(CURATED_ERROR),
                (Kind::Conflict, _) => {
                    if rng.chance(1, 2) {
                        *rng.pick(CURATED_CONFLICT)
                    } else {
                        *rng.pick(CURATED)
                    }
                }
                _ => *rng.pick(CURATED),
            };
            mutate(&Gram::parse(base), rng, err)
        } else {
            random(rng, err)
        };
        let g = if kind == Kind::Any && rng.chance(1, 4) && g.defined() { g } else { g.reduced()? };
        let with_holes = any && rng.chance(1, 10);
        let g = if with_holes { holed(&g, rng) } else { g };
        if (!with_holes && !g.defined()) || (kind == Kind::Error && !g.has_error()) || (kind == Kind::Clean && g.has_error()) {
            continue;
        }
        let Some(lr) = Lr::new(&g, cap) else {
            ctx.stat("grammars skipped as too big", 1);
            continue;
        };
        let fits = match kind {
            Kind::Clean | Kind::Error => lr.conflict_free(),
            Kind::Conflict => !lr.conflict_free(),
            Kind::Any => true,
        };
        if fits {
            // trivial grammars teach nothing: mostly ask for some states
            if lr.states.len() < 6 && rng.chance(3, 4) {
                continue;
            }
            if with_holes {
                ctx.stat("grammars with useless symbols added", 1);
            }
            return Some((g, lr));
        }
    }
    None
}
pub fn note(ctx: &mut Ctx, g: &Gram, lr: &Lr) {
    ctx.stat("grammars", 1);
    ctx.stat("reference states", lr.states.len() as u64);
    ctx.max("reference states", lr.states.len() as u64);
    ctx.max("rules", g.rules.len() as u64);
}
fn short_inputs(g: &Gram, budget: usize) -> Vec<Vec<usize>> {
    let mut n = 0;
    let mut total = 1usize;
    while n < 7 {
        let t = total * g.nt.max(1);
        if t > budget {
            break;
        }
        total = t;
        n += 1;
    }
    all_short(g.nt, n)
}
fn workload(g: &Gram, lr: &Lr, stage: &str, rng: &mut Rng) -> Vec<Vec<usize>> {
    match stage {
        "short" => short_inputs(g, 400),
        "long" => long_inputs(g, rng, 6, 70_000),
        "curated" => inputs(g, Some(lr), rng, 900),
        _ => inputs(g, Some(lr), rng, 90),
    }
}

pub fn case_lang(prop: &str, stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    // the claim is about grammars without warnings; now and then one that should have some is tried
    let kind = if stage == "random" && index % 8 == 7 { Kind::Conflict } else { Kind::Clean };
    let Some((g, lr)) = pick_from(kind, stage, index, rng, ctx, prop != "C10") else { return Ok(()) };
    let (p, w) = build(&g)?;
    if kind == Kind::Conflict && (!w.is_empty() || g.has_error()) {
        ctx.stat("grammars with warnings, not judged", 1);
        return Ok(());
    }
    if kind == Kind::Clean && !w.is_empty() {
        // C12's business; the reference says there is no conflict
        ctx.stat("grammars with unexpected warnings", 1);
    }
    note(ctx, &g, &lr);
    let num = Numbers::plain(&g);
    let ea = Earley::new(&g);
    let key = hash_of(&g);
    for toks in workload(&g, &lr, stage, rng) {
        let (member, viable) = if toks.len() > 300 { viable(&lr, &toks) } else { ea.run(&toks) };
        no_end(prop == "C10" && !member && viable < toks.len());
        let r = run_with(&p, &toks, Fault::None, STEPS + 1000 * toks.len() as u64).map_err(|b| format!("{}: {}", show(&g, &toks), b))?;
        let nontrivial = toks.len() > 1 && (member || viable > 0);
        ctx.saw(if nontrivial { Some(hash_of(&(key, &toks))) } else { None });
        ctx.stat(if member { "sentences" } else { "non-sentences" }, 1);
        ctx.stat("reducer calls observed", reduces(&r.ev).len() as u64);
        ctx.stat("tokens observed", r.ev.iter().filter(|e| matches!(e, Ev::Pull(_))).count() as u64);
        ctx.max("sentence length", if member { toks.len() as u64 } else { 0 });
        ctx.sample(1499, || format!("{} -> {:?}", show(&g, &toks), r.res));
        let bad = |m: String| Err(format!("{}: {}", show(&g, &toks), m));
        match prop {
            "C08" => match (&r.res, member) {
                (Res::Ok(..), true) | (Res::NoRecovery, false) => {}
                (o, _) => return bad(format!("outcome {:?}, but the sequence is {}in the language", o, if member { "" } else { "not " })),
            },
            "C09" => {
                if member {
                    match check_tree_exact(&g, &num, &toks, &r) {
                        Ok(t) => {
                            ctx.stat("trees compared", 1);
                            ctx.max("tree depth", t.depth as u64);
                        }
                        Err(m) => return bad(m),
                    }
                } else if let Res::Ok(..) = r.res {
                    return bad("parsed although no parse tree exists".into());
                }
            }
            _ => {
                // C10
                let pulls = r.ev.iter().filter(|e| matches!(e, Ev::Pull(_))).count();
                if member {
                    if pulls != toks.len() {
                        return bad(format!("{} of {} tokens were pulled on success", pulls, toks.len()));
                    }
                    if !matches!(r.res, Res::Ok(..)) {
                        return bad(format!("outcome {:?} for a sentence", r.res));
                    }
                } else {
                    if r.res != Res::NoRecovery {
                        return bad(format!("outcome {:?} for a non-sentence", r.res));
                    }
                    // the offending token is number `viable` (the end of input if all of it is viable)
                    if pulls > viable + 1 {
                        return bad(format!("{} tokens pulled, token {} is already impossible", pulls, viable));
                    }
                    let off = r.ev.iter().position(|e| if viable < toks.len() { *e == Ev::Pull(viable) } else { *e == Ev::End });
                    match off {
                        None => return bad(format!("failed before token {} was read", viable)),
                        Some(at) => {
                            if r.ev[at..].iter().any(|e| matches!(e, Ev::Reduce(..))) {
                                return bad(format!("a reducer ran after the impossible token {} had been read: {:?}", viable, &r.ev[at..]));
                            }
                            if viable < toks.len() && r.ev[at..].contains(&Ev::End) {
                                return bad(format!("the source was read on after the impossible token {}", viable));
                            }
                        }
                    }
                    ctx.stat("error positions compared", 1);
                }
            }
        }
    }
    Ok(())
}

pub fn case_c11(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let kind = if stage == "error" || (stage != "random" && index % 2 == 1) { Kind::Error } else { Kind::Clean };
    let Some((g, lr)) = pick_from(kind, if stage == "error" { "random" } else { stage }, index / 2, rng, ctx, true) else { return Ok(()) };
    let (p, _) = build(&g)?;
    note(ctx, &g, &lr);
    let mut ins = if stage == "long" { long_inputs(&g, rng, 3, 9000) } else { inputs(&g, Some(&lr), rng, 30) };
    rng.shuffle(&mut ins);
    ins.truncate(if stage == "curated" { 80 } else { 24 });
    let mut code = 1000;
    let mut endless = 0;
    for toks in ins {
        let Some(steps) = allowance(&lr, &toks, &mut endless) else { continue };
        let base = run_with(&p, &toks, Fault::None, steps).map_err(|b| format!("{}: {}", show(&g, &toks), b))?;
        if let Res::Reducer(_) = base.res {
            return Err(format!("{}: a reducer error is reported though no reducer failed", show(&g, &toks)));
        }
        let n = reduces(&base.ev).len();
        // every call of a short parse; of a long one the first, the last and some between
        let mut calls: Vec<usize> = (0..n.min(20)).chain(n.saturating_sub(10).max(20)..n).collect();
        calls.extend((0..10).map(|_| rng.below(n.max(1))).filter(|k| *k >= 20 && *k + 10 < n));
        for k in calls {
            code += 1;
            let r = run_with(&p, &toks, Fault::ErrAt(k, code), steps).map_err(|b| format!("{}: reducer call {} fails: {}", show(&g, &toks), k, b))?;
            ctx.saw(Some(hash_of(&(&g, &toks, k))));
            ctx.stat("injected reducer errors", 1);
            if r.res != Res::Reducer(code) {
                return Err(format!("{}: reducer call {} failed with code {}, parsing returned {:?}", show(&g, &toks), k, code, r.res));
            }
            let at = base.ev.iter().enumerate().filter(|(_, e)| matches!(e, Ev::Reduce(..))).nth(k).unwrap().0;
            if r.ev != base.ev[..=at] {
                return Err(format!("{}: reducer call {} failed, yet parsing went on or differed: {:?}", show(&g, &toks), k, &r.ev));
            }
        }
        ctx.sample(499, || format!("{}: {} calls, each failed once", show(&g, &toks), n));
    }
    // the error value itself
    let e = ParseError::ErrorInReducer(Er(7));
    if e.to_string() != Er(7).to_string() {
        return Err(format!("a reducer error displays as {:?}", e.to_string()));
    }
    match std::error::Error::source(&e).and_then(|s| s.downcast_ref::<Er>()) {
        Some(Er(7)) => {}
        _ => return Err("a reducer error does not chain to the reducer's error".into()),
    }
    let s: ParseError<Er> = ParseError::RecoveryRuleNotFound;
    if std::error::Error::source(&s).is_some() || s.to_string().is_empty() {
        return Err("a syntax error chains to something or displays as nothing".into());
    }
    Ok(())
}

// ---- C12

type Item = (usize, usize, La);
#[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Clone)]
enum Warn {
    Sr(BTreeSet<Item>, BTreeSet<Item>, usize),
    Rr(BTreeSet<Item>, usize, usize),
}
fn num_after(s: &str, key: &str) -> Option<usize> {
    let i = s.find(key)? + key.len();
    let d: String = s[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}
fn items(s: &str) -> Option<BTreeSet<Item>> {
    let mut out = BTreeSet::new();
    for part in s.split("LR1Item").skip(1) {
        let la = part.split("lookahead_symbol: ").nth(1)?;
        let la = if la.starts_with("EOI") {
            La::Eoi
        } else if la.starts_with("Error") {
            La::E
        } else {
            La::T(num_after(la, "Symbol(")?)
        };
        out.insert((num_after(part, "rule: ")?, num_after(part, "position: ")?, la));
    }
    if out.is_empty() {
        return None; // not the format this function knows
    }
    Some(out)
}
fn parse_warning(s: &str) -> Option<Warn> {
    if let Some(rest) = s.strip_prefix("ShiftReduce { state: ") {
        let (a, b) = rest.split_once(", shift: ")?;
        let (b, c) = b.rsplit_once(", reduce: ")?;
        Some(Warn::Sr(items(a)?, items(b)?, num_after(c, "")?))
    } else if let Some(rest) = s.strip_prefix("ReduceReduce { state: ") {
        let (a, b) = rest.rsplit_once(", actions: [")?;
        let (x, y) = b.split_once(", ")?;
        let (x, y) = (x.trim().parse::<usize>().ok()?, num_after(y, "")?);
        Some(Warn::Rr(items(a)?, x.min(y), x.max(y)))
    } else {
        None
    }
}
pub fn case_c12(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let Some((g, lr)) = pick_from(Kind::Any, stage, index, rng, ctx, true) else { return Ok(()) };
    let mut want = BTreeSet::new();
    for (s, la, shift, rs) in &lr.compete {
        if *shift {
            let sym = match la {
                La::T(t) => Sym::T(*t),
                La::E => Sym::E,
                La::Eoi => unreachable!(),
            };
            let to = lr.goto[*s][&sym];
            for r in rs {
                want.insert(Warn::Sr(lr.states[*s].clone(), lr.states[to].clone(), *r));
            }
            ctx.stat("shift/reduce points", 1);
        } else {
            for r in &rs[1..] {
                want.insert(Warn::Rr(lr.states[*s].clone(), rs[0], *r));
            }
            ctx.stat(if rs.contains(&g.rules.len()) { "accept/reduce points" } else { "reduce/reduce points" }, 1);
            if rs.len() > 2 {
                ctx.stat("points with three or more reductions", 1);
            }
        }
        match la {
            La::Eoi => ctx.stat("conflicts at the end of input", 1),
            La::E => ctx.stat("conflicts on ERROR", 1),
            _ => {}
        }
    }
    note(ctx, &g, &lr);
    ctx.stat(if want.is_empty() { "LR(1) grammars" } else { "grammars with conflicts" }, 1);
    for _ in 0..2 {
        let (_, w) = build(&g)?;
        ctx.saw(Some(hash_of(&g)));
        ctx.stat("warnings observed", w.len() as u64);
        let got: Option<BTreeSet<Warn>> = w.iter().map(|s| parse_warning(s)).collect();
        match got {
            Some(got) => {
                if got != want {
                    let missing: Vec<_> = want.difference(&got).take(2).collect();
                    let extra: Vec<_> = got.difference(&want).take(2).collect();
                    return Err(format!("grammar [{:?}]: {} conflicts reported, {} real; missing {:?}; unfounded {:?}", g, got.len(), want.len(), missing, extra));
                }
            }
            None => {
                ctx.stat("warnings in an unknown format, judged by presence only", 1);
                if w.is_empty() != want.is_empty() {
                    return Err(format!("grammar [{:?}]: {} warnings, {} real conflicts", g, w.len(), want.len()));
                }
            }
        }
    }
    ctx.sample(299, || format!("[{:?}] -> {} conflicts", g, want.len()));
    Ok(())
}

pub fn same_as_reference(rs: &[(usize, &Vec<RArg>)], ev: &[(usize, Vec<Arg>)]) -> Result<(), String> {
    for (i, (r, a)) in rs.iter().enumerate() {
        let Some((wr, wa)) = ev.get(i) else { return Err(format!("reducer call {} (rule {}) is one too many", i, r)) };
        let conv: Vec<Arg> = a
            .iter()
            .map(|x| match x {
                RArg::N(k, _) => Arg::N(*k),
                RArg::T(id, _) => Arg::T(*id),
                RArg::E(Slice::Run(r)) => Arg::E(r.clone()),
                RArg::E(Slice::Odd(_)) => Arg::E(usize::MAX..usize::MAX),
            })
            .collect();
        let wa: Vec<Arg> = wa.iter().map(|x| if let Arg::E(r) = x { Arg::E(if r.is_empty() { 0..0 } else { r.clone() }) } else { x.clone() }).collect();
        if r != wr || conv != wa {
            return Err(format!("reducer call {} is rule {} with {:?}, must be rule {} with {:?}", i, r, conv, wr, wa));
        }
    }
    if rs.len() < ev.len() {
        return Err(format!("{} reducer calls instead of {}", rs.len(), ev.len()));
    }
    Ok(())
}
/// C13 (conflicting grammars) and C15 (recovery): every reducer call and the outcome equal the reference's.
pub fn case_ref(prop: &str, stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let kind = if prop == "C13" { Kind::Conflict } else { Kind::Error };
    let Some((g, lr)) = pick_from(kind, stage, index, rng, ctx, true) else { return Ok(()) };
    note(ctx, &g, &lr);
    let key = hash_of(&g);
    let rounds = if prop == "C13" { 3 } else { 1 };
    let ps: Vec<P> = (0..rounds).map(|_| build(&g).map(|x| x.0)).collect::<Result<_, _>>()?;
    let mut endless = 0;
    for toks in workload(&g, &lr, stage, rng) {
        let Some(steps) = allowance(&lr, &toks, &mut endless) else {
            ctx.stat("inputs skipped: the reference automaton does not end within its steps", 1);
            continue;
        };
        let (ev, out, notes) = drive(&lr, &toks, cap_for(toks.len()));
        for p in &ps {
            let r = run_with(p, &toks, Fault::None, steps).map_err(|b| format!("{}: {}", show(&g, &toks), b))?;
            let nontrivial = if prop == "C13" { !ev.is_empty() } else { !notes.is_empty() };
            ctx.saw(if nontrivial { Some(hash_of(&(key, &toks))) } else { None });
            let rs = reduces(&r.ev);
            ctx.stat("reducer calls observed", rs.len() as u64);
            if let Err(m) = same_as_reference(&rs, &ev) {
                return Err(format!("{}: {}", show(&g, &toks), m));
            }
            let same = match (&r.res, &out) {
                (Res::Ok(n, idx), Out::Ok(k)) => n == k && *idx == g.rules[ev[*k].0].0,
                (Res::NoRecovery, Out::NoRecovery) => true,
                _ => false,
            };
            if !same {
                return Err(format!("{}: outcome {:?}, must be {:?}", show(&g, &toks), r.res, out));
            }
            ctx.sample(1499, || format!("{} -> {:?}, {} reducer calls", show(&g, &toks), out, ev.len()));
        }
        ctx.stat(if matches!(out, Out::Ok(_)) { "inputs accepted" } else { "inputs rejected" }, 1);
        if !notes.is_empty() {
            ctx.stat("inputs with recovery", 1);
            ctx.max("recoveries in one input", notes.iter().filter(|n| !n.contains("discarded")).count() as u64);
            let set: BTreeSet<&str> = notes.into_iter().collect();
            for n in set {
                ctx.stat(&format!("inputs: {}", n), 1);
            }
        }
    }
    Ok(())
}

pub fn case_c14(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let Some((g, lr)) = pick_from(Kind::Error, stage, index, rng, ctx, true) else { return Ok(()) };
    let (p, _) = build(&g)?;
    note(ctx, &g, &lr);
    let num = Numbers::plain(&g);
    let ea = Earley::new(&g);
    let key = hash_of(&g);
    let mut endless = 0;
    for toks in workload(&g, &lr, stage, rng) {
        let member = if toks.len() > 300 { viable(&lr, &toks).0 } else { ea.run(&toks).0 };
        let Some(steps) = allowance(&lr, &toks, &mut endless) else {
            ctx.stat("inputs skipped: the reference automaton does not end within its steps", 1);
            continue;
        };
        let r = run_with(&p, &toks, Fault::None, steps).map_err(|b| format!("{}: {}", show(&g, &toks), b))?;
        ctx.saw(if !member { Some(hash_of(&(key, &toks))) } else { None });
        if member {
            check_tree_exact(&g, &num, &toks, &r).map_err(|m| format!("{}: derivable without ERROR, but {}", show(&g, &toks), m))?;
            ctx.stat("sentences without ERROR", 1);
        } else {
            match r.res {
                Res::Ok(..) => {
                    let t = check_tree_recovered(&g, &num, &toks, &r).map_err(|m| format!("{}: {}", show(&g, &toks), m))?;
                    if t.slices.is_empty() {
                        return Err(format!("{}: parsed without ERROR though it is not derivable", show(&g, &toks)));
                    }
                    ctx.stat("recovered parses", 1);
                    ctx.stat("ERROR slices", t.slices.len() as u64);
                    ctx.stat("tokens inside ERROR slices", t.slices.iter().map(|s| if let Slice::Run(r) = s { r.len() as u64 } else { 0 }).sum());
                    ctx.sample(999, || format!("{} -> leaves {:?}, slices {:?}", show(&g, &toks), t.leaves, t.slices));
                }
                Res::NoRecovery => ctx.stat("unrecovered inputs", 1),
                ref o => return Err(format!("{}: outcome {:?}", show(&g, &toks), o)),
            }
        }
    }
    Ok(())
}

/// Maps numbers back so that runs under different numberings compare.
fn unnumber(ev: &[Ev], num: &Numbers) -> Vec<Ev> {
    let rn: HashMap<usize, usize> = num.n.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    let rt: HashMap<usize, usize> = num.t.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    ev.iter()
        .map(|e| match e {
            Ev::Reduce(r, a) => Ev::Reduce(
                *r,
                a.iter()
                    .map(|x| match x {
                        RArg::N(k, i) => RArg::N(*k, *rn.get(i).unwrap_or(&usize::MAX)),
                        RArg::T(k, i) => RArg::T(*k, *rt.get(i).unwrap_or(&usize::MAX)),
                        RArg::E(v) => RArg::E(v.clone()),
                    })
                    .collect(),
            ),
            e => e.clone(),
        })
        .collect()
}
pub fn numbers(g: &Gram, rng: &mut Rng) -> Numbers {
    let draw = |rng: &mut Rng, k: usize| -> Vec<usize> {
        let mut set = BTreeSet::new();
        let style = rng.below(6);
        while set.len() < k {
            let i = set.len();
            set.insert(match style {
                0 => i,
                1 => i * 2 + 1,
                2 => i + rng.below(3) * 1000,
                3 => usize::MAX - i * 3 - rng.below(2),
                // both ends of the range at once
                4 => match rng.below(4) {
                    0 => usize::MAX - i,
                    1 => isize::MAX as usize - 1 + i,
                    _ => rng.below(k + 1),
                },
                _ => match rng.below(4) {
                    0 => i,
                    1 => (1usize << rng.below(40)) + i,
                    2 => u32::MAX as usize + i,
                    _ => rng.below(300),
                },
            });
        }
        let mut v: Vec<usize> = set.into_iter().collect();
        rng.shuffle(&mut v);
        v
    };
    Numbers { n: draw(rng, g.nn), t: draw(rng, g.nt + 1) }
}
pub fn case_c18(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let kind = match (stage, index % 3) {
        ("curated", _) | ("long", _) => Kind::Any,
        (_, 0) => Kind::Clean,
        (_, 1) => Kind::Error,
        _ => Kind::Any,
    };
    let Some((g, lr)) = pick_from(kind, stage, index, rng, ctx, true) else { return Ok(()) };
    note(ctx, &g, &lr);
    let plain = Numbers::plain(&g);
    let ident: Vec<usize> = (0..g.rules.len()).collect();
    let mut ins = if stage == "long" { long_inputs(&g, rng, 2, 4200) } else { inputs(&g, Some(&lr), rng, 24) };
    rng.shuffle(&mut ins);
    ins.truncate(30);
    ins.retain(|t| drive(&lr, t, 3000.max(20 * t.len())).1 != Out::Cap);
    let mk = |num: &Numbers, routes: &[Route], order: &[usize], raw: bool, from: bool| -> Result<P, String> {
        set_budget(u64::MAX);
        guard(|| {
            let s = syntax(&g, num, routes, order, raw);
            if from {
                LR1Parser::from(s)
            } else {
                LR1Parser::new(s).0
            }
        })
        .map_err(|b| format!("building [{:?}] with numbers {:?}: {}", g, num, b))
    };
    let base = mk(&plain, &[Route::New], &ident, false, false)?;
    let mut variants: Vec<(String, Numbers, P)> = vec![
        ("rules from the builder".into(), plain.clone(), mk(&plain, &[Route::Builder], &ident, false, false)?),
        ("rules from numbers, start from a number".into(), plain.clone(), mk(&plain, &[Route::Raw], &ident, true, false)?),
        ("parser made without warnings".into(), plain.clone(), mk(&plain, &[Route::New], &ident, false, true)?),
    ];
    for _ in 0..3 {
        let num = numbers(&g, rng);
        let routes = *rng.pick(&[&[Route::New, Route::Builder, Route::Raw][..], &[Route::Raw], &[Route::Builder, Route::Raw]]);
        let (raw, from) = (rng.chance(1, 2), rng.chance(1, 2));
        variants.push((format!("renumbered {:?}", num), num.clone(), mk(&num, routes, &ident, raw, from)?));
    }
    if lr.conflict_free() {
        for _ in 0..2 {
            let mut order = ident.clone();
            rng.shuffle(&mut order);
            variants.push((format!("rules declared in order {:?}", order), plain.clone(), mk(&plain, &[Route::New], &order, false, false)?));
        }
    }
    for toks in &ins {
        let steps = STEPS + 2000 * toks.len() as u64;
        let a = run_with(&base, toks, Fault::None, steps).map_err(|b| format!("{}: {}", show(&g, toks), b))?;
        let a_ev = unnumber(&a.ev, &plain);
        for (name, num, p) in &variants {
            let mapped: Vec<usize> = toks.iter().map(|t| num.t[*t]).collect();
            let b = run_with(p, &mapped, Fault::None, steps).map_err(|b| format!("{}, {}: {}", show(&g, toks), name, b))?;
            ctx.saw(Some(hash_of(&(&g, toks, name))));
            let b_ev = unnumber(&b.ev, num);
            let res_same = match (&a.res, &b.res) {
                (Res::Ok(x, i), Res::Ok(y, j)) => x == y && num.n.get(*i) == Some(j),
                (x, y) => x == y,
            };
            if a_ev != b_ev || !res_same {
                let at = a_ev.iter().zip(&b_ev).position(|(x, y)| x != y).unwrap_or(a_ev.len().min(b_ev.len()));
                return Err(format!("{}: {}: event {} is {:?} instead of {:?}; outcome {:?} instead of {:?}", show(&g, toks), name, at, b_ev.get(at), a_ev.get(at), b.res, a.res));
            }
            ctx.stat("events compared", a_ev.len() as u64);
            ctx.sample(1999, || format!("{}: {} -> {:?}", show(&g, toks), name, b.res));
        }
    }
    ctx.stat("variants built", variants.len() as u64);
    Ok(())
}

/// A use of parsers from inside a callback, with the log of the outer use set aside.
pub fn apart(f: impl FnOnce()) {
    let saved = REC.with(|r| std::mem::replace(&mut *r.borrow_mut(), Rec { ev: vec![], reduces: 0, fault: Fault::None, keep: true }));
    f();
    REC.with(|r| *r.borrow_mut() = saved);
}
pub fn set_nest(f: Box<dyn FnMut()>) {
    NEST.with(|x| *x.borrow_mut() = Some(f));
}
pub fn clear_nest() {
    NEST.with(|x| *x.borrow_mut() = None);
}
/// Do the observations (events and outcome, as text) agree with the reference automaton?
pub fn like_reference(lr: &Lr, toks: &[usize], lines: &[String]) -> bool {
    let (ev, out, _) = drive(lr, toks, cap_for(toks.len()));
    let calls: Vec<&String> = lines.iter().filter(|l| l.starts_with("Reduce(")).collect();
    let end = lines.last().map(|s| s.as_str()).unwrap_or("");
    let fits = match out {
        Out::Ok(k) => end == format!("{:?}", Res::Ok(k, lr.g.rules[ev[k].0].0)),
        Out::NoRecovery => end == format!("{:?}", Res::NoRecovery),
        Out::Cap => true,
    };
    out == Out::Cap || (fits && calls.len() == ev.len() && calls.iter().zip(&ev).all(|(c, (r, _))| c.starts_with(&format!("Reduce({}, ", r))))
}

// ---- C21

/// Long and deep inputs without keeping an event log.
fn run_big(p: &P, toks: Vec<usize>) -> Result<(Res, usize), String> {
    REC.with(|r| *r.borrow_mut() = Rec { ev: vec![], reduces: 0, fault: Fault::None, keep: false });
    set_budget(u64::MAX);
    let n = toks.len();
    let r = guard(|| Src::new(toks).parse(p)).map_err(|b| format!("{} tokens: {}", n, b))?;
    let k = REC.with(|r| r.borrow().reduces);
    Ok((
        match r {
            Ok(n) => Res::Ok(n.node, n.idx),
            Err(ParseError::RecoveryRuleNotFound) => Res::NoRecovery,
            Err(ParseError::ErrorInReducer(e)) => Res::Reducer(e.0),
        },
        k,
    ))
}
/// Each family: grammar, a maker of the input of size n, and the expected outcome (accepted?, reducer calls).
pub fn case_c21(index: u64, size: usize, ctx: &mut Ctx) -> Verdict {
    type Mk = fn(usize) -> Vec<usize>;
    type Ex = fn(usize) -> (bool, Option<usize>);
    let fam: &[(&str, &str, Mk, Ex)] = &[
        ("nested brackets", "S -> lp S rp | x", |n| std::iter::repeat(0).take(n).chain(Some(2)).chain(std::iter::repeat(1).take(n)).collect(), |n| (true, Some(n + 1))),
        ("unclosed brackets", "S -> lp S rp | x", |n| std::iter::repeat(0).take(n).chain(Some(2)).chain(std::iter::repeat(1).take(n - 1)).collect(), |_| (false, None)),
        ("left-recursive list", "S -> S a | a", |n| vec![0; n], |n| (true, Some(n))),
        ("right-recursive list", "S -> a S | a", |n| vec![0; n], |n| (true, Some(n))),
        ("long sum", "E -> E plus T | T; T -> T star F | F; F -> num | lp E rp", |n| (0..2 * n + 1).map(|i| if i % 2 == 0 { 2 } else { (i / 2) % 2 }).collect(), |_| (true, None)),
        ("nested sum", "E -> E plus T | T; T -> T star F | F; F -> num | lp E rp", |n| std::iter::repeat(3).take(n).chain(Some(2)).chain(std::iter::repeat(4).take(n)).collect(), |n| (true, Some(3 * n + 3))),
        ("empty reductions", "S -> x Opt S | ; Opt -> o | ", |n| vec![0; n], |n| (true, Some(2 * n + 1))),
        ("many small errors", "S -> S I | ; I -> x semi | ! semi", |n| (0..3 * n).map(|i| [0, 0, 1][i % 3]).collect(), |_| (true, None)),
        ("error inside deep nesting", "S -> lp S rp | lp ! rp | x", |n| std::iter::repeat(0).take(n).chain([2, 2]).chain(std::iter::repeat(1).take(n)).collect(), |_| (true, None)),
        ("long erroneous statement", "P -> P I | ; I -> a semi | ! semi", |n| std::iter::repeat(0).take(n).chain(Some(1)).collect(), |_| (true, None)),
    ];
    let (name, src, mk, ex) = fam[index as usize % fam.len()];
    let g = Gram::parse(src);
    let h = std::thread::Builder::new()
        .stack_size(256 * 1024)
        .spawn(move || -> Result<((Res, usize), (Res, usize)), String> {
            reset_alloc_budget(u64::MAX);
            let g = Gram::parse(src);
            let (p, _) = build(&g)?;
            let small = run_big(&p, mk(5))?;
            let big = run_big(&p, mk(size))?;
            Ok((small, big))
        })
        .unwrap();
    let (small, big) = h.join().map_err(|_| format!("{}: the thread died", name))?.map_err(|m| format!("{} (grammar [{:?}]), size {}: {}", name, g, size, m))?;
    ctx.saw(Some(hash_of(&(name, size))));
    ctx.stat("tokens parsed on a 256 KiB stack", mk(size).len() as u64);
    ctx.stat("reducer calls", big.1 as u64);
    let (acc, calls) = ex(size);
    let ok = match big.0 {
        Res::Ok(node, idx) => acc && idx == g.start && node + 1 == big.1,
        Res::NoRecovery => !acc,
        _ => false,
    };
    if !ok || calls.map_or(false, |c| c != big.1) || std::mem::discriminant(&small.0) != std::mem::discriminant(&big.0) {
        return Err(format!("{} (grammar [{:?}]) of size {}: outcome {:?} after {} reducer calls; expected accepted={} calls={:?}; size 5 gives {:?}", name, g, size, big.0, big.1, acc, calls, small.0));
    }
    ctx.sample(1, || format!("{} of size {}: {} reducer calls", name, size, big.1));
    Ok(())
}

// ---------------------------------------------------------------- C23: the tables

/// The tables renumbered in breadth-first order, and a complaint if they are not well formed.
fn canonical(g: &Gram, p: &P) -> Result<String, String> {
    use parser::{Action, TerminalSymbol};
    type Row = std::collections::BTreeMap<La, Act>;
    let mut action: std::collections::BTreeMap<usize, Row> = Default::default();
    for (s, row) in &p.action_table {
        let mut out = Row::new();
        for (k, a) in row {
            let la = match k {
                TerminalSymbol::Symbol(t) => La::T(*t),
                TerminalSymbol::Error(_) => La::E,
                TerminalSymbol::EOI => La::Eoi,
            };
            let act = match a {
                Action::Shift(s) => Act::Shift(*s),
                Action::Reduce(r) => Act::Reduce(*r),
                Action::Accept => Act::Accept,
            };
            out.insert(la, act);
        }
        action.insert(*s, out);
    }
    let mut goto: std::collections::BTreeMap<usize, std::collections::BTreeMap<usize, usize>> = Default::default();
    for (s, row) in &p.goto_table {
        goto.insert(*s, row.iter().map(|(a, b)| (*a, *b)).collect());
    }
    let mut error: std::collections::BTreeMap<usize, BTreeSet<usize>> = Default::default();
    for (s, row) in &p.error_rules {
        error.insert(*s, row.iter().copied().collect());
    }
    let none = std::collections::BTreeMap::new();
    let mut number: HashMap<usize, usize> = HashMap::new();
    let mut queue = vec![p.start];
    number.insert(p.start, 0);
    let mut text = String::new();
    let mut k = 0;
    while k < queue.len() {
        let s = queue[k];
        k += 1;
        let Some(row) = action.get(&s) else { return Err(format!("state {} has no actions", s)) };
        let mut name = |t: usize| {
            let n = number.len();
            *number.entry(t).or_insert_with(|| {
                queue.push(t);
                n
            })
        };
        text.push_str(&format!("{}:", k - 1));
        for (la, a) in row {
            match a {
                Act::Shift(t) => text.push_str(&format!(" {:?}=s{}", la, name(*t))),
                Act::Reduce(r) => {
                    if *r >= g.rules.len() {
                        return Err(format!("state {} reduces by rule {}, there are {}", s, r, g.rules.len()));
                    }
                    text.push_str(&format!(" {:?}=r{}", la, r));
                }
                Act::Accept => {
                    if *la != La::Eoi {
                        return Err(format!("state {} accepts on {:?}", s, la));
                    }
                    text.push_str(" accept");
                }
            }
        }
        for (n, t) in goto.get(&s).unwrap_or(&none) {
            text.push_str(&format!(" {}>{}", n, name(*t)));
        }
        let can = matches!(row.get(&La::E), Some(Act::Shift(_)));
        match error.get(&s) {
            Some(e) if e.is_empty() || !can => return Err(format!("state {} has ERROR alternatives {:?} but cannot shift ERROR", s, e)),
            Some(e) => {
                for r in e {
                    if *r >= g.rules.len() || !g.rules[*r].1.contains(&Sym::E) {
                        return Err(format!("state {}: rule {} is no ERROR alternative", s, r));
                    }
                }
                text.push_str(&format!(" !{:?}", e));
            }
            None if can => return Err(format!("state {} can shift ERROR but has no ERROR alternatives", s)),
            None => {}
        }
        text.push('\n');
    }
    for s in action.keys().chain(goto.keys()).chain(error.keys()) {
        if !number.contains_key(s) {
            return Err(format!("state {} cannot be reached", s));
        }
    }
    // every completed right-hand side that is reduced finds a way on from where it began
    for from in &queue {
        for (r, (l, rhs)) in g.rules.iter().enumerate() {
            let mut at = Some(*from);
            for s in rhs {
                at = at.and_then(|x| match s {
                    Sym::N(n) => goto.get(&x).and_then(|m| m.get(n)).copied(),
                    Sym::T(t) => match action[&x].get(&La::T(*t)) {
                        Some(Act::Shift(y)) => Some(*y),
                        _ => None,
                    },
                    Sym::E => match action[&x].get(&La::E) {
                        Some(Act::Shift(y)) => Some(*y),
                        _ => None,
                    },
                });
            }
            if let Some(end) = at {
                if action[&end].values().any(|a| *a == Act::Reduce(r)) && !goto.get(from).map(|m| m.contains_key(l)).unwrap_or(false) {
                    return Err(format!("rule {} can be reduced back to state {}, which has no goto for it", r, from));
                }
            }
        }
    }
    Ok(text)
}
fn tables(g: &Gram) -> Result<(String, Vec<String>), String> {
    let (p, mut w) = build(g)?;
    w.sort();
    let t = canonical(g, &p).map_err(|m| format!("grammar [{:?}]: {}", g, m))?;
    Ok((t, w))
}
pub fn case_c23(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let Some((g, lr)) = pick_from(Kind::Any, if stage == "shared" { if index % 4 == 0 { "curated" } else { "random" } } else { stage }, if stage == "shared" { index / 4 } else { index }, rng, ctx, true) else { return Ok(()) };
    note(ctx, &g, &lr);
    let (t, w) = tables(&g)?;
    if stage == "shared" {
        ctx.saw(None);
        ctx.facts.insert(format!("{:?}", g), format!("{:x} {} states, {} warnings {:x}", hash_of(&t), t.lines().count(), w.len(), hash_of(&w)));
        return Ok(());
    }
    ctx.stat("table rows walked", t.lines().count() as u64);
    if t.lines().count() > lr.states.len() {
        return Err(format!("grammar [{:?}]: {} states, the canonical LR(1) automaton has {}", g, t.lines().count(), lr.states.len()));
    }
    let builds = if stage == "curated" { 6 } else { 3 };
    for k in 0..builds {
        ctx.saw(if t.lines().count() > 2 { Some(hash_of(&(&g, k))) } else { None });
        if k == 0 {
            continue;
        }
        let (t2, w2) = tables(&g)?;
        if t2 != t {
            let d = t.lines().zip(t2.lines()).find(|(a, b)| a != b);
            return Err(format!("grammar [{:?}]: two constructions give different tables, e.g. {:?}", g, d));
        }
        if w2 != w {
            return Err(format!("grammar [{:?}]: two constructions give different warnings, {} and {}", g, w.len(), w2.len()));
        }
    }
    ctx.stat("warnings compared", w.len() as u64);
    ctx.sample(199, || format!("[{:?}] -> {} states, {} warnings", g, t.lines().count(), w.len()));
    Ok(())
}

// ---------------------------------------------------------------- C24: reading the source

pub fn case_c24(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let kind = match stage {
        "clean" => Kind::Clean,
        "conflict" => Kind::Conflict,
        "error" => Kind::Error,
        _ => Kind::Any,
    };
    let st = if kind == Kind::Any { stage } else { "random" };
    let Some((g, lr)) = pick_from(kind, st, index, rng, ctx, true) else { return Ok(()) };
    note(ctx, &g, &lr);
    let (p, _) = build(&g)?;
    let key = hash_of(&g);
    let mut endless = 0;
    for toks in workload(&g, &lr, st, rng) {
        let Some(steps) = allowance(&lr, &toks, &mut endless) else {
            ctx.stat("inputs skipped: the reference automaton does not end within its steps", 1);
            continue;
        };
        let mut seen = Vec::new();
        let (ev, _, notes) = drive_seen(&lr, &toks, cap_for(toks.len()), &mut seen);
        no_end(seen.last().map_or(false, |far| *far < toks.len()));
        let r = run_with(&p, &toks, Fault::None, steps).map_err(|b| format!("{}: {}", show(&g, &toks), b))?;
        let mut far = 0; // tokens pulled; one more once the end was asked for
        let mut k = 0;
        let mut ended = false;
        let mut same = true;
        let bad = |m: String| Err(format!("{}: {}", show(&g, &toks), m));
        for e in &r.ev {
            match e {
                Ev::Pull(_) => far += 1,
                Ev::End => {
                    if ended {
                        return bad(format!("the source was asked again after its end (after {} reducer calls)", k));
                    }
                    ended = true;
                    far += 1;
                }
                Ev::Reduce(rule, _) => {
                    // from the first call on that is not the expected one there is nothing to compare with: other properties' business
                    if same && ev.get(k).map(|x| x.0) != Some(*rule) {
                        same = false;
                        ctx.stat("runs that left the reference", 1);
                    }
                    if same && far > seen[k] + 1 {
                        return bad(format!("reducer call {} (rule {}) ran when {} tokens had been read, {} settle it", k, rule, far, seen[k] + 1));
                    }
                    k += 1;
                }
            }
        }
        if same && k == ev.len() && far > seen[k] + 1 {
            return bad(format!("parsing returned when {} tokens had been read, {} settle the outcome", far, seen[k] + 1));
        }
        ctx.saw(if k > 0 || !notes.is_empty() { Some(hash_of(&(key, &toks))) } else { None });
        ctx.stat("reducer calls compared", k as u64);
        ctx.stat("tokens observed", far as u64);
        if !notes.is_empty() {
            ctx.stat("inputs with recovery", 1);
        }
        ctx.sample(1499, || format!("{} -> {} reducer calls, {} reads", show(&g, &toks), k, far));
    }
    Ok(())
}
