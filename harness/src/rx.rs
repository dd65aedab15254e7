//! Reference semantics of pattern lists: partial derivatives over the pattern's syntax tree
//! (independent of the NFA/DFA construction of the code under test).
use crate::util::Rng;
use regex_syntax::hir::{Class, Hir, HirKind, Literal, RepetitionKind, RepetitionRange};
use std::collections::{HashMap, VecDeque};

pub type Ex = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Node {
    Eps,
    Class(Vec<(u32, u32)>),
    Cat(Ex, Ex),
    Alt(Vec<Ex>),
    Rep(Ex, u32, Option<u32>),
}
#[derive(Default)]
pub struct Pool {
    nodes: Vec<Node>,
    index: HashMap<Node, Ex>,
    null: Vec<bool>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Support {
    Yes,
    HasEmpty,
    No,
}
/// What the pattern contains: anchors, boundaries and byte matchers are unsupported; empty sub-expressions are singled out.
pub fn support(h: &Hir) -> Support {
    match h.kind() {
        HirKind::Empty => Support::HasEmpty,
        HirKind::Literal(Literal::Unicode(_)) => Support::Yes,
        HirKind::Literal(Literal::Byte(_)) => Support::No,
        HirKind::Class(Class::Unicode(_)) => Support::Yes,
        HirKind::Class(Class::Bytes(_)) => Support::No,
        HirKind::Anchor(_) | HirKind::WordBoundary(_) => Support::No,
        HirKind::Repetition(r) => support(&r.hir),
        HirKind::Group(g) => support(&g.hir),
        HirKind::Concat(v) | HirKind::Alternation(v) => {
            let mut out = Support::Yes;
            for x in v {
                match support(x) {
                    Support::No => return Support::No,
                    Support::HasEmpty => out = Support::HasEmpty,
                    Support::Yes => {}
                }
            }
            out
        }
    }
}
pub fn has_empty_class(h: &Hir) -> bool {
    match h.kind() {
        HirKind::Class(Class::Unicode(c)) => c.iter().next().is_none(),
        HirKind::Class(Class::Bytes(c)) => c.iter().next().is_none(),
        HirKind::Repetition(r) => has_empty_class(&r.hir),
        HirKind::Group(g) => has_empty_class(&g.hir),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().any(has_empty_class),
        _ => false,
    }
}
/// Number of NFA nodes the pattern unrolls to, roughly; used only to keep workloads small.
pub fn unrolled(h: &Hir) -> u64 {
    match h.kind() {
        HirKind::Repetition(r) => {
            let k = match &r.kind {
                RepetitionKind::Range(RepetitionRange::Exactly(n)) => *n,
                RepetitionKind::Range(RepetitionRange::AtLeast(n)) => *n + 1,
                RepetitionKind::Range(RepetitionRange::Bounded(_, m)) => *m,
                _ => 1,
            };
            unrolled(&r.hir).saturating_mul(k.max(1) as u64)
        }
        HirKind::Group(g) => unrolled(&g.hir),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().fold(1u64, |a, x| a.saturating_add(unrolled(x))),
        HirKind::Class(Class::Unicode(c)) => 2 + c.iter().count() as u64 / 8,
        _ => 2,
    }
}
pub fn parse(p: &str) -> Option<Hir> {
    regex_syntax::Parser::new().parse(p).ok()
}

impl Pool {
    fn mk(&mut self, n: Node) -> Ex {
        if let Some(&i) = self.index.get(&n) {
            return i;
        }
        let null = match &n {
            Node::Eps => true,
            Node::Class(_) => false,
            Node::Cat(a, b) => self.null[*a as usize] && self.null[*b as usize],
            Node::Alt(v) => v.iter().any(|e| self.null[*e as usize]),
            Node::Rep(e, min, _) => *min == 0 || self.null[*e as usize],
        };
        let i = self.nodes.len() as Ex;
        self.nodes.push(n.clone());
        self.null.push(null);
        self.index.insert(n, i);
        i
    }
    fn cat(&mut self, a: Ex, b: Ex) -> Ex {
        if self.nodes[a as usize] == Node::Eps {
            return b;
        }
        if self.nodes[b as usize] == Node::Eps {
            return a;
        }
        if let Node::Cat(x, y) = self.nodes[a as usize] {
            let yb = self.cat(y, b);
            return self.cat(x, yb);
        }
        self.mk(Node::Cat(a, b))
    }
    fn rep(&mut self, e: Ex, min: u32, max: Option<u32>) -> Ex {
        if max == Some(0) {
            return self.mk(Node::Eps);
        }
        let min = if self.null[e as usize] { 0 } else { min };
        if min == 1 && max == Some(1) {
            return e;
        }
        self.mk(Node::Rep(e, min, max))
    }
    pub fn of(&mut self, h: &Hir) -> Ex {
        match h.kind() {
            HirKind::Empty => self.mk(Node::Eps),
            HirKind::Literal(Literal::Unicode(c)) => self.mk(Node::Class(vec![(*c as u32, *c as u32)])),
            HirKind::Class(Class::Unicode(c)) => {
                let v = c.iter().map(|r| (r.start() as u32, r.end() as u32)).collect();
                self.mk(Node::Class(v))
            }
            HirKind::Repetition(r) => {
                let e = self.of(&r.hir);
                let (min, max) = match &r.kind {
                    RepetitionKind::ZeroOrOne => (0, Some(1)),
                    RepetitionKind::ZeroOrMore => (0, None),
                    RepetitionKind::OneOrMore => (1, None),
                    RepetitionKind::Range(RepetitionRange::Exactly(n)) => (*n, Some(*n)),
                    RepetitionKind::Range(RepetitionRange::AtLeast(n)) => (*n, None),
                    RepetitionKind::Range(RepetitionRange::Bounded(n, m)) => (*n, Some(*m)),
                };
                self.rep(e, min, max)
            }
            HirKind::Group(g) => self.of(&g.hir),
            HirKind::Concat(v) => {
                let mut out = self.mk(Node::Eps);
                for x in v.iter().rev() {
                    let e = self.of(x);
                    out = self.cat(e, out);
                }
                out
            }
            HirKind::Alternation(v) => {
                let mut es: Vec<Ex> = v.iter().map(|x| self.of(x)).collect();
                es.sort();
                es.dedup();
                if es.len() == 1 {
                    es[0]
                } else {
                    self.mk(Node::Alt(es))
                }
            }
            _ => unreachable!("unsupported pattern given to the reference"),
        }
    }
    fn pd(&mut self, e: Ex, c: u32, out: &mut Vec<Ex>) {
        match self.nodes[e as usize].clone() {
            Node::Eps => {}
            Node::Class(v) => {
                let i = v.partition_point(|r| r.0 <= c);
                if i > 0 && c <= v[i - 1].1 {
                    let x = self.mk(Node::Eps);
                    out.push(x)
                }
            }
            Node::Cat(a, b) => {
                let mut t = Vec::new();
                self.pd(a, c, &mut t);
                for x in t {
                    let y = self.cat(x, b);
                    out.push(y);
                }
                if self.null[a as usize] {
                    self.pd(b, c, out);
                }
            }
            Node::Alt(v) => {
                for x in v {
                    self.pd(x, c, out)
                }
            }
            Node::Rep(x, min, max) => {
                let mut t = Vec::new();
                self.pd(x, c, &mut t);
                let rest = self.rep(x, min.saturating_sub(1), max.map(|m| m - 1));
                for y in t {
                    let z = self.cat(y, rest);
                    out.push(z);
                }
            }
        }
    }
    fn bounds(&self, out: &mut Vec<u32>) {
        for n in &self.nodes {
            if let Node::Class(v) = n {
                for (a, b) in v {
                    out.push(*a);
                    out.push(*b + 1);
                }
            }
        }
    }
}

struct St {
    set: Vec<(u32, Ex)>,
    accept: Vec<usize>,
    trans: Vec<i32>,
}
/// The reference automaton of a pattern list, built on demand. State 0 is the start; -1 means no continuation is possible.
pub struct Lex {
    pub pats: Vec<String>,
    pool: Pool,
    pub atoms: Vec<u32>,
    states: Vec<St>,
    index: HashMap<Vec<(u32, Ex)>, i32>,
}
pub struct TooBig;
impl Lex {
    /// `None` if some pattern is invalid or unsupported. Patterns with empty classes are refused too.
    pub fn new(pats: &[String]) -> Option<Lex> {
        let mut pool = Pool::default();
        let mut set = Vec::new();
        for (i, p) in pats.iter().enumerate() {
            let h = parse(p)?;
            if support(&h) == Support::No || has_empty_class(&h) {
                return None;
            }
            set.push((i as u32, pool.of(&h)));
        }
        let mut atoms = vec![0, 0x110000];
        pool.bounds(&mut atoms);
        atoms.sort();
        atoms.dedup();
        let mut l = Lex { pats: pats.to_vec(), pool, atoms, states: Vec::new(), index: HashMap::new() };
        set.sort();
        l.intern(set);
        Some(l)
    }
    fn intern(&mut self, set: Vec<(u32, Ex)>) -> i32 {
        if let Some(i) = self.index.get(&set) {
            return *i;
        }
        let i = self.states.len() as i32;
        let mut accept: Vec<usize> = set.iter().filter(|x| self.pool.null[x.1 as usize]).map(|x| x.0 as usize).collect();
        accept.dedup();
        self.index.insert(set.clone(), i);
        self.states.push(St { set, accept, trans: vec![-2; self.atoms.len() - 1] });
        i
    }
    pub fn natoms(&self) -> usize {
        self.atoms.len() - 1
    }
    pub fn atom_of(&self, c: char) -> usize {
        self.atoms.partition_point(|b| *b <= c as u32) - 1
    }
    pub fn step_atom(&mut self, s: i32, a: usize) -> i32 {
        let t = self.states[s as usize].trans[a];
        if t != -2 {
            return t;
        }
        let set = self.states[s as usize].set.clone();
        let mut out: Vec<(u32, Ex)> = Vec::new();
        let mut tmp = Vec::new();
        for (p, e) in set {
            tmp.clear();
            self.pool.pd(e, self.atoms[a], &mut tmp);
            out.extend(tmp.iter().map(|x| (p, *x)));
        }
        out.sort();
        out.dedup();
        let t = if out.is_empty() { -1 } else { self.intern(out) };
        self.states[s as usize].trans[a] = t;
        t
    }
    pub fn step(&mut self, s: i32, c: char) -> i32 {
        let a = self.atom_of(c);
        self.step_atom(s, a)
    }
    pub fn accept(&self, s: i32) -> &[usize] {
        &self.states[s as usize].accept
    }
    pub fn nstates(&self) -> usize {
        self.states.len()
    }
    /// Builds all states; `Err` beyond the given sizes.
    pub fn explore(&mut self, max_states: usize, max_steps: usize) -> Result<(), TooBig> {
        let mut i = 0;
        while i < self.states.len() {
            if self.states.len() > max_states || i * self.natoms() > max_steps {
                return Err(TooBig);
            }
            for a in 0..self.natoms() {
                self.step_atom(i as i32, a);
            }
            i += 1;
        }
        Ok(())
    }
    /// Shortest access path (as atoms) to every state; requires `explore`.
    pub fn access(&self) -> Vec<Vec<usize>> {
        let mut out: Vec<Option<Vec<usize>>> = vec![None; self.states.len()];
        out[0] = Some(vec![]);
        let mut q = VecDeque::from(vec![0usize]);
        while let Some(s) = q.pop_front() {
            for (a, t) in self.states[s].trans.iter().enumerate() {
                if *t >= 0 && out[*t as usize].is_none() && self.usable(a) {
                    let mut p = out[s].clone().unwrap();
                    p.push(a);
                    out[*t as usize] = Some(p);
                    q.push_back(*t as usize);
                }
            }
        }
        out.into_iter().map(|x| x.unwrap_or_default()).collect()
    }
    /// Shortest continuation to an accepting state from every state.
    pub fn completion(&self) -> Vec<Vec<usize>> {
        let n = self.states.len();
        let mut out: Vec<Option<Vec<usize>>> = vec![None; n];
        for s in 0..n {
            if !self.states[s].accept.is_empty() {
                out[s] = Some(vec![]);
            }
        }
        loop {
            let mut changed = false;
            for s in 0..n {
                if out[s].is_some() {
                    continue;
                }
                let mut best: Option<Vec<usize>> = None;
                for (a, t) in self.states[s].trans.iter().enumerate() {
                    if *t >= 0 && self.usable(a) {
                        if let Some(p) = &out[*t as usize] {
                            if best.as_ref().map_or(true, |b| p.len() + 1 < b.len()) {
                                let mut v = vec![a];
                                v.extend(p);
                                best = Some(v);
                            }
                        }
                    }
                }
                if best.is_some() {
                    out[s] = best;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        out.into_iter().map(|x| x.unwrap_or_default()).collect()
    }
    pub fn usable(&self, a: usize) -> bool {
        !(self.atoms[a] >= 0xD800 && self.atoms[a + 1] <= 0xE000)
    }
    /// A character of the atom, mostly at its edges.
    pub fn rep(&self, a: usize, rng: &mut Rng) -> char {
        let (lo, hi) = (self.atoms[a], self.atoms[a + 1] - 1);
        for _ in 0..8 {
            let c = match rng.below(5) {
                0 | 1 => lo,
                2 | 3 => hi,
                _ => lo + (rng.next() % (hi - lo + 1) as u64) as u32,
            };
            if let Some(c) = char::from_u32(c) {
                return c;
            }
        }
        char::from_u32(lo).or(char::from_u32(hi)).unwrap_or('\u{E000}')
    }
    /// Any character of the atom.
    pub fn any(&self, a: usize, rng: &mut Rng) -> char {
        let (lo, hi) = (self.atoms[a], self.atoms[a + 1] - 1);
        char::from_u32(lo + (rng.next() % (hi - lo + 1) as u64) as u32).unwrap_or_else(|| self.rep(a, rng))
    }
    /// A random string that stays inside the automaton, preferring to end in an accepting state.
    pub fn walk(&mut self, rng: &mut Rng, len: usize, comp: &[Vec<usize>]) -> String {
        let mut s = 0i32;
        let mut out = String::new();
        for _ in 0..len {
            let mut next = Vec::new();
            for a in 0..self.natoms() {
                if self.usable(a) {
                    let t = self.step_atom(s, a);
                    if t >= 0 {
                        next.push((a, t));
                    }
                }
            }
            if next.is_empty() {
                break;
            }
            let (a, t) = *rng.pick(&next);
            out.push(self.rep(a, rng));
            s = t;
        }
        if rng.chance(3, 4) {
            if let Some(c) = comp.get(s as usize) {
                for a in c {
                    out.push(self.rep(*a, rng));
                }
            }
        }
        out
    }
    /// (earlier, later) neighbours in the set of patterns matching some string.
    pub fn overlaps(&self) -> std::collections::BTreeSet<(usize, usize)> {
        self.states.iter().flat_map(|s| s.accept.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>()).collect()
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Want {
    pub pat: usize,
    pub start: usize,
    pub end: usize,
    /// number of items after which nothing longer can match; `None`: only the end of input tells
    pub settled: Option<usize>,
}
/// The tokens the input must be cut into, plus the settle point of the final failure to match.
pub fn expected(l: &mut Lex, input: &[char]) -> (Vec<Want>, Option<usize>) {
    expected_within(l, input, usize::MAX).unwrap()
}
/// The same, given up after so many steps.
pub fn expected_for(l: &mut Lex, input: &[char], steps: usize) -> Option<(Vec<Want>, Option<usize>)> {
    expected_limited(l, input, usize::MAX, steps)
}
/// The same, given up as soon as a token needs more than `window` items to be settled, unless the input ends there.
pub fn expected_within(l: &mut Lex, input: &[char], window: usize) -> Option<(Vec<Want>, Option<usize>)> {
    expected_limited(l, input, window, usize::MAX)
}
fn expected_limited(l: &mut Lex, input: &[char], window: usize, mut steps: usize) -> Option<(Vec<Want>, Option<usize>)> {
    let mut out = Vec::new();
    let mut pos = 0;
    loop {
        let mut s = 0i32;
        let mut last = None;
        let mut settled = None;
        for i in pos..input.len() {
            if i - pos >= window || steps == 0 {
                return None;
            }
            steps -= 1;
            s = l.step(s, input[i]);
            if s < 0 {
                settled = Some(i + 1);
                break;
            }
            if let Some(p) = l.accept(s).first() {
                last = Some((i + 1, *p));
            }
        }
        match last {
            Some((end, pat)) => {
                out.push(Want { pat, start: pos, end, settled });
                pos = end;
            }
            None => return Some((out, settled)),
        }
    }
}
