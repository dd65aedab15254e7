//! Grammars, generators, and reference semantics: Earley recognition, a separate LR(1) construction,
//! and the reference driver with error recovery.
use crate::util::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Sym {
    N(usize),
    T(usize),
    E,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Gram {
    pub nn: usize,
    pub nt: usize,
    pub rules: Vec<(usize, Vec<Sym>)>,
    pub start: usize,
}
impl std::fmt::Debug for Gram {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "start N{};", self.start)?;
        for (i, (l, r)) in self.rules.iter().enumerate() {
            write!(f, " {}: N{} ->", i, l)?;
            for s in r {
                match s {
                    Sym::N(n) => write!(f, " N{}", n)?,
                    Sym::T(t) => write!(f, " t{}", t)?,
                    Sym::E => write!(f, " ERROR")?,
                }
            }
            write!(f, ";")?;
        }
        Ok(())
    }
}
impl Gram {
    /// Text form: "S -> a S b | ; ..." lower-case words are terminals, upper-case non-terminals, `!` is ERROR. First left-hand side starts.
    pub fn parse(src: &str) -> Gram {
        let mut ns: Vec<String> = Vec::new();
        let mut ts: Vec<String> = Vec::new();
        fn idx(v: &mut Vec<String>, s: &str) -> usize {
            v.iter().position(|x| x == s).unwrap_or_else(|| {
                v.push(s.to_string());
                v.len() - 1
            })
        }
        let mut rules = Vec::new();
        for def in src.split(';').map(|s| s.trim()).filter(|s| !s.is_empty()) {
            let (l, r) = def.split_once("->").unwrap();
            let l = idx(&mut ns, l.trim());
            for alt in r.split('|') {
                let v = alt
                    .split_whitespace()
                    .map(|w| {
                        if w == "!" {
                            Sym::E
                        } else if w.chars().next().unwrap().is_uppercase() {
                            Sym::N(idx(&mut ns, w))
                        } else {
                            Sym::T(idx(&mut ts, w))
                        }
                    })
                    .collect();
                rules.push((l, v));
            }
        }
        Gram { nn: ns.len(), nt: ts.len(), rules, start: 0 }
    }
    pub fn has_error(&self) -> bool {
        self.rules.iter().any(|r| r.1.contains(&Sym::E))
    }
    pub fn without_error(&self) -> Option<Gram> {
        let mut g = self.clone();
        g.rules.retain(|r| !r.1.contains(&Sym::E));
        g.defined().then_some(g)
    }
    pub fn defined(&self) -> bool {
        let l: HashSet<usize> = self.rules.iter().map(|r| r.0).collect();
        l.contains(&self.start) && self.rules.iter().all(|r| r.1.iter().all(|s| if let Sym::N(n) = s { l.contains(n) } else { true }))
    }
    pub fn productive(&self) -> Vec<bool> {
        let mut p = vec![false; self.nn];
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if !p[*l] && r.iter().all(|s| if let Sym::N(n) = s { p[*n] } else { true }) {
                    p[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                return p;
            }
        }
    }
    pub fn reachable(&self) -> Vec<bool> {
        let mut p = vec![false; self.nn];
        p[self.start] = true;
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if p[*l] {
                    for s in r {
                        if let Sym::N(n) = s {
                            if !p[*n] {
                                p[*n] = true;
                                ch = true;
                            }
                        }
                    }
                }
            }
            if !ch {
                return p;
            }
        }
    }
    /// Drops rules with useless symbols and renumbers non-terminals densely. `None` if the language is empty.
    pub fn reduced(&self) -> Option<Gram> {
        let p = self.productive();
        if !p[self.start] {
            return None;
        }
        let mut g = self.clone();
        g.rules.retain(|r| p[r.0] && r.1.iter().all(|s| if let Sym::N(n) = s { p[*n] } else { true }));
        let q = g.reachable();
        g.rules.retain(|r| q[r.0]);
        let mut map = BTreeMap::new();
        for n in 0..g.nn {
            if q[n] {
                let k = map.len();
                map.insert(n, k);
            }
        }
        g.nn = map.len();
        g.start = map[&g.start];
        for r in &mut g.rules {
            r.0 = map[&r.0];
            for s in &mut r.1 {
                if let Sym::N(n) = s {
                    *n = map[n];
                }
            }
        }
        Some(g)
    }
    pub fn is_reduced(&self) -> bool {
        let p = self.productive();
        let q = self.reachable();
        self.rules.iter().all(|r| p[r.0] && q[r.0] && r.1.iter().all(|s| if let Sym::N(n) = s { p[*n] } else { true })) && self.defined()
    }
    pub fn nullable(&self) -> Vec<bool> {
        let mut p = vec![false; self.nn];
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if !p[*l] && r.iter().all(|s| if let Sym::N(n) = s { p[*n] } else { false }) {
                    p[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                return p;
            }
        }
    }
    /// Minimal number of tokens derived by each non-terminal (ERROR counts as one).
    pub fn min_len(&self) -> Vec<usize> {
        let mut m = vec![1usize << 40; self.nn];
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                let k: usize = r.iter().map(|s| if let Sym::N(n) = s { m[*n] } else { 1 }).sum::<usize>().min(1usize << 40);
                if k < m[*l] {
                    m[*l] = k;
                    ch = true;
                }
            }
            if !ch {
                return m;
            }
        }
    }
}

/// A random sentence of the grammar (ERROR alternatives never used), or `None`.
pub fn derive(g: &Gram, rng: &mut Rng, budget: usize) -> Option<Vec<usize>> {
    let clean = Gram { rules: g.rules.iter().filter(|r| !r.1.contains(&Sym::E)).cloned().collect(), ..g.clone() };
    derive_from(g, clean, rng, budget)
}
/// The same with ERROR alternatives, each ERROR being up to three tokens of any kind.
pub fn derive_faulty(g: &Gram, rng: &mut Rng, budget: usize) -> Option<Vec<usize>> {
    derive_from(g, g.clone(), rng, budget)
}
fn derive_from(g: &Gram, clean: Gram, rng: &mut Rng, budget: usize) -> Option<Vec<usize>> {
    let m = clean.min_len();
    if m[g.start] >= (1usize << 40) {
        return None;
    }
    // height-based fallback: cheapest rule per non-terminal, well-founded by number of nodes
    let mut cost = vec![1usize << 40; g.nn];
    loop {
        let mut ch = false;
        for (l, r) in &clean.rules {
            let k: usize = (1 + r.iter().map(|s| if let Sym::N(n) = s { cost[*n] } else { 1 }).sum::<usize>()).min(1usize << 40);
            if k < cost[*l] {
                cost[*l] = k;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut left = budget as isize;
    let mut stack = vec![Sym::N(g.start)];
    let mut out = Vec::new();
    while let Some(s) = stack.pop() {
        match s {
            Sym::T(t) => out.push(t),
            Sym::E => {
                for _ in 0..*rng.pick(&[0, 1, 1, 1, 2, 3]) {
                    out.push(rng.below(g.nt + 1));
                }
            }
            Sym::N(n) => {
                let opts: Vec<&(usize, Vec<Sym>)> = clean.rules.iter().filter(|r| r.0 == n && r.1.iter().all(|s| if let Sym::N(n) = s { cost[*n] < (1usize << 40) } else { true })).collect();
                if opts.is_empty() {
                    return None;
                }
                left -= 1;
                let r = if left > 0 { *rng.pick(&opts) } else { *opts.iter().min_by_key(|r| r.1.iter().map(|s| if let Sym::N(n) = s { cost[*n] } else { 1 }).sum::<usize>()).unwrap() };
                for s in r.1.iter().rev() {
                    stack.push(*s);
                }
                if out.len() > 400 || stack.len() > 4000 {
                    return None;
                }
            }
        }
    }
    Some(out)
}

/// A sentence of about `target` tokens, or `None` if the draw ends far from it.
pub fn derive_long(g: &Gram, rng: &mut Rng, target: usize) -> Option<Vec<usize>> {
    derive_long_with(g, rng, target, false)
}
/// `faulty`: with ERROR alternatives, each ERROR being a few tokens of any kind.
pub fn derive_long_with(g: &Gram, rng: &mut Rng, target: usize, faulty: bool) -> Option<Vec<usize>> {
    const INF: usize = 1 << 40;
    let rules: Vec<&(usize, Vec<Sym>)> = g.rules.iter().filter(|r| faulty || !r.1.contains(&Sym::E)).collect();
    let mut cost = vec![INF; g.nn];
    let price = |cost: &[usize], r: &[Sym]| r.iter().map(|s| if let Sym::N(n) = s { cost[*n] } else { 1 }).sum::<usize>().min(INF);
    loop {
        let mut ch = false;
        for (l, r) in &rules {
            let k = (1 + price(&cost, r)).min(INF);
            if k < cost[*l] {
                cost[*l] = k;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    if cost[g.start] >= INF {
        return None;
    }
    let mut reach = vec![vec![false; g.nn]; g.nn];
    for (l, r) in &rules {
        for s in r {
            if let Sym::N(n) = s {
                reach[*l][*n] = true;
            }
        }
    }
    for k in 0..g.nn {
        for i in 0..g.nn {
            if reach[i][k] {
                for j in 0..g.nn {
                    reach[i][j] |= reach[k][j];
                }
            }
        }
    }
    let mut by: Vec<Vec<(&[Sym], bool)>> = vec![Vec::new(); g.nn];
    for (l, r) in &rules {
        if price(&cost, r) < INF {
            by[*l].push((r, r.iter().any(|s| matches!(s, Sym::N(n) if reach[*n][*l] || n == l))));
        }
    }
    let keen = rng.range(70, 99);
    let mut stack = vec![Sym::N(g.start)];
    let mut out = Vec::new();
    let mut nodes = 0;
    while let Some(s) = stack.pop() {
        match s {
            Sym::T(t) => out.push(t),
            Sym::E => {
                let n = if rng.chance(1, 50) { rng.below(200) } else { *rng.pick(&[0, 1, 1, 2, 5]) };
                for _ in 0..n {
                    out.push(rng.below(g.nt + 1));
                }
            }
            Sym::N(n) => {
                nodes += 1;
                if nodes > 20 * target {
                    return None;
                }
                let r = if out.len() + stack.len() < target && nodes < 6 * target {
                    let again: Vec<&(&[Sym], bool)> = by[n].iter().filter(|r| r.1).collect();
                    if !again.is_empty() && rng.below(100) < keen {
                        rng.pick(&again).0
                    } else {
                        rng.pick(&by[n]).0
                    }
                } else {
                    by[n].iter().min_by_key(|r| price(&cost, r.0)).unwrap().0
                };
                stack.extend(r.iter().rev());
            }
        }
    }
    (out.len() * 2 >= target && out.len() <= 4 * target + 1000 && out.len() <= 120_000.max(target + target / 2)).then_some(out)
}
/// Long sentences and the same with a few edits, some of them next to positions where a narrow counter would wrap.
pub fn long_inputs(g: &Gram, rng: &mut Rng, n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    for _ in 0..n {
        let target = *rng.pick(&[100, 130, 200, 260, 300, 520, 600, 1100, 2100, 4200, 9000, 70_000]);
        if target > max {
            continue;
        }
        let Some(s) = (0..12).find_map(|_| derive_long(g, rng, target)) else { continue };
        for k in 0..3 {
            let mut v = s.clone();
            for _ in 0..*rng.pick(&[1, 1, 2, 5, 20]) {
                let at = match rng.below(4) {
                    0 => v.len() - 1 - rng.below(4).min(v.len() - 1),
                    1 => *rng.pick(&[0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535, 65536]),
                    _ => rng.below(v.len()),
                };
                if at >= v.len() {
                    continue;
                }
                let t = if rng.chance(1, 12) { g.nt } else { rng.below(g.nt.max(1)) };
                match rng.below(4) {
                    0 => v[at] = t,
                    1 => v.insert(at, t),
                    2 if v.len() > 1 => {
                        v.remove(at);
                    }
                    _ => {
                        let b = (at + 1).min(v.len() - 1);
                        v.swap(at, b);
                    }
                }
            }
            if k == 2 {
                v.truncate(rng.below(v.len()) + 1);
            }
            out.push(v);
        }
        if g.has_error() {
            // one stretch of nonsense that is nearly everything, and nonsense now and then
            let mut v = s.clone();
            let (a, b) = (rng.below(4).min(v.len()), v.len() - rng.below(4).min(v.len()));
            for i in a..b.max(a) {
                v[i] = if rng.chance(1, 2) { g.nt } else { rng.below(g.nt + 1) };
            }
            out.push(v);
            out.extend(derive_long_with(g, rng, target, true));
        }
        out.push(s);
    }
    out
}

// ---------------------------------------------------------------- Earley

/// Recognition by Earley's algorithm: (member of the language, length of the longest viable prefix).
/// Viability assumes a reduced grammar. ERROR never matches a token.
pub struct Earley<'a> {
    g: &'a Gram,
    null: Vec<bool>,
    by: Vec<Vec<usize>>,
}
impl<'a> Earley<'a> {
    pub fn new(g: &'a Gram) -> Self {
        let mut by = vec![Vec::new(); g.nn];
        for (i, r) in g.rules.iter().enumerate() {
            if !r.1.contains(&Sym::E) {
                by[r.0].push(i);
            }
        }
        let clean = Gram { rules: g.rules.iter().filter(|r| !r.1.contains(&Sym::E)).cloned().collect(), ..g.clone() };
        Earley { g, null: clean.nullable(), by }
    }
    pub fn run(&self, input: &[usize]) -> (bool, usize) {
        let g = self.g;
        let mut sets: Vec<Vec<(usize, usize, usize)>> = vec![Vec::new(); input.len() + 1];
        let mut seen: HashSet<(usize, usize, usize)> = HashSet::new();
        let mut add = |sets: &mut Vec<Vec<(usize, usize, usize)>>, seen: &mut HashSet<(usize, usize, usize)>, k: usize, it: (usize, usize, usize)| {
            if seen.insert(it) {
                sets[k].push(it);
            }
        };
        for r in &self.by[g.start] {
            add(&mut sets, &mut seen, 0, (*r, 0, 0));
        }
        let mut next_seen: HashSet<(usize, usize, usize)> = HashSet::new();
        for k in 0..=input.len() {
            let mut i = 0;
            while i < sets[k].len() {
                let (r, d, o) = sets[k][i];
                i += 1;
                match g.rules[r].1.get(d) {
                    None => {
                        let l = g.rules[r].0;
                        let parents: Vec<_> = sets[o].iter().filter(|(r2, d2, _)| g.rules[*r2].1.get(*d2) == Some(&Sym::N(l))).cloned().collect();
                        for (r2, d2, o2) in parents {
                            add(&mut sets, &mut seen, k, (r2, d2 + 1, o2));
                        }
                    }
                    Some(Sym::N(n)) => {
                        for r2 in &self.by[*n] {
                            add(&mut sets, &mut seen, k, (*r2, 0, k));
                        }
                        if self.null[*n] {
                            add(&mut sets, &mut seen, k, (r, d + 1, o));
                        }
                    }
                    Some(Sym::T(t)) => {
                        if k < input.len() && input[k] == *t && next_seen.insert((r, d + 1, o)) {
                            sets[k + 1].push((r, d + 1, o));
                        }
                    }
                    Some(Sym::E) => {}
                }
            }
            if k < input.len() && sets[k + 1].is_empty() {
                return (false, k);
            }
            if k < input.len() {
                seen = std::mem::take(&mut next_seen);
            }
        }
        let n = input.len();
        let ok = sets[n].iter().any(|(r, d, o)| *o == 0 && g.rules[*r].0 == g.start && *d == g.rules[*r].1.len());
        (ok, n)
    }
}

// ---------------------------------------------------------------- LR(1)

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum La {
    T(usize),
    E,
    Eoi,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
}
pub type It = (usize, usize, La);
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Conflict {
    /// state items, look-ahead, reduction
    ShiftReduce(usize, La, usize),
    /// state, look-ahead, the two rules (`rules.len()` is accepting)
    ReduceReduce(usize, La, usize, usize),
}
pub struct Lr {
    pub g: Gram,
    pub states: Vec<BTreeSet<It>>,
    pub action: Vec<BTreeMap<La, Act>>,
    pub goto: Vec<BTreeMap<Sym, usize>>,
    /// every (state, look-ahead) with all competing actions
    pub compete: Vec<(usize, La, bool, Vec<usize>)>,
    pub error_rules: Vec<BTreeSet<usize>>,
}
impl Lr {
    pub fn new(g: &Gram, max_states: usize) -> Option<Lr> {
        let ns = g.rules.len();
        let rules: Vec<(usize, Vec<Sym>)> = g.rules.iter().cloned().chain(Some((g.nn, vec![Sym::N(g.start)]))).collect();
        let null = g.nullable();
        // FIRST by fixed point over symbols
        let mut first: Vec<BTreeSet<La>> = vec![BTreeSet::new(); g.nn];
        loop {
            let mut ch = false;
            for (l, r) in &g.rules {
                for s in r {
                    let add: Vec<La> = match s {
                        Sym::T(t) => vec![La::T(*t)],
                        Sym::E => vec![La::E],
                        Sym::N(n) => first[*n].iter().cloned().collect(),
                    };
                    for a in add {
                        ch |= first[*l].insert(a);
                    }
                    if !matches!(s, Sym::N(n) if null[*n]) {
                        break;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let first_of = |rest: &[Sym], la: La| -> BTreeSet<La> {
            let mut out = BTreeSet::new();
            for s in rest {
                match s {
                    Sym::T(t) => {
                        out.insert(La::T(*t));
                        return out;
                    }
                    Sym::E => {
                        out.insert(La::E);
                        return out;
                    }
                    Sym::N(n) => {
                        out.extend(first[*n].iter().cloned());
                        if !null[*n] {
                            return out;
                        }
                    }
                }
            }
            out.insert(la);
            out
        };
        let mut by: Vec<Vec<usize>> = vec![Vec::new(); g.nn + 1];
        for (i, r) in rules.iter().enumerate() {
            by[r.0].push(i);
        }
        let close = |kernel: Vec<It>| -> BTreeSet<It> {
            let mut set: BTreeSet<It> = kernel.iter().cloned().collect();
            let mut work = kernel;
            while let Some((r, d, la)) = work.pop() {
                if let Some(Sym::N(n)) = rules[r].1.get(d) {
                    for f in first_of(&rules[r].1[d + 1..], la) {
                        for r2 in &by[*n] {
                            if set.insert((*r2, 0, f)) {
                                work.push((*r2, 0, f));
                            }
                        }
                    }
                }
            }
            set
        };
        let mut states = vec![close(vec![(ns, 0, La::Eoi)])];
        let mut index: HashMap<BTreeSet<It>, usize> = HashMap::new();
        index.insert(states[0].clone(), 0);
        let mut goto: Vec<BTreeMap<Sym, usize>> = Vec::new();
        let mut items = 0;
        let mut i = 0;
        while i < states.len() {
            let mut k: BTreeMap<Sym, Vec<It>> = BTreeMap::new();
            items += states[i].len();
            for (r, d, la) in &states[i] {
                if let Some(s) = rules[*r].1.get(*d) {
                    k.entry(*s).or_default().push((*r, *d + 1, *la));
                }
            }
            let mut row = BTreeMap::new();
            for (s, kernel) in k {
                let set = close(kernel);
                let n = *index.entry(set.clone()).or_insert_with(|| {
                    states.push(set);
                    states.len() - 1
                });
                row.insert(s, n);
            }
            goto.push(row);
            if states.len() > max_states || items > max_states * 60 {
                return None;
            }
            i += 1;
        }
        let mut action = Vec::new();
        let mut compete = Vec::new();
        let mut error_rules = Vec::new();
        for (i, st) in states.iter().enumerate() {
            let mut red: BTreeMap<La, BTreeSet<usize>> = BTreeMap::new();
            let mut err = BTreeSet::new();
            for (r, d, la) in st {
                if *d == rules[*r].1.len() {
                    red.entry(*la).or_default().insert(*r);
                } else if rules[*r].1[*d] == Sym::E {
                    err.insert(*r);
                }
            }
            let mut row: BTreeMap<La, Act> = BTreeMap::new();
            for (s, t) in &goto[i] {
                match s {
                    Sym::T(x) => {
                        row.insert(La::T(*x), Act::Shift(*t));
                    }
                    Sym::E => {
                        row.insert(La::E, Act::Shift(*t));
                    }
                    _ => {}
                }
            }
            for (la, rs) in red {
                let shift = row.contains_key(&la);
                if shift || rs.len() > 1 {
                    compete.push((i, la, shift, rs.iter().cloned().collect()));
                }
                if !shift {
                    if rs.contains(&ns) {
                        row.insert(la, Act::Accept);
                    } else {
                        row.insert(la, Act::Reduce(*rs.iter().next().unwrap()));
                    }
                }
            }
            action.push(row);
            error_rules.push(err);
        }
        Some(Lr { g: g.clone(), states, action, goto, compete, error_rules })
    }
    pub fn conflict_free(&self) -> bool {
        self.compete.is_empty()
    }
    /// A shortest viable token prefix (derivable without ERROR where possible) leading to each state, as symbol paths turned into tokens.
    pub fn state_prefixes(&self, short: &[Option<Vec<usize>>]) -> Vec<Option<Vec<usize>>> {
        let mut out: Vec<Option<Vec<usize>>> = vec![None; self.states.len()];
        out[0] = Some(vec![]);
        let mut q = std::collections::VecDeque::from(vec![0usize]);
        while let Some(s) = q.pop_front() {
            for (sym, t) in &self.goto[s] {
                if out[*t].is_some() {
                    continue;
                }
                let mut p = out[s].clone().unwrap();
                match sym {
                    Sym::T(x) => p.push(*x),
                    Sym::N(n) => match &short[*n] {
                        Some(v) => p.extend(v),
                        None => continue,
                    },
                    Sym::E => continue,
                }
                out[*t] = Some(p);
                q.push_back(*t);
            }
        }
        out
    }
}
/// A shortest token string for every non-terminal, without ERROR.
pub fn shortest(g: &Gram) -> Vec<Option<Vec<usize>>> {
    let mut out: Vec<Option<Vec<usize>>> = vec![None; g.nn];
    loop {
        let mut ch = false;
        for (l, r) in &g.rules {
            let mut v = Vec::new();
            let mut ok = true;
            for s in r {
                match s {
                    Sym::T(t) => v.push(*t),
                    Sym::N(n) => match &out[*n] {
                        Some(w) => v.extend(w),
                        None => {
                            ok = false;
                            break;
                        }
                    },
                    Sym::E => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok && v.len() < 60 && out[*l].as_ref().map_or(true, |o| v.len() < o.len()) {
                out[*l] = Some(v);
                ch = true;
            }
        }
        if !ch {
            return out;
        }
    }
}

// ---------------------------------------------------------------- reference driver

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Arg {
    /// node number (in order of reductions)
    N(usize),
    /// position of the token
    T(usize),
    E(std::ops::Range<usize>),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Ok(usize),
    NoRecovery,
    Cap,
}
enum Ent {
    /// node, first token position, start of the leftmost ERROR slice or the position
    N(usize, usize, usize),
    T(usize),
    E(usize, usize),
}
/// Runs a conflict-free reference automaton without recovery: (member of the language, length of the longest viable prefix).
pub fn viable(lr: &Lr, input: &[usize]) -> (bool, usize) {
    let mut st = vec![0usize];
    let mut pos = 0;
    loop {
        let la = if pos < input.len() { La::T(input[pos]) } else { La::Eoi };
        match lr.action[*st.last().unwrap()].get(&la) {
            Some(Act::Shift(s)) => {
                st.push(*s);
                pos += 1;
            }
            Some(Act::Accept) => return (true, pos),
            Some(Act::Reduce(r)) => {
                let (l, rhs) = &lr.g.rules[*r];
                st.truncate(st.len() - rhs.len());
                let to = lr.goto[*st.last().unwrap()][&Sym::N(*l)];
                st.push(to);
            }
            None => return (false, pos),
        }
    }
}
thread_local!(static MOVES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
/// Steps taken by the driver since it was last asked.
pub fn moves() -> u64 {
    MOVES.with(|m| m.replace(0))
}
/// The reference automaton with the documented recovery policy. Returns the reductions in order and the outcome.
pub fn drive(lr: &Lr, input: &[usize], cap: usize) -> (Vec<(usize, Vec<Arg>)>, Out, Vec<&'static str>) {
    drive_seen(lr, input, cap, &mut Vec::new())
}
/// The same; `seen` gets, for every reduction and at last for the outcome, the position of the furthest token looked at
/// (the length of the input: its end).
pub fn drive_seen(lr: &Lr, input: &[usize], cap: usize, seen: &mut Vec<usize>) -> (Vec<(usize, Vec<Arg>)>, Out, Vec<&'static str>) {
    let g = &lr.g;
    let mut far = 0;
    let mut ev: Vec<(usize, Vec<Arg>)> = Vec::new();
    let mut notes: Vec<&'static str> = Vec::new();
    let mut st: Vec<usize> = vec![0]; // states; st.len() == stack.len() + 1
    let mut stack: Vec<Ent> = Vec::new();
    let mut pos = 0usize;
    let mut pending: BTreeSet<usize> = BTreeSet::new();
    for _ in 0..cap {
        MOVES.with(|m| m.set(m.get() + 1));
        far = far.max(pos);
        let la = if pos < input.len() { La::T(input[pos]) } else { La::Eoi };
        match lr.action[*st.last().unwrap()].get(&la) {
            Some(Act::Shift(s)) => {
                st.push(*s);
                stack.push(Ent::T(pos));
                pos += 1;
            }
            Some(Act::Accept) => {
                seen.push(far);
                return match stack.pop() {
                    Some(Ent::N(n, _, _)) => (ev, Out::Ok(n), notes),
                    _ => unreachable!(),
                }
            }
            Some(Act::Reduce(r)) => {
                let n = g.rules[*r].1.len();
                let kids: Vec<Ent> = stack.drain(stack.len() - n..).collect();
                st.truncate(st.len() - n);
                let first = kids.iter().find_map(|k| match k { Ent::N(_, p, _) => Some(*p), Ent::T(p) => Some(*p), Ent::E(..) => None }).unwrap_or(pos);
                let err = kids.iter().filter_map(|k| match k { Ent::N(_, _, e) => Some(*e), Ent::E(a, _) => Some(*a), Ent::T(_) => None }).fold(first, usize::min);
                let args = kids.iter().map(|k| match k { Ent::N(x, _, _) => Arg::N(*x), Ent::T(p) => Arg::T(*p), Ent::E(a, b) => Arg::E(*a..*b) }).collect();
                let id = ev.len();
                ev.push((*r, args));
                seen.push(far);
                let l = g.rules[*r].0;
                let to = lr.goto[*st.last().unwrap()][&Sym::N(l)];
                st.push(to);
                stack.push(Ent::N(id, first, err));
                if pending.contains(r) {
                    pending.clear();
                }
            }
            None => {
                let eoi = la == La::Eoi;
                // candidate depths: number of stack entries kept
                let full = stack.len();
                let usable = |d: usize, pending: &BTreeSet<usize>| -> bool {
                    let er = &lr.error_rules[st[d]];
                    !er.is_empty() && (pending.is_empty() || er.iter().any(|r| pending.contains(r)))
                };
                let mut choice = None;
                // keep everything: not when one of the ERRORs just entered here came from the same state
                let mut k = full;
                let mut again = false;
                while k > 0 && matches!(stack[k - 1], Ent::E(..)) {
                    again |= st[k - 1] == st[full];
                    k -= 1;
                }
                if !again && usable(full, &pending) {
                    choice = Some(full);
                }
                if choice.is_none() && !eoi {
                    choice = (0..full).rev().find(|d| usable(*d, &pending));
                }
                let Some(d) = choice else {
                    seen.push(far);
                    return (ev, Out::NoRecovery, notes);
                };
                let er = lr.error_rules[st[d]].clone();
                if pending.is_empty() {
                    pending = er;
                } else {
                    notes.push("recovering again before the ERROR alternative was completed");
                    pending = pending.intersection(&er).cloned().collect();
                }
                let mut head = pos;
                let mut slice = pos;
                for e in stack[d..].iter().rev() {
                    match e {
                        Ent::N(_, p, x) => {
                            head = *p;
                            slice = slice.min(*x);
                            notes.push("discarded a finished construct");
                        }
                        Ent::T(p) => {
                            head = *p;
                            notes.push("discarded a token");
                        }
                        Ent::E(a, _) => {
                            slice = slice.min(*a);
                            notes.push("discarded an ERROR");
                        }
                    }
                }
                let tail = pos;
                if d < full {
                    pos = head + 1;
                } else {
                    notes.push("nothing discarded");
                }
                if eoi {
                    notes.push("at the end of input");
                }
                stack.truncate(d);
                st.truncate(d + 1);
                let to = lr.goto[st[d]][&Sym::E];
                st.push(to);
                stack.push(Ent::E(slice.min(head), if eoi { tail } else { tail + 1 }));
            }
        }
    }
    (ev, Out::Cap, notes)
}

// ---------------------------------------------------------------- generators

pub const CURATED: &[&str] = &[
    "E -> E plus T | T; T -> T star F | F; F -> num | lp E rp",
    "S -> a S b | ",
    "S -> S S2 | ; S2 -> a S2 b | c",
    "L -> L comma X | X; X -> id | lp L rp",
    "S -> lp S rp S | ",
    "V -> o | a; O -> lb Ms rb; S -> V | O; Ms -> | M; M -> P | M comma P; P -> k colon S",
    "S -> A B C; A -> a | ; B -> b | ; C -> c | ",
    "S -> A a | b A c | d c | b d a; A -> d",
    "S -> a A d | b B d | a B e | b A e; A -> c; B -> c",
    "P -> Ss; Ss -> Ss St | ; St -> id eq E semi | if E then Ss end | if E then Ss else Ss end | while E do Ss end; E -> E or C | C; C -> C and N | N; N -> not N | B; B -> id | num | lp E rp",
    "S -> C C; C -> c C | d",
    "S -> L eq R | R; L -> star R | id; R -> L",
    "S -> X | Y; X -> a X | b; Y -> a Y | c",
    "D -> Ty Ls semi; Ty -> int | float; Ls -> id Tl; Tl -> comma id Tl | ",
    "S -> S a | ",
    "S -> a S | ",
    "E -> T E2; E2 -> plus T E2 | minus T E2 | ; T -> F T2; T2 -> mul F T2 | div F T2 | ; F -> lp E rp | num | minus F",
    "S -> a a a a a a a a a a b | a a a a c",
    "S -> A S | b; A -> a A2; A2 -> c | d A2",
    "S -> M x; M -> Q M | ; Q -> q",
    "S -> A; A -> B; B -> C; C -> D; D -> d | lp A rp",
    "S -> T1 T2 T1; T1 -> a | ; T2 -> b b",
    "S -> x Opt y Opt z; Opt -> o | ",
    "S -> A A b | c; A -> a",
    "J -> O | Ar | s | n; O -> lb rb | lb Ms rb; Ms -> Pr | Ms comma Pr; Pr -> s colon J; Ar -> lk rk | lk Es rk; Es -> J | Es comma J",
    "S -> N1 N2 N3 N4 end; N1 -> a | ; N2 -> b | ; N3 -> c | ; N4 -> d | ",
    "S -> P Q; P -> p P | ; Q -> q Q | q",
];
pub const CURATED_CONFLICT: &[&str] = &[
    "E -> E plus E | E star E | num",
    "S -> if S | if S else S | x",
    "S -> A | B; A -> a; B -> a",
    "S -> S S | a | ",
    "S -> A c | B c; A -> a b; B -> a b",
    "S -> S | a",
    "S -> A B; A -> a | ; B -> a | ",
    "S -> a S a | a",
    "E -> E op E | E op2 E | pre E | lp E rp | n",
    "S -> L; L -> L L | x | ",
    "S -> A; A -> S | a",
    "S -> X X; X -> a | a a | ",
    "S -> A | A2; A -> a A | ; A2 -> a A2 | ",
    "S -> U V; U -> a U | a; V -> a V | b",
    "S -> A | B | C; A -> x y; B -> x y; C -> x y",
    "T -> T arrow T | T star T | base | lp T rp; ",
    "S -> a | a",
];
pub const CURATED_ERROR: &[&str] = &[
    "A -> A plus P | P; P -> P star I | I; I -> num | lp A rp | lp ! rp",
    "S -> Ss; Ss -> Ss St | ; St -> id eq E semi | ! semi; E -> E plus T | T; T -> id | num",
    "L -> ! L | x",
    "S -> lb L rb; L -> L comma X | X | ; X -> id | lb L rb | !",
    "S -> ! | a b",
    "S -> Ds; Ds -> D Ds | ; D -> let id eq V semi | let ! semi | !  end; V -> num | lp V rp | lp ! rp",
    "S -> a ! b | a c",
    "S -> ! a ! b | c",
    "B -> begin Ss end; Ss -> Ss semi St | St; St -> id | B | ! ",
    "S -> A B; A -> a | ! ; B -> b | ! c",
    "F -> id lp As rp; As -> | Al; Al -> Al comma X | X; X -> num | F | !",
    "S -> P end; P -> P I | ; I -> x | y z | ! dot",
    "S -> lp S rp | lp ! rp | n",
    "S -> Ms; Ms -> Ms M | M; M -> k colon V | ! semi; V -> v | lk Vs rk | lk ! rk; Vs -> V | Vs comma V",
    "S -> ! S a | b",
    "S -> Opt x Opt y; Opt -> o | ! z | ",
    "S -> Q ! ; Q -> a Q | ",
    "S -> ! ! a | b",
    "S -> W a | W b b; W -> ! c | d | ",
    "C -> C semi D | D; D -> a E2 b | ! ; E2 -> ! c | x E2 | ",
    "E -> E plus T | T; T -> T star F | F; F -> num | lp E rp | ! ",
    "S -> X Y Z; X -> x | ! xx ; Y -> y | ! yy ; Z -> z | ! zz",
    "S -> t S2 u | ! v; S2 -> w S2 | w | ! x",
    "S -> A | B; A -> ! a A c B | z; B -> ! b | y",
    "S -> A B end; A -> ! a B d | x A | y; B -> ! b A | w | ",
];

pub fn big_grammars() -> Vec<Gram> {
    let mut out = Vec::new();
    // many terminals and rules
    let mut s = String::from("S -> S I | I; I -> ");
    s.push_str(&(0..90).map(|i| format!("k{} Arg{}", i, i % 3)).collect::<Vec<_>>().join(" | "));
    s.push_str("; Arg0 -> x | ; Arg1 -> y Arg1 | ; Arg2 -> lp S rp");
    out.push(Gram::parse(&s));
    // a long right-hand side with many optional parts
    let body: Vec<String> = (0..40).map(|i| if i % 3 == 0 { format!("O{}", i) } else { format!("m{}", i) }).collect();
    let mut s = format!("S -> {}", body.join(" "));
    for i in (0..40).step_by(3) {
        s.push_str(&format!("; O{} -> o{} | ", i, i));
    }
    out.push(Gram::parse(&s));
    // a tower of precedences
    let mut s = String::new();
    for i in 0..14 {
        s.push_str(&format!("E{} -> E{} op{} E{} | E{};", i, i, i, i + 1, i + 1));
    }
    s.push_str("E14 -> num | lp E0 rp");
    out.push(Gram::parse(&s));
    // 300 terminals
    let s = format!("S -> X Y end; Y -> y X | ; X -> {}", (0..300).map(|i| format!("t{}", i)).collect::<Vec<_>>().join(" | "));
    out.push(Gram::parse(&s));
    // 300 non-terminals in a chain and in a row
    let s = format!("S -> {} end; {}", (0..300).map(|i| format!("N{}", i)).collect::<Vec<_>>().join(" "), (0..300).map(|i| if i % 2 == 0 { format!("N{} -> a | ", i) } else { format!("N{} -> b", i) }).collect::<Vec<_>>().join(";"));
    out.push(Gram::parse(&s));
    // one right-hand side of 300 symbols beside a short one
    out.push(Gram::parse(&format!("S -> {} | b S", "a ".repeat(300))));
    out
}

/// Bigger grammars with conflicts.
pub fn big_conflict_grammars() -> Vec<Gram> {
    let mut out = Vec::new();
    // every pair of operators competes
    out.push(Gram::parse(&format!("E -> {} | num | lp E rp", (0..12).map(|i| format!("E op{} E", i)).collect::<Vec<_>>().join(" | "))));
    // one look-ahead, forty reductions
    out.push(Gram::parse(&format!("S -> {}; {}", (0..40).map(|i| format!("A{}", i)).collect::<Vec<_>>().join(" | "), (0..40).map(|i| format!("A{} -> x y", i)).collect::<Vec<_>>().join(";"))));
    // the competing rules come after 300 others
    out.push(Gram::parse(&format!("S -> S X | X; X -> {} | A | B; A -> q r | q; B -> q | q r", (0..300).map(|i| format!("t{}", i)).collect::<Vec<_>>().join(" | "))));
    // a statement language with a dangling else at the end of a long rule
    out.push(Gram::parse(&format!("P -> P St | St; St -> {} | if c St | if c St else St", (0..60).map(|i| format!("k{} x semi", i)).collect::<Vec<_>>().join(" | "))));
    // a conflict behind a prefix of 200 symbols
    out.push(Gram::parse(&format!("S -> {} A z | {} B z | n; A -> x; B -> x", "a ".repeat(200), "a ".repeat(200))));
    out
}
/// Bigger grammars with ERROR alternatives, without conflicts.
pub fn big_error_grammars() -> Vec<Gram> {
    let mut out = Vec::new();
    // sixty kinds of statements, each with its own ERROR alternative
    out.push(Gram::parse(&format!("P -> P St | ; St -> {}; X -> x | lp X rp | lp ! rp", (0..60).map(|i| format!("k{} X semi | k{} ! semi", i, i)).collect::<Vec<_>>().join(" | "))));
    // an ERROR behind, between and before many symbols
    out.push(Gram::parse(&format!("S -> S L | L; L -> {} ! end | {} b {} end | c ! {} end", "a ".repeat(100), "a ".repeat(100), "a ".repeat(100), "d ".repeat(60))));
    // ERROR after three hundred rules
    out.push(Gram::parse(&format!("S -> S X | X; X -> {} | A semi | ! semi; A -> q A | q", (0..300).map(|i| format!("t{}", i)).collect::<Vec<_>>().join(" | "))));
    // nesting of several kinds, each recovering in its own brackets
    out.push(Gram::parse(&format!("S -> {} | x", (0..12).map(|i| format!("o{} Ss c{} | o{} ! c{}", i, i, i, i)).collect::<Vec<_>>().join(" | ")).replace("| x", "| x; Ss -> Ss S | S")));
    // a tower of precedences
    let mut s = String::new();
    for i in 0..10 {
        s.push_str(&format!("E{} -> E{} op{} E{} | E{};", i, i, i, i + 1, i + 1));
    }
    s.push_str("E10 -> num | lp E0 rp | lp ! rp");
    out.push(Gram::parse(&s));
    // a dozen ERRORs in one rule
    out.push(Gram::parse(&format!("S -> {} end | fin", (0..12).map(|i| format!("! m{}", i)).collect::<Vec<_>>().join(" "))));
    out
}

/// A random grammar; not necessarily reduced, always defined.
pub fn random(rng: &mut Rng, with_error: bool) -> Gram {
    let nn = rng.range(1, 5);
    let nt = rng.range(1, 5);
    let style = rng.below(4);
    let mut rules = Vec::new();
    for l in 0..nn {
        let k = rng.range(1, 3);
        for a in 0..k {
            let len = match rng.below(8) {
                0 | 1 if a > 0 => 0,
                0..=2 => 1,
                3 | 4 => 2,
                5 | 6 => 3,
                _ => rng.range(3, 6),
            };
            let mut v: Vec<Sym> = Vec::new();
            for p in 0..len {
                let term = match style {
                    0 => rng.chance(1, 2),
                    1 => rng.chance(3, 4),
                    // starts with a distinguishing terminal: rarely conflicting
                    2 => p == 0 || rng.chance(1, 3),
                    _ => rng.chance(2, 3),
                };
                if term {
                    v.push(Sym::T(if style == 2 && p == 0 { (l + 2 * a) % nt } else { rng.below(nt) }));
                } else {
                    // mostly forward references, so that most symbols produce something
                    let n = if rng.chance(2, 3) { rng.range(l.min(nn - 1), nn - 1) } else { rng.below(nn) };
                    v.push(Sym::N(n));
                }
            }
            rules.push((l, v));
        }
    }
    if with_error {
        let k = rng.range(1, 3);
        for _ in 0..k {
            let l = rng.below(nn);
            let mut v = vec![Sym::E];
            match rng.below(6) {
                0 => {}
                1 | 2 => v.push(Sym::T(rng.below(nt))),
                3 => v.insert(0, Sym::T(rng.below(nt))),
                4 => {
                    v.insert(0, Sym::T(rng.below(nt)));
                    v.push(Sym::T(rng.below(nt)));
                }
                _ => v.push(Sym::N(rng.below(nn))),
            }
            if rng.chance(1, 8) {
                v.push(Sym::E);
            }
            let at = rng.below(rules.len() + 1);
            rules.insert(at, (l, v));
        }
    }
    let mut g = Gram { nn, nt, rules, start: 0 };
    if rng.chance(1, 6) {
        g.start = rng.below(nn);
    }
    g
}
/// A grammar of a known shape and a random size: limits that only bite beyond some count live here.
pub fn scaled(rng: &mut Rng, with_error: bool) -> Gram {
    let k = match rng.below(4) {
        0 => rng.range(1, 4),
        1 | 2 => rng.range(5, 12),
        _ => rng.range(13, 36),
    };
    let list = |f: &dyn Fn(usize) -> String, sep: &str| (0..k).map(f).collect::<Vec<_>>().join(sep);
    let src = match rng.below(10) {
        // k nullable symbols in a row, behind and before something
        0 => {
            let run = list(&|i| format!("A{}", i), " ");
            let opt = list(&|i| format!("A{} -> a{} | ", i, i), ";");
            match rng.below(4) {
                0 => format!("S -> X {} g; X -> x; {}", run, opt),
                1 => format!("S -> X Q g; X -> x | y X; Q -> {}; {}", run, opt),
                2 => format!("S -> {} X; X -> x | lp S rp; {}", run, opt),
                _ => format!("S -> x S2 | z; S2 -> {} e; {}", run, opt),
            }
        }
        // nullable through a chain of k rules
        1 => format!("S -> x A0 y | A0 z; {}; A{} -> ", list(&|i| format!("A{} -> A{}", i, i + 1), ";"), k),
        2 => format!("S -> B A0 y; B -> b; {}; A{} -> a | ", list(&|i| format!("A{} -> A{} | q{} A{}", i, i + 1, i, i + 1), ";"), k),
        // a chain of units
        3 => format!("S -> N0 | S semi N0; {}; N{} -> x | lp S rp", list(&|i| format!("N{} -> N{}", i, i + 1), ";"), k),
        // mutual left recursion round a ring
        4 => format!("S -> A0 z; {}", list(&|i| format!("A{} -> A{} x{} | y{}", i, (i + 1) % k, i, i), ";")),
        // brackets of k kinds
        5 => format!("S -> {} | n", list(&|i| format!("o{} S c{}", i, i), " | ")),
        // k-symbol rules that differ at the end
        6 => {
            let v = (0..k).map(|i| if rng.chance(1, 4) { "X".to_string() } else { format!("t{}", i % 5) }).collect::<Vec<_>>().join(" ");
            format!("S -> {} p | {} q | {} S; X -> x | y X", v, v, v)
        }
        // alternatives with longer and longer common prefixes
        7 => format!("S -> {} | w S", list(&|i| format!("{}b{}", "a ".repeat(i % 9), i), " | ")),
        // a tower of operators
        8 => format!("{}; E{} -> num | lp E0 rp", list(&|i| if i % 2 == 0 { format!("E{} -> E{} op{} E{} | E{}", i, i, i, i + 1, i + 1) } else { format!("E{} -> E{} op{} E{} | E{}", i, i + 1, i, i, i + 1) }, ";"), k),
        // k lists one behind the other
        _ => format!("S -> {} end; {}", list(&|i| format!("L{}", i), " "), list(&|i| if i % 2 == 0 { format!("L{} -> L{} a{} | ", i, i, i) } else { format!("L{} -> a{} L{} | a{}", i, i, i, i) }, ";")),
    };
    let mut g = Gram::parse(&src);
    if with_error {
        // a place for ERROR, and sometimes the same at several places
        for _ in 0..rng.range(1, 3) {
            let i = rng.below(g.rules.len());
            let (l, mut v) = g.rules[i].clone();
            let at = rng.below(v.len() + 1);
            if at == v.len() || rng.chance(1, 3) {
                v.insert(at, Sym::E);
            } else {
                v[at] = Sym::E;
            }
            g.rules.push((l, v));
        }
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut g.rules);
    }
    g
}
/// Several non-terminals, most with an ERROR alternative that leads on to others: recoveries inside recoveries.
pub fn recovering(rng: &mut Rng) -> Gram {
    let k = rng.range(2, 4);
    let rest = |rng: &mut Rng, tag: &str| {
        (0..rng.below(4))
            .map(|i| match rng.below(5) {
                0 | 1 => format!("A{}", rng.below(k)),
                2 => "!".to_string(),
                _ => format!("{}{}", tag, i),
            })
            .collect::<Vec<_>>()
            .join(" ")
    };
    let mut defs = vec![match rng.below(4) {
        0 => (0..k).map(|i| format!("A{}", i)).collect::<Vec<_>>().join(" | "),
        1 => (0..k).map(|i| format!("A{}", i)).collect::<Vec<_>>().join(" "),
        2 => "S A0 | ".to_string(),
        _ => "S semi A0 | A0".to_string(),
    }];
    for i in 0..k {
        let mut alts = vec![format!("z{}", i)];
        if rng.chance(4, 5) {
            let tag = *rng.pick(&["p", "q"]);
            alts.push(format!("! {} {}", if rng.chance(5, 6) { format!("e{}", i) } else { String::new() }, rest(rng, tag)));
        }
        if rng.chance(2, 3) {
            alts.push(format!("y{} {}", i, rest(rng, "p")));
        }
        if rng.chance(1, 4) {
            alts.push(String::new());
        }
        defs.push(alts.join(" | "));
    }
    let src: Vec<String> = defs.into_iter().enumerate().map(|(i, d)| if i == 0 { format!("S -> {}", d) } else { format!("A{} -> {}", i - 1, d) }).collect();
    let mut g = Gram::parse(&src.join(";"));
    if rng.chance(1, 2) {
        rng.shuffle(&mut g.rules);
    }
    g
}
/// Statements of a grammar, each ended by a token of its own, in a list (and in blocks) that goes on after an error.
pub fn guarded(g: &Gram, rng: &mut Rng) -> Gram {
    let (list, st) = (g.nn, g.nn + 1);
    let (semi, lb, rb) = (g.nt, g.nt + 1, g.nt + 2);
    let mut rules = g.rules.clone();
    rules.push((list, if rng.chance(1, 3) { vec![Sym::N(st)] } else { vec![] }));
    rules.push((list, vec![Sym::N(list), Sym::N(st)]));
    rules.push((st, vec![Sym::N(g.start), Sym::T(semi)]));
    rules.push((st, vec![Sym::E, Sym::T(semi)]));
    let blocks = rng.chance(1, 2);
    if blocks {
        rules.push((st, vec![Sym::T(lb), Sym::N(list), Sym::T(rb)]));
        if rng.chance(1, 2) {
            rules.push((st, vec![Sym::T(lb), Sym::E, Sym::T(rb)]));
        }
    }
    Gram { nn: g.nn + 2, nt: g.nt + if blocks { 3 } else { 1 }, rules, start: list }
}
/// A curated grammar with one thing changed.
pub fn mutate(g: &Gram, rng: &mut Rng, with_error: bool) -> Gram {
    let mut g = g.clone();
    for _ in 0..rng.range(1, 2) {
        let i = rng.below(g.rules.len());
        match rng.below(6) {
            0 => {
                let t = Sym::T(rng.below(g.nt));
                let n = g.rules[i].1.len();
                let at = rng.below(n + 1);
                g.rules[i].1.insert(at, t);
            }
            1 => {
                let t = Sym::N(rng.below(g.nn));
                let n = g.rules[i].1.len();
                let at = rng.below(n + 1);
                g.rules[i].1.insert(at, t);
            }
            2 if !g.rules[i].1.is_empty() => {
                let at = rng.below(g.rules[i].1.len());
                g.rules[i].1.remove(at);
            }
            3 => {
                let l = rng.below(g.nn);
                let v = g.rules[i].1.clone();
                g.rules.push((l, v));
            }
            4 => g.rules.push((rng.below(g.nn), vec![])),
            _ if with_error => {
                let n = g.rules[i].1.len();
                if n > 0 {
                    let at = rng.below(n);
                    let mut v = g.rules[i].1.clone();
                    v[at] = Sym::E;
                    let l = g.rules[i].0;
                    g.rules.push((l, v));
                }
            }
            _ => {
                let j = rng.below(g.rules.len());
                g.rules.swap(i, j);
            }
        }
    }
    g
}

/// Adds one or two non-terminals that derive nothing (only in terms of themselves) or are never used;
/// they get any number. The language stays the same.
pub fn holed(g: &Gram, rng: &mut Rng) -> Gram {
    let mut g = g.clone();
    for _ in 0..rng.range(1, 2) {
        let hole = rng.below(g.nn + 1);
        let up = |n: usize| if n >= hole { n + 1 } else { n };
        g.nn += 1;
        g.start = up(g.start);
        for r in &mut g.rules {
            r.0 = up(r.0);
            for s in &mut r.1 {
                if let Sym::N(n) = s {
                    *n = up(*n);
                }
            }
        }
        let used = rng.chance(2, 3);
        let mut fresh = Vec::new();
        for _ in 0..rng.range(1, 2) {
            if !used {
                break;
            }
            // a rule that leads into the hole
            let (l, mut r) = g.rules[rng.below(g.rules.len())].clone();
            let at = rng.below(r.len() + 1);
            if rng.chance(1, 2) && at < r.len() {
                r[at] = Sym::N(hole);
            } else {
                r.insert(at, Sym::N(hole));
            }
            fresh.push((l, r));
        }
        let t = rng.below(g.nt.max(1));
        fresh.push((hole, vec![Sym::T(t), Sym::N(if used { hole } else { g.start })]));
        if rng.chance(1, 4) {
            fresh.push((hole, vec![Sym::N(if used { hole } else { g.start })]));
        }
        for r in fresh {
            let at = rng.below(g.rules.len() + 1);
            g.rules.insert(at, r);
        }
    }
    if g.nt == 0 {
        g.nt = 1;
    }
    g
}
/// Token sequences: sentences, sentences with edits, viable prefixes followed by every terminal, random, all short ones.
pub fn inputs(g: &Gram, lr: Option<&Lr>, rng: &mut Rng, n: usize) -> Vec<Vec<usize>> {
    let unknown = g.nt; // a token the grammar never mentions
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut sentences = Vec::new();
    for _ in 0..n / 4 + 2 {
        let b = *rng.pick(&[3, 8, 15, 30, 60]);
        if let Some(s) = derive(g, rng, b) {
            if s.len() <= 60 {
                sentences.push(s);
            }
        }
    }
    if g.has_error() {
        for _ in 0..n / 3 + 2 {
            let b = *rng.pick(&[3, 8, 15, 30]);
            if let Some(s) = derive_faulty(g, rng, b) {
                if s.len() <= 40 {
                    out.push(s);
                }
            }
        }
    }
    if let Some(lr) = lr {
        let short = shortest(g);
        let pre = lr.state_prefixes(&short);
        let mut cover: Vec<Vec<usize>> = Vec::new();
        for p in pre.into_iter().flatten() {
            for t in 0..=g.nt {
                let mut v = p.clone();
                v.push(t);
                cover.push(v.clone());
                if rng.chance(1, 3) && !sentences.is_empty() {
                    let s: &Vec<usize> = rng.pick(&sentences);
                    let cut = rng.below(s.len() + 1);
                    v.extend(&s[cut..]);
                    cover.push(v);
                }
            }
            cover.push(p);
        }
        rng.shuffle(&mut cover);
        cover.truncate(n);
        out.extend(cover);
    }
    for s in &sentences {
        out.push(s.clone());
        for _ in 0..2 {
            let mut v = s.clone();
            for _ in 0..rng.range(1, 3) {
                let t = if rng.chance(1, 12) { unknown } else { rng.below(g.nt.max(1)) };
                if v.is_empty() {
                    v.push(t);
                    continue;
                }
                let at = rng.below(v.len());
                match rng.below(5) {
                    0 => v[at] = t,
                    1 => v.insert(at, t),
                    2 => {
                        v.remove(at);
                    }
                    3 => v.truncate(at),
                    _ => {
                        let b = rng.below(v.len());
                        v.swap(at, b);
                    }
                }
            }
            out.push(v);
        }
    }
    for _ in 0..n / 4 {
        let len = rng.below(9);
        out.push((0..len).map(|_| if rng.chance(1, 20) { unknown } else { rng.below(g.nt.max(1)) }).collect());
    }
    out
}
pub fn all_short(nt: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut layer = out.clone();
    for _ in 0..max {
        let mut next = Vec::new();
        for p in &layer {
            for t in 0..nt {
                let mut v = p.clone();
                v.push(t);
                next.push(v);
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}
