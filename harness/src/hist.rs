//! C20: histories of uses. Several tokenizers (or parsers) are alive at once, are built and dropped in rounds, and are used in an
//! interleaved and re-entrant way, with panics thrown into them. Each use is judged by the reference; where it differs, a fresh
//! process repeats that use alone, and only a difference from what happens there is a violation of C20.
use crate::gram::*;
use crate::par::{self, Fault, Kind, Res};
use crate::rx::{self, expected, Want};
use crate::tok::{self, source, Item, Tk, Tok};
use crate::tokgen;
use crate::util::*;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::rc::Rc;
use tokenizer::Tokenize;

// ---- one use, alone, in a fresh process

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect::<String>() + "."
}
fn unhex(s: &str) -> String {
    let s = s.trim_end_matches('.');
    String::from_utf8((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap()
}
fn gram_text(g: &Gram) -> String {
    let mut s = format!("{} {} {}", g.nn, g.nt, g.start);
    for (l, r) in &g.rules {
        s.push_str(&format!(";{}", l));
        for x in r {
            match x {
                Sym::N(n) => s.push_str(&format!(" N{}", n)),
                Sym::T(t) => s.push_str(&format!(" T{}", t)),
                Sym::E => s.push_str(" E"),
            }
        }
    }
    s
}
fn gram_of(s: &str) -> Gram {
    let mut parts = s.split(';');
    let h: Vec<usize> = parts.next().unwrap().split(' ').map(|x| x.parse().unwrap()).collect();
    let rules = parts
        .map(|p| {
            let mut w = p.split(' ');
            let l = w.next().unwrap().parse().unwrap();
            let r = w
                .map(|x| match x.as_bytes()[0] {
                    b'N' => Sym::N(x[1..].parse().unwrap()),
                    b'T' => Sym::T(x[1..].parse().unwrap()),
                    _ => Sym::E,
                })
                .collect();
            (l, r)
        })
        .collect();
    Gram { nn: h[0], nt: h[1], start: h[2], rules }
}
/// The child: one use, one line per observation.
pub fn alone() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let l: Vec<&str> = s.lines().collect();
    reset_alloc_budget(8 << 30);
    let out = match l[0] {
        "tok" => {
            let pats: Vec<String> = l[2..].iter().map(|x| unhex(x)).collect();
            let input: Vec<char> = unhex(l[1]).chars().collect();
            match tok::must_build(&pats) {
                Err(m) => vec![m],
                Ok((t, _)) => match tok::observe(&t, &input) {
                    Ok(o) => tok_lines(&o.toks, true),
                    Err(b) => vec![b.to_string()],
                },
            }
        }
        _ => {
            let g = gram_of(l[1]);
            let toks: Vec<usize> = l[2].split(' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            match par::build(&g) {
                Err(m) => vec![m],
                Ok((p, _)) => par_lines(&par::run_with(&p, &toks, Fault::None, 50_000_000)),
            }
        }
    };
    let mut o = std::io::stdout().lock();
    for x in out {
        writeln!(o, "{}", x.replace('\n', " ")).unwrap();
    }
}
fn tok_lines(t: &[Tok], end: bool) -> Vec<String> {
    t.iter().map(|t| format!("{:?}", t).replace('\n', " ")).chain(end.then(|| "end of stream".to_string())).collect()
}
fn par_lines(r: &Result<par::Run, Bad>) -> Vec<String> {
    match r {
        Err(b) => vec![b.to_string()],
        Ok(r) => r.ev.iter().map(|e| format!("{:?}", e)).chain(Some(format!("{:?}", r.res))).collect(),
    }
}
/// What the use gives in a process of its own.
fn child(job: String) -> Vec<String> {
    let exe = std::env::current_exe().expect("own path");
    let mut c = std::process::Command::new(exe).arg("alone").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().expect("starting a process");
    c.stdin.take().unwrap().write_all(job.as_bytes()).unwrap();
    let o = c.wait_with_output().expect("waiting for a process");
    if !o.status.success() {
        return vec![format!("the process ended: {:?}", o.status)];
    }
    String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect()
}
fn tok_alone(pats: &[String], input: &[char]) -> Vec<String> {
    let mut job = format!("tok\n{}\n", hex(&input.iter().collect::<String>()));
    for p in pats {
        job.push_str(&format!("{}\n", hex(p)));
    }
    child(job)
}
fn par_alone(g: &Gram, toks: &[usize]) -> Vec<String> {
    child(format!("par\n{}\n{}\n", gram_text(g), toks.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ")))
}

// ---- tokenizers

struct TokDef {
    pats: Vec<String>,
    inputs: Vec<Vec<char>>,
    wants: Vec<Vec<Want>>,
}
fn tok_line(d: &TokDef, input: usize, at: usize) -> String {
    match d.wants[input].get(at) {
        None => "end of stream".to_string(),
        Some(w) => {
            let chars = d.inputs[input][w.start..w.end].to_vec();
            format!("{:?}", Tok { pat: w.pat, text: chars.iter().collect(), ids: (w.start as u32..w.end as u32).collect(), chars }).replace('\n', " ")
        }
    }
}
/// A use differed from the reference: does it also differ from what it gives alone?
fn tok_confirm(d: &TokDef, input: usize, at: usize, got: &str, how: &str, ctx: &mut Ctx) -> Verdict {
    let alone = tok_alone(&d.pats, &d.inputs[input]);
    if alone.get(at).map(|s| s.as_str()) == Some(got) || (alone.len() == 1 && alone[0] == got) {
        ctx.stat("uses that differ from the reference in the same way when alone", 1);
        return Ok(());
    }
    Err(format!("{}: {}: observation {} is {}, but alone, in a fresh process, it is {:?}", tok::show(&d.pats, &d.inputs[input]), how, at, got, alone.get(at)))
}
type Stream<'a> = Box<dyn Iterator<Item = Tok> + 'a>;
struct Live<'a> {
    def: usize,
    input: usize,
    at: usize,
    it: Stream<'a>,
}
fn open<'a>(tk: &'a Tk, chars: &[char], lent: bool) -> Stream<'a> {
    let (s, _, _) = source(chars);
    let map = |i: &Item| {
        enter();
        i.ch
    };
    if lent {
        Box::new(s.tokenize_with(tk, map))
    } else {
        Box::new(s.collect::<Vec<_>>().into_iter().tokenize_with(tk, map))
    }
}
pub fn case_tok(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let mut defs: Vec<TokDef> = Vec::new();
    let mut lexes = Vec::new();
    let k = rng.range(1, 4);
    for n in 0..k * 4 {
        if defs.len() == k {
            break;
        }
        let pats = if n > 0 && !defs.is_empty() && rng.chance(1, 3) {
            // nearly the same definition again
            let mut p = defs[0].pats.clone();
            match rng.below(3) {
                0 => rng.shuffle(&mut p),
                1 if p.len() > 1 => {
                    p.pop();
                }
                _ => p.push(tokgen::lists("random", 0, rng).pop().unwrap_or_else(|| "q".into())),
            }
            p
        } else {
            tokgen::lists(if stage == "tokc" && n == 0 { "curated" } else { "random" }, index, rng)
        };
        if let Some(l) = tokgen::lex_for(&pats) {
            lexes.push(l);
            defs.push(TokDef { pats, inputs: vec![], wants: vec![] });
        }
    }
    if defs.is_empty() {
        return Ok(());
    }
    let mut inputs: Vec<Vec<char>> = Vec::new();
    for l in &mut lexes {
        let mut v: Vec<Vec<char>> = tokgen::inputs(l, rng, 30).into_iter().filter(|i| i.len() > 1).collect();
        rng.shuffle(&mut v);
        v.truncate(4);
        inputs.extend(v);
    }
    if inputs.is_empty() {
        return Ok(());
    }
    for (d, l) in defs.iter_mut().zip(&mut lexes) {
        d.inputs = inputs.clone();
        d.wants = inputs.iter().map(|i| expected(l, i).0).collect();
    }
    let defs: Rc<Vec<TokDef>> = Rc::new(defs);
    let mut trace: Vec<(usize, usize, usize)> = Vec::new();
    let (mut switches, mut nests, mut panics) = (0u64, 0u64, 0u64);
    let keep = Rc::new(tok::must_build(&defs[0].pats)?.0);
    for round in 0..4 {
        // built in a new order every round, where the last round's were
        let mut order: Vec<usize> = (0..defs.len()).chain((0..2).map(|_| rng.below(defs.len()))).collect();
        rng.shuffle(&mut order);
        if rng.chance(1, 3) {
            let _ = tok::build(&["a+".to_string(), rng.pick(&["(", "^x", "[", "\\bq"]).to_string()]);
        }
        let mut tks: Vec<(usize, Rc<Tk>)> = order.into_iter().map(|d| Ok((d, Rc::new(tok::must_build(&defs[d].pats)?.0)))).collect::<Result<_, String>>()?;
        tks.push((0, keep.clone()));
        let mut live: Vec<Live> = Vec::new();
        for _ in 0..45 {
            if live.len() < 2 || (live.len() < 7 && rng.chance(1, 3)) {
                let (d, tk) = &tks[rng.below(tks.len())];
                let input = rng.below(inputs.len());
                let it = if rng.chance(1, 6) {
                    // a stream that owns its tokenizer
                    let tk = tok::must_build(&defs[*d].pats)?.0;
                    let (s, _, _) = source(&inputs[input]);
                    Box::new(s.tokenize_with(tk, |i: &Item| i.ch)) as Stream
                } else {
                    open(tk, &inputs[input], rng.chance(1, 2))
                };
                live.push(Live { def: *d, input, at: 0, it });
            }
            let x = rng.below(live.len());
            // sometimes a callback of this use uses tokenizers itself, or panics
            let nested: Rc<RefCell<Vec<(usize, usize, Result<Vec<Tok>, Bad>)>>> = Default::default();
            let mut bang = false;
            match rng.below(6) {
                0 => {
                    let jobs: Vec<(usize, Rc<Tk>, usize)> = (0..rng.range(1, 2))
                        .map(|_| {
                            let (d, t) = tks[rng.below(tks.len())].clone();
                            (d, t, rng.below(inputs.len()))
                        })
                        .collect();
                    let (defs, out) = (defs.clone(), nested.clone());
                    arm(rng.range(1, 12) as u64, move || {
                        for (d, t, i) in &jobs {
                            let r = tok::observe(t, &defs[*d].inputs[*i]).map(|o| o.toks);
                            out.borrow_mut().push((*d, *i, r));
                        }
                        set_budget(1_000_000);
                    });
                    nests += 1;
                }
                1 => {
                    arm(rng.range(1, 12) as u64, || std::panic::panic_any("injected".to_string()));
                    bang = true;
                }
                _ => {}
            }
            set_budget(1_000_000);
            let l = &mut live[x];
            let got = guard(|| l.it.next());
            let fired = disarm();
            let (d, input, at) = (l.def, l.input, l.at);
            trace.push((d, input, at));
            ctx.saw(Some(hash_of(&(&defs[0].pats, index, trace.len(), &trace[trace.len().saturating_sub(20)..]))));
            switches += 1;
            if bang && fired {
                panics += 1;
                if got.is_ok() {
                    return Err(format!("{}: a panic of a callback was swallowed", tok::show(&defs[d].pats, &inputs[input])));
                }
                live.swap_remove(x);
                continue;
            }
            let line = match &got {
                Ok(Some(t)) => format!("{:?}", t).replace('\n', " "),
                Ok(None) => "end of stream".to_string(),
                Err(b) => b.to_string(),
            };
            let want = tok_line(&defs[d], input, at);
            if line != want {
                let how = format!("round {}, {} streams of {} tokenizers open", round, live.len(), tks.len());
                return tok_confirm(&defs[d], input, at, &line, &how, ctx);
            }
            for (d, i, r) in nested.borrow().iter() {
                let lines = match r {
                    Ok(t) => tok_lines(t, true),
                    Err(b) => vec![b.to_string()],
                };
                for (at, line) in lines.iter().enumerate() {
                    if *line != tok_line(&defs[*d], *i, at) {
                        return tok_confirm(&defs[*d], *i, at, line, "tokenized by a callback of another stream", ctx);
                    }
                }
            }
            let l = &mut live[x];
            l.at += 1;
            if matches!(got, Ok(None)) || rng.chance(1, 12) {
                live.swap_remove(x);
            }
        }
    }
    if rng.chance(1, 150) {
        let (d, i) = (rng.below(defs.len()), rng.below(inputs.len()));
        let lines = tok_alone(&defs[d].pats, &inputs[i]);
        for (at, line) in lines.iter().enumerate() {
            if *line != tok_line(&defs[d], i, at) {
                ctx.stat("uses that differ from the reference in the same way when alone", 1);
            }
        }
        ctx.stat("uses repeated in a fresh process", 1);
    }
    ctx.stat("stream switches", switches);
    ctx.stat("uses with a nested use in a callback", nests);
    ctx.stat("streams ended by a panic of a callback", panics);
    ctx.max("different tokenizers in one history", defs.len() as u64);
    ctx.sample(4000, || format!("tokenizers {:?}; last uses (definition, input, token) {:?}", defs.iter().map(|d| cut(format!("{:?}", d.pats), 150)).collect::<Vec<_>>(), &trace[trace.len().saturating_sub(12)..]));
    Ok(())
}

// ---- parsers

struct ParDef {
    g: Gram,
    lr: Lr,
    inputs: Vec<Vec<usize>>,
    /// events and outcome of a fresh parser in a fresh thread
    alone: Vec<Vec<String>>,
}
fn par_confirm(d: &ParDef, i: usize, got: &[String], how: &str, ctx: &mut Ctx) -> Verdict {
    let alone = par_alone(&d.g, &d.inputs[i]);
    if alone == got {
        ctx.stat("uses that differ from the reference in the same way when alone", 1);
        return Ok(());
    }
    let at = (0..).find(|k| alone.get(*k) != got.get(*k)).unwrap();
    Err(format!("{}: {}: observation {} is {:?}, but alone, in a fresh process, it is {:?}", par::show(&d.g, &d.inputs[i]), how, at, got.get(at), alone.get(at)))
}
pub fn case_par(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let mut defs: Vec<ParDef> = Vec::new();
    let k = rng.range(1, 3);
    for n in 0..k {
        let kind = match (index + n as u64) % 3 {
            0 => Kind::Clean,
            1 => Kind::Error,
            _ => Kind::Any,
        };
        let (g, lr) = if !defs.is_empty() && rng.chance(1, 3) {
            // nearly the same grammar again: a rule less, or another start
            let mut g = defs[0].g.clone();
            if rng.chance(1, 2) && g.rules.len() > 2 {
                let at = rng.below(g.rules.len());
                g.rules.remove(at);
            } else {
                g.start = rng.below(g.nn);
            }
            let Some(g) = g.reduced() else { continue };
            if !g.defined() {
                continue;
            }
            let Some(lr) = Lr::new(&g, 3000) else { continue };
            (g, lr)
        } else {
            let Some(x) = par::pick_from(kind, if stage == "par" || n > 0 { "random" } else { "curated" }, index / 3, rng, ctx, true) else { continue };
            x
        };
        defs.push(ParDef { g, lr, inputs: vec![], alone: vec![] });
    }
    if defs.is_empty() {
        return Ok(());
    }
    for d in &mut defs {
        let mut ins = inputs(&d.g, Some(&d.lr), rng, 30);
        rng.shuffle(&mut ins);
        if stage == "parl" {
            // long and short parses after one another
            ins.truncate(6);
            ins.extend(long_inputs(&d.g, rng, 3, 2100));
            rng.shuffle(&mut ins);
        }
        ins.truncate(10);
        ins.retain(|t| drive(&d.lr, t, 3000.max(20 * t.len())).1 != Out::Cap);
        d.inputs = ins;
        // what each input gives in a thread of its own
        let (g, ins) = (d.g.clone(), d.inputs.clone());
        let (alone, bad) = std::thread::spawn(move || -> (Vec<Vec<String>>, Option<String>) {
            let mut out = Vec::new();
            let mut own = None;
            for (k, t) in ins.iter().enumerate() {
                if k % if g.rules.len() > 30 { 5 } else { 1 } == 0 {
                    own = None;
                }
                if own.is_none() {
                    match par::build(&g) {
                        Ok((p, _)) => own = Some(p),
                        Err(m) => return (out, Some(m)),
                    }
                }
                out.push(par_lines(&par::run_with(own.as_ref().unwrap(), t, Fault::None, BUDGET)));
            }
            (out, None)
        })
        .join()
        .map_err(|_| "a thread died".to_string())?;
        if let Some(m) = bad {
            return Err(m);
        }
        d.alone = alone;
        par::note(ctx, &d.g, &d.lr);
    }
    defs.retain(|d| !d.inputs.is_empty());
    if defs.is_empty() {
        return Ok(());
    }
    // the parsers alone must already do what the reference does, or a fresh process must agree that they do not
    for d in &defs {
        for i in 0..d.inputs.len() {
            if !par::like_reference(&d.lr, &d.inputs[i], &d.alone[i]) {
                par_confirm(d, i, &d.alone[i], "first use of a fresh parser in a fresh thread", ctx)?;
            }
        }
    }
    let defs = Rc::new(defs);
    let mut history: Vec<String> = Vec::new();
    let rounds = 3;
    let mut kept: Option<(usize, Rc<par::P>)> = None;
    for round in 0..rounds {
        let mut order: Vec<usize> = (0..defs.len()).chain(Some(rng.below(defs.len()))).collect();
        rng.shuffle(&mut order);
        order.truncate(if defs[0].g.rules.len() > 30 { 2 } else { 4 });
        let mut ps: Vec<(usize, Rc<par::P>)> = order.into_iter().map(|d| Ok((d, Rc::new(par::build(&defs[d].g)?.0)))).collect::<Result<_, String>>()?;
        ps.extend(kept.clone());
        kept = Some(ps[0].clone());
        for _ in 0..15 {
            let (d, p) = ps[rng.below(ps.len())].clone();
            let def = &defs[d];
            let i = rng.below(def.inputs.len());
            let calls = def.alone[i].iter().filter(|l| l.starts_with("Reduce")).count();
            let at = rng.below(calls.max(1));
            let nested: Rc<RefCell<Vec<(usize, usize, Vec<String>)>>> = Default::default();
            let (jobs, out, all) = ((0..rng.range(1, 2))
                .map(|_| {
                    let (d, p) = ps[rng.below(ps.len())].clone();
                    (d, p, rng.below(defs[d].inputs.len()))
                })
                .collect::<Vec<_>>(), nested.clone(), defs.clone());
            let nest = move || {
                par::apart(|| {
                    for (d, p, i) in &jobs {
                        let r = par_lines(&par::run_with(p, &all[*d].inputs[*i], Fault::None, BUDGET));
                        out.borrow_mut().push((*d, *i, r));
                    }
                });
                set_budget(BUDGET);
            };
            // where the history interferes: nowhere, in a reducer call, or in the n-th callback of any kind
            let some = rng.range(1, 3 * def.alone[i].len() + 2) as u64;
            let (what, fault) = match rng.below(9) {
                0 if calls > 0 => ("a reducer error", Fault::ErrAt(at, 5)),
                1 if calls > 0 => ("a reducer panic", Fault::PanicAt(at)),
                2 if calls > 0 => {
                    par::set_nest(Box::new(nest));
                    ("a parse nested in a reducer", Fault::NestAt(at))
                }
                3 => {
                    arm(some, nest);
                    ("a parse nested in a callback", Fault::None)
                }
                4 => {
                    arm(some, || std::panic::panic_any("injected".to_string()));
                    ("a panic of a callback", Fault::None)
                }
                _ => ("nothing else", Fault::None),
            };
            let r = par::run_with(&p, &def.inputs[i], fault, BUDGET);
            let fired = disarm();
            par::clear_nest();
            history.push(format!("{}:{} {} {}", d, i, what, at));
            ctx.saw(Some(hash_of(&(&defs[0].g, index, history.len(), &history[history.len().saturating_sub(20)..]))));
            ctx.stat(&format!("parses with {}", what), 1);
            let how = format!("with {} after the uses (parser:input) {:?} in round {}", what, history, round);
            let expect = match fault {
                Fault::ErrAt(..) => Some(Res::Reducer(5)),
                Fault::PanicAt(_) => Some(Res::Panicked),
                _ => None,
            };
            if let Some(e) = expect {
                if !matches!(&r, Ok(r) if r.res == e) {
                    // a C11 matter unless the plain use differs too; the next plain uses tell
                    ctx.stat("faulted parses with another outcome", 1);
                    if let Err(b) = r {
                        return Err(format!("{}: {}: {}", par::show(&def.g, &def.inputs[i]), how, b));
                    }
                }
            } else if what == "a panic of a callback" && fired {
                if r.is_ok() {
                    return Err(format!("{}: {}: the panic was swallowed", par::show(&def.g, &def.inputs[i]), how));
                }
            } else {
                let lines = par_lines(&r);
                if lines != def.alone[i] {
                    par_confirm(def, i, &lines, &how, ctx)?;
                }
            }
            for (d, i, lines) in nested.borrow().iter() {
                if *lines != defs[*d].alone[*i] {
                    par_confirm(&defs[*d], *i, lines, &format!("nested in a use {}", how), ctx)?;
                }
            }
        }
    }
    if rng.chance(1, 150) {
        let d = &defs[rng.below(defs.len())];
        let i = rng.below(d.inputs.len());
        par_confirm(d, i, &d.alone[i], "first use of a fresh parser in a fresh thread", &mut Ctx::default())?;
        ctx.stat("uses repeated in a fresh process", 1);
    }
    ctx.max("different parsers in one history", defs.len() as u64);
    ctx.sample(4000, || format!("parsers {:?}; last uses (parser:input) {:?}", defs.iter().map(|d| cut(format!("{:?}", d.g), 200)).collect::<Vec<_>>(), &history[history.len().saturating_sub(8)..]));
    Ok(())
}
/// One tokenizer or parser used more often than a 16-bit counter can count.
pub fn case_many(stage: &str, index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    const USES: usize = 66_000;
    if stage == "manyt" {
        let (pats, mut lex) = loop {
            let pats = tokgen::lists(if index % 2 == 0 { "curated" } else { "random" }, rng.next(), rng);
            if let Some(l) = tokgen::lex_for(&pats) {
                break (pats, l);
            }
        };
        let mut inputs: Vec<Vec<char>> = tokgen::inputs(&mut lex, rng, 30).into_iter().filter(|i| i.len() > 1 && i.len() < 24).collect();
        rng.shuffle(&mut inputs);
        inputs.truncate(6);
        if inputs.is_empty() {
            return Ok(());
        }
        let wants = inputs.iter().map(|i| expected(&mut lex, i).0).collect();
        let d = TokDef { pats, inputs, wants };
        let tk = tok::must_build(&d.pats)?.0;
        let want: Vec<Vec<Tok>> = (0..d.inputs.len()).map(|i| Ok(tok::observe(&tk, &d.inputs[i]).map_err(|b| format!("{}: {}", tok::show(&d.pats, &d.inputs[i]), b))?.toks)).collect::<Result<_, String>>()?;
        for n in 0..USES {
            let i = rng.below(d.inputs.len());
            let stop = if n % 5 == 4 { rng.below(3) } else { usize::MAX };
            set_budget(1_000_000);
            let got = guard(|| {
                let (s, _, _) = source(&d.inputs[i]);
                s.tokenize_with(&tk, |i: &Item| i.ch).take(stop).collect::<Vec<Tok>>()
            });
            let k = stop.min(want[i].len());
            if !matches!(&got, Ok(t) if t[..] == want[i][..k]) {
                let (at, line) = match &got {
                    Err(b) => (0, b.to_string()),
                    Ok(t) => {
                        let lines = tok_lines(t, true);
                        let at = (0..).find(|j| lines.get(*j) != Some(&tok_line(&d, i, *j))).unwrap();
                        (at, lines.get(at).cloned().unwrap_or_default())
                    }
                };
                return tok_confirm(&d, i, at, &line, &format!("use number {} of this tokenizer", n), ctx);
            }
            ctx.saw(if n % 64 == 0 { Some(hash_of(&(&d.pats, i, n))) } else { None });
        }
        ctx.stat("uses of one tokenizer in a row", USES as u64);
        return Ok(());
    }
    let kind = [Kind::Clean, Kind::Error, Kind::Any][index as usize % 3];
    let Some((g, lr)) = par::pick_from(kind, "random", index, rng, ctx, true) else { return Ok(()) };
    let mut ins: Vec<Vec<usize>> = inputs(&g, Some(&lr), rng, 30).into_iter().filter(|t| t.len() < 16 && drive(&lr, t, 2000).1 != Out::Cap).collect();
    rng.shuffle(&mut ins);
    ins.truncate(8);
    if ins.is_empty() {
        return Ok(());
    }
    let p = par::build(&g)?.0;
    let first: Vec<Vec<String>> = ins.iter().map(|t| par_lines(&par::run_with(&p, t, Fault::None, BUDGET))).collect();
    let plain: Vec<Option<par::Run>> = ins.iter().map(|t| par::run_with(&p, t, Fault::None, BUDGET).ok()).collect();
    for (i, l) in first.iter().enumerate() {
        if *l != par_lines(&par::run_with(&p, &ins[i], Fault::None, BUDGET)) {
            let d = ParDef { g, lr, inputs: ins, alone: first.clone() };
            return par_confirm(&d, i, &first[i], "used twice", ctx);
        }
    }
    for n in 0..USES {
        let i = rng.below(ins.len());
        let fault = match n % 50 {
            7 => Fault::ErrAt(rng.below(4), 5),
            8 => Fault::PanicAt(rng.below(4)),
            _ => Fault::None,
        };
        let got = par::run_with(&p, &ins[i], fault, BUDGET);
        ctx.saw(if n % 64 == 0 { Some(hash_of(&(&g, i, n))) } else { None });
        if fault != Fault::None {
            continue;
        }
        let same = match (&got, &plain[i]) {
            (Ok(a), Some(b)) => a.ev == b.ev && a.res == b.res,
            (Err(_), None) => true,
            _ => false,
        };
        if !same {
            let d = ParDef { g, lr, inputs: ins, alone: first };
            return par_confirm(&d, i, &par_lines(&got), &format!("use number {} of this parser", n), ctx);
        }
    }
    ctx.stat("uses of one parser in a row", USES as u64);
    Ok(())
}
const BUDGET: u64 = 3_000_000;

/// Instances in parallel threads behave like instances used alone.
pub fn case_threads(rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let mut defs: Vec<ParDef> = Vec::new();
    for _ in 0..4 {
        let kind = if rng.chance(1, 2) { Kind::Clean } else { Kind::Error };
        let Some((g, lr)) = par::pick_from(kind, "random", 0, rng, ctx, true) else { continue };
        let mut ins = inputs(&g, Some(&lr), rng, 20);
        rng.shuffle(&mut ins);
        ins.truncate(16);
        ins.retain(|t| drive(&lr, t, 3000).1 != Out::Cap);
        let (p, _) = par::build(&g)?;
        let alone = ins.iter().map(|t| par_lines(&par::run_with(&p, t, Fault::None, BUDGET))).collect();
        defs.push(ParDef { g, lr, inputs: ins, alone });
    }
    let mut toks: Vec<(Vec<String>, Vec<Vec<char>>, Vec<Vec<String>>)> = Vec::new();
    for _ in 0..4 {
        let pats = tokgen::lists("random", 0, rng);
        let Some(mut l) = tokgen::lex_for(&pats) else { continue };
        let mut ins = tokgen::inputs(&mut l, rng, 20);
        ins.truncate(12);
        let want = ins.iter().map(|i| {
            let w: Vec<Want> = rx::expected(&mut l, i).0;
            let d = TokDef { pats: vec![], inputs: vec![i.clone()], wants: vec![w] };
            (0..=d.wants[0].len()).map(|at| tok_line(&d, 0, at)).collect()
        }).collect();
        toks.push((pats, ins, want));
    }
    type Miss = (bool, usize, usize, Vec<String>);
    let results: Vec<Result<(u64, Option<Miss>), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..6)
            .map(|k| {
                let (defs, toks) = (&defs, &toks);
                s.spawn(move || -> Result<(u64, Option<Miss>), String> {
                    let mut n = 0;
                    for round in 0..3 {
                        for j in 0..defs.len() {
                            let j = (j + k + round) % defs.len();
                            let (p, _) = par::build(&defs[j].g)?;
                            for (i, t) in defs[j].inputs.iter().enumerate() {
                                let l = par_lines(&par::run_with(&p, t, Fault::None, BUDGET));
                                n += 1;
                                if l != defs[j].alone[i] {
                                    return Ok((n, Some((true, j, i, l))));
                                }
                            }
                        }
                        for j in 0..toks.len() {
                            let j = (j + k + round) % toks.len();
                            let (t, _) = tok::must_build(&toks[j].0)?;
                            for (i, input) in toks[j].1.iter().enumerate() {
                                let l = match tok::observe(&t, input) {
                                    Ok(o) => tok_lines(&o.toks, true),
                                    Err(b) => vec![b.to_string()],
                                };
                                n += 1;
                                if l != toks[j].2[i] {
                                    return Ok((n, Some((false, j, i, l))));
                                }
                            }
                        }
                    }
                    Ok((n, None))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for r in results {
        let (n, miss) = r?;
        ctx.stat("uses in parallel threads", n);
        ctx.saw(None);
        if let Some((par, j, i, lines)) = miss {
            let (alone, what) = if par { (par_alone(&defs[j].g, &defs[j].inputs[i]), par::show(&defs[j].g, &defs[j].inputs[i])) } else { (tok_alone(&toks[j].0, &toks[j].1[i]), tok::show(&toks[j].0, &toks[j].1[i])) };
            if alone != lines {
                return Err(format!("{}: in one of six threads {}, alone, in a fresh process, {}", what, cut(format!("{:?}", lines), 800), cut(format!("{:?}", alone), 800)));
            }
            ctx.stat("uses that differ from the reference in the same way when alone", 1);
        }
    }
    ctx.saw(Some(rng.0));
    Ok(())
}
