//! Writes crates that define parsers and tokenizers with the macros, next to the same definitions as data (C16, C17).
use crate::gram::{self, Gram, Lr, Sym};
use crate::par::{pick, Kind};
use crate::tokgen;
use crate::util::{Ctx, Rng};
use std::fmt::Write as _;

pub const VARIANTS: usize = 320;
const NAMES: &[&str] = &["number", "plus", "Star", "token", "symbol", "start", "errortype", "ERROR", "list", "x", "X", "a1", "_u", "value", "tokens", "symbols", "Vec", "String", "key", "LR1Parser", "E", "T", "F", "s", "action_table", "goto_table", "rules", "rust_2021", "été", "r#type", "r#fn", "r#match", "r#struct"];
const RAWS: &[&str] = &["+", "*", "\"", "\\", "(", ")", "=>", ":", ";", "", " ", "plus", "number", "ERROR", "é", "a b", "\n", "[", "]", "<", ">", "|", "::=", "{", "}", "{}", "x", "X", "\0"];

fn lit(s: &str, rng: &mut Rng) -> String {
    // the compiler refuses some invisible characters in source text
    let raw_ok = s.chars().all(|c| c == '\n' || (!c.is_control() && (c.is_ascii() || c.escape_debug().count() == 1)));
    if raw_ok && rng.chance(1, 2) {
        let mut n = 0;
        while s.contains(&format!("\"{}", "#".repeat(n))) {
            n += 1;
        }
        format!("r{0}\"{1}\"{0}", "#".repeat(n), s)
    } else {
        format!("{:?}", s)
    }
}
const FUNS: &[&str] = &["make", "make", "make", "parser", "tokenizer", "tokens", "symbols", "rules", "list", "new", "r#fn", "action_table", "into_box", "goto", "enum_maker", "_p1", "Make"];
/// Visibility and name of the generated function, and what makes it known as `make`.
fn function(ty: &str, rng: &mut Rng) -> (&'static str, &'static str, String) {
    let vis = *rng.pick(&["pub", "pub(crate)", "pub(super)", "", "pub(self)", "pub(in crate)"]);
    let name = *rng.pick(FUNS);
    if vis.starts_with("pub") && vis != "pub(self)" && name == "make" {
        return (vis, "make", String::new());
    }
    let name = if name == "make" { "make_it" } else { name };
    (vis, name, format!("pub fn make() -> {} {{\n    {}()\n}}\n", ty, name))
}
fn value(v: usize) -> String {
    format!("V{}{}", v, ["(ANY)", " { at: 7 }", "(1 + 2, ())"][v % 3])
}
#[derive(Clone)]
enum Name {
    Named(String),
    Raw(String),
}
/// One module with a parser definition; returns (source, grammar over variant numbers, token variants).
fn parser_module(g: &Gram, rng: &mut Rng) -> (String, Vec<usize>, Vec<usize>) {
    let mut tv: Vec<usize> = (0..VARIANTS).collect();
    rng.shuffle(&mut tv);
    let mut nv: Vec<usize> = (0..VARIANTS).collect();
    rng.shuffle(&mut nv);
    if rng.chance(1, 4) {
        // densely numbered, as in ordinary enums
        tv.sort();
        nv.sort();
    }
    let mut pool: Vec<Name> = NAMES.iter().map(|s| Name::Named(s.to_string())).chain(RAWS.iter().map(|s| Name::Raw(s.to_string()))).collect();
    let n0 = pool.len();
    rng.shuffle(&mut pool);
    for i in n0..VARIANTS {
        pool.push(if i % 2 == 0 { Name::Named(format!("tok{}", i)) } else { Name::Raw(format!("raw {}", i)) });
    }
    let mut sn: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    rng.shuffle(&mut sn);
    for i in sn.len()..VARIANTS {
        sn.push(format!("Sym{}", i));
    }
    let extra_t = rng.below(3);
    let extra_n = rng.below(3);
    let (nt, nn) = ((g.nt + extra_t).min(VARIANTS), (g.nn + extra_n).min(VARIANTS));
    let mut order_t: Vec<usize> = (0..nt).collect();
    let mut order_n: Vec<usize> = (0..nn).collect();
    if rng.chance(5, 6) {
        rng.shuffle(&mut order_t);
        rng.shuffle(&mut order_n);
    }
    let mut s = String::new();
    let (tpath, npath) = *rng.pick(&[("Tk", "Nt"), ("crate::common::Tk", "crate::common::Nt"), ("super::common::Tk", "Nt")]);
    let (vis, name, alias) = function("P", rng);
    writeln!(s, "#![allow(unused, nonstandard_style, uncommon_codepoints)]\nuse crate::common::*;\nuse parser::Symbol;\n{}parser_generator::parser! {{\n    {} fn {}() -> LR1Parser {{", alias, vis, name).unwrap();
    writeln!(s, "        token {} {{", tpath).unwrap();
    for (k, t) in order_t.iter().enumerate() {
        let key = match &pool[*t] {
            Name::Named(n) => n.clone(),
            Name::Raw(r) => lit(r, rng),
        };
        let comma = if k + 1 < order_t.len() || rng.chance(1, 2) { "," } else { "" };
        writeln!(s, "            {} = {}{}", key, value(tv[*t]), comma).unwrap();
    }
    writeln!(s, "        }}\n        symbol {} {{", npath).unwrap();
    for (k, n) in order_n.iter().enumerate() {
        let comma = if k + 1 < order_n.len() || rng.chance(1, 2) { "," } else { "" };
        writeln!(s, "            {} = {}{}", sn[*n], value(nv[*n]), comma).unwrap();
    }
    writeln!(s, "        }}\n        errortype {};\n        start {};", rng.pick(&["Er", "crate::common::Er"]), sn[g.start]).unwrap();
    let mut last = None;
    for (i, (l, r)) in g.rules.iter().enumerate() {
        if last == Some(*l) && rng.chance(1, 2) {
            write!(s, "        |").unwrap();
        } else {
            write!(s, "        <{}>::=", sn[*l]).unwrap();
        }
        last = Some(*l);
        for x in r {
            match x {
                Sym::N(n) => write!(s, " <{}>", sn[*n]).unwrap(),
                Sym::T(t) => match &pool[*t] {
                    Name::Named(n) => write!(s, " [{}]", n).unwrap(),
                    Name::Raw(w) => write!(s, " {}", lit(w, rng)).unwrap(),
                },
                Sym::E => write!(s, " ERROR").unwrap(),
            }
        }
        let call = format!("reduce({}, {}, l)", i, nv[*l]);
        let call = match rng.below(10) {
            0 => format!("{{ let v = {}?; Ok(v) }}", call),
            1 => format!("return {}", call),
            2 => format!("match {} {{ Ok(v) => Ok(v), Err(e) => Err(e) }}", call),
            3 => format!("{{ let (i, list, rules, value) = ({}, l, (), ()); reduce(i, {}, list) }}", i, nv[*l]),
            4 => format!("if true {{ {} }} else {{ unreachable!() }}", call),
            _ => call,
        };
        match rng.below(4) {
            0 => writeln!(s, ": l => {};", call).unwrap(),
            3 if r.len() > 1 => writeln!(s, ": l @ [_, .., _] => {};", call).unwrap(),
            1 => writeln!(s, ": l @ [{}] => {{ {} }};", vec!["_"; r.len()].join(", "), call).unwrap(),
            _ => {
                let pat: Vec<String> = r
                    .iter()
                    .map(|x| match x {
                        Sym::N(n) => format!("Symbol::NonTerminal(Nt::V{}{})", nv[*n], ["(_)", " { .. }", "(..)"][nv[*n] % 3]),
                        Sym::T(t) => format!("Symbol::Terminal(Tk::V{}{})", tv[*t], ["(_)", " { .. }", "(..)"][tv[*t] % 3]),
                        Sym::E => "Symbol::Error(_)".to_string(),
                    })
                    .collect();
                writeln!(s, ": l @ [{}] => {};", pat.join(", "), call).unwrap()
            }
        }
    }
    writeln!(s, "    }}\n}}\npub const RULES: &[(usize, &[S])] = &[").unwrap();
    for (l, r) in &g.rules {
        let v: Vec<String> = r
            .iter()
            .map(|x| match x {
                Sym::N(n) => format!("S::N({})", nv[*n]),
                Sym::T(t) => format!("S::T({})", tv[*t]),
                Sym::E => "S::E".to_string(),
            })
            .collect();
        writeln!(s, "    ({}, &[{}]),", nv[*l], v.join(", ")).unwrap();
    }
    writeln!(s, "];\npub const START: usize = {};", nv[g.start]).unwrap();
    (s, tv, nv)
}
/// Several binaries share the modules, so that they compile in parallel.
pub const BINS: usize = 8;
struct Out {
    bins: Vec<(String, String, String)>,
}
impl Out {
    fn new() -> Out {
        Out { bins: vec![(String::new(), String::new(), String::new()); BINS] }
    }
    fn add(&mut self, k: usize, entry: &str) -> &mut String {
        let b = &mut self.bins[k % BINS];
        writeln!(b.0, "#[path = \"../g{0}.rs\"]\nmod g{0};", k).unwrap();
        writeln!(b.1, "        ({}, {}),", k, entry).unwrap();
        &mut b.2
    }
    fn finish(self, dir: &str, ty: &str, f: &str) {
        for (j, (mods, table, inputs)) in self.bins.into_iter().enumerate() {
            let main = format!("#[path = \"../common.rs\"]\nmod common;\n{}use common::{};\nfn main() {{\n    let all = [\n{}    ];\n    common::{}(&all, &std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap())\n}}\n", mods, ty, table, f);
            std::fs::write(format!("{}/src/bin/m{}.rs", dir, j), main).unwrap();
            std::fs::write(format!("{}/inputs.{}", dir, j), inputs).unwrap();
        }
    }
}
pub fn parsers(seed: u64, dir: &str, count: usize) {
    let mut out = Out::new();
    for k in 0..count {
        let rng = &mut Rng::new(&[seed, 1616, k as u64]);
        let mut ctx = Ctx::default();
        let (g, lr): (Gram, Lr) = loop {
            let kind = [Kind::Clean, Kind::Error, Kind::Conflict, Kind::Error, Kind::Any][k % 5];
            let stage = if k % 3 == 0 { "curated" } else { "random" };
            // the first few are the biggest grammars there are
            let n = gram::CURATED.len() as u64;
            let (kind, stage, index) = if k < 5 { (Kind::Clean, "curated", n + 1 + k as u64) } else { (kind, stage, rng.next() % n) };
            let Some((g, lr)) = pick(kind, stage, index, rng, &mut ctx) else { continue };
            if lr.states.len() > if k < 5 { 3000 } else if k % 16 == 0 { 400 } else { 60 } || g.nt + 3 > VARIANTS || g.nn + 3 > VARIANTS || !g.defined() {
                continue;
            }
            break (g, lr);
        };
        let (src, tv, _) = parser_module(&g, rng);
        std::fs::write(format!("{}/src/g{}.rs", dir, k), src).unwrap();
        let inputs = out.add(k, &format!("Grammar {{ make: g{0}::make, rules: g{0}::RULES, start: g{0}::START }}", k));
        for (n, i) in gram::inputs(&g, Some(&lr), rng, 160).into_iter().enumerate() {
            write!(inputs, "{} {}", k, if n % 3 == 0 { rng.range(1, 40) } else { 0 }).unwrap();
            for t in i {
                // a token of a variant the grammar does not mention stands for an unknown one
                write!(inputs, " {}", if t < g.nt { tv[t] } else { tv[VARIANTS - 1] }).unwrap();
            }
            inputs.push('\n');
        }
    }
    out.finish(dir, "Grammar", "compare_parsers");
}
pub fn lexers(seed: u64, dir: &str, count: usize) {
    let mut out = Out::new();
    for k in 0..count {
        let rng = &mut Rng::new(&[seed, 1717, k as u64]);
        let (pats, ins) = loop {
            let stage = if k % 3 == 0 { "curated" } else { "random" };
            let index = if k % 3 == 0 && k < 24 { tokgen::CURATED.len() as u64 + k as u64 / 3 } else { rng.next() % 1000 };
            let pats = if k == 1 { vec![] } else { tokgen::lists(stage, index, rng) };
            let Some(mut lex) = tokgen::lex_for(&pats) else { continue };
            if lex.nstates() > if k < 24 { 1000 } else { 80 } || lex.natoms() > if k < 24 { 3000 } else { 100 } {
                continue;
            }
            let ins = tokgen::inputs(&mut lex, rng, 60);
            break (pats, ins);
        };
        let (ty, f, mk) = [("char", "tok_c", "Char"), ("It", "tok_i", "Item"), ("(char, usize)", "tok_p", "Pair")][rng.below(3)];
        let (vis, name, alias) = function(&format!("tokenizer::DFATokenizer<Tok, {}>", ty), rng);
        let mut s = format!("#![allow(unused, nonstandard_style)]\nuse crate::common::*;\n{}tokenizer_generator::tokenizer! {{\n", alias);
        writeln!(s, "    {} fn {}() -> DFATokenizer {{\n        character {};\n        token {};", vis, name, ty, rng.pick(&["Tok", "crate::common::Tok"])).unwrap();
        for (i, p) in pats.iter().enumerate() {
            let end = if i + 1 < pats.len() || rng.chance(1, 2) { ";" } else { "" };
            writeln!(s, "        {}: {}{}", lit(p, rng), match rng.below(7) {
                0 => format!("{}_at::<{}>", f, i),
                1 => format!("crate::common::{}_at::<{{ {} }}>", f, i),
                2 => format!("{{ let n = String::from(\"{}\"); move |s, v| {}(n.parse().unwrap(), s, v) }}", i, f),
                3 => format!("if {0} < 5 {{ {1}_at::<{0}> }} else {{ {1}_at::<{0}> }}", i, f),
                4 | 5 => format!("|s, v| {}({}, s, v)", f, i),
                _ => format!("move |s: &str, v: Vec<{}>| {{ let n = {}; {}(n, s, v) }}", ty, i, f),
            }, end).unwrap();
        }
        writeln!(s, "    }}\n}}\npub const PATS: &[&str] = &{:?};", pats).unwrap();
        std::fs::write(format!("{}/src/g{}.rs", dir, k), s).unwrap();
        let inputs = out.add(k, &format!("Lexer {{ make: common::MakeT::{1}(g{0}::make), pats: g{0}::PATS }}", k, mk));
        for i in ins {
            write!(inputs, "{}", k).unwrap();
            for c in i {
                write!(inputs, " {}", c as u32).unwrap();
            }
            inputs.push('\n');
        }
    }
    out.finish(dir, "Lexer", "compare_lexers");
}

/// C25: small binaries with one to three definitions each, and what run-time construction has to say about them
/// (lines "binary kind warning-as-text" in `expect`).
pub fn reports(seed: u64, dir: &str, count: usize) {
    let mut expect = String::new();
    for k in 0..count {
        let rng = &mut Rng::new(&[seed, 2525, k as u64]);
        let mut ctx = Ctx::default();
        let mut src = String::from("#![allow(unused)]\n");
        let n = [1, 1, 1, 2, 3][k / 4 % 5];
        for j in 0..n {
            writeln!(src, "mod d{} {{", j).unwrap();
            let clean = k % 2 == 0;
            let mut tries = 0;
            if k / 2 % 2 == 0 {
                let (g, w) = loop {
                    let kind = if clean { if rng.chance(1, 3) { Kind::Error } else { Kind::Clean } } else { *rng.pick(&[Kind::Conflict, Kind::Conflict, Kind::Any]) };
                    let index = rng.next() % 64;
                    // now and then one with many conflicts: an ambiguous expression grammar
                    let many = !clean && k / 4 % 4 == 0;
                    let found = if many {
                        let (n, p) = (rng.range(3, 7), rng.range(1, 3));
                        let mut s = String::from("E -> t0");
                        for i in 0..n {
                            s.push_str(&format!(" | E t{} E", i + 1));
                        }
                        for i in 0..p {
                            s.push_str(&format!(" | t{} E", n + 1 + i));
                        }
                        let g = Gram::parse(&s);
                        Lr::new(&g, 3000).map(|lr| (g, lr))
                    } else {
                        pick(kind, if rng.chance(1, 3) { "curated" } else { "random" }, index, rng, &mut ctx)
                    };
                    let Some((g, lr)) = found else { continue };
                    if lr.states.len() > 80 || g.nt == 0 || !g.defined() {
                        continue;
                    }
                    let Ok((_, w)) = crate::par::build(&g) else { continue };
                    tries += 1;
                    if w.is_empty() == clean || tries > 500 {
                        break (g, w);
                    }
                };
                let list = |n: usize| (0..n).map(|i| format!("V{}", i)).collect::<Vec<_>>().join(", ");
                writeln!(src, "use parser::enum_index;\nuse parser::enum_index_derive::EnumIndex;\n#[derive(EnumIndex)] pub enum Tk {{ {} }}\n#[derive(EnumIndex)] pub enum Nt {{ {} }}", list(g.nt), list(g.nn)).unwrap();
                writeln!(src, "parser_generator::parser! {{ pub fn make() -> LR1Parser {{\n    token Tk {{ {} }}", (0..g.nt).map(|i| format!("t{0} = V{0}", i)).collect::<Vec<_>>().join(", ")).unwrap();
                writeln!(src, "    symbol Nt {{ {} }}\n    errortype (); start n{};", (0..g.nn).map(|i| format!("n{0} = V{0}", i)).collect::<Vec<_>>().join(", "), g.start).unwrap();
                for (l, r) in &g.rules {
                    write!(src, "    <n{}>::=", l).unwrap();
                    for s in r {
                        match s {
                            Sym::N(n) => write!(src, " <n{}>", n).unwrap(),
                            Sym::T(t) => write!(src, " [t{}]", t).unwrap(),
                            Sym::E => write!(src, " ERROR").unwrap(),
                        }
                    }
                    writeln!(src, ": _ => Ok(Nt::V{});", l).unwrap();
                }
                writeln!(src, "}} }}").unwrap();
                writeln!(expect, "r{}\tparser\t", k).unwrap();
                for x in w {
                    writeln!(expect, "r{}\tparser\t{}", k, x).unwrap();
                }
            } else {
                let (pats, w) = loop {
                    let index = rng.next() % 64;
                    let pats = if !clean && k / 4 % 4 == 0 {
                        // keywords next to the identifiers that contain them
                        let mut v: Vec<String> = (0..rng.range(4, 14)).map(|i| format!("{}{}", ["if", "else", "do", "x"][i % 4], "y".repeat(i / 4))).collect();
                        let at = rng.below(v.len() + 1);
                        v.insert(at, "[a-z]+".to_string());
                        v
                    } else {
                        tokgen::lists(if rng.chance(1, 3) { "curated" } else { "random" }, index, rng)
                    };
                    let Some(lex) = tokgen::lex_for(&pats) else { continue };
                    if lex.nstates() > 80 || lex.natoms() > 100 {
                        continue;
                    }
                    let Some(w) = crate::tok::must_build(&pats).ok().map(|x| x.1) else { continue };
                    tries += 1;
                    if w.is_empty() == clean || tries > 500 {
                        break (pats, w);
                    }
                };
                writeln!(src, "tokenizer_generator::tokenizer! {{ pub fn make() -> DFATokenizer {{\n    character char;\n    token usize;").unwrap();
                for (i, p) in pats.iter().enumerate() {
                    writeln!(src, "    {:?}: |_, _| {};", p, i).unwrap();
                }
                writeln!(src, "}} }}").unwrap();
                writeln!(expect, "r{}\ttokenizer\t", k).unwrap();
                for x in w {
                    writeln!(expect, "r{}\ttokenizer\t{}", k, x).unwrap();
                }
            }
            writeln!(src, "}}").unwrap();
        }
        writeln!(src, "fn main() {{ {} }}", (0..n).map(|j| format!("let _ = d{}::make();", j)).collect::<Vec<_>>().join(" ")).unwrap();
        std::fs::write(format!("{}/src/bin/r{}.rs", dir, k), src).unwrap();
    }
    std::fs::write(format!("{}/expect", dir), expect).unwrap();
}
