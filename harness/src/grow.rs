//! C32: the cost of building a tokenizer or a parser stays in proportion to the definition.
//! Families of definitions whose automata grow slowly are built in doubling sizes, and the processor time of one size is
//! compared with that of the one before. (A build that does not end at all is cut off from outside, see `CASE_CPU`.)
use crate::cost::cpu;
use crate::gram::*;
use crate::par;
use crate::tok;
use crate::util::*;

type Verdict = Result<(), String>;

/// Doubling the size may multiply the time by this: the sixth power.
const FACTOR: f64 = 64.0;
/// Nothing faster than this is judged, in seconds.
const FLOOR: f64 = 1.0;
/// Sizes beyond one that took this long, in seconds, are not built.
const ENOUGH: f64 = 0.4;

const TOK: &[(&str, usize)] = &[
    ("nested groups", 64), ("nested repetitions", 96), ("a long word", 512), ("keywords", 256), ("counted repetition", 128), ("optional characters in a row", 64), ("classes in a row", 64), ("alternatives", 256),
    ("prefixes of one word", 64), ("overlapping ranges", 64), ("bounded repetition", 64), ("any character in a row", 64), ("one class of many ranges", 512), ("starred characters in a row", 48), ("nested alternatives", 64),
    ("repetition of alternatives", 64), ("unicode classes in alternatives", 16), ("nested counted repetition", 32), ("strings with escapes", 64), ("the same pattern again and again", 64), ("optional groups nested at the end", 64),
    ("optional alternatives in a row", 64), ("starred alternatives in a row", 32), ("nested optional alternatives", 48),
];
fn letter(rng: &mut Rng, many: bool) -> char {
    if many { (b'a' + rng.below(26) as u8) as char } else { (b'a' + rng.below(3) as u8) as char }
}
fn tok_family(k: usize, n: usize, rng: &mut Rng) -> Vec<String> {
    let word = |rng: &mut Rng, n: usize| (0..n).map(|_| letter(rng, true)).collect::<String>();
    let row = |n: usize, f: &mut dyn FnMut(usize) -> String| (0..n).map(|i| f(i)).collect::<String>();
    let uni = |i: usize| char::from_u32(0x4e00 + i as u32).unwrap();
    match TOK[k].0 {
        "nested groups" => {
            let mut s = "a".to_string();
            for _ in 0..n {
                s = match rng.below(3) {
                    0 => format!("({})", s),
                    1 => format!("(?:{}{})", letter(rng, false), s),
                    _ => format!("({}{})", s, letter(rng, false)),
                };
            }
            vec![s]
        }
        "nested repetitions" => {
            let mut s = "ab".to_string();
            let ops: &[&str] = *rng.pick(&[&["+"][..], &["*", "x+"], &["?", "y"], &["+", "*", "?"], &["{0,}", "+"], &["{0,1}", "*z"], &["{0,}"], &["{1}", "+"]]);
            for i in 0..n / 2 {
                s = format!("({}){}", s, ops[i % ops.len()]);
            }
            vec![format!("q{}", s)]
        }
        "a long word" => vec![word(rng, n), "[a-z]+".into()],
        "keywords" => (0..n).map(|_| { let l = rng.range(2, 8); word(rng, l) }).chain(vec!["[a-z_]+".to_string()]).collect(),
        "counted repetition" => vec![format!("({}){{{}}}", rng.pick(&["a", "ab|c", "[a-z]", "a?b"]), n), ".".into()],
        "optional characters in a row" => vec![format!("{}b", row(n, &mut |_| format!("{}?", *rng.pick(&["a", "[ac]"]))))],
        "classes in a row" => vec![row(n, &mut |_| rng.pick(&["[a-z]", "[0-9]", "[a-f0-9]", "[^a]", "[A-Za-z_]"]).to_string())],
        "alternatives" => vec![format!("({})+", (0..n).map(|i| uni(i).to_string()).collect::<Vec<_>>().join("|")), ".".into()],
        "prefixes of one word" => (1..=n).map(|i| "ab".repeat(i)).collect(),
        "overlapping ranges" => (0..n).map(|i| format!("[{}-{}]{}", uni(i), uni(i + n), if i % 2 == 0 { "+" } else { "x" })).collect(),
        "bounded repetition" => vec![format!("x{}{{{},{}}}y", rng.pick(&["a", "[a-c]", "(ab)"]), n / 2, n)],
        "any character in a row" => vec![format!("\"{}\"", ".".repeat(n))],
        "one class of many ranges" => vec![format!("[{}]+", row(n, &mut |i| format!("{}-{}", uni(3 * i), uni(3 * i + 1)))), ".".into()],
        "starred characters in a row" => vec![format!("{}b", row(n, &mut |i| format!("{}*", if i % 2 == 0 { 'a' } else { 'c' })))],
        "nested alternatives" => {
            let mut s = "a".to_string();
            for i in 0..n {
                s = format!("({}|{}{})", uni(i), letter(rng, false), s);
            }
            vec![s]
        }
        "repetition of alternatives" => vec![format!("/({})*/", (0..n).map(|i| format!("{}{}", uni(i), word(rng, 2))).collect::<Vec<_>>().join("|"))],
        "unicode classes in alternatives" => (0..n).map(|i| format!("{}{}", rng.pick(&["\\d", "\\s", "[[:alpha:]]", "\\p{Greek}"]), uni(i))).collect(),
        "nested counted repetition" => vec![format!("((a{{{}}}b){{2}}c){{3}}", n), "[a-c]".into()],
        "strings with escapes" => (0..n).map(|i| format!("{}([^{}\\\\]|\\\\.)*{}", uni(i), uni(i), uni(i))).collect(),
        "the same pattern again and again" => vec![rng.pick(&["[a-z][a-z0-9]*", "ab*c?", "0|[1-9][0-9]*"]).to_string(); n],
        "optional groups nested at the end" => {
            let mut s = "a".to_string();
            for _ in 0..n {
                s = format!("{}({})?", letter(rng, true), s);
            }
            vec![s]
        }
        "optional alternatives in a row" => vec![format!("{}c", row(n, &mut |_| rng.pick(&["(a?|b?)", "(a|b?)", "(a?|(b)?)", "(ba)?"]).to_string()))],
        "starred alternatives in a row" => vec![format!("{}c", row(n, &mut |_| rng.pick(&["(a*|b*)", "(a|b)*", "(a+|b*)"]).to_string()))],
        "nested optional alternatives" => {
            let mut s = "a".to_string();
            for i in 0..n {
                s = format!("({}{}|{}{})", s, rng.pick(&["?", "*", ""]), uni(i), rng.pick(&["?", "*", ""]));
            }
            vec![format!("{}x", s)]
        }
        _ => unreachable!(),
    }
}

const PAR: &[(&str, usize)] = &[
    ("one long rule", 1024), ("chain of single symbols", 512), ("empty symbols in one rule", 64), ("levels of precedence", 16), ("alternatives", 512), ("kinds of statement", 128), ("doubling chain", 64), ("doubling chain with empty rules", 64),
    ("kinds of brackets", 32), ("ERROR at every level", 64), ("recursion through many rules", 256), ("optional parts in a row", 64), ("one symbol many times in a row", 256), ("left recursion through a ring", 96), ("long rules that differ at the end", 96),
    ("lists of lists", 24), ("doubling chain with ERROR", 48), ("empty chain", 256),
];
fn par_family(k: usize, n: usize, rng: &mut Rng) -> Gram {
    let mut s = String::new();
    let join = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(|i| f(i)).collect::<Vec<_>>().join(sep);
    match PAR[k].0 {
        "one long rule" => s = format!("S -> {}", join(&|i| format!("t{}", i), " ")),
        "chain of single symbols" => s = format!("S -> N0 a | b; {} ; N{} -> x | y N0", join(&|i| format!("N{} -> N{}", i, i + 1), " ; "), n),
        "empty symbols in one rule" => s = format!("S -> {} x; {}", join(&|i| format!("E{}", i), " "), join(&|i| format!("E{} -> ", i), " ; ")),
        "levels of precedence" => s = format!("{} ; L{} -> a | l L0 r", join(&|i| format!("L{} -> L{} o{} L{} | L{}", i, i, i, i + 1, i + 1), " ; "), n),
        "alternatives" => s = format!("S -> {}", join(&|i| format!("t{} x", i), " | ")),
        "kinds of statement" => s = format!("S -> S Q | ; Q -> {}", join(&|i| format!("k{} x", i), " | ")),
        "doubling chain" => s = format!("{} ; N{} -> a", join(&|i| format!("N{} -> N{} N{}", i, i + 1, i + 1), " ; "), n),
        "doubling chain with empty rules" => s = format!("{} ; N{} -> a | ", join(&|i| format!("N{} -> N{} N{}", i, i + 1, i + 1), " ; "), n),
        "kinds of brackets" => s = format!("S -> x | {}", join(&|i| format!("l{} S r{}", i, i), " | ")),
        "ERROR at every level" => s = format!("{} ; N{} -> x", join(&|i| format!("N{} -> k{} N{} e | ! e", i, i, i + 1), " ; "), n),
        "recursion through many rules" => s = format!("{} ; N{} -> x | y N0", join(&|i| format!("N{} -> a{} N{}", i, i, i + 1), " ; "), n),
        "optional parts in a row" => s = format!("S -> {} x; {}", join(&|i| format!("O{}", i), " "), join(&|i| format!("O{} -> o{} | ", i, i), " ; ")),
        "one symbol many times in a row" => s = format!("S -> {}; X -> a | b", join(&|_| "X".into(), " ")),
        "left recursion through a ring" => s = join(&|i| format!("N{} -> N{} a{} | b{}", i, (i + 1) % n, i, i), " ; "),
        "long rules that differ at the end" => s = format!("S -> {}; X -> a; Y -> a b", (0..n / 2).map(|i| format!("X {} t{}", "Y ".repeat(6), i)).collect::<Vec<_>>().join(" | ")),
        "lists of lists" => s = format!("{} ; N{} -> x", join(&|i| format!("N{} -> N{} s{} N{} | N{}", i, i, i, i + 1, i + 1), " ; "), n),
        "doubling chain with ERROR" => s = format!("{} ; N{} -> a | ! e", join(&|i| format!("N{} -> N{} N{}", i, i + 1, i + 1), " ; "), n),
        "empty chain" => s = format!("S -> N0 x | N0 y; {} ; N{} -> ", join(&|i| format!("N{} -> N{}", i, i + 1), " ; "), n),
        _ => unreachable!(),
    }
    let mut g = Gram::parse(&s);
    if rng.chance(1, 2) {
        // the order of the rules is of no account
        let mut v = std::mem::take(&mut g.rules);
        for i in (1..v.len()).rev() {
            v.swap(i, rng.below(i + 1));
        }
        g.rules = v;
    }
    g
}

fn doubling(what: &str, max: usize, step: usize, build: &mut dyn FnMut(usize) -> Result<f64, String>, ctx: &mut Ctx) -> Result<u64, String> {
    let mut sizes = vec![];
    let mut n = 2 + step % 2;
    while n <= max {
        sizes.push(n);
        n *= 2;
    }
    let mut last: Option<f64> = None;
    let mut built = 0;
    for n in sizes {
        let mut t = build(n)?;
        built += 1;
        if let Some(l) = last {
            // once more before anything is said
            for _ in 0..2 {
                if t > FLOOR && t > FACTOR * l {
                    t = t.min(build(n)?);
                }
            }
            if t > FLOOR && t > FACTOR * l {
                return Err(format!("{}: building size {} takes {:.2} s, size {} took {:.4} s", what, n, t, n / 2, l));
            }
            if t > 0.02 {
                ctx.max("hundredths: time for twice the size against time for the size", (100.0 * t / l) as u64);
                if std::env::var("VP_GROW").is_ok() {
                    eprintln!("{} {} {:.4} {:.1}", what, n, t, t / l);
                }
            }
        }
        ctx.max("milliseconds for one build", (t * 1e3) as u64);
        last = Some(t.max(1e-4));
        if t > ENOUGH {
            break;
        }
    }
    Ok(built)
}
pub fn case_tok(index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let k = index as usize % TOK.len();
    let seed = rng.next();
    let step = rng.below(2);
    let built = doubling(
        &format!("patterns of the family '{}'", TOK[k].0),
        TOK[k].1,
        step,
        &mut |n| {
            let pats = tok_family(k, n, &mut Rng::new(&[seed]));
            let t0 = cpu();
            tok::must_build(&pats).map_err(|e| cut(e, 2000))?;
            Ok(cpu() - t0)
        },
        ctx,
    )?;
    for i in 0..built {
        ctx.saw(Some(hash_of(&(index, i))));
    }
    ctx.stat(&format!("pattern lists built: {}", TOK[k].0), built);
    Ok(())
}
pub fn case_par(index: u64, rng: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let k = index as usize % PAR.len();
    let seed = rng.next();
    let step = rng.below(2);
    let built = doubling(
        &format!("grammars of the family '{}'", PAR[k].0),
        PAR[k].1,
        step,
        &mut |n| {
            let g = par_family(k, n, &mut Rng::new(&[seed]));
            let t0 = cpu();
            par::build(&g).map_err(|e| cut(e, 2000))?;
            Ok(cpu() - t0)
        },
        ctx,
    )?;
    for i in 0..built {
        ctx.saw(Some(hash_of(&(index, i))));
    }
    ctx.stat(&format!("grammars built: {}", PAR[k].0), built);
    Ok(())
}
