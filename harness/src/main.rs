//! Worker: runs numbered cases of one property and writes what it observed.
//!   harness run <prop> <seed> <shard> <shards> <quick|thorough> <out-dir> [scale-percent]
//!   harness case <prop> <seed> <stage> <index> <quick|thorough>
//!   harness known
mod cost;
mod gram;
mod grow;
mod hist;
mod macros;
mod misc;
mod par;
mod pipe;
mod rx;
mod tables;
mod tok;
mod tokgen;
mod util;
mod watch;
mod ways;
use std::io::{Seek, Write};
use util::*;

#[global_allocator]
static ALLOC: Counting = Counting;

/// (stage, number of cases in the quick tier, number in the thorough tier)
fn stages(prop: &str) -> Vec<(&'static str, u64, u64)> {
    let cur_tok = tokgen::CURATED.len() as u64 + 7;
    let [clean, conflict, error, all] = [par::Kind::Clean, par::Kind::Conflict, par::Kind::Error, par::Kind::Any].map(|k| par::curated(k).len() as u64);
    match prop {
        "C01" => vec![("curated", cur_tok, 4 * cur_tok), ("random", 2400, 60000), ("exhaustive", 640, 16000), ("rebuild", 160, 4000), ("rebuildc", 64, 1000), ("big", 56, 2000)],
        "C02" => vec![("curated", cur_tok, 4 * cur_tok), ("random", 2400, 60000), ("exhaustive", 400, 12000), ("any", 800, 12000), ("big", 56, 2000)],
        "C03" => vec![("curated", cur_tok, 4 * cur_tok), ("random", 2400, 60000), ("exhaustive", 400, 12000), ("big", 56, 2000)],
        "C04" => vec![("single", 24000, 800000), ("mixed", 8000, 300000)],
        "C05" => vec![("curated", cur_tok, 2 * cur_tok), ("pairs", 3200, 120000), ("random", 4000, 100000), ("big", 56, 2000)],
        "C06" => vec![("curated", cur_tok, 4 * cur_tok), ("random", 2400, 60000), ("many", 400, 10000), ("manyc", 120, 2000), ("big", 42, 1000)],
        "C06X" => vec![("shared", cur_tok + 200, cur_tok + 3000)],
        "C07" => vec![("curated", cur_tok, 4 * cur_tok), ("random", 2400, 60000), ("errors", 1600, 40000), ("tiny", 64, 64), ("big", 56, 2000)],
        "C07A" => vec![("curated", cur_tok, 4 * cur_tok), ("random", 400, 20000), ("errors", 240, 10000), ("tiny", 32, 32), ("big", 42, 1000)],
        "C07M" => vec![("tiny", 16, 16)],
        "C08" | "C09" | "C10" => vec![("curated", clean, 3 * clean), ("random", 2400, 80000), ("short", 800, 24000), ("long", 2 * clean, 40 * clean)],
        "C11" => vec![("curated", 2 * clean.max(error), 2 * clean.max(error)), ("random", 1200, 40000), ("error", 1200, 40000), ("long", 2 * clean.max(error), 1000)],
        "C12" => vec![("curated", all, all), ("random", 8000, 300000)],
        "C13" => vec![("curated", conflict, 3 * conflict), ("random", 2000, 60000), ("short", 600, 20000), ("long", 2 * conflict, 40 * conflict)],
        "C14" | "C15" => vec![("curated", error, 3 * error), ("random", 2800, 90000), ("short", 1000, 30000), ("long", 3 * error, 40 * error)],
        "C18" => vec![("curated", all, 2 * all), ("random", 1400, 40000), ("long", all, 1000)],
        "C20" => vec![("tokc", cur_tok, 2 * cur_tok), ("tok", 1600, 40000), ("parc", 3 * all, 9 * all), ("par", 1600, 40000), ("parl", all, 1000), ("threads", 40, 800), ("manyt", 48, 400), ("manyp", 96, 800)],
        "C21" => vec![("par", 10, 30), ("tok", 7, 21)],
        "C23" => vec![("curated", all, 3 * all), ("random", 4000, 100000)],
        "C23X" => vec![("shared", 600, 4000)],
        "C24" => vec![("curated", all, 3 * all), ("clean", 800, 30000), ("conflict", 600, 20000), ("error", 1000, 40000), ("long", all, 20 * all)],
        "C26" => vec![("curated", all, 3 * all), ("random", 2000, 60000)],
        "C27" => vec![("curated", all, 3 * all), ("random", 2000, 60000), ("long", all, 10 * all)],
        "C28" => vec![("curated", cur_tok, 3 * cur_tok), ("random", 400, 10000)],
        "C29" => vec![("curated", all, 3 * all), ("tok", 800, 30000), ("random", 1200, 40000)],
        "C30" => vec![("tokc", cur_tok, 4 * cur_tok), ("tok", 160, 6000), ("parc", all, 6 * all), ("par", 160, 6000), ("uset", 48, 1000), ("usep", 96, 2000)],
        "C31" => vec![("tokc", cur_tok, 4 * cur_tok), ("tok", 1200, 40000), ("parc", all, 6 * all), ("par", 2000, 60000)],
        "C32" => vec![("tok", 96, 2400), ("par", 72, 1800)],
        "C33" => vec![
            ("C01.curated", cur_tok, 4 * cur_tok), ("C01.random", 400, 20000), ("C01.big", 28, 500), ("C02.any", 200, 5000), ("C04.single", 3000, 100000), ("C04.mixed", 1000, 40000), ("C05.random", 400, 10000),
            ("C06.random", 200, 5000), ("C07.errors", 200, 5000), ("C08.curated", clean, 3 * clean), ("C08.random", 800, 40000), ("C11.error", 400, 20000), ("C12.curated", all, 3 * all), ("C12.random", 2000, 80000), ("C13.random", 800, 40000),
            ("C14.curated", error, 3 * error), ("C14.random", 1600, 60000), ("C14.long", error, 10 * error), ("C18.random", 400, 20000), ("C23.random", 400, 20000), ("C24.conflict", 400, 20000),
            ("C26.random", 400, 20000), ("C27.random", 400, 20000), ("C29.tok", 400, 10000), ("C29.random", 400, 10000), ("C31.tok", 300, 10000), ("C31.par", 300, 10000), ("C22.rules", 100, 1000), ("C22.symbols", 50, 1000),
        ],
        "C22" => vec![("ranges", 400, 10000), ("rules", 400, 10000), ("symbols", 200, 4000)],
        _ => vec![],
    }
}
fn prop_no(p: &str) -> u64 {
    p.bytes().fold(0, |a, b| a * 131 + b as u64)
}
fn case(prop: &str, seed: u64, stage: &str, index: u64, ctx: &mut Ctx) -> Verdict {
    let rng = &mut Rng::new(&[seed, prop_no(prop), hash_of(&stage), index]);
    reset_alloc_budget(24 << 30);
    match (prop, stage) {
        ("C01", "exhaustive") | ("C02", "exhaustive") | ("C03", "exhaustive") => tok::case_exhaustive(prop, rng, ctx),
        ("C01", "big") | ("C02", "big") | ("C03", "big") => tok::case_big(prop, index, rng, ctx),
        ("C01", "rebuild") => tok::case_rebuild("random", index, rng, ctx),
        ("C01", "rebuildc") => tok::case_rebuild("curated", index, rng, ctx),
        ("C02", "any") => tok::case_c02_any(rng, ctx),
        ("C01", _) | ("C02", _) | ("C03", _) => tok::case_stream(prop, stage, index, rng, ctx),
        ("C04", _) => tok::case_c04(stage, rng, ctx),
        ("C05", _) => tok::case_c05(stage, index, rng, ctx),
        ("C06", "many") => tok::case_c06("many", index, rng, ctx),
        ("C06", "manyc") => tok::case_c06_many_curated(index, rng, ctx),
        ("C06", _) => tok::case_c06(stage, index, rng, ctx),
        ("C06X", _) => tok::case_c06_shared(index, rng, ctx),
        ("C07", _) | ("C07A", _) | ("C07M", _) => tok::case_c07(stage, index, rng, ctx),
        ("C08", _) | ("C09", _) | ("C10", _) => par::case_lang(prop, stage, index, rng, ctx),
        ("C11", _) => par::case_c11(stage, index, rng, ctx),
        ("C12", _) => par::case_c12(stage, index, rng, ctx),
        ("C13", _) | ("C15", _) => par::case_ref(prop, stage, index, rng, ctx),
        ("C14", _) => par::case_c14(stage, index, rng, ctx),
        ("C18", _) => par::case_c18(stage, index, rng, ctx),
        ("C20", "tok") | ("C20", "tokc") => hist::case_tok(stage, index, rng, ctx),
        ("C20", "manyt") | ("C20", "manyp") => hist::case_many(stage, index, rng, ctx),
        ("C20", "threads") => hist::case_threads(rng, ctx),
        ("C20", _) => hist::case_par(stage, index, rng, ctx),
        ("C21", s) => {
            let size = if ctx.quick { 200_000 } else { [200_000, 500_000, 1_000_000][(index / if s == "par" { 10 } else { 7 }) as usize % 3] };
            if s == "par" {
                par::case_c21(index, size, ctx)
            } else {
                misc::case_c21_tok(index, 5 * size, ctx)
            }
        }
        ("C23", _) | ("C23X", _) => par::case_c23(stage, index, rng, ctx),
        ("C24", _) => par::case_c24(stage, index, rng, ctx),
        ("C26", _) => pipe::case_c26(stage, index, rng, ctx),
        ("C27", _) => pipe::case_c27(stage, index, rng, ctx),
        ("C28", _) => pipe::case_c28(stage, index, rng, ctx),
        ("C29", _) => tables::case(stage, index, rng, ctx),
        ("C30", "uset") => cost::uses_tok(index, rng, ctx),
        ("C30", "usep") => cost::uses_par(index, rng, ctx),
        ("C30", "tok") | ("C30", "tokc") => cost::case_tok(stage, index, rng, ctx),
        ("C30", _) => cost::case_par(stage, index, rng, ctx),
        ("C31", "tok") | ("C31", "tokc") => ways::case_tok(stage, index, rng, ctx),
        ("C31", _) => ways::case_par(stage, index, rng, ctx),
        ("C32", "tok") => grow::case_tok(index, rng, ctx),
        ("C32", _) => grow::case_par(index, rng, ctx),
        ("C22", _) => misc::case_c22(stage, rng, ctx),
        ("C33", _) => {
            if index < 64 && !watch::alive() {
                eprintln!("harness error: the monitor of outside effects does not notice any");
                std::process::exit(3);
            }
            let (p, s) = stage.split_once('.').unwrap();
            // what the other property says is its own affair
            let (_, seen) = watch::watched(|| guard(|| case(p, seed, s, index, ctx)));
            ctx.stat("cases watched", 1);
            if seen.is_empty() { Ok(()) } else { Err(format!("while case {} {} of property {} ran: {}", s, index, p, seen.join("; "))) }
        }
        _ => panic!("no such case"),
    }
}
/// A panic that starts in the code under test and reaches the workload driver is a violation; one of the harness itself is an error of the harness (exit 3).
fn judged(prop: &str, seed: u64, stage: &str, index: u64, ctx: &mut Ctx) -> Verdict {
    salt(hash_of(&(seed, stage, index)));
    match guard(|| case(prop, seed, stage, index, ctx)) {
        Ok(r) => r.map_err(|m| cut(m, 20_000)),
        Err(Bad::Panic(m)) if m.contains("(src/") => {
            eprintln!("harness error in {} {} {}: {}", prop, stage, index, m);
            std::process::exit(3)
        }
        Err(b) => Err(format!("{}", b)),
    }
}
fn report(ctx: &Ctx, violation: Option<(&str, u64, &str)>, secs: f64) -> String {
    let mut s = String::from("{");
    s.push_str(&format!("\"evals\":{},\"distinct\":{},\"secs\":{:.3},", ctx.evals, ctx.distinct.len(), secs));
    s.push_str("\"stats\":{");
    s.push_str(&ctx.stats.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\"facts\":{");
    s.push_str(&ctx.facts.iter().map(|(k, v)| format!("{}:{}", json_str(k), json_str(v))).collect::<Vec<_>>().join(","));
    s.push_str("},\"samples\":[");
    s.push_str(&ctx.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(","));
    s.push(']');
    if let Some((stage, i, m)) = violation {
        s.push_str(&format!(",\"violation\":{{\"stage\":{},\"index\":{},\"message\":{}}}", json_str(stage), i, json_str(m)));
    }
    s.push('}');
    s
}
fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let t0 = std::time::Instant::now();
    match arg(1) {
        "run" => {
            let (prop, seed, shard, shards, tier, out) = (arg(2), num(3), num(4), num(5), arg(6), arg(7));
            let scale = if a.len() > 8 { num(8) } else { 100 };
            let budget = if a.len() > 9 { num(9) as f64 } else { 1e9 };
            let mut ctx = Ctx { quick: tier == "quick", ..Default::default() };
            let mut cur = std::fs::File::create(format!("{}/cur.{}", out, shard)).unwrap();
            let mut violation = None;
            let mut cut = false;
            // stages are interleaved so that a time limit thins all of them
            let st: Vec<(&str, u64)> = stages(prop).into_iter().map(|(s, q, t)| (s, (if tier == "quick" { q } else { t }) * if q < 200 || s.starts_with("cur") || s.ends_with('c') || s == "long" || s == "parl" { 100 } else { scale } / 100)).collect();
            let mut done: Vec<u64> = vec![shard; st.len()];
            let mut spent = vec![0u64; st.len()];
            'all: loop {
                let mut any = false;
                for (k, (stage, n)) in st.iter().enumerate() {
                    let share = if *n <= 1000 { *n } else { (*n / 200).max(shards) };
                    let mut left = share / shards + 1;
                    while left > 0 && done[k] < *n {
                        any = true;
                        left -= 1;
                        let i = done[k];
                        done[k] += shards;
                        let line = format!("{} {} \n", stage, i);
                        cur.seek(std::io::SeekFrom::Start(0)).unwrap();
                        cur.write_all(line.as_bytes()).unwrap();
                        let from = t0.elapsed();
                        let r = judged(prop, seed, stage, i, &mut ctx);
                        ctx.stat(&format!("cases of stage {}", stage), 1);
                        let took = t0.elapsed() - from;
                        spent[k] += took.as_micros() as u64;
                        ctx.max("milliseconds for one case", took.as_millis() as u64);
                        if let Err(m) = r {
                            violation = Some((stage.to_string(), i, m));
                            break 'all;
                        }
                        if t0.elapsed().as_secs_f64() > budget {
                            cut = true;
                            break 'all;
                        }
                    }
                }
                if !any {
                    break;
                }
            }
            for (k, (stage, _)) in st.iter().enumerate() {
                ctx.stat(&format!("milliseconds in stage {}", stage), spent[k] / 1000);
            }
            if cut {
                ctx.stat("workers stopped by the time limit", 1);
            }
            let v = violation.as_ref().map(|(s, i, m)| (s.as_str(), *i, m.as_str()));
            std::fs::write(format!("{}/out.{}", out, shard), report(&ctx, v, t0.elapsed().as_secs_f64())).unwrap();
            let mut h = Vec::with_capacity(ctx.distinct.len() * 8);
            for d in &ctx.distinct {
                h.extend(d.to_le_bytes());
            }
            std::fs::write(format!("{}/distinct.{}", out, shard), h).unwrap();
            std::process::exit(if v.is_some() { 1 } else { 0 });
        }
        "case" => {
            let mut ctx = Ctx { quick: arg(6) == "quick", ..Default::default() };
            let r = judged(arg(2), num(3), arg(4), num(5), &mut ctx);
            let v = r.as_ref().err().map(|m| (arg(4), num(5), m.as_str()));
            println!("{}", report(&ctx, v, t0.elapsed().as_secs_f64()));
            std::process::exit(if v.is_some() { 1 } else { 0 });
        }
        "alone" => hist::alone(),
        "known" => {
            for (p, i, got, want) in tok::known_empty() {
                println!("{}\t{}\t{}\t{}", json_str(&p), json_str(&i), json_str(&got), json_str(&want));
            }
        }
        "reports" => macros::reports(num(2), arg(3), num(4) as usize),
        "macros" => {
            if arg(4) == "p" {
                macros::parsers(num(2), arg(3), num(5) as usize)
            } else {
                macros::lexers(num(2), arg(3), num(5) as usize)
            }
        }
        _ => {
            eprintln!("usage");
            std::process::exit(2);
        }
    }
}
