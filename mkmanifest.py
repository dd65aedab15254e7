#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
 "C01": ("trace monitor: yielded tokens against a derivative-based longest-match oracle", "Token streams of the real tokenizer over curated, random and exhaustively enumerated small inputs are judged item by item against an independent partial-derivative matcher (which shares only regex-syntax's parser with the code). Patterns with empty sub-expressions are outside (recorded finding)."),
 "C02": ("trace monitor: items handed to constructors, conservation and order", "Every input item carries an identity; the monitor checks that the constructors receive each once, in order, with the matching text, up to a legal stop. Trusts the oracle for where stopping is legal."),
 "C03": ("online monitor of source pulls against the settling point", "The source counts pulls; at every yielded token the count is compared with the position at which the oracle says the token is settled."),
 "C04": ("outcome monitor with classification oracle, panics observed", "Build outcomes of generated valid, invalid and unsupported patterns are compared with a classification of regex-syntax's parse. Repetition sizes are bounded."),
 "C05": ("warning monitor against product-automaton oracle", "Reported conflicts are compared with the overlaps found by exploring the oracle's product automaton completely; trusts the Debug text of warnings for the pattern numbers (falls back to presence if the format is unknown)."),
 "C06": ("invariant monitor over built automata, across builds and processes", "Each automaton is walked: reachability, range well-formedness, partition refinement for minimality, canonical form compared over repeated builds in one process and in four processes with different hash seeds."),
 "C07": ("allocation-balance monitor, AddressSanitizer, Miri", "A counting allocator checks that live bytes return to their value after drop; the same workload runs under AddressSanitizer and a small one in Miri (aliasing model not claimed). Covers paths the workload drives."),
 "C08": ("acceptance monitor against Earley recognition", "Outcome of parses of conflict-free grammars compared with an Earley recogniser; grammars curated, mutated, random; inputs from every automaton state, sentences, mutations and all short sequences."),
 "C09": ("event-log monitor: reducer calls rebuilt into a derivation", "Every reducer call and argument is logged with node and token identities and checked to form one post-order left-to-right derivation with each child and token used exactly once."),
 "C10": ("event-order monitor with viable-prefix oracle", "Pulls and reducer calls are logged; the offending position is the viable prefix length by Earley; nothing may happen after it."),
 "C11": ("fault injection into reducers with event-log monitor", "For each run, reducer calls are made to fail one after another; the log must end there and the error value come back unchanged."),
 "C12": ("warning monitor against an independent LR(1) construction", "Reported conflicts are compared with those of a separately written canonical LR(1) construction."),
 "C13": ("event-log monitor against a reference automaton with the stated priorities", "Reducer calls and results compared with the reference automaton, over several constructions with fresh hash seeds."),
 "C14": ("event-log monitor: derivation with ERROR leaves, token conservation", "The tree of a successful parse is rebuilt from the log and checked as a derivation whose leaves and ERROR slices cover the input in order."),
 "C15": ("event-log monitor against a reference recovery model, step budget for termination", "Reducer calls, slices and outcome compared with a reference model of the recovery rule; termination as a bound on logical steps."),
 "C16": ("side-by-side trace comparison of macro-generated and run-time parsers; compile-outcome monitor", "Generated crates define grammars with the macro (permuted lists, many variants) and compare complete event logs with run-time construction; invalid definitions must be rejected by the compiler."),
 "C17": ("side-by-side trace comparison of macro-generated and run-time tokenizers; compile-outcome monitor", "As C16 for tokenizers with three item types."),
 "C18": ("metamorphic trace comparison across construction routes and numberings", "Event logs of the same grammar written in every way, renumbered injectively and reordered are compared."),
 "C19": ("process-level monitor against an independent evaluator", "The example binary is fed histories of lines; every answer is compared bit for bit with a separate evaluator; exit status and line counts observed."),
 "C20": ("history monitor: interleaved, nested, failed and threaded uses against the same use alone", "Every use in a history of several tokenizers or parsers is judged by the reference; where it differs, a fresh process repeats it alone and the two logs are compared."),
 "C21": ("stress monitor on a 256 KiB stack", "Inputs of up to a million items and nesting levels; the process must survive and give the expected result."),
 "C22": ("contract monitor over pairs and triples of values", "Equality, ordering, hashing and borrowing laws checked on pools of generated values."),
 "C23": ("invariant monitor over constructed tables, across constructions and processes", "The public tables are walked (reachability, targets, gotos, ERROR alternatives), put in canonical order and compared over repeated constructions in one process and in four with different hash seeds; size bounded by a separate canonical LR(1) construction."),
 "C24": ("online monitor of source pulls against the reference automaton's look-ahead", "The source logs pulls; at every reducer call and at the end the count is compared with the furthest token the reference automaton has looked at. Judged as long as the reducer calls agree with the reference."),
 "C25": ("compiler-output monitor against run-time warnings", "Definitions with and without conflicts are compiled one binary each with the compiler's error output recorded, and compared with the warnings of run-time construction. Presence is decisive; wording only where warnings are printed in their Debug form."),
 "C26": ("end-to-end trace monitor: characters, tokens and reducer calls against composed oracles", "Texts run through the real tokenizer, a filter and the real parser in one pass; tokens are judged by the derivative-based matcher, reducer calls by the reference automaton, characters read at each call by both together."),
 "C27": ("drop-ledger and allocation-balance monitor with injected errors and panics", "Tokens, nodes, errors and reducers are instrumented with drop counters; each parse is repeated with a reducer error, a reducer panic and a source panic at random points; live bytes must return to their value."),
 "C28": ("online memory monitor over long streams", "The source reads the counting allocator at every pull while a repeated text streams through; the peak is compared with a bound computed from the oracle's longest settling distance (8 KiB + 300 bytes per character of it; seen: 30 bytes), on inputs four times that bound."),
 "C29": ("trace monitor over assembled tables against interpreters of the same tables", "Automata and parse tables made without the constructors (random automata; LR tables with conflicts decided by lot, merged states, default reductions, missing moves, arbitrary state numbers and rule orders) are put into the public fields; every token, reducer call and result is compared with a separate interpreter of the same tables. Only consistent tables, as a generator would emit them."),
 "C30": ("processor-time monitor: cost per unit of work of small and large runs", "Texts and token sequences of 300,000 items of the same kind as small ones are run and the processor time of the thread per character looked at, or per move of the reference driver, is compared (also early against late uses of one instance). Reported only beyond a factor of 16 and half a second, three times over; on the unchanged tree the factor is below 3. Smaller slow-downs are not claimed."),
 "C31": ("differential monitor over ways of handing over and consuming", "Each stream is consumed in some thirty ways and fed from ten kinds of source, each token sequence handed to the parser in fourteen, and the tokens, reducer calls, results and source positions are compared with the plain way on the same instance."),
 "C32": ("processor-time monitor over builds of doubling size", "42 families of pattern lists and grammars whose automata grow polynomially are built in doubling sizes; reported if doubling multiplies the time by more than 64 and it exceeds a second, three times over (seen: 20), or if a case does not end within 90 s of processor time. Polynomial slow-downs below the sixth power are not claimed."),
 "C33": ("interposed C library entry points while the other properties' cases run", "A build of the harness replaces write, open, getenv, socket, mkdir, unlink and sleep of the C library by versions that take notes; any note taken while a case of 29 kinds runs is a violation. The monitor proves itself alive in every worker. Effects by other calls or raw system calls are not seen."),
}
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                 "technique": t, "level": "exploration", "level_note": n} for p, (t, n) in T.items()],
     "not_applicable": [],
     "notes": "No hooks are added to /repo: everything is observed through the public API, the macros' output and the example's standard streams. fix: commits in /repo are listed in KNOWN_FINDINGS.txt."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
