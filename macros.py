"""C16 and C17: definitions written with the macros, compiled, and compared with run-time construction."""
import glob, json, os, re, shutil, subprocess

TOKENS = "pub enum Tk { A(usize), B, C }"
HEAD_P = """#![allow(unused)]
use parser::enum_index;
use parser::enum_index_derive::EnumIndex;
use parser::Symbol;
#[derive(EnumIndex)]
pub enum Tk { A(usize), B, C }
#[derive(EnumIndex)]
pub enum Nt { X(usize), Y }
pub struct Er;
parser_generator::parser! {
    fn make() -> LR1Parser {
        token Tk { a = A(0), "b" = B, c = C }
        symbol Nt { X = X(0), Y = Y }
        errortype Er;
        start %(start)s;
%(rules)s
    }
}
fn main() { let _ = make(); }
"""
OK_RULES = """        <X>::= [a] <Y>: l => Ok(Nt::X(1));
        | "b": l => Ok(Nt::X(2));
        <Y>::= ERROR [c]: l => Ok(Nt::Y);
        |: [] => Ok(Nt::Y);"""


def parser_cases():
    """(name, source, must compile)"""
    def p(rules, start="X"):
        return HEAD_P % {"start": start, "rules": rules}
    yield "control", p(OK_RULES), True
    yield "control_start", p(OK_RULES, "Y"), True
    bad = [
        ("named_token", "[a]", "[d]"), ("named_token_case", "[a]", "[A]"), ("literal_token", '"b"', '"d"'), ("empty_literal", '"b"', '""'),
        ("named_used_as_literal", "[a]", '"a"'), ("literal_used_as_named", '"b"', "[b]"), ("symbol_used_as_token", "[a]", "[X]"),
        ("symbol_on_the_right", "[a] <Y>", "[a] <Z>"), ("token_used_as_symbol", "[a] <Y>", "[a] <a>"), ("symbol_on_the_left", "<Y>::=", "<Z>::="),
        ("token_after_error", "ERROR [c]", "ERROR [z]"), ("token_in_last_rule", "|: []", '| "q": [_]'), ("symbol_in_last_rule", "|: []", "| <Q>: [_]"),
        ("alternative_without_left_side", "<X>::= [a]", "| [a]"),
    ]
    for name, a, b in bad:
        assert a in OK_RULES, name
        yield name, p(OK_RULES.replace(a, b, 1)), False
    yield "undeclared_start", p(OK_RULES, "Z"), False
    yield "token_as_start", p(OK_RULES, "a"), False


HEAD_T = """#![allow(unused)]
tokenizer_generator::tokenizer! {
    fn make() -> DFATokenizer {
        character %(ch)s;
        token usize;
%(rules)s
    }
}
fn main() { let _ = make(); }
"""


def lexer_cases():
    def t(pats, ch="char"):
        return HEAD_T % {"ch": ch, "rules": "\n".join('        r#"%s"#: |_, _| %d;' % (p, i) for i, p in enumerate(pats))}
    good = ["[a-z]+", "0|1", "x{2,3}"]
    yield "control", t(good), True
    yield "control_tuple", t(good, "(char, usize)"), True
    bad = {
        "open_group": "(a", "close_group": "a)", "open_class": "[a", "nothing_to_repeat": "*a", "bad_range": "[z-a]", "bad_count": "a{3,2}", "bad_escape": r"\y",
        "start_anchor": "^a", "end_anchor": "a$", "text_start": r"\Aa", "text_end": r"a\z", "word_boundary": r"\bfoo\b", "not_word_boundary": r"a\Bb",
        "ascii_word_boundary": r"(?-u:\b)a", "line_anchor": "(?m:^)a", "anchor_in_group": "a(b|c$)", "anchor_in_repetition": "(a^)*",
        "look_ahead": "a(?=b)", "back_reference": r"(a)\1", "empty_class": "[a&&b]", "unknown_class": r"\p{Nope}",
    }
    for k, (name, p) in enumerate(bad.items()):
        v = list(good)
        v.insert(k % 4, p)
        yield name, t(v), False
        if k % 3 == 0:
            yield name + "_alone", t([p]), False


def forget(target):
    """The crates differ in content only: make sure that cargo compiles them again."""
    for x in glob.glob(os.path.join(target, "debug", ".fingerprint", "macros-*")):
        shutil.rmtree(x, ignore_errors=True)


def must_not_compile(prop, pool, ck, target):
    cases = list(parser_cases() if prop == "C16" else lexer_cases())
    d = os.path.join(pool.outdir, "reject")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "bin"))
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(os.path.join(ck.VERIF, "macros", f), d)
    for name, src, _ in cases:
        with open(os.path.join(d, "src", "bin", name + ".rs"), "w") as f:
            f.write(src)
    forget(target)
    try:
        r = subprocess.run(["cargo", "check", "--offline", "--bins", "--keep-going", "--message-format", "json"], cwd=d, env=ck.env_for(target),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    except subprocess.TimeoutExpired:
        raise ck.NoVerdict("compiling the definitions that must be rejected took too long")
    compiled, failed = set(), set()
    for l in r.stdout.decode(errors="replace").splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if "target" not in m or "bin" not in m["target"].get("kind", []):
            continue
        if m["reason"] == "compiler-artifact":
            compiled.add(m["target"]["name"])
        elif m["reason"] == "compiler-message" and m["message"]["level"].startswith("error"):
            failed.add(m["target"]["name"])
    for name, src, good in cases:
        if (name in compiled) == (name in failed):
            raise ck.NoVerdict("no outcome for definition %s\n%s" % (name, r.stderr.decode(errors="replace")[-2000:]))
        pool.evals += 1
        pool.distinct.add(("reject", name))
        if good and name in failed:
            raise ck.Violation("a valid definition (%s) does not compile:\n%s" % (name, src), kind="compile", case=name)
        if not good and name in compiled:
            raise ck.Violation("an invalid definition (%s) compiles:\n%s" % (name, src), kind="compile", case=name)
        pool.stats["definitions that must %scompile" % ("" if good else "not ")] = pool.stats.get("definitions that must %scompile" % ("" if good else "not "), 0) + 1
    pool.samples += ["definition %s was %s" % (n, "compiled" if n in compiled else "rejected") for n, _, _ in cases[::6]]


def one_crate(prop, pool, ck, binary, target, seed, count, label):
    d = os.path.join(pool.outdir, "crate")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "bin"))
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(os.path.join(ck.VERIF, "macros", f), d)
    shutil.copy(os.path.join(ck.VERIF, "macros", "common.rs"), os.path.join(d, "src"))
    r = subprocess.run([binary, "macros", str(seed), d, "p" if prop == "C16" else "t", str(count)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if r.returncode != 0:
        raise ck.NoVerdict("generating definitions: " + r.stdout.decode(errors="replace")[-2000:])
    forget(target)
    try:
        r = subprocess.run(["cargo", "build", "--offline"], cwd=d, env=ck.env_for(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    except subprocess.TimeoutExpired:
        raise ck.NoVerdict("compiling the generated definitions took too long")
    if r.returncode != 0:
        # every definition is valid, so failing to compile breaks the property, unless /repo's crates themselves do not build
        log = r.stdout.decode(errors="replace")
        if "could not compile `macros`" not in log:
            raise ck.NoVerdict("building failed:\n" + log[-3000:])
        err = [l for l in log.splitlines() if l.startswith(("error", "  --> ", "   --> ", "  = help: message"))]
        raise ck.Violation("valid definitions do not compile: %s" % " ".join(err[:6]), kind="crate", crate_seed=seed, count=count)
    procs = [(j, subprocess.Popen([os.path.join(target, "debug", "m%d" % j), os.path.join(d, "inputs.%d" % j)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  preexec_fn=ck.limits(ck.MEM, 300))) for j in range(8)]
    bad = None
    for j, p in procs:
        try:
            so, se = p.communicate(timeout=1200)
        except subprocess.TimeoutExpired:
            ck.kill(p)
            raise ck.NoVerdict("comparing took too long")
        try:
            o = json.loads(so.decode())
        except ValueError:
            if p.returncode < 0:
                bad = bad or "comparing generated with run-time definitions: %s" % ck.died(p.returncode)
                continue
            raise ck.NoVerdict("the comparison ended with status %d: %s" % (p.returncode, se.decode(errors="replace")[-1500:]))
        pool.workers += 1
        pool.evals += o["evals"]
        pool.distinct.update((label, x) for x in o["distinct"])
        for k, v in o["stats"].items():
            pool.stats[k] = pool.stats.get(k, 0) + v
        pool.samples += o["samples"]
        bad = bad or o.get("violation")
    if bad:
        raise ck.Violation(bad, kind="crate", crate_seed=seed, count=count)


WRAPPER = """#!/usr/bin/env python3
import os, subprocess, sys
a = sys.argv[1:]
r = subprocess.run(a, stderr=subprocess.PIPE, close_fds=False)
sys.stderr.buffer.write(r.stderr)
if "--crate-name" in a:
    with open(os.path.join(os.environ["REPORTS"], a[a.index("--crate-name") + 1]), "wb") as f:
        f.write(r.stderr)
sys.exit(r.returncode if r.returncode >= 0 else 101)
"""
TELLS = re.compile("warning|conflict|ShiftReduce|ReduceReduce|overlap|ambig", re.I)


def reports(pool, ck, binary, target, seed, count):
    """C25: what the compiler's error output says about definitions with and without conflicts."""
    d = os.path.join(pool.outdir, "reports")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "bin"))
    os.makedirs(os.path.join(d, "said"))
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(os.path.join(ck.VERIF, "macros", f), d)
    r = subprocess.run([binary, "reports", str(seed), d, str(count)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if r.returncode != 0:
        raise ck.NoVerdict("generating definitions: " + r.stdout.decode(errors="replace")[-2000:])
    wrap = os.path.join(d, "wrap.py")
    with open(wrap, "w") as f:
        f.write(WRAPPER)
    os.chmod(wrap, 0o755)
    forget(target)
    try:
        r = subprocess.run(["cargo", "check", "--offline", "--bins", "--keep-going"], cwd=d, env=ck.env_for(target, RUSTC_WORKSPACE_WRAPPER=wrap, REPORTS=os.path.join(d, "said")),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    except subprocess.TimeoutExpired:
        raise ck.NoVerdict("compiling the definitions took too long")
    log = r.stdout.decode(errors="replace")
    if r.returncode != 0 and "could not compile `macros`" not in log:
        raise ck.NoVerdict("building failed:\n" + log[-3000:])
    want, kinds = {}, {}
    with open(os.path.join(d, "expect")) as f:
        for l in f:
            name, kind, w = l.rstrip("\n").split("\t")
            want.setdefault(name, [])
            kinds[name] = kind
            if w:
                want[name].append(w)
    for name, ws in want.items():
        try:
            with open(os.path.join(d, "said", name), "rb") as f:
                said = f.read().decode(errors="replace")
        except OSError:
            raise ck.NoVerdict("the compiler was not run on %s\n%s" % (name, log[-2000:]))
        with open(os.path.join(d, "src", "bin", name + ".rs")) as f:
            src = f.read()
        bad = lambda m: ck.Violation("%s:\n%s\nThe compiler's error output:\n%s" % (m, src[:1500], said[:800]), kind="reports", crate_seed=seed, count=count, case=name)
        if any('"level":"error' in l for l in said.splitlines()):
            raise bad("a valid definition %s conflicts does not compile" % ("with" if ws else "without"))
        text = "\n".join(l for l in said.splitlines() if not l.startswith("{"))
        told = bool(TELLS.search(text))
        pool.evals += 1
        pool.distinct.add((seed, name))
        key = "%s definitions %s conflicts" % (kinds[name], "with" if ws else "without")
        pool.stats[key] = pool.stats.get(key, 0) + 1
        if told != bool(ws):
            raise bad("run-time construction gives %d warnings, compiling reports %s" % (len(ws), "some" if told else "none"))
        # the pretty form of Debug differs in white space and final commas only
        flat = lambda x: re.sub(r",([}\])])", r"\1", re.sub(r"\s+", "", x))
        page = flat(text)
        found = [w for w in ws if flat(w) in page]
        if found and len(set(found)) < len(set(ws)):
            raise bad("only %d of %d conflicts are reported" % (len(set(found)), len(set(ws))))
        # in whatever words it is said, there are as many words as conflicts
        if len(text.split()) < len(set(ws)):
            raise bad("%d words cannot report %d conflicts" % (len(text.split()), len(set(ws))))
        pool.stats["conflicts found in reports word for word"] = pool.stats.get("conflicts found in reports word for word", 0) + len(set(found))
        if len(pool.samples) < 40:
            pool.samples.append("%s: %d warnings, said: %s" % (name, len(ws), text[-160:]))


def run_reports(pool, ck):
    import time
    binary = ck.harness()
    target = os.path.join(ck.VERIF, "target", "reports")
    ck.forget_stale(target)
    if pool.tier == "quick":
        return reports(pool, ck, binary, target, pool.seed, 120)
    end = time.time() + int(os.environ.get("VERIF_SECONDS", "1200"))
    k = 0
    while time.time() < end:
        reports(pool, ck, binary, target, pool.seed * 1000 + k, 120)
        k += 1


def run(prop, pool, ck):
    binary = ck.harness()
    target = ck.TARGET
    ck.forget_stale(target)
    must_not_compile(prop, pool, ck, target)
    quick = pool.tier == "quick"
    if quick:
        one_crate(prop, pool, ck, binary, target, pool.seed, 240 if prop == "C16" else 320, 0)
        return
    import time
    end = time.time() + int(os.environ.get("VERIF_SECONDS", "1200"))
    k = 0
    while time.time() < end:
        one_crate(prop, pool, ck, binary, target, pool.seed * 1000 + k, 200, k)
        k += 1
