"""C19: the example calculator as a process, compared line by line with an evaluator of its own."""
import itertools, json, math, os, random, re, subprocess, threading

NUMBER = re.compile(r"(?:[0-9]+\.[0-9]*|[0-9]*\.[0-9]+|[0-9]+)(?:[eE][+-]?[0-9]+)?")


def tokens(line):
    out, i = [], 0
    while i < len(line):
        m = NUMBER.match(line, i)
        if m:
            out.append(float(m.group()))
            i = m.end()
        elif line.startswith("sqrt", i):
            out.append("sqrt")
            i += 4
        else:
            if line[i] in "+-*/()":
                out.append(line[i])
            i += 1
    return out


def divide(a, b):
    if b != 0 or math.isnan(b):
        return a / b
    if a == 0 or math.isnan(a):
        return math.nan
    return math.copysign(math.inf, a) * math.copysign(1.0, b)


def evaluate(t):
    """The value, or None if the tokens are not an expression. Operator precedence with explicit stacks, so any nesting works."""
    vals, ops = [], []
    apply = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": divide}
    level = {"+": 1, "-": 1, "*": 2, "/": 2}

    def root():
        while ops and ops[-1] == "sqrt":
            ops.pop()
            v = vals.pop()
            vals.append(v if v == 0 else math.nan if v < 0 or math.isnan(v) else math.sqrt(v))

    def fold(l):
        while ops and ops[-1] in level and level[ops[-1]] >= l:
            b, a = vals.pop(), vals.pop()
            vals.append(apply[ops.pop()](a, b))
    want, i = True, 0
    while i < len(t):
        x = t[i]
        i += 1
        if want:
            if isinstance(x, float):
                vals.append(x)
            elif x in ("+", "-") and i < len(t) and isinstance(t[i], float):
                vals.append(t[i] if x == "+" else -t[i])
                i += 1
            elif x in ("(", "sqrt"):
                ops.append(x)
                continue
            else:
                return None
            root()
            want = False
        elif x in level:
            fold(level[x])
            ops.append(x)
            want = True
        elif x == ")":
            fold(0)
            if not ops:
                return None
            ops.pop()  # "(": sqrt never stays on top of a finished value
            root()
        else:
            return None
    if want:
        return None
    fold(0)
    return None if ops else vals[0]


def same(a, b):
    return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))


def number(r):
    return r.choice(["0", "1", "2", "3", "7", "10", "12.5", ".5", "3.", "1e3", "2E-2", "1e+2", "0.1", "0.2", "4", "9", "1e308", "1e400", "1e-400", "00012", "123456789012345678901234567890", "5.e2", ".5e1",
                     str(r.randrange(10000)), repr(r.random()), "%.3f" % (r.random() * 100)])


def expr(r, d):
    k = r.random()
    if d == 0 or k < 0.25:
        s = number(r)
        return s if r.random() < 0.75 else r.choice("+-") + s
    if k < 0.75:
        return expr(r, d - 1) + r.choice("+-*/+-*") + expr(r, d - 1)
    if k < 0.9:
        return "(" + expr(r, d - 1) + ")"
    return "sqrt" + r.choice(["", " ", "("]) * 1 + expr(r, 0) if r.random() < 0.6 else "sqrt(" + expr(r, d - 1) + ")"


JUNK = " \t\r\x00abcez_é漢😀,;.=^%$#@!\"'\\&|<>[]{}~`\u2028\x85\x0b"


def lines(seed, quick):
    r = random.Random(seed)
    out = ["", " ", "1", "1+2*3", "(1+2)*3", "2-3-4", "8/4/2", "-1--1", "sqrt4+5", "sqrt sqrt 16", "sqrt-4", "1/0", "-1/0", "0/0", "-0", "1e400-1e400", "--1", "1 2", "()", "(", ")", "sqrt", "1e", "1e+", "1.2.3", ".", "..1",
           "sqr t 4", "sqrtsqrt16", "1\r", "\ufeff1", "2*-3", "2+-3*+4", "0.1+0.2", "1e3.5", "1..2", "3sqrt4", "(1)(2)", "1+", "+", "1e5e5", "0x10", "+.5", "-(1)", "sqrt(-(1))", "sqrt+9", "2*(3+4)*5-6/(7-8)"]
    alphabet = ["1", "+", "-", "*", "/", "(", ")", "sqrt", "2.5"]
    for n in range(1, 5 if quick else 6):
        out += ["".join(p) if r.random() < 0.5 else " ".join(p) for p in itertools.product(alphabet, repeat=n)]
    texts = ["1", "0", "9", ".", "e", "E", "+", "-", "s", "q", "r", "t", "("]
    for n in range(1, 5 if quick else 6):
        for p in itertools.product(texts, repeat=n):
            if n < 4 or r.random() < 0.2:
                out.append("".join(p))
    for _ in range(12000 if quick else 200000):
        s = expr(r, r.randrange(1, 6))
        k = r.random()
        if k < 0.35:
            for _ in range(r.randrange(1, 4)):
                i = r.randrange(len(s) + 1)
                s = s[:i] + r.choice(JUNK) + s[i:]
        elif k < 0.6:
            i = r.randrange(len(s) + 1)
            s = s[:i] + r.choice("0123456789.eE+-*/()sqrt") + s[i + r.randrange(2):]
        elif k < 0.7:
            s = "".join(r.choice("0123456789.eE+-*/()sqrt " + JUNK) for _ in range(r.randrange(1, 30)))
        out.append(s.replace("\n", ""))
    big = 3000 if quick else 30000
    out += ["+".join(["1"] * big), "(" * big + "7" + ")" * big, "sqrt " * 300 + "1e300", "9" * big, "2" + "*(1+" * 500 + "1" + ")" * 500, "(" * big, "-".join(["0.1"] * big), " " * big + "5"]
    head, rest = out[:40], out[40:]
    r.shuffle(rest)
    return head + rest


def run(pool, ck):
    target = ck.TARGET
    ck.cargo(["build", "--offline", "-p", "example", "--manifest-path", os.path.join(ck.REPO, "Cargo.toml")], ck.VERIF, target, "the example")
    exe = os.path.join(target, "debug", "example")
    listed = {d["input"]: d for d in ck.known_findings("C19")}
    first, _ = start(ck, exe, b"1\n", 3)
    head = next((i for i, l in enumerate(first) if l.startswith("=")), None)
    if head is None or head > 1:
        raise ck.Violation("the answer to the line '1' is %r" % first, kind="calc")
    after = start(ck, exe, b"", head)[1]
    if after is not None:
        d = listed.get("end of input")
        if not d or set(after) != {d["got"]}:
            raise ck.Violation("the program does not end with its input, it goes on printing %r" % after[:3], kind="calc")
        print("KNOWN-FINDING: property=C19 at the end of its input the example does not exit but prints %r for ever" % d["got"])
    for history in range(2 if pool.tier == "quick" else 6):
        ls = lines(pool.seed * 100 + history, pool.tier == "quick")
        last_open = history % 2 == 1       # the last line without a newline
        if last_open and not ls[-1]:
            ls.pop()
        n = 8
        chunks = [ls[i::n] for i in range(n)]
        res = [None] * n

        def work(i):
            c = chunks[i]
            while last_open and c and not c[-1]:
                c.pop()
            data = "\n".join(c) + ("" if last_open else "\n")
            try:
                res[i] = start(ck, exe, data.encode(), head + len(c))
            except Exception as e:  # handed to the main thread
                res[i] = e
        ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for i in range(n):
            if isinstance(res[i], Exception):
                raise res[i]
            got, more = res[i]
            judge(pool, ck, chunks[i], got[head:])
            if more is not None and more != after:
                raise ck.Violation("after the last line the program prints %r" % more[:3], kind="calc")
            pool.stats["ends of input observed"] = pool.stats.get("ends of input observed", 0) + 1
        pool.workers += n


AFTER = 200


def start(ck, exe, data, expect):
    """The first `expect` lines of output, and None if the program then ends successfully, or else what it goes on printing."""
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=ck.limits(ck.MEM, 200))
    alarm = threading.Timer(600, lambda: (late.append(1), ck.kill(p)))
    late = []
    alarm.start()

    def feed():
        try:
            p.stdin.write(data)
            p.stdin.close()
        except OSError:
            pass
    t = threading.Thread(target=feed)
    t.start()
    errs = []
    e = threading.Thread(target=lambda: errs.append(p.stderr.read()))
    e.start()
    out = []
    try:
        # what comes after the expected lines counts only once the input has ended: a program that waits for input is not ended yet
        while len(out) < expect + AFTER:
            l = p.stdout.readline()
            if not l:
                break
            out.append(l)
        if len(out) == expect + AFTER:
            more = [l.decode(errors="replace").rstrip("\n") for l in out[expect:]]
        else:
            more = None
            p.wait()
    finally:
        alarm.cancel()
        if p.poll() is None:
            ck.kill(p)
        t.join()
        e.join()
    if late:
        raise ck.NoVerdict("the example took too long")
    if more is None and p.returncode != 0:
        raise ck.Violation("the program does not end successfully: %s after %d lines of output; %s" % (ck.died(p.returncode), len(out), errs[0].decode(errors="replace")[-400:]), kind="calc")
    if more is None and out and not out[-1].endswith(b"\n"):
        raise ck.Violation("the last line of output is not finished: %r" % out[-1], kind="calc")
    text = [l.decode(errors="replace").rstrip("\n") for l in out]
    return (text[:expect], more) if more is not None else (text, None)


def judge(pool, ck, ls, got):
    for k, l in enumerate(ls):
        want = evaluate(tokens(l))
        shown = l if len(l) < 200 else l[:100] + "..." + l[-50:]
        if k >= len(got):
            raise ck.Violation("no answer to line %d %r" % (k, shown), kind="calc", line=l)
        g = got[k]
        pool.evals += 1
        pool.distinct.add(l)
        if want is None:
            pool.stats["lines that are not expressions"] = pool.stats.get("lines that are not expressions", 0) + 1
            if g.startswith("=") or not g.strip():
                raise ck.Violation("line %r is not an expression, but the answer is %r" % (shown, g), kind="calc", line=l)
        else:
            pool.stats["expressions"] = pool.stats.get("expressions", 0) + 1
            try:
                assert g.startswith("=")
                v = float(g[1:].strip())
            except (AssertionError, ValueError):
                raise ck.Violation("the answer to %r is %r, not %r" % (shown, g[:200], want), kind="calc", line=l)
            if not same(v, want):
                raise ck.Violation("the answer to %r is %r, not %r" % (shown, g[:200], want), kind="calc", line=l)
        if pool.evals % 2501 == 77:
            pool.samples.append("%r -> %s" % (shown, g[:80]))
    if len(got) != len(ls):
        raise ck.Violation("%d lines of input got %d answers" % (len(ls), len(got)), kind="calc")
