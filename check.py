#!/usr/bin/env python3
"""Decides one property by running the real code of /repo under monitors.

  check.py <property> [--tier quick|thorough] [--seed N]
  check.py --replay <file>

Exit 0: the property held on everything observed.  Exit 1 with a VIOLATION line: it is broken.
Exit 2: no verdict (build failure, harness error, unreproducible crash or time-out, nothing observed).
"""
import fcntl, hashlib, json, os, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
CORES = os.cpu_count() or 4
sys.path.insert(0, VERIF)


class NoVerdict(Exception):
    pass


class Violation(Exception):
    def __init__(self, message, **replay):
        super().__init__(message)
        self.replay = dict(replay, message=message)


# ------------------------------------------------------------------ building

def source_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(REPO)):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\1")
    return h.hexdigest()


def forget_stale(target):
    """Cargo trusts modification times; make it look at /repo's crates again whenever their text differs from the last build."""
    stamp = os.path.join(target, "repo-hash")
    now = source_hash()
    old = None
    if os.path.exists(stamp):
        with open(stamp) as f:
            old = f.read()
    if old != now:
        for root, dirs, _ in os.walk(target):
            if os.path.basename(root) == ".fingerprint":
                for d in dirs:
                    if d.split("-")[0] in ("tokenizer", "parser", "parser_generator", "tokenizer_generator", "example", "harness", "macros"):
                        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                dirs[:] = []
        os.makedirs(target, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(now)


def env_for(target, **extra):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_BUILD", "RUSTFLAGS", "RUST_BACKTRACE", "CARGO_ENCODED"))}
    e.update(CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0", CARGO_TERM_COLOR="never", **extra)
    return e


def cargo(args, cwd, target, what, timeout=800, **extra):
    forget_stale(target)
    try:
        r = subprocess.run(["cargo"] + args, cwd=cwd, env=env_for(target, **extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoVerdict("building %s took too long" % what)
    if r.returncode != 0:
        raise NoVerdict("building %s failed:\n%s" % (what, r.stdout.decode(errors="replace")[-4000:]))


def harness(profile="release"):
    """Profile "watch": the release build with the monitor of outside effects in it."""
    target, args = TARGET, ["--profile", profile]
    if profile == "watch":
        target, profile, args = os.path.join(TARGET, "watch"), "release", ["--profile", "release", "--features", "watch"]
    cargo(["build", "--offline"] + args, os.path.join(VERIF, "harness"), target, "the harness")
    return os.path.join(target, profile, "harness")


# ------------------------------------------------------------------ running

def limits(mem, cpu):
    def f():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def died(rc):
    if rc == 78:
        return "it allocated without bound"
    if rc < 0:
        try:
            n = signal.Signals(-rc).name
        except ValueError:
            n = str(-rc)
        if n in ("SIGXCPU", "SIGKILL"):
            return "it did not end within its processor-time limit"
        return "the process was ended by %s" % n
    return "the process ended with status %d" % rc


CASE_CPU = 90          # seconds of processor time for one case; the slowest one on the unchanged tree needs about two
MEM = 3 << 30


class Pool:
    """Runs the numbered cases of one property in several processes and collects what they observed."""

    def __init__(self, prop, tier, seed, outdir):
        self.prop, self.tier, self.seed, self.outdir = prop, tier, seed, outdir
        self.stats, self.samples, self.distinct, self.evals, self.facts = {}, [], set(), 0, []
        self.workers = 0

    def one_case(self, binary, pseudo, stage, index, env=None, mem=MEM, prefix=()):
        """Replays a case alone. Returns None (held), a message, or raises NoVerdict."""
        try:
            r = subprocess.run(list(prefix) + [binary, "case", pseudo, str(self.seed), stage, str(index), self.tier], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(mem, CASE_CPU), timeout=900)
        except subprocess.TimeoutExpired:
            return "", None
        if r.returncode == 0:
            return None, None
        if r.returncode == 3:
            raise NoVerdict(r.stderr.decode(errors="replace")[-2000:])
        if r.returncode == 1:
            try:
                return json.loads(r.stdout.decode().strip().splitlines()[-1])["violation"]["message"], r.stderr
            except Exception:
                pass
        return died(r.returncode), r.stderr

    def run(self, binary, pseudo, workers=CORES, shards=None, scale=100, seconds=0, env=None, mem=MEM, label="", same=False, wall=None, sanitizer=None, prefix=(), profile="release"):
        """same=True: every worker runs the same cases (the facts are compared across processes)."""
        seconds = int(seconds) or (600 if self.tier == "quick" else 100000)
        wall = wall or seconds + 240
        procs = []
        for w in range(workers):
            d = os.path.join(self.outdir, "%s%s.%d" % (pseudo, label, w))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            shard = 0 if same else w
            n = 1 if same else (shards or workers)
            log = open(os.path.join(d, "log"), "wb")
            p = subprocess.Popen(list(prefix) + [binary, "run", pseudo, str(self.seed), str(shard), str(n), self.tier, d, str(scale), str(seconds)],
                                 stdout=log, stderr=log, env=env, preexec_fn=limits(mem, 0))
            log.close()
            procs.append((p, d, shard))
        end = time.time() + wall
        last = {}
        live = list(procs)
        verdict = None
        try:
            while live:
                time.sleep(0.02)
                for x in list(live):
                    p, d, shard = x
                    rc = p.poll()
                    if rc is None:
                        # a case that uses more processor time than any case may: stop the worker and judge the case alone
                        cur, cpu = self.current(d), cpu_time(p.pid)
                        if last.get(p.pid, (None, 0))[0] != cur:
                            last[p.pid] = (cur, cpu)
                        elif cpu - last[p.pid][1] > CASE_CPU or time.time() > end:
                            kill(p)
                            live.remove(x)
                            verdict = verdict or self.judge_dead(binary, pseudo, d, "no progress", env, mem, sanitizer, prefix)
                        continue
                    live.remove(x)
                    if rc == 0:
                        continue
                    o = self.read(d, shard)
                    if rc == 1 and o and "violation" in o:
                        verdict = verdict or dict(o["violation"], pseudo=pseudo)
                    elif rc == 3:
                        raise NoVerdict(tail(os.path.join(d, "log")))
                    else:
                        verdict = verdict or self.judge_dead(binary, pseudo, d, died(rc), env, mem, sanitizer, prefix)
                if verdict:
                    break
        finally:
            for p, _, _ in procs:
                if p.poll() is None:
                    kill(p)
        for p, d, shard in procs:
            o = self.read(d, shard)
            if o:
                self.workers += 1
                self.merge(o, d, shard, label or "")
        if verdict:
            raise Violation(verdict["message"], pseudo=pseudo, stage=verdict["stage"], index=verdict["index"], sanitizer=sanitizer, profile=profile)

    def current(self, d):
        for f in os.listdir(d):
            if f.startswith("cur."):
                with open(os.path.join(d, f)) as fh:
                    return fh.readline().split(" ")[:2]
        return None

    def judge_dead(self, binary, pseudo, d, why, env, mem, sanitizer, prefix):
        cur = self.current(d)
        log = tail(os.path.join(d, "log"))
        if not cur or len(cur) < 2:
            raise NoVerdict("a worker ended before its first case: %s\n%s" % (why, log))
        seen = []
        for _ in range(2):
            m, _err = self.one_case(binary, pseudo, cur[0], cur[1], env, mem, prefix)
            if not m:
                raise NoVerdict("a worker ended in case %s (%s), which is not reproducible alone\n%s" % (cur, why, log))
            seen.append(m)
        if sanitizer:
            seen[0] += ": " + first_report(log)
        return {"message": seen[0], "stage": cur[0], "index": int(cur[1]), "pseudo": pseudo}

    def read(self, d, shard):
        try:
            with open(os.path.join(d, "out.%d" % shard)) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def merge(self, o, d, shard, label):
        self.evals += o["evals"]
        for k, v in o["stats"].items():
            k = (label + " " + k).strip()
            self.stats[k] = max(self.stats.get(k, 0), v) if k.startswith("max ") else self.stats.get(k, 0) + v
        self.samples += o["samples"]
        if o.get("facts"):
            self.facts.append(o["facts"])
        with open(os.path.join(d, "distinct.%d" % shard), "rb") as f:
            b = f.read()
        self.distinct.update(b[i:i + 8] for i in range(0, len(b), 8))


def cpu_time(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            x = f.read().rsplit(")", 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            return f.read()[-n:].decode(errors="replace")
    except OSError:
        return ""


def first_report(log):
    for l in log.splitlines():
        if "ERROR: AddressSanitizer" in l or "Undefined Behavior" in l or "memory leaked" in l or l.startswith("error:"):
            return l.strip()[:300]
    return ""


# ------------------------------------------------------------------ properties

# scale (percent of the base number of random cases) for the quick tier, seconds for the thorough tier
QUICK = {"C01": 700, "C02": 700, "C03": 800, "C04": 700, "C05": 700, "C06": 200, "C07": 500, "C08": 4000, "C09": 4000, "C10": 4000, "C11": 6000,
         "C12": 2000, "C13": 1500, "C14": 3000, "C15": 2500, "C18": 2500, "C20": 400, "C21": 100, "C22": 2000, "C23": 1500, "C24": 2000, "C26": 2000, "C27": 1500, "C28": 400, "C29": 2500, "C30": 100, "C31": 800, "C32": 100, "C33": 400}
RULES = {
    "C01": "a (pattern list, input) pair is counted once if the reference stream has several tokens, or a token after which characters had to be handed back",
    "C02": "a (pattern list, input) pair is counted once if the reference stream has several tokens, or a token after which characters had to be handed back (item streams: if a token was yielded)",
    "C03": "a (pattern list, input) pair is counted once if the reference stream has several tokens, or a token after which characters had to be handed back",
    "C04": "a list of pattern strings is counted once",
    "C05": "a pattern list is counted once if some string is matched by two of its patterns",
    "C06": "a (pattern list, build number) pair is counted once if the automaton has more than two states",
    "C07": "a pattern list is counted once (built, used and dropped, or rejected, several times)",
    "C08": "a (grammar, input) pair is counted once if the input has several tokens and its first can start a sentence",
    "C09": "a (grammar, input) pair is counted once if the input has several tokens and its first can start a sentence",
    "C10": "a (grammar, input) pair is counted once if the input has several tokens and its first can start a sentence",
    "C11": "a (grammar, input, failing reducer call) triple is counted once",
    "C12": "a grammar is counted once",
    "C13": "a (grammar with conflicts, input) pair is counted once if a reducer ran",
    "C14": "a (grammar, input) pair is counted once if the input cannot be derived without ERROR",
    "C15": "a (grammar, input) pair is counted once if the parser met a syntax error on it",
    "C16": "a (macro-generated grammar, input) pair is counted once; each definition that must not compile is counted once",
    "C17": "a (macro-generated tokenizer, input) pair is counted once; each definition that must not compile is counted once",
    "C18": "a (grammar, way of writing it, input) triple is counted once",
    "C19": "a distinct input line is counted once",
    "C20": "a history of uses is counted once",
    "C21": "a (definition, big input) pair is counted once",
    "C22": "a pool of values whose pairs and triples were compared is counted once",
    "C23": "a (grammar, construction number) pair is counted once if the tables have more than two states",
    "C24": "a (grammar, input) pair is counted once if a reducer ran or an error was met",
    "C26": "a (patterns, grammar, text) triple is counted once if the text has several characters and several reducers ran",
    "C27": "a (grammar, input) pair, parsed with and without injected faults, is counted once if a reducer ran",
    "C28": "a (pattern list, repeated text) pair is counted once if it streamed to the end",
    "C29": "an (assembled table, input) pair is counted once if several tokens came out, or a reducer ran",
    "C30": "a (definition, large input) pair, or a definition used tens of thousands of times, is counted once",
    "C31": "an (input, definition, way) triple is counted once if there are several tokens",
    "C32": "a definition of a family at one size, built, is counted once",
    "C33": "an execution of another property's case is counted once under that property's rule",
    "C25": "a binary with one to three macro definitions, compiled, is counted once",
}


def known_findings(prop):
    out = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for l in f:
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == prop and d["status"] == "known":
                    out.append(d)
    return out


def check_known_c01(binary):
    """The one finding that is recorded and not repaired: each listed (pattern, input) still gives exactly the listed wrong token."""
    listed = {(d["pattern"], d["input"]): d for d in known_findings("C01")}
    r = subprocess.run([binary, "known"], stdout=subprocess.PIPE, preexec_fn=limits(MEM, CASE_CPU), timeout=300)
    if r.returncode != 0:
        raise Violation("tokenizing with an empty sub-expression: " + died(r.returncode), kind="known")
    n = 0
    for l in r.stdout.decode().splitlines():
        p, i, got, want = [json.loads(x) for x in l.split("\t")]
        n += 1
        if got == want:
            continue
        d = listed.get((p, i))
        if d and d["got"] == got:
            print("KNOWN-FINDING: property=C01 pattern %s on input %s yields the token %s instead of %s" % (json.dumps(p), json.dumps(i), json.dumps(got), json.dumps(want)))
        else:
            raise Violation("pattern %r on %r yields %r first, not %r" % (p, i, got, want), kind="known")
    return n


def run_harness_property(prop, pool):
    profile = "watch" if prop == "C33" else "release"
    binary = harness(profile)
    quick = pool.tier == "quick"
    seconds = 0 if quick else int(os.environ.get("VERIF_SECONDS", "1200"))
    scale = QUICK[prop] if quick else 400
    if prop == "C01":
        pool.stats["listed empty sub-expressions looked at"] = check_known_c01(binary)
    pool.run(binary, prop, scale=scale, seconds=seconds, profile=profile)
    if prop == "C21":
        # an optimised build may turn recursion into a loop; a user's debug build does not
        pool.run(harness("plain"), prop, scale=scale, seconds=seconds, label="unoptimised build:", profile="plain")
    if prop in ("C06", "C23"):
        n = 4
        what = "automata" if prop == "C06" else "tables"
        pool.run(binary, prop + "X", workers=n, same=True, label="across processes:")
        if len(pool.facts) == n:
            for f in pool.facts[1:]:
                for k in pool.facts[0]:
                    if f.get(k) != pool.facts[0][k]:
                        raise Violation("two processes built different %s: %s: %s / %s" % (what, k, pool.facts[0][k][:300], str(f.get(k))[:300]), kind="cross", fact=k)
            pool.stats["%s equal in %d processes" % (what, n)] = len(pool.facts[0])
        else:
            raise NoVerdict("the processes did not all report")
    if prop == "C07":
        import sanitize
        sanitize.asan(pool, sys.modules[__name__])
        sanitize.miri(pool, sys.modules[__name__])


def run_property(prop, pool):
    if prop in ("C16", "C17"):
        import macros
        macros.run(prop, pool, sys.modules[__name__])
    elif prop == "C25":
        import macros
        macros.run_reports(pool, sys.modules[__name__])
    elif prop == "C19":
        import calc
        calc.run(pool, sys.modules[__name__])
    else:
        run_harness_property(prop, pool)


# what must have been seen for a run to count
NEED = {
    "C01": 50000, "C02": 50000, "C03": 50000, "C04": 3000, "C05": 500, "C06": 500, "C07": 300, "C08": 50000, "C09": 20000, "C10": 20000, "C11": 5000,
    "C12": 2000, "C13": 10000, "C14": 50000, "C15": 50000, "C16": 100, "C17": 100, "C18": 10000, "C19": 300, "C20": 5000, "C21": 10, "C22": 100, "C23": 5000, "C24": 50000, "C25": 60, "C26": 20000, "C27": 20000, "C28": 500, "C29": 50000, "C30": 200, "C31": 50000, "C32": 300, "C33": 50000,
}


def samples(v, n=8):
    v = list(dict.fromkeys(v))
    step = max(1, len(v) // n)
    return v[::step][:n]


def replay(path):
    with open(path) as f:
        r = json.load(f)
    prop = r["property"]
    if "stage" in r and not r.get("sanitizer"):
        pool = Pool(prop, r["tier"], r["seed"], os.path.join(OUT, prop))
        m, _ = pool.one_case(harness(r.get("profile", "release")), r["pseudo"], r["stage"], r["index"])
        print(m or "held")
        return 1 if m else 0
    print("re-running the whole check with seed %d" % r["seed"])
    return check(prop, r["tier"], r["seed"])


def check(prop, tier, seed):
    t0 = time.time()
    outdir = os.path.join(OUT, prop)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    pool = Pool(prop, tier, seed, outdir)
    code, violation = 0, None
    try:
        run_property(prop, pool)
        if len(pool.distinct) < NEED[prop]:
            raise NoVerdict("only %d distinct executions were observed, %d are needed" % (len(pool.distinct), NEED[prop]))
    except Violation as v:
        violation = v
        code = 1
    except NoVerdict as e:
        print("NO VERDICT property=%s: %s" % (prop, e))
        code = 2
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": pool.evals, "distinct_nontrivial": len(pool.distinct), "rule": RULES[prop], "samples": samples(pool.samples),
                       "observed": dict(sorted(pool.stats.items())), "processes": pool.workers,
                       "verdict": {0: "held on everything observed", 1: "violated", 2: "no verdict"}[code]},
          "wall_s": round(time.time() - t0, 2)}
    if violation:
        ev["coverage"]["violation"] = str(violation)[:2000]
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if violation:
        path = os.path.join(outdir, "replay.json")
        with open(path, "w") as f:
            json.dump(dict(violation.replay, property=prop, tier=tier, seed=seed), f, indent=1)
            f.write("\n")
        print(str(violation)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    elif code == 0:
        print("property %s held on %d executions, %d of them distinct (%.1f s)" % (prop, pool.evals, len(pool.distinct), time.time() - t0))
    return code


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rep = None
    rest = []
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--seed":
            seed = int(a.pop(0))
        elif x == "--replay":
            rep = a.pop(0)
        else:
            rest.append(x)
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)  # checks of this directory run one at a time
    if rep:
        return replay(rep)
    if rest == ["setup"]:
        return setup()
    return check(rest[0], tier, seed)


def setup():
    try:
        harness()
        harness("plain")
    except NoVerdict as e:
        print(e)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
