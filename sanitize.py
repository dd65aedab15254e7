"""C07: the tokenizer workload again, under AddressSanitizer and in the Miri interpreter."""
import json, os, subprocess


def asan(pool, ck):
    target = os.path.join(ck.TARGET, "asan")
    ck.cargo(["+nightly", "build", "--release", "--offline", "--target", "x86_64-unknown-linux-gnu"], os.path.join(ck.VERIF, "harness"), target,
             "the harness with AddressSanitizer", RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes")
    exe = os.path.join(target, "x86_64-unknown-linux-gnu", "release", "harness")
    env = ck.env_for(target, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:detect_stack_use_after_return=1:quarantine_size_mb=64")
    quick = pool.tier == "quick"
    pool.run(exe, "C07A", scale=300 if quick else 400, seconds=0 if quick else 600, env=env, mem=0, label="AddressSanitizer:", sanitizer="address")


def miri(pool, ck):
    target = os.path.join(ck.TARGET, "miri")
    flags = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"
    env = ck.env_for(target, MIRIFLAGS=flags, XDG_CACHE_HOME=os.path.join(ck.TARGET, "miri-cache"))
    cwd = os.path.join(ck.VERIF, "harness")
    ck.forget_stale(target)
    n = 8 if pool.tier == "quick" else 16
    # the first run compiles; the others then only interpret
    try:
        r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--", "nothing"], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700)
    except subprocess.TimeoutExpired:
        raise ck.NoVerdict("building for Miri took too long")
    if b"usage" not in r.stdout:
        raise ck.NoVerdict("Miri does not run the harness:\n" + r.stdout.decode(errors="replace")[-3000:])
    todo = list(range(n))
    running = []
    while todo or running:
        while todo and len(running) < ck.CORES:
            i = todo.pop(0)
            running.append((i, subprocess.Popen(["cargo", "+nightly", "miri", "run", "--offline", "--", "case", "C07M", str(pool.seed), "tiny", str(i), pool.tier],
                                                cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)))
        i, p = running.pop(0)
        try:
            so, se = p.communicate(timeout=700)
        except subprocess.TimeoutExpired:
            ck.kill(p)
            for _, q in running:
                ck.kill(q)
            raise ck.NoVerdict("a case took too long in Miri")
        if p.returncode != 0:
            for _, q in running:
                ck.kill(q)
            text = se.decode(errors="replace")
            if "Undefined Behavior" in text or "memory leaked" in text:
                first = [l for l in text.splitlines() if l.startswith("error") or "-->" in l]
                raise ck.Violation("Miri, case %d: %s" % (i, " ".join(x.strip() for x in first[:3])), sanitizer="miri", case=i)
            try:
                raise ck.Violation("in Miri: " + json.loads(so.decode().strip().splitlines()[-1])["violation"]["message"], sanitizer="miri", case=i)
            except (ValueError, KeyError, IndexError):
                raise ck.NoVerdict("Miri ended with status %d:\n%s" % (p.returncode, text[-2000:]))
        o = json.loads(so.decode().strip().splitlines()[-1])
        pool.evals += o["evals"]
        for k, v in o["stats"].items():
            k = "Miri: " + k
            pool.stats[k] = pool.stats.get(k, 0) + v
        pool.stats["Miri: cases interpreted"] = pool.stats.get("Miri: cases interpreted", 0) + 1
        pool.workers += 1
