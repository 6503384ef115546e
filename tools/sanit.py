"""C15: undefined behaviour and data races, seen by Rust's own checks, AddressSanitizer and the Miri interpreter."""
import json, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
# what Rust's run time checks print before they abort; a panic, an exhausted stack or a failed allocation is no UB
UB_TEXT = re.compile(r"unsafe precondition|misaligned pointer dereference|null pointer dereference|invalid enum|trying to construct an enum|free\(\)|corrupted|double free|munmap_chunk|malloc")
MIRI_UB = re.compile(r"Undefined Behavior|Data race detected")
NO_MIRI = {"c15_sign", "c15_hostile_keys", "c15_hostile_private"}


def miri_env(m, seed=None):
    e = m.cargo_env(wrap=False)
    e["MIRI_SYSROOT"] = os.path.join(m.V, "target", "miri-sysroot")
    e["MIRIFLAGS"] = MIRIFLAGS + (f" -Zmiri-seed={seed}" if seed is not None else "")
    return e


def miri_setup(m, d):
    sysroot = os.path.join(m.V, "target", "miri-sysroot")
    if not os.path.isdir(os.path.join(sysroot, "lib")):
        rc = m.sh(["cargo", "+nightly", "miri", "setup"], miri_env(m), os.path.join(d, "miri-setup.log"), 800)
        if rc != 0:
            shutil.rmtree(sysroot, ignore_errors=True)
            raise m.NoAnswer("the Miri sysroot cannot be built: " + open(os.path.join(d, "miri-setup.log"), errors="replace").read()[-1500:])
    # build the library and the harness for the interpreter (always anew: see run.build)
    m.invalidate("miri")
    log = os.path.join(d, "build-miri.log")
    rc = m.sh(miri_cmd(m) + ["list"], miri_env(m), log, 800)
    text = open(log, errors="replace").read()
    if MIRI_UB.search(text):
        return text[-3000:]
    if rc != 0:
        raise m.NoAnswer(f"build for Miri failed ({rc}): {text[-2500:]}")
    return None


def miri_cmd(m):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--features", m.FEATURES["all"], "--target-dir", m.tdir("miri"), "--"]


def is_ub(rc, err):
    """Is this end of a native or ASan process a sign of undefined behaviour?"""
    if "text that is not valid UTF-8" in err:
        return True
    if "AddressSanitizer" in err:
        return "stack-overflow" not in err and "allocation-size-too-big" not in err and "out-of-memory" not in err and "exceeds maximum supported size" not in err
    if "has overflowed its stack" in err or "memory allocation of" in err:
        return False
    if rc in (-11, -7, -4, -5):  # SIGSEGV, SIGBUS, SIGILL, SIGTRAP
        return True
    return bool(rc == -6 and UB_TEXT.search(err))


def violation(m, tool, line, err):
    f = line.split(" ")
    raise m.Violation(f"{tool}: {m.tail(err, 3000)}", {"property": "C15", "config": tool, "workload": f[0], "tape": f[3:], "message": m.tail(err, 6000), "case": line[:4000], "seed": m.SEED, "tier": m.TIER})


def run_tapes(m, tool, cmd, env, sel, d, shards, timeout):
    """Executes the selected cases; -> number executed, not supported."""
    path = os.path.join(d, f"sel-{tool}")
    with open(path, "w") as f:
        f.write("\n".join(sel))

    def shard(k):
        done, unsupported, start = 0, 0, k
        while start < len(sel):
            ep = os.path.join(d, f"err-{tool}-{k}")
            with open(ep, "w") as e:
                try:
                    rc = subprocess.run(cmd + ["tapes", f"in={path}", f"from={start}", f"step={shards}", "mark=1"], cwd=m.H, env=env, stdin=subprocess.DEVNULL,
                                        stdout=subprocess.DEVNULL, stderr=e, timeout=timeout).returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
            err = open(ep, errors="replace").read()
            marks = [int(x) for x in re.findall(r"^@(\d+)$", err, re.M)]
            done += len(marks)
            if rc == 0:
                return done, unsupported, None
            last = marks[-1] if marks else start
            tail = err[err.rfind(f"@{last}"):] if marks else err
            if MIRI_UB.search(tail) or (tool != "miri" and is_ub(rc, tail)):
                return done, unsupported, ("ub", sel[last], tail)
            if tool == "miri" and ("unsupported operation" in tail or "resource exhausted" in tail) or (tool != "miri" and rc in (77, -6, -11)) or rc == "timeout":
                # this case has no answer; go on behind it
                unsupported += 1
                start = last + shards
                if rc == "timeout" and unsupported > 1:
                    return done, unsupported, ("none", sel[last], "did not finish")
                continue
            return done, unsupported, ("none", sel[last], f"ended with {rc}: {m.tail(tail, 1500)}")
        return done, unsupported, None

    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(shard, range(shards)))
    for kind in ("ub", "none"):
        for _, _, bad in rs:
            if bad and bad[0] == kind:
                if kind == "ub":
                    violation(m, tool, bad[1], bad[2])
                raise m.NoAnswer(f"{tool}: case {bad[1][:300]}: {bad[2]}")
    return sum(r[0] for r in rs), sum(r[1] for r in rs)


def group(line):
    f = line.split(" ", 4)
    if f[0] != "raw":
        return f[0]
    k = int(f[3])
    return f"raw {'name' if k >= 100000 else k}"


def select(lines, per, seed, cost, fat):
    """A balanced, deterministic choice: per group of cases the same number, those that reached something new first."""
    g = {}
    for l in lines:
        n = group(l)
        if n in NO_MIRI:
            continue
        f = l.split(" ", 3)
        size = int(f[1]) if f[0] == "raw" else int(f[1]) // 4 + 12 * len(f[3].split(" "))
        if size <= cost:
            g.setdefault(n, []).append((f[2] != "1", l))
    r = random.Random(seed)
    out = []
    for n in sorted(g):
        c = g[n]
        r.shuffle(c)
        c.sort(key=lambda x: x[0])
        out += [x[1] for x in c[: per * (fat if n in ("raw 0", "raw 99999") else 2 if n == "raw 64" else 1)]]
    r.shuffle(out)
    return out, {n: len(c) for n, c in g.items()}


def shared(m, tool, cmd, env, d, seed, rounds, timeout):
    op = os.path.join(d, f"shared-{tool}-{seed}")
    try:
        r = subprocess.run(cmd + ["shared", f"seed={seed}", f"rounds={rounds}", f"out={op}"], cwd=m.H, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise m.NoAnswer(f"{tool}: shared values: did not finish")
    err = r.stderr.decode(errors="replace")
    if (tool == "miri" and MIRI_UB.search(err)) or (tool != "miri" and is_ub(r.returncode, err)):
        violation(m, tool, f"shared 0 0 seed={seed}", err)
    if tool == "miri" and "unsupported operation" in err:
        return 0
    if r.returncode != 0 or not os.path.exists(op):
        raise m.NoAnswer(f"{tool}: shared values: ended with {r.returncode}: {m.tail(err, 1500)}")
    t = open(op).read()
    bad = re.search(r"^types (.+)$", t, re.M)
    if bad:
        raise m.Violation(f"values of the library are not thread safe any more: {bad.group(1)}", {"property": "C15", "config": tool, "workload": None, "tape": [], "message": bad.group(1), "seed": m.SEED, "tier": m.TIER})
    k = re.search(r"^rounds (\d+)$", t, re.M)
    return int(k.group(1)) if k else 0


def c15(m, d, known):
    deep = m.TIER == "thorough"
    with ThreadPoolExecutor(3) as ex:
        fa, fb = ex.submit(m.build, "all", d), ex.submit(m.build, "asan", d)
        fm = ex.submit(miri_setup, m, d)
        exe, asan, ub = fa.result(), fb.result(), fm.result()
    if ub:
        violation(m, "miri", "startup 0 0 ", ub)
    m.note("built all, asan, miri")
    # 1. natively, with Rust's debug assertions in the library, recording a guided corpus
    tp = os.path.join(d, "tapes")
    reports = {}
    try:
        reports["all"] = m.run_harness("C15", "all", exe, d, known, scale=0.3 if not deep else 0.3, extra=[f"record={tp}"])
    except m.Violation as v:
        if not is_ub(-int((re.search(r"signal (\d+)", str(v)) or [0, 0])[1]), str(v)):
            raise m.NoAnswer(f"the workload ended early, but not by undefined behaviour: {v}")
        raise
    lines = open(tp).read().split("\n")
    m.note(f"native: {sum(w['evaluations'] for w in reports['all']['workloads'])} cases, {len(lines)} recorded")
    # 2. AddressSanitizer: the recorded corpus and fresh cases
    env = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0")
    n_asan, skipped_asan = run_tapes(m, "asan", [asan], env, lines, d, 8, 300 if not deep else 3600)
    m.note(f"AddressSanitizer: {n_asan} recorded cases")
    try:
        reports["asan"] = m.run_harness("C15", "asan", asan, d, known, scale=0.05 if not deep else 1, env=env)
    except m.Violation as v:
        if not is_ub(-int((re.search(r"signal (\d+)", str(v)) or [0, 0])[1]), str(v)):
            raise m.NoAnswer(f"the workload ended early, but not by undefined behaviour: {v}")
        raise
    m.note(f"AddressSanitizer: {sum(w['evaluations'] for w in reports['asan']['workloads'])} fresh cases")
    # 3. values shared between threads
    rounds = {"native": shared(m, "native", [exe], dict(os.environ), d, m.SEED, 300 if not deep else 5000, 600)}
    rounds["asan"] = shared(m, "asan", [asan], env, d, m.SEED, 100 if not deep else 2000, 600)
    # 4. Miri
    sel, pool = select(lines, 4 if not deep else 80, m.SEED, 3000 if not deep else 12000, 20)
    seeds = [m.SEED * 16 + k for k in range(8 if not deep else 64)]
    mc = miri_cmd(m)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda s: shared(m, "miri", mc, miri_env(m, s), d, s, 2 if not deep else 6, 600), seeds))
    m.note(f"Miri: {sum(rs)} rounds of shared values, {len(seeds)} schedules")
    n_miri, unsup = run_tapes(m, "miri", mc, miri_env(m, m.SEED), sel, d, 8, 500 if not deep else 7200)
    m.note(f"Miri: {n_miri} cases, {unsup} not supported by the interpreter")
    if n_miri < 50 or unsup * 4 > n_miri or sum(rs) == 0:
        raise m.NoAnswer(f"Miri executed only {n_miri} cases ({unsup} unsupported), {sum(rs)} shared rounds")
    by = {}
    for l in sel:
        by[group(l)] = by.get(group(l), 0) + 1
    return reports, {"evaluations": n_asan + n_miri, "distinct_nontrivial": len(set(sel)),
                     "sanitizers": {"asan_recorded_cases": n_asan, "asan_without_answer": skipped_asan, "miri_cases": n_miri, "miri_unsupported": unsup, "miri_cases_by_kind": by,
                                    "shared_value_rounds": dict(rounds, miri=sum(rs)), "miri_schedules": len(seeds), "recorded": len(lines), "miri_candidates": pool}}
