#!/usr/bin/env python3
"""python3 /verif/run.py PROPERTY quick|thorough

Builds the harness against /repo's working tree, runs the monitors of one
property and turns what they observed into a verdict:
  exit 0  the property held on everything observed
  exit 1  and a line `VIOLATION property=<id> replay=<path>`: it is broken
  exit 2  no verdict (build failure of the harness, lack of memory, time out)
"""
import fcntl
import hashlib
import json
import os
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
HOST = "x86_64-unknown-linux-gnu"


def say(*a):
    print(*a, flush=True)


class NoVerdict(Exception):
    pass


def base_env(toolchain=STABLE, target=TARGET):
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.update(
        RUSTUP_TOOLCHAIN=toolchain,
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0",
        CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=target,
        RUSTC_WRAPPER="",
        RUST_BACKTRACE="0",
    )
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS"):
        env.pop(k, None)
    env["RUSTFLAGS"] = "--cap-lints=warn -Awarnings"
    return env


def lock(name):
    os.makedirs(TARGET, exist_ok=True)
    f = open(os.path.join(TARGET, name), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def cargo_build(args, env, timeout=800):
    """Builds; returns (ok, output)."""
    p = subprocess.run(
        ["cargo", "build", "--offline", "--quiet", *args],
        cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        text=True, errors="replace", timeout=timeout,
    )
    return p.returncode == 0, p.stdout


def source_digest():
    """Digest of the sources of the code under test."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not (root == REPO and d in ("target", ".git")))
        for name in sorted(files):
            path = os.path.join(root, name)
            if name.endswith((".rs", ".toml", ".lock", ".md", ".abnf")) and os.path.isfile(path):
                with open(path, "rb") as f:
                    h.update(os.path.relpath(path, REPO).encode() + b"\0" + f.read() + b"\0")
    return h.hexdigest()


def fresh(env, target=None, directory=None):
    """Makes sure that what is built is built from the current sources, whatever
    their dates are."""
    digest = source_digest()
    directory = directory or env["CARGO_TARGET_DIR"]
    stamp = os.path.join(env["CARGO_TARGET_DIR"], ".built-from")
    try:
        with open(stamp) as f:
            if f.read() == digest:
                return
    except OSError:
        pass
    if os.path.isdir(directory):
        e = dict(env, CARGO_TARGET_DIR=directory)
        for profile in ([], ["--release"]):
            cmd = ["cargo", "clean", "--offline", "--quiet", "-p", "rdf-types", *profile]
            if target:
                cmd += ["--target", target]
            subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    os.makedirs(env["CARGO_TARGET_DIR"], exist_ok=True)
    with open(stamp, "w") as f:
        f.write(digest)


def build_bin(name, release=False):
    env = base_env()
    args = ["--bin", name] + (["--release"] if release else [])
    with lock(".lock"):
        fresh(env)
        ok, out = cargo_build(args, env)
    if not ok:
        raise NoVerdict("the harness does not build:\n" + out[-4000:])
    return os.path.join(TARGET, "release" if release else "debug", name)


def write_replay(prop, seed, text):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-seed{seed}.txt")
    with open(path, "w", errors="replace") as f:
        f.write(text)
    return path


def violation(prop, seed, text):
    path = write_replay(prop, seed, text)
    say(f"VIOLATION property={prop} replay={path}")
    return 1


# A process that dies of one of these was brought down by the code it ran.
CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def run_monitor(prop, tier, seed, binary, extra=(), timeout=860):
    cmd = [binary, prop, "--tier", tier, "--seed", str(seed), "--out", EVIDENCE, "--replays", REPLAYS, *extra]
    env = base_env()
    log = os.path.join(TARGET, f"{prop}.{os.getpid()}.stderr")
    try:
        with open(log, "w") as err:
            # The library prints debugging noise on stderr; keep only its tail.
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=err,
                               text=True, errors="replace", timeout=timeout)
        with open(log, errors="replace") as f:
            size = os.path.getsize(log)
            if size > 3000:
                f.seek(size - 3000)
            tail = f.read()
    except subprocess.TimeoutExpired:
        raise NoVerdict(f"{' '.join(cmd)}: no answer within {timeout} s")
    finally:
        try:
            os.unlink(log)
        except OSError:
            pass
    sys.stdout.write(p.stdout)
    sys.stdout.flush()
    if p.returncode == 0:
        return 0
    if p.returncode == 1 and f"VIOLATION property={prop} " in p.stdout:
        return 1
    if p.returncode < 0 and -p.returncode in CRASHES and "memory allocation of" not in tail:
        name = signal.Signals(-p.returncode).name
        say(f"{prop}: the process was brought down by {name}")
        # The process had no chance to write its evidence.
        write_evidence(prop, tier, seed, {
            "evaluations": 1, "distinct_nontrivial": 1,
            "rule": "the run was cut short by a crash of the monitored process",
            "samples": [name, tail[-500:]],
        }, 0.0, 1)
        return violation(prop, seed, f"{' '.join(cmd)}\ncrashed: {name}\n{p.stdout[-2000:]}\n{tail}\n")
    raise NoVerdict(f"{' '.join(cmd)}: exit {p.returncode}\n{tail}")


def evidence_path(prop):
    return os.path.join(EVIDENCE, f"{prop}.json")


def read_evidence(prop):
    with open(evidence_path(prop)) as f:
        return json.load(f)


def write_evidence(prop, tier, seed, coverage, wall, violations, assumptions=()):
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(evidence_path(prop), "w") as f:
        json.dump({
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": coverage, "assumptions": list(assumptions),
            "wall_s": wall, "violations": violations,
        }, f, indent=1, ensure_ascii=False)


def check_plain(prop, tier, seed, release=None):
    rc = run_monitor(prop, tier, seed, build_bin("monitor"), timeout=3300 if tier == "thorough" else 700)
    if release is None:
        release = tier == "thorough"
    if rc == 0 and release:
        # Again, other cases, in a build with optimisations and without the checks
        # of debug builds.
        keep = read_evidence(prop)
        rc = run_monitor(prop, tier, seed + 1000003, build_bin("monitor", release=True),
                         timeout=3300 if tier == "thorough" else 500)
        again = read_evidence(prop)
        keep["coverage"]["release_build"] = again["coverage"]
        keep["violations"] += again["violations"]
        keep["wall_s"] += again["wall_s"]
        with open(evidence_path(prop), "w") as f:
            json.dump(keep, f, indent=1, ensure_ascii=False)
    return rc


def check_c18(prop, tier, seed):
    # Exhaustion depends on whether overflow is checked: always observe both builds.
    return check_plain(prop, tier, seed, release=True)


def cargo(args, env, timeout=800):
    p = subprocess.run(["cargo", *args], cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode == 0, p.stdout


def build_asan():
    env = base_env(NIGHTLY, os.path.join(TARGET, "asan"))
    env["RUSTFLAGS"] += " -Zsanitizer=address"
    with lock(".lock-asan"):
        fresh(env, HOST)
        ok, out = cargo(["build", "--offline", "--quiet", "--target", HOST, "--bin", "sanitize"], env)
    if not ok:
        raise NoVerdict("the harness does not build with AddressSanitizer:\n" + out[-4000:])
    return os.path.join(TARGET, "asan", HOST, "debug", "sanitize")


def build_tsan():
    # The standard library is rebuilt with the instrumentation: without it,
    # ThreadSanitizer does not see its synchronisation.
    env = base_env(NIGHTLY, os.path.join(TARGET, "tsan"))
    env["RUSTFLAGS"] += " -Zsanitizer=thread"
    with lock(".lock-tsan"):
        fresh(env, HOST)
        ok, out = cargo(["build", "--offline", "--quiet", "-Zbuild-std", "--target", HOST, "--bin", "threads"], env)
    if not ok:
        raise NoVerdict("the harness does not build with ThreadSanitizer:\n" + out[-4000:])
    return os.path.join(TARGET, "tsan", HOST, "debug", "threads")


def miri_env(flags=""):
    env = base_env(NIGHTLY, os.path.join(TARGET, "miri"))
    env["MIRIFLAGS"] = "-Zmiri-disable-isolation " + flags
    return env


def build_miri(name):
    with lock(".lock-miri"):
        env = miri_env()
        fresh(env, HOST, os.path.join(TARGET, "miri", "miri"))
        # Builds, then interprets a run that does nothing.
        args = ["1", "0"] if name == "sanitize" else ["--plain", "1", "0", "0"]
        ok, out = cargo(["miri", "run", "--offline", "--quiet", "--bin", name, "--", *args], env)
    if not ok:
        raise NoVerdict(f"the harness does not build for Miri:\n" + out[-4000:])


def run_all(jobs, timeout):
    """Runs the commands at the same time: [(name, cmd, env)] -> [(name, cmd, rc or None, out, err)]."""
    procs = []
    for k, (name, cmd, env) in enumerate(jobs):
        base = os.path.join(TARGET, f"job.{os.getpid()}.{k}")
        out, err = open(base + ".out", "w+", errors="replace"), open(base + ".err", "w+", errors="replace")
        p = subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=out, stderr=err, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        procs.append((name, cmd, p, out, err, base))
    end = time.time() + timeout
    results = []
    for name, cmd, p, out, err, base in procs:
        try:
            rc = p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            rc = None
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        texts = []
        for f, suffix in ((out, ".out"), (err, ".err")):
            f.flush()
            f.seek(0)
            texts.append(f.read())
            f.close()
            os.unlink(base + suffix)
        results.append((name, cmd, rc, *texts))
    return results


def tally(results):
    """Sums the RAN lines of what was run."""
    table, failed = {}, 0
    for _, _, _, out, _ in results:
        for line in out.splitlines():
            f = line.split()
            if len(f) >= 6 and f[0] == "RAN":
                t = table.setdefault(f[1], [0, 0, 0])
                for i in range(3):
                    t[i] += int(f[2 + i])
    return {k: {"cases": v[0], "oracle_checks": v[1], "situations": v[2]} for k, v in sorted(table.items())}


def report(err, marker):
    """The part of a sanitizer's report worth keeping."""
    i = err.find(marker)
    return err[max(0, i - 200):i + 6000]


MIRI_ERRORS = ("error: Undefined Behavior", "error: memory leaked", "error: deadlock", "error: abnormal termination")


def judge_miri(results):
    """The first error found by Miri, if any."""
    for name, cmd, rc, out, err in results:
        last = [l for l in out.splitlines() if l.startswith("CASE ")][-1:]
        for m in MIRI_ERRORS:
            if m in err:
                return f"{' '.join(cmd)}\n{' '.join(last)}\n{report(err, m)}"
        if rc is None:
            continue  # cut short; what ran is counted
        if rc != 0:
            raise NoVerdict(f"Miri, {name}: exit {rc}\n{err[-3000:]}")
    return None


def merge_extra(prop, extra, violations, seconds):
    ev = read_evidence(prop)
    ev["coverage"].update(extra)
    ev["violations"] = ev.get("violations", 0) + violations
    ev["wall_s"] += seconds
    with open(evidence_path(prop), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


NO_ALIASING = "-Zmiri-disable-stacked-borrows"


def c20_miri_jobs(seed, start, scale, seconds):
    """Groups of workloads; the rules on aliasing are on where the B-tree crate,
    which breaks them when an owning iterator is dropped, is not used."""
    g = [
        (NO_ALIASING, [("C20:values", 16)]),
        (NO_ALIASING, [("C20:faults", 40)]),
        (NO_ALIASING, [("C20:deep", 12), ("C20:balance", 12)]),
        (NO_ALIASING, [("C01:history", 5), ("C02:history", 5), ("C03:history", 5), ("C01:enumerated", 6), ("C03:enumerated", 6)]),
        (NO_ALIASING, [("C04:history", 6), ("C05:history", 4), ("C06:extraction", 5)]),
        (NO_ALIASING, [("C07:construct", 4), ("C21:compare", 6), ("C21:cross", 6), ("C22:queries", 4), ("C20:histories", 3)]),
        (NO_ALIASING, [("C08:random", 3), ("C09:random", 3), ("C12:maps", 3), ("C19:table", 3), ("C14:containers", 3)]),
        ("", [("C10:variables", 8), ("C10:optional", 8), ("C11:sequence", 10), ("C13:strings", 20), ("C14:terms", 3),
              ("C14:statements", 3), ("C15:blank", 3), ("C15:partial", 10), ("C16:term", 6), ("C16:statement", 8),
              ("C17:input", 4), ("C18:draws", 8), ("C18:exhaustion", 8), ("C19:lexical", 4), ("C20:patterns", 12),
              ("C25:triple", 8), ("C25:quad", 8)]),
    ]
    jobs = []
    for k, (flags, specs) in enumerate(g):
        args = [f"{s}:{start}:{n * scale}" for s, n in specs]
        jobs.append((f"group {k}", ["cargo", "miri", "run", "--offline", "--quiet", "--bin", "sanitize", "--",
                                    str(seed), str(seconds), *args], miri_env(flags)))
    return jobs


ASAN_SPECS = [
    ("C20:values", 3000), ("C20:faults", 4000), ("C20:deep", 600), ("C20:histories", 120), ("C20:patterns", 400),
    ("C01:history", 200), ("C01:enumerated", 1500), ("C01:big", 1), ("C03:history", 200), ("C04:history", 60),
    ("C05:history", 60), ("C06:extraction", 150), ("C06:history", 30), ("C07:construct", 200), ("C07:more", 60),
    ("C08:random", 400), ("C08:large", 20), ("C09:symmetric", 100), ("C12:maps", 300), ("C11:sequence", 500),
    ("C10:variables", 300), ("C13:strings", 1500), ("C13:code points", 8), ("C14:terms", 300), ("C14:statements", 300),
    ("C14:containers", 100), ("C15:term", 150), ("C15:blank", 150), ("C16:term", 600), ("C16:statement", 600),
    ("C17:terms", 100), ("C17:input", 600), ("C17:containers", 60), ("C18:draws", 600), ("C19:table", 300),
    ("C19:lexical", 300), ("C21:compare", 600), ("C22:queries", 200), ("C25:quad", 600),
]


def c20_asan_jobs(binary, seed, scale, seconds, parts=8):
    env = base_env()
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:abort_on_error=0:symbolize=1:detect_stack_use_after_return=1"
    jobs = []
    for k in range(parts):
        args = [f"{s}:{100000 * k if not s.endswith(('enumerated', 'code points')) else n * k}:{n * scale}"
                for s, n in ASAN_SPECS]
        jobs.append((f"part {k}", [binary, str(seed), str(seconds), *args], env))
    return jobs


def judge_asan(results):
    for name, cmd, rc, out, err in results:
        last = " ".join([l for l in out.splitlines() if l.startswith("CASE ")][-1:])
        if "ERROR: AddressSanitizer" in err:
            return f"{' '.join(cmd)}\nafter {last}\n{report(err, 'ERROR: AddressSanitizer')}"
        if rc is None or rc == 0:
            continue
        if rc < 0 and -rc in CRASHES and "memory allocation of" not in err:
            return f"{' '.join(cmd)}\nafter {last}\ncrashed: {signal.Signals(-rc).name}\n{err[-3000:]}"
        raise NoVerdict(f"AddressSanitizer, {name}: exit {rc}\n{err[-3000:]}")
    return None


def check_c20(prop, tier, seed):
    thorough = tier == "thorough"
    start = time.time()
    rc = run_monitor(prop, tier, seed, build_bin("monitor"), timeout=2400 if thorough else 500)
    if rc != 0:
        return rc
    binary = build_asan()
    seconds = 900 if thorough else 60
    results = run_all(c20_asan_jobs(binary, seed, 60 if thorough else 1, seconds), seconds + 120)
    extra = {"address_sanitizer": tally(results)}
    say(f"{prop}: AddressSanitizer watched {sum(t['cases'] for t in extra['address_sanitizer'].values())} cases")
    bad = judge_asan(results)
    if not bad:
        if not extra["address_sanitizer"]:
            raise NoVerdict("nothing was run under AddressSanitizer")
        build_miri("sanitize")
        seconds = 1200 if thorough else 100
        results = run_all(c20_miri_jobs(seed, seed % 1000 * 8, 40 if thorough else 1, seconds), seconds + 200)
        extra["miri"] = tally(results)
        say(f"{prop}: Miri interpreted {sum(t['cases'] for t in extra['miri'].values())} cases")
        bad = judge_miri(results)
        if not bad and not extra["miri"]:
            raise NoVerdict("nothing was run under Miri")
    merge_extra(prop, extra, int(bool(bad)), time.time() - start)
    if bad:
        say(bad[:3000])
        return violation(prop, seed, bad)
    say(f"{prop} held under AddressSanitizer and Miri")
    return 0


def check_c24(prop, tier, seed):
    thorough = tier == "thorough"
    start = time.time()
    env = base_env()
    with lock(".lock"):
        fresh(env)
        ok, out = cargo_build(["--lib", "--no-default-features"], env)
        if not ok:
            raise NoVerdict("the harness does not build:\n" + out[-4000:])
        ok, out = cargo_build(["--bin", "sendsync", "--no-default-features"], env)
    if not ok:
        if "between threads safely" not in out:
            raise NoVerdict("the harness does not build:\n" + out[-4000:])
        write_evidence(prop, tier, seed, {
            "evaluations": 1, "distinct_nontrivial": 1,
            "rule": "types required to be shareable between threads", "samples": [out[:1500]],
        }, time.time() - start, 1)
        say("a type that must be shareable between threads is not:\n" + out[:1500])
        return violation(prop, seed, out)
    p = subprocess.run([os.path.join(TARGET, "debug", "sendsync")], env=env, stdout=subprocess.PIPE, text=True, timeout=60)
    shareable = sorted(set(l.split(" ", 1)[1] for l in p.stdout.splitlines() if " " in l))
    rc = run_monitor(prop, tier, seed, build_bin("threads"), timeout=2400 if thorough else 500)
    if rc != 0:
        return rc
    extra = {"types_shareable": len(shareable)}
    binary = build_tsan()
    env = base_env()
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1"
    n = 4000 if thorough else 120
    jobs = [(f"part {k}", ["setarch", "-R", binary, "--plain", str(seed), str(1000000 + n * k), str(n)], env)
            for k in range(4)]
    results = run_all(jobs, 1500 if thorough else 200)
    extra["thread_sanitizer"] = tally(results)
    bad = None
    for name, cmd, rc, out, err in results:
        if "WARNING: ThreadSanitizer" in err:
            bad = f"{' '.join(cmd)}\n{report(err, 'WARNING: ThreadSanitizer')}"
            break
        if rc is not None and rc != 0:
            if rc < 0 and -rc in CRASHES and "memory allocation of" not in err:
                bad = f"{' '.join(cmd)}\ncrashed: {signal.Signals(-rc).name}\n{err[-3000:]}"
                break
            raise NoVerdict(f"ThreadSanitizer, {name}: exit {rc}\n{err[-3000:]}")
    say(f"{prop}: ThreadSanitizer watched {sum(t['cases'] for t in extra['thread_sanitizer'].values())} cases")
    if not bad:
        if not extra["thread_sanitizer"]:
            raise NoVerdict("nothing was run under ThreadSanitizer")
        build_miri("threads")
        runs = 40 if thorough else 16
        total = []
        for first in range(0, runs, 8):
            jobs = [(f"schedule {k}", ["cargo", "miri", "run", "--offline", "--quiet", "--bin", "threads", "--",
                                       "--plain", str(seed), str(3000000 + 10 * k), "2" if not thorough else "6"],
                     miri_env(f"{NO_ALIASING} -Zmiri-seed={seed * 1000 + k} -Zmiri-preemption-rate=0.05"))
                    for k in range(first, first + 8)]
            results = run_all(jobs, 600 if thorough else 150)
            total += results
            bad = judge_miri(results)
            if bad:
                break
        extra["miri"] = tally(total)
        extra["miri_schedules"] = runs
        say(f"{prop}: Miri interpreted {sum(t['cases'] for t in extra['miri'].values())} cases, a schedule each")
    merge_extra(prop, extra, int(bool(bad)), time.time() - start)
    if bad:
        say(bad[:3000])
        return violation(prop, seed, bad)
    say(f"{prop} held under ThreadSanitizer and Miri; {len(shareable)} types shareable")
    return 0


def check_c23(prop, tier, seed):
    start = time.time()
    env = base_env()
    with lock(".lock"):
        fresh(env)
        ok, out = cargo_build(["--lib", "--no-default-features"], env)
        if not ok:
            raise NoVerdict("the harness does not build:\n" + out[-4000:])
        ok, out = cargo_build(["--bin", "macros", "--no-default-features"], env)
    rule = ("Every combination of term kinds in every position of each macro, lists of several "
            "lengths and separators; a situation is a distinct macro use whose expansion was "
            "compared with the statements it spells.")
    if not ok:
        if "could not compile `harness` (bin" not in out:
            raise NoVerdict("the harness does not build:\n" + out[-4000:])
        # Documented uses that no longer expand to anything.
        write_evidence(prop, tier, seed, {"evaluations": 1, "distinct_nontrivial": 1, "rule": rule,
                                          "samples": [out[:1500]]}, time.time() - start, 1)
        say("a documented use of the macros does not compile:\n" + out[:1500])
        return violation(prop, seed, out)
    p = subprocess.run([os.path.join(TARGET, "debug", "macros")], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
    uses = statements = 0
    kinds, samples = {}, []
    for line in p.stdout.splitlines():
        w = line.split(" ", 1)
        if w[0] == "USES":
            uses = int(w[1])
        elif w[0] == "STATEMENTS":
            statements = int(w[1])
        elif w[0] == "KIND":
            k, n = w[1].rsplit(" ", 1)
            kinds[k] = int(n)
        elif w[0] == "SAMPLE":
            samples.append(w[1])
    bad = p.returncode != 0
    if not bad and uses == 0:
        raise NoVerdict("no macro use was observed")
    write_evidence(prop, tier, seed, {
        "evaluations": max(uses, 1), "distinct_nontrivial": sum(kinds.values()) or 1, "rule": rule,
        "samples": samples[:6] or [p.stdout[-600:]],
        "events": {"statements compared": statements, **kinds},
        "exhaustive": False,
    }, time.time() - start, int(bad), ["the reference values written by tools/mkmacros.py"])
    if bad:
        say(p.stdout[-1500:])
        return violation(prop, seed, p.stdout[-8000:])
    say(f"{prop} held: {uses} macro uses, {statements} statements compared")
    return 0


def check_c26(prop, tier, seed):
    start = time.time()
    env = base_env()
    with lock(".lock"):
        fresh(env)
        ok, out = cargo_build(["--lib"], env)
        if not ok:
            raise NoVerdict("the harness does not build:\n" + out[-4000:])
        # The library compiles without the features; it must with each of them.
        for f in ("uuid-v3", "uuid-v4", "uuid-v5", "uuid"):
            args = ["--bin", "uuids"] if f == "uuid" else ["--lib", "--no-default-features"]
            ok, out = cargo_build([*args, "--features", f], env)
            if not ok:
                break
    if not ok:
        if "could not compile `rdf-types`" not in out and "could not compile `harness` (" not in out:
            raise NoVerdict("the harness does not build:\n" + out[-4000:])
        write_evidence(prop, tier, seed, {
            "evaluations": 1, "distinct_nontrivial": 1,
            "rule": "features of the UUID generators required to compile", "samples": [f, out[:1500]],
        }, time.time() - start, 1)
        say(f"the UUID generators cannot be used (feature {f}):\n" + out[:1500])
        return violation(prop, seed, out)
    for release in ([False, True] if tier == "thorough" else [False]):
        if release:
            with lock(".lock"):
                fresh(env)
                ok, out = cargo_build(["--bin", "uuids", "--features", "uuid", "--release"], env)
            if not ok:
                raise NoVerdict("the harness does not build:\n" + out[-4000:])
        binary = os.path.join(TARGET, "release" if release else "debug", "uuids")
        rc = run_monitor(prop, tier, seed + 1000003 * release, binary, timeout=3300 if tier == "thorough" else 500)
        if rc != 0:
            return rc
    return 0


def setup():
    """Builds everything beforehand; the checks rebuild what depends on /repo. What
    fails here fails again, with a verdict, in the check concerned."""
    env = base_env()
    steps = [
        lambda: build_bin("monitor"),
        lambda: build_bin("threads"),
        lambda: cargo_build(["--lib", "--no-default-features"], env),
        lambda: cargo_build(["--bin", "macros", "--bin", "sendsync", "--no-default-features"], env),
        lambda: cargo_build(["--bin", "uuids", "--features", "uuid"], env),
        *[lambda f=f: cargo_build(["--lib", "--no-default-features", "--features", f], env)
          for f in ("uuid-v3", "uuid-v4", "uuid-v5")],
        lambda: build_bin("monitor", release=True),
        build_asan,
        build_tsan,
        lambda: build_miri("sanitize"),
        lambda: build_miri("threads"),
    ]
    rc = 0
    for k, step in enumerate(steps):
        start = time.time()
        try:
            step()
        except (NoVerdict, subprocess.TimeoutExpired) as e:
            say(f"setup: {e}")
            rc = 1 if k == 0 else rc
        say(f"setup: step {k + 1} of {len(steps)}, {time.time() - start:.0f} s")
    return rc


def main():
    if len(sys.argv) < 2:
        say(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        say("tier must be quick or thorough")
        return 2
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed = abs(seed) % (1 << 62)
    if prop == "setup":
        return setup()
    try:
        return CHECKS.get(prop, check_plain)(prop, tier, seed)
    except NoVerdict as e:
        say(f"{prop}: no verdict: {e}")
        return 2
    except subprocess.TimeoutExpired as e:
        say(f"{prop}: no verdict: {e}")
        return 2


CHECKS = {"C18": check_c18, "C20": check_c20, "C23": check_c23, "C24": check_c24, "C26": check_c26}

if __name__ == "__main__":
    sys.exit(main())
