#!/usr/bin/env python3
"""Driver of the checks: check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Rebuilds what it needs from /repo's working tree, runs the monitors of property
ID, writes evidence/ID.json and answers with its exit code: 0 held on everything
explored, 1 violated (with a VIOLATION line), 2 no verdict."""
import argparse, concurrent.futures as cf, fcntl, hashlib, itertools, json, os, random, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T = os.path.join(V, "target")
TMP = os.path.join(V, ".build")
TRIPLE = "x86_64-unknown-linux-gnu"
CRATES = ["srp", "spake2", "aucpace"]

class NoVerdict(Exception):
    pass

# ---------------------------------------------------------------- builds
def env_for(**extra):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTFLAGS", "CARGO_PROFILE", "CARGO_BUILD", "MIRIFLAGS", "RUST_", "ASAN_", "TSAN_", "GLIBC_TUNABLES"))}
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e.update(extra)
    return e

def source_hash(*own):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, c, "src") for c in CRATES] + [os.path.join(REPO, c, "Cargo.toml") for c in CRATES] + [os.path.join(REPO, "Cargo.toml")] + [os.path.join(V, o) for o in own]
    for r in roots:
        fs = [r] if os.path.isfile(r) else sorted(os.path.join(d, f) for d, _, ff in os.walk(r) for f in ff)
        for f in fs:
            if "/target/" in f:
                continue
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()

def cargo(args, tdir, timeout=1500, **env):
    r = subprocess.run(["cargo", *args], cwd=V, env=env_for(**env), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")

def freshen(crate, tdir, profile, target=None, toolchain=None):
    """cargo trusts file times; the sources may have changed without a later time"""
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, f".{crate}.sources")
    now = source_hash(crate)
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        if old is not None or os.path.exists(os.path.join(tdir, "CACHEDIR.TAG")):
            # the fingerprints of the crates under test and of the harness go
            for root, dirs, _ in os.walk(tdir):
                if os.path.basename(root) == ".fingerprint":
                    for d in list(dirs):
                        if d.rsplit("-", 1)[0] in CRATES + ["pakemon", "probe", "timing", "secret"]:
                            shutil.rmtree(os.path.join(root, d))
                    dirs[:] = []
        with open(stamp, "w") as f:
            f.write(now)

VARIANTS = {
    # name: (toolchain, RUSTFLAGS, extra cargo arguments)
    "rel": (None, "", []),
    "asan": ("+nightly", "-Zsanitizer=address", ["--target", TRIPLE]),
    "tsan": ("+nightly", "-Zsanitizer=thread", ["--target", TRIPLE, "-Zbuild-std"]),
}

def build(crate, variant):
    tc, flags, extra = VARIANTS[variant]
    tdir = os.path.join(T, variant)
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        freshen(crate, tdir, "release")
        args = ([tc] if tc else []) + ["build", "--release", "--offline", "--manifest-path", os.path.join(V, crate, "Cargo.toml"), "--target-dir", tdir, *extra]
        rc, out = cargo(args, tdir, **({"RUSTFLAGS": flags} if flags else {}))
    if rc != 0:
        raise NoVerdict(f"the {variant} build of the harness failed:\n" + tail(out))
    sub = [TRIPLE] if "--target" in extra else []
    return os.path.join(tdir, *sub, "release", {"harness": "pakemon"}.get(crate, crate))

def tail(s, n=40):
    return "\n".join(s.strip().splitlines()[-n:])

# ---------------------------------------------------------------- runs of the monitors
SAN_ENV = {
    "asan": {"ASAN_OPTIONS": "abort_on_error=1:halt_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:handle_abort=0:allocator_may_return_null=1"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"},
}

class Result:
    def __init__(self):
        self.runs, self.violations, self.known, self.notes = [], [], {}, []

def monitors(ctx, variant, seed, scale, thorough=False, only=None, cap=None, timeout=None):
    """one run of the harness; returns its report or raises NoVerdict"""
    exe = build("harness", variant)
    os.makedirs(TMP, exist_ok=True)
    out = os.path.join(TMP, f"{ctx.prop}-{variant}-{os.getpid()}-{random.randrange(1 << 30)}.json")
    cmd = [exe, ctx.prop, "--seed", str(seed), "--scale", str(scale), "--out", out, "--threads", str(min(16, os.cpu_count() or 8))]
    if thorough:
        cmd.append("--thorough")
    if cap:
        cmd += ["--cap", str(cap)]
    if variant != "rel":
        cmd += ["--watch", "240"]
    if only:
        cmd += ["--stage", only[0], "--case", str(only[1])]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=TMP, env=env_for(**SAN_ENV.get(variant, {})), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout or (600 if not thorough else 3000))
    except subprocess.TimeoutExpired:
        raise NoVerdict(f"the {variant} run did not finish in time")
    wall = time.time() - t0
    err = r.stderr.decode(errors="replace")
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            rep = None
        os.unlink(out)
    rep_cmd = {"variant": variant, "seed": seed, "scale": scale, "thorough": thorough}
    if rep is not None and r.returncode in (0, 1, 2):
        rep["wall_s"] = round(wall, 2)
        rep["variant"] = variant
        for v in rep["violations"]:
            ctx.res.violations.append({**rep_cmd, "stage": v["stage"], "case": v["idx"], "what": v["what"]})
        if rep["errors"] and not rep["violations"]:
            raise NoVerdict("; ".join(rep["errors"])[:2000])
        for sig, (n, what) in rep["known"].items():
            k = ctx.res.known.setdefault(sig, [0, what])
            k[0] += n
        ctx.res.runs.append(rep)
        return rep
    # it died: a report of a sanitizer, an abort or a fault in the code is a verdict
    if variant == "tsan" and "unexpected memory mapping" in err:
        raise NoVerdict("ThreadSanitizer cannot start here: " + tail(err, 3))
    report = "WARNING: ThreadSanitizer" in err or "ERROR: AddressSanitizer" in err
    if report or -r.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGBUS, signal.SIGTRAP):
        how = "sanitizer report" if report else f"killed by {signal.Signals(-r.returncode).name}"
        ctx.res.violations.append({**rep_cmd, "stage": None, "case": None, "what": f"{how} in the {variant} build:\n" + report_text(err)})
        return None
    raise NoVerdict(f"the {variant} run ended with {r.returncode}: {tail(err, 15)}")

def report_text(err):
    i = max(err.find("WARNING: ThreadSanitizer"), err.find("ERROR: AddressSanitizer"))
    return err[i:i + 6000] if i >= 0 else tail(err, 40)

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed, self.res = prop, tier, seed, Result()

# quick scale, thorough (scale of the thorough counts, seeds)
PLAN = {
    "C01": (3, 1), "C02": (12, 1), "C03": (4, 1), "C04": (6, 1), "C05": (3, 1), "C06": (1, 1), "C07": (6, 1),
    "C09": (10, 1), "C10": (12, 1), "C11": (12, 1), "C12": (12, 1), "C13": (6, 1), "C14": (8, 1), "C15": (4, 1),
    "C16": (10, 1), "C17": (10, 1), "C18": (6, 1), "C19": (10, 1), "C20": (8, 1), "C21": (10, 1), "C22": (4, 1),
    "C23": (4, 1), "C24": (3, 1), "C26": (6, 1), "C27": (3, 1), "C28": (5, 1), "C31": (3, 1), "C32": (4, 1), "C34": (6, 1),
}

def plain(ctx):
    q, t = PLAN[ctx.prop]
    if ctx.tier == "quick":
        monitors(ctx, "rel", ctx.seed, q, cap=60)
    else:
        for k in range(4):
            monitors(ctx, "rel", ctx.seed + 1000 * k, t, thorough=True, cap=45)
            if ctx.res.violations:
                return

def c23(ctx):
    plain(ctx)
    if ctx.res.violations:
        return
    n = 1 if ctx.tier == "quick" else 12
    for k in range(n):
        # few cases per run, several runs: races depend on the schedule
        monitors(ctx, "tsan", ctx.seed + 7919 * (k + 1), 0.35 if ctx.tier == "quick" else 1, cap=60)
        if ctx.res.violations:
            return

def c24(ctx):
    plain(ctx)
    if ctx.res.violations:
        return
    n = 1 if ctx.tier == "quick" else 8
    for k in range(n):
        monitors(ctx, "asan", ctx.seed + 7919 * (k + 1), 0.7 if ctx.tier == "quick" else 4, cap=60)
        if ctx.res.violations:
            return
    if ctx.tier == "thorough":
        miri(ctx, [(ctx.seed + 50 + k, TRIPLE, "") for k in range(6)], None)

# ---------------------------------------------------------------- C08: instructions counted by callgrind
def c08(ctx):
    if not shutil.which("valgrind"):
        raise NoVerdict("valgrind is not installed")
    tdir = os.path.join(T, "timing")
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        freshen("timing", tdir, "debug")
        for prof in ([], ["--release"]):
            rc, out = cargo(["build", "--offline", "--manifest-path", os.path.join(V, "timing", "Cargo.toml"), "--target-dir", tdir, *prof], tdir)
            if rc != 0:
                raise NoVerdict("the build for callgrind failed:\n" + tail(out))
    seeds = [ctx.seed] if ctx.tier == "quick" else [ctx.seed + k for k in range(4)]
    # the C library's comparison works in wider steps the more the processor offers
    tun = [None] if ctx.tier == "quick" else [None, "glibc.cpu.hwcaps=-AVX2,-AVX2_Usable,-AVX512VL,-AVX512BW,-EVEX,-SSE4_1,-SSE4_2"]
    jobs = [(prof, kind, s, t) for s in seeds for t in tun for prof in ("debug", "release") for kind in ("aucpace-server", "aucpace-client", "srp")]
    rep = {"evals": 0, "decided": 0, "distinct": 0, "counts": {}, "samples": [], "stages": [], "rules": ["one evaluation counts the instructions executed by one refusing call; a case is one wrong value (first difference at each position, few and many differing bytes, unrelated values) for one side, hash and build, refused three times, and the lowest counts of all cases of a side must be equal"], "variant": "callgrind"}
    t0 = time.time()
    with cf.ThreadPoolExecutor(min(6, os.cpu_count() or 4)) as ex:
        for (prof, kind, s, t), groups in ex.map(lambda j: (j, callgrind(ctx, tdir, *j)), jobs):
            for g, cases in groups.items():
                rep["evals"] += sum(len(v) for v in cases.values())
                rep["decided"] += sum(len(v) for v in cases.values())
                rep["distinct"] += len(cases)
                low = {l: min(v) for l, v in cases.items()}
                vals = sorted(set(low.values()))
                name = f"{g} {prof}" + (" sse2" if t else "")
                rep["counts"][f"instructions per refusal, {name}"] = vals[0]
                rep["counts"]["refusals counted"] = rep["counts"].get("refusals counted", 0) + sum(len(v) for v in cases.values())
                if len(rep["samples"]) < 8:
                    l = sorted(low)[s % len(low)]
                    rep["samples"].append(f"{name}: wrong value '{l}' refused in {low[l]} instructions")
                if len(vals) > 1:
                    a = next(l for l in low if low[l] == vals[0])
                    b = next(l for l in low if low[l] == vals[-1])
                    ctx.res.violations.append({"variant": "callgrind", "seed": s, "stage": kind, "case": prof, "what": f"{name}: refusing a value that is wrong in '{a}' takes {vals[0]} instructions, in '{b}' {vals[-1]}; {len(vals)} different counts over {len(low)} values"})
    rep["wall_s"] = round(time.time() - t0, 2)
    ctx.res.runs.append(rep)

def callgrind(ctx, tdir, prof, kind, seed, tun):
    os.makedirs(TMP, exist_ok=True)
    out = os.path.join(TMP, f"cg-{os.getpid()}-{prof}-{kind}-{seed}-{bool(tun)}")
    env = env_for(LD_BIND_NOW="1", **({"GLIBC_TUNABLES": tun} if tun else {}))
    try:
        r = subprocess.run(["valgrind", "--tool=callgrind", "--collect-atstart=no", "--toggle-collect=pakemon_measured", "--dump-after=pakemon_measured", "--combine-dumps=yes", f"--callgrind-out-file={out}", os.path.join(tdir, prof, "timing"), kind, str(seed), "1"], cwd=TMP, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
        if r.returncode != 0:
            raise NoVerdict("callgrind: " + tail(r.stderr.decode(errors="replace"), 10))
        counts, trig = [], None
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith("desc: Trigger:"):
                    trig = line
                elif line.startswith("summary:") and trig and "dump-after" in trig:
                    counts.append(int(line.split()[1]))
    except subprocess.TimeoutExpired:
        raise NoVerdict("callgrind did not finish in time")
    finally:
        if os.path.exists(out):
            os.unlink(out)
    labels = r.stdout.decode().splitlines()
    if len(labels) != len(counts) or not counts:
        raise NoVerdict(f"callgrind counted {len(counts)} calls of {len(labels)}")
    groups = {}
    for l, n in zip(labels, counts):
        g, label = l.split(" ", 1)
        if label.startswith("warm-up") or label.endswith(" ACCEPTED"):
            continue
        groups.setdefault(g, {}).setdefault(label, []).append(n)
    if not groups or any(len(c) < 40 for c in groups.values()):
        raise NoVerdict("too few refusals observed")
    return groups

# ---------------------------------------------------------------- C25: one behaviour in every build
ALLF = ["alloc", "partial", "strong", "zeroize", "serde", "defaults", "spake-std", "spake-getrandom"]
def log_of(text):
    d = {}
    for line in text.splitlines():
        k, _, v = line.partition(" ")
        d[k] = v
    return d

def build_probe(slot, feats, prof, opts):
    """(binary, None) or (None, compiler output)"""
    tdir = os.path.join(T, "probe", slot)
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        freshen("probe", tdir, prof)
        args = ["build", "--offline", "--manifest-path", os.path.join(V, "probe", "Cargo.toml"), "--target-dir", tdir, "--features", ",".join(feats)]
        if prof == "release":
            args.append("--release")
        rc, out = cargo(args, tdir, **opts)
        if rc != 0:
            return None, out
        exe = os.path.join(TMP, f"probe-{os.getpid()}-{slot}-{hashlib.sha1(repr((feats, prof, opts)).encode()).hexdigest()[:10]}")
        os.makedirs(TMP, exist_ok=True)
        shutil.copy(os.path.join(tdir, prof, "probe"), exe)
    return exe, None

def c25(ctx):
    quick = ctx.tier == "quick"
    rng = random.Random(ctx.seed)
    R = {"CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "true", "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "true"}
    sub = lambda: sorted(f for f in ALLF if rng.random() < 0.5)
    size = {"CARGO_PROFILE_RELEASE_OPT_LEVEL": "s", "CARGO_PROFILE_RELEASE_LTO": "thin", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "1"}
    # slot (its own target directory): list of (features, profile, options)
    plan = {
        "a": [(ALLF, "release", {}), (["partial", "alloc"], "release", {}), (sub(), "release", {})],
        "b": [([], "release", {}), (["strong", "serde"], "release", {}), (["serde", "zeroize", "partial"], "release", {}), (sub(), "release", {})],
        "c": [(ALLF, "debug", {}), ([], "debug", {}), (sub(), "debug", {})],
        "d": [(ALLF, "release", {**R, **size}), (["alloc", "strong"], "release", {**R, **size})],
    }
    if not quick:
        for o in ("1", "2", "s"):
            plan["o" + o] = [(ALLF, "release", {"CARGO_PROFILE_RELEASE_OPT_LEVEL": o}), (sub(), "release", {"CARGO_PROFILE_RELEASE_OPT_LEVEL": o})]
        plan["lto"] = [(ALLF, "release", {"CARGO_PROFILE_RELEASE_LTO": "fat"})]
        plan["oc"] = [(ALLF, "release", R)]
        # every subset of the features of aucpace
        for i, fs in enumerate(itertools.chain.from_iterable(itertools.combinations(ALLF[:5], k) for k in range(6))):
            plan["abcd"[i % 2]].append((list(fs), "release", {}))
            if i % 4 == 0:
                plan["c"].append((list(fs), "debug", {}))
    seeds = [ctx.seed] if quick else [ctx.seed + k for k in range(6)]
    n = 60 if quick else 400
    fails, logs = [], {}
    def work(item):
        slot, todo = item
        for feats, prof, opts in todo:
            name = f"{prof}{''.join(' ' + k[22:].lower() + '=' + v for k, v in opts.items())} [{','.join(feats)}]"
            exe, out = build_probe(slot, feats, prof, opts)
            if exe is None:
                fails.append((name, out))
                continue
            try:
                for s in seeds:
                    r = subprocess.run([exe, str(s), str(n)], cwd=TMP, env=env_for(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
                    if r.returncode != 0:
                        fails.append((name, f"the workload ended with {r.returncode}: {r.stderr.decode(errors='replace')[-2000:]}"))
                    else:
                        logs[(name, s)] = log_of(r.stdout.decode())
            finally:
                os.unlink(exe)
    t0 = time.time()
    def other_machines(jobs):
        """machines of other word sizes and byte orders, interpreted"""
        exe, out = build_probe("m", ["alloc", "partial", "strong", "serde"], "release", {})
        if exe is None:
            return fails.append(("release [alloc,partial,strong,serde]", out))
        try:
            miri(ctx, [(s, t, "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation") for s, t in jobs], exe, soft=quick)
        finally:
            os.unlink(exe)
    with cf.ThreadPoolExecutor(5) as ex:
        # 32 bits and big-endian at once
        jobs = [(ctx.seed, "powerpc-unknown-linux-gnu")] if quick else [(ctx.seed + k, t) for k in range(3) for t in ("i686-unknown-linux-gnu", "s390x-unknown-linux-gnu", "powerpc-unknown-linux-gnu")]
        other = ex.submit(other_machines, jobs)
        feat = ex.submit(feature_builds, ctx, quick, rng)
        list(ex.map(work, plan.items()))
        built = feat.result()
        other.result()
    ref_name = f"release [{','.join(ALLF)}]"
    if any(f[0] == ref_name for f in fails):
        raise NoVerdict("the reference build failed: " + tail(next(f[1] for f in fails if f[0] == ref_name)))
    for name, out in fails:
        ctx.res.violations.append({"variant": "probe", "stage": name, "case": None, "seed": ctx.seed, "what": f"the build {name} fails where the one with all features works:\n{tail(out, 25)}"})
    rep = {"evals": 0, "decided": 0, "distinct": 0, "counts": {}, "samples": [], "stages": [], "variant": "builds", "rules": ["one evaluation compares one observable event (message, key, error, decision) of one build with the reference build; distinct by event and seed; feature builds are counted apart"]}
    seen = set()
    for (name, s), d in sorted(logs.items()):
        ref = logs[(ref_name, s)]
        bad = [k for k in d if ref.get(k) != d[k]]
        # a heap form that this build does not have
        bad = [k for k in bad if k in ref]
        gone = [k for k in d if k not in ref]
        rep["evals"] += len(d)
        rep["decided"] += len(d)
        seen.update((s, k) for k in d)
        rep["stages"].append([name, len(d), len(d), 0])
        if gone:
            # the set of events is part of the behaviour: one ended earlier than the other
            bad += gone
        missing = [k for k in ref if k not in d and not section_absent(k, d)]
        if bad or missing:
            k = sorted(bad or missing)[0]
            ctx.res.violations.append({"variant": "probe", "stage": name, "case": k, "seed": s, "what": f"the build {name} behaves differently: event {k} is '{d.get(k)}', and '{ref.get(k)}' with {ref_name}; {len(bad)} events differ, {len(missing)} are missing"})
        elif len(rep["samples"]) < 8 and name != ref_name:
            k = sorted(d)[(s * 131 + len(rep["samples"]) * 977) % len(d)]
            rep["samples"].append(f"{name}: {k} = {d[k]} as in the reference build")
    for k in (k for (nm, s), d in logs.items() if nm == ref_name for k in d):
        sec = k.split("/")[0]
        rep["counts"][f"events of {sec} in the reference build"] = rep["counts"].get(f"events of {sec} in the reference build", 0) + 1
    rep["distinct"] = len(seen)
    rep["counts"].update({"builds whose behaviour was compared": len({nm for nm, _ in logs}), "feature sets built alone": built})
    ctx.res.runs.append({**rep, "wall_s": round(time.time() - t0, 2)})
    if not ctx.res.violations and (len(seen) < 1000 or built < 20):
        raise NoVerdict("too few events observed")

def section_absent(k, d):
    sec = k.split("/")[0]
    return sec not in {x.split("/")[0] for x in d} if not hasattr(d, "secs") else sec not in d.secs

def feature_builds(ctx, quick, rng):
    """the libraries alone, so that no other crate switches features on"""
    jobs = [("srp", [])] + [("spake2", list(c)) for k in range(3) for c in itertools.combinations(["getrandom", "std"], k)]
    main = ["alloc", "partial_augmentation", "strong_aucpace", "serde", "zeroize"]
    base = ["getrandom", "sha2", "scrypt"]
    subs = [list(c) for k in range(len(main) + 1) for c in itertools.combinations(main, k)]
    bases = [list(c) for k in range(len(base) + 1) for c in itertools.combinations(base, k)]
    if quick:
        jobs += [("aucpace", s) for s in subs]
        jobs += [("aucpace", s + b) for b in bases[1:] for s in rng.sample(subs, 2)]
        jobs.append(("aucpace", main + base))
    else:
        jobs += [("aucpace", s + b) for s in subs for b in bases]
    parts = 2 if quick else 3
    def part(i):
        n = 0
        tdir = os.path.join(T, f"features{i}")
        os.makedirs(tdir, exist_ok=True)
        with open(os.path.join(tdir, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            freshen("probe", tdir, "debug")
            for c, f in jobs[i::parts]:
                rc, out = cargo(["check", "--lib", "--offline", "--locked", "--manifest-path", os.path.join(REPO, c, "Cargo.toml"), "--target-dir", tdir, "--no-default-features", "--features", ",".join(f)], tdir)
                if rc != 0:
                    if "error: could not compile" in out:
                        ctx.res.violations.append({"variant": "features", "stage": c, "case": ",".join(f), "seed": ctx.seed, "what": f"{c} does not build with the features [{','.join(f)}]:\n{tail(out, 25)}"})
                    else:
                        raise NoVerdict(f"cargo check of {c} [{','.join(f)}]: {tail(out, 10)}")
                n += 1
        return n
    with cf.ThreadPoolExecutor(parts) as ex:
        return sum(ex.map(part, range(parts)))

# ---------------------------------------------------------------- Miri
def miri(ctx, jobs, native, soft=False):
    """the probe under the interpreter: undefined behaviour, and (with `native`)
    the same events on other machines"""
    def one(j):
        seed, target, flags = j
        tdir = os.path.join(T, "miri", target + ("-fast" if flags else ""))
        os.makedirs(tdir, exist_ok=True)
        with open(os.path.join(tdir, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            freshen("probe", tdir, "debug")
            base = ["cargo", "+nightly", "miri", "run", "--offline", "--manifest-path", os.path.join(V, "probe", "Cargo.toml"), "--target-dir", tdir, "--target", target, "--features", "alloc,partial,strong,serde"]
            env = env_for(MIRIFLAGS="-Zmiri-disable-isolation " + flags, **({"RUSTFLAGS": "-Zmir-opt-level=4"} if flags else {}))
            if flags:
                base.append("--release")
            # build once under the lock: a seed that does nothing
            try:
                r = subprocess.run(base + ["--", "1", "0"], cwd=V, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400 if soft else 1500)
            except subprocess.TimeoutExpired:
                if not soft:
                    raise
                ctx.res.notes.append(f"Miri for {target} was not built in time")
                return None
            if r.returncode != 0:
                if soft:
                    ctx.res.notes.append(f"Miri for {target} could not be used: " + tail(r.stderr.decode(errors="replace"), 3))
                    return None
                raise NoVerdict(f"miri {target}: " + tail(r.stderr.decode(errors="replace"), 10))
        try:
            r = subprocess.run(base + ["--", str(seed), "1"], cwd=V, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400 if soft else 2400)
        except subprocess.TimeoutExpired:
            ctx.res.notes.append(f"Miri {target} seed {seed} did not finish in time")
            return None
        err = r.stderr.decode(errors="replace")
        if r.returncode != 0:
            if "Undefined Behavior" in err:
                ctx.res.violations.append({"variant": "miri", "stage": target, "case": None, "seed": seed, "what": "undefined behaviour: " + tail(err, 40)})
                return None
            if soft:
                ctx.res.notes.append(f"Miri {target} seed {seed} stopped: " + tail(err, 3))
                return None
            raise NoVerdict(f"miri {target}: " + tail(err, 10))
        d = log_of(r.stdout.decode())
        if native:
            want = log_of(subprocess.run([native, str(seed), "1"], stdout=subprocess.PIPE, timeout=100).stdout.decode())
            bad = [k for k in set(d) | set(want) if d.get(k) != want.get(k)]
            if bad:
                k = sorted(bad)[0]
                ctx.res.violations.append({"variant": "miri", "stage": target, "case": k, "seed": seed, "what": f"on {target} event {k} is '{d.get(k)}', natively '{want.get(k)}'"})
        else:
            k = next((k for k in d if k.endswith("/panic")), None)
            if k:
                ctx.res.violations.append({"variant": "miri", "stage": target, "case": k, "seed": seed, "what": f"panic under Miri: {k} {d[k]}"})
        return len(d)
    t0 = time.time()
    with cf.ThreadPoolExecutor(6) as ex:
        ns = [n for n in ex.map(one, jobs) if n]
    what = "events on other machines compared" if native else "events under Miri without undefined behaviour"
    ctx.res.runs.append({"variant": "miri", "evals": sum(ns), "decided": sum(ns), "distinct": sum(ns), "counts": {what: sum(ns)}, "samples": [], "stages": [[f"{t} seed {s}", 1, 1, 0] for s, t, _ in jobs], "rules": [], "wall_s": round(time.time() - t0, 2)})

# ---------------------------------------------------------------- C29: system calls seen by strace
MEMORY = {"brk", "munmap", "mremap", "madvise", "futex", "sched_yield", "clock_gettime", "gettimeofday", "restart_syscall"}
def harmless(name, args, part):
    """memory, waiting and the time; entropy only where the interface asks for the system's"""
    if name in MEMORY:
        return True
    if name == "mmap":
        return "MAP_ANONYMOUS" in args and "MAP_SHARED" not in args and "PROT_EXEC" not in args
    if name == "mprotect":
        return "PROT_EXEC" not in args
    if part == "C09":
        if name == "getrandom":
            return True
        # where the system call is missing the device is read instead
        return name in ("openat", "read", "close", "poll", "fcntl", "statx", "fstat") and ("/dev/random" in args or "/dev/urandom" in args)
    return False

def c29(ctx):
    if not shutil.which("strace"):
        raise NoVerdict("strace is not installed")
    exe = build("harness", "rel")
    os.makedirs(TMP, exist_ok=True)
    quick = ctx.tier == "quick"
    seeds = [ctx.seed] if quick else [ctx.seed + 100 * k for k in range(4)]
    def one(j):
        k, seed = j
        stem = os.path.join(TMP, f"C29-{os.getpid()}-{k}")
        cmd = ["strace", "-f", "-y", "-s", "96", "-o", stem + ".trace", exe, "C29", "--seed", str(seed), "--scale", "1" if quick else "4", "--out", stem + ".json"]
        try:
            r = subprocess.run(cmd, cwd=TMP, env=env_for(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=500 if quick else 3000)
            with open(stem + ".trace", errors="replace") as f:
                trace = f.read().splitlines()
            rep = json.load(open(stem + ".json")) if os.path.exists(stem + ".json") else None
        except FileNotFoundError as e:
            raise NoVerdict(f"strace left no trace: {e}: {tail(r.stderr.decode(errors='replace'), 5)}")
        except subprocess.TimeoutExpired:
            raise NoVerdict("the traced run did not finish in time")
        finally:
            for x in (".trace", ".json"):
                if os.path.exists(stem + x):
                    os.unlink(stem + x)
        return seed, r, trace, rep
    t0 = time.time()
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, enumerate(seeds)))
    for seed, r, trace, rep in res:
        part, guard, seen, bad, ended = None, None, {}, None, False
        for l in trace:
            m = re.match(r"\d+ +(.*)", l)
            l = m[1] if m else l
            m = re.search(r'"/nonexistent/pakemon/([^"]*)"', l)
            if m:
                if m[1].startswith("guard/"):
                    guard = int(m[1][6:], 16)
                elif m[1] == "end":
                    part, ended = None, True
                else:
                    part = m[1]
                continue
            if part is None:
                continue
            m = re.match(r"--- SIG(\w+) \{.*?(?:si_addr=(\w+))?\}", l)
            if m:
                if m[1] == "SEGV" and m[2] and m[2] != "NULL" and guard and guard <= int(m[2], 16) < guard + 65536:
                    bad = "reads the environment of the process"
                elif m[1] in ("SEGV", "BUS", "ILL", "ABRT", "FPE"):
                    raise NoVerdict(f"the traced run crashed during {part}: {l}")
                else:
                    bad = f"signals: {l}"
                break
            m = re.match(r"(\w+)\((.*)|<\.\.\. (\w+) resumed>", l)
            if not m or m[3]:
                continue
            if not harmless(m[1], m[2], part):
                bad = f"makes the system call {l}"
                break
            seen[m[1]] = seen.get(m[1], 0) + 1
        if bad:
            ctx.res.violations.append({"variant": "strace", "stage": part, "case": None, "seed": seed, "what": f"code under test, in the workload of {part}, {bad}"})
            continue
        if ended and rep is not None and rep["violations"]:
            for v in rep["violations"]:
                ctx.res.violations.append({"variant": "strace", "stage": v["stage"], "case": None, "seed": seed, "what": v["what"]})
            continue
        if not ended or rep is None or r.returncode != 0:
            raise NoVerdict(f"the traced run ended with {r.returncode}: {tail(r.stderr.decode(errors='replace'), 10)} {trace[-2:]}")
        for k, n in seen.items():
            rep["counts"][f"system calls observed and allowed: {k}"] = n
        rep["samples"] = [f"seed {seed}: {n} {k} calls between the markers" for k, n in sorted(seen.items())]
        rep["variant"] = "strace"
        rep["wall_s"] = round(time.time() - t0, 2)
        ctx.res.runs.append(rep)
        if rep["evals"] < 10000 or "getrandom" not in seen or "brk" not in seen:
            raise NoVerdict("too little was observed under the trace")

# ---------------------------------------------------------------- C30: secrets do not steer the execution
# (operation, may its secrets be followed by memcheck to the end)
SECRET_OPS = [("register/alloc", True), ("register/buffer", True), ("client/auth", False), ("client/confirm", True), ("client/implicit", True), ("client/buffer", True),
              ("blind/start", False), ("blind/unblind", False), ("server/auth", False), ("server/implicit", True), ("server-partial/implicit", True),
              ("server-strong/auth", False), ("server-partial-strong/implicit", False), ("server-unknown/auth", False), ("server-unknown/implicit", True)]

def secrets_for(op, seed, k):
    """the k-th secret of an operation: 64 bytes of password, 512 of the generator"""
    r = random.Random(f"{seed} {op} {k}")
    rand = lambda n: bytes(r.randrange(256) for _ in range(n))
    text = lambda n: "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_!") for _ in range(n)).encode()
    if op == "blind/unblind":
        # its salt is a function of the password (see the harness): one password
        pw = bytes(range(64))
    else:
        pw = [text(64), rand(64), bytes(64), b"\xff" * 64, b"a" * 64, b"\x00" + rand(63), rand(8) + b"\x00" * 56, b"\x80" * 64][k % 8]
    if k % 8 == 5 and op != "blind/unblind":
        gen = bytes(int(i % 64 == 0) for i in range(512))   # scalars equal to one
    elif k % 8 == 6:
        gen = b"\xff" * 512
    elif k % 8 == 7:
        j = r.randrange(31)
        gen = bytes((1 << r.randrange(8)) if i % 64 == j else 0 for i in range(512))   # powers of two
    else:
        gen = rand(512)
    return pw + gen

def c30(ctx):
    if not shutil.which("valgrind") or os.uname().machine != "x86_64":
        raise NoVerdict("valgrind on x86-64 is needed")
    tdir = os.path.join(T, "secret")
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        freshen("secret", tdir, "debug")
        for prof in ([], ["--release"]):
            rc, out = cargo(["build", "--offline", "--manifest-path", os.path.join(V, "secret", "Cargo.toml"), "--target-dir", tdir, *prof], tdir)
            if rc != 0:
                raise NoVerdict("the build for lackey and memcheck failed:\n" + tail(out))
    n = 4 if ctx.tier == "quick" else 24
    t0 = time.time()
    rep = {"evals": 0, "decided": 0, "distinct": 0, "counts": {}, "samples": [], "stages": [], "variant": "valgrind",
           "rules": ["one evaluation compares the instruction and address trace of one operation on one secret with that of another secret of the same length, in one build, or follows the undefined secret bytes through one operation; traces that differ count only if both are reproducible"]}
    ops = [(op, t, prof) for op, t in SECRET_OPS for prof in ("release", "debug")]
    def whole(j):
        op, taint, prof = j
        exe = os.path.join(tdir, prof, "secret")
        seen = []
        for k in range(n):
            # the structured secrets take turns
            kk = k if k < 2 else (k + ctx.seed) % 8 if ctx.tier == "quick" else k
            sec = secrets_for(op, ctx.seed, kk)
            seen.append((kk, sec, *traced(exe, op, sec)))
        bad = None
        for kk, sec, h, lines, out in seen[1:]:
            if h != seen[0][2]:
                again = [(traced(exe, op, s)[0]) for s in (seen[0][1], sec)]
                if again != [seen[0][2], h]:
                    raise NoVerdict(f"the trace of {op} ({prof}) is not reproducible")
                bad = f"{op} ({prof} build) executes or touches something else for secret {kk} than for secret {seen[0][0]} of the same length: {difference(exe, op, seen[0][1], sec)}"
                break
        told = memcheck(exe, op) if taint else None
        return op, prof, seen, bad, told
    with cf.ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
        for op, prof, seen, bad, told in ex.map(whole, ops):
            rep["evals"] += len(seen) - 1 + (told is not None)
            rep["decided"] += len(seen) - 1 + (told is not None)
            outs = {x[4] for x in seen}
            rep["distinct"] += len(outs)
            if len(outs) < len(seen) - 1:
                raise NoVerdict(f"the secrets made no difference to what {op} gives away")
            rep["counts"][f"trace entries per run, {op} {prof}"] = seen[0][3]
            rep["counts"]["traces compared"] = rep["counts"].get("traces compared", 0) + len(seen)
            if seen[0][3] < 100000:
                raise NoVerdict(f"the trace of {op} is implausibly short")
            if told is not None:
                rep["counts"]["operations followed by memcheck"] = rep["counts"].get("operations followed by memcheck", 0) + 1
            if len(rep["samples"]) < 8:
                rep["samples"].append(f"{op} {prof}: {len(seen)} secrets, {len(outs)} outputs, one trace of {seen[0][3]} entries, sha256 {seen[0][2][:16]}")
            if bad:
                ctx.res.violations.append({"variant": "lackey", "seed": ctx.seed, "stage": op, "case": prof, "what": bad})
            if told:
                ctx.res.violations.append({"variant": "memcheck", "seed": ctx.seed, "stage": op, "case": prof, "what": f"{op} ({prof} build) branches on, or addresses memory by, a value computed from a secret: {told}"})
    rep["wall_s"] = round(time.time() - t0, 2)
    ctx.res.runs.append(rep)

def lackey(exe, op, secret):
    """(the trace between the harness's marks, its output)"""
    rd, wr = os.pipe()
    try:
        p = subprocess.Popen([shutil.which("valgrind"), "--tool=lackey", "--trace-mem=yes", f"--log-fd={wr}", exe, op, "plain"], cwd=TMP, env={"LD_BIND_NOW": "1"}, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, pass_fds=[wr])
    finally:
        os.close(wr)
    p.stdin.write(secret)
    p.stdin.close()
    with os.fdopen(rd, "rb") as f:
        log = f.read()
    out = p.stdout.read()
    rc = p.wait(timeout=60)
    a, b = log.find(b" S 300000000,1\n"), log.find(b" S 300000001,1\n")
    if rc != 0 or a < 0 or b < a:
        raise NoVerdict(f"lackey: {op} ended with {rc}: {log[-600:].decode(errors='replace')}")
    return log[a:b], out

def traced(exe, op, secret):
    os.makedirs(TMP, exist_ok=True)
    t, out = lackey(exe, op, secret)
    return hashlib.sha256(t).hexdigest(), t.count(b"\n"), out

def difference(exe, op, s1, s2):
    a, b = (lackey(exe, op, s)[0].split(b"\n") for s in (s1, s2))
    at, pc = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b))), ""
    for l in reversed(a[:at + 1]):
        if l.startswith(b"I"):
            pc = l[2:].split(b",")[0].strip().decode()
            break
    where = ""
    if shutil.which("addr2line") and pc:
        r = subprocess.run(["addr2line", "-f", "-i", "-C", "-e", exe, hex(int(pc, 16) - 0x108000)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        ls = r.stdout.decode(errors="replace").splitlines()
        where = " in " + " < ".join(f"{f} {os.path.basename(os.path.dirname(os.path.dirname(l)))}/{os.path.basename(l)}" for f, l in list(zip(ls[::2], ls[1::2]))[:4])
    return f"{len(a)} and {len(b)} trace entries, the first difference at entry {at}, instruction {pc}{where}"

def memcheck(exe, op):
    rd, wr = os.pipe()
    try:
        p = subprocess.Popen([shutil.which("valgrind"), "--tool=memcheck", "-q", f"--log-fd={wr}", exe, op, "tainted"], cwd=TMP, env={"LD_BIND_NOW": "1"}, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, pass_fds=[wr])
    finally:
        os.close(wr)
    p.stdin.write(secrets_for(op, 0, 0))
    p.stdin.close()
    with os.fdopen(rd, "rb") as f:
        log = f.read().decode(errors="replace")
    if p.wait(timeout=60) != 0:
        raise NoVerdict(f"memcheck: {op}: {log[-600:]}")
    ls = [re.sub(r"^==\d+== *", "", l) for l in log.splitlines()]
    for i, l in enumerate(ls):
        if "uninitialised" in l:
            return " ".join(ls[i:i + 4])
    return ""

# ---------------------------------------------------------------- C33: memory and work in proportion
def c33(ctx):
    tdir = os.path.join(T, "mem")
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        freshen("mem", tdir, "release")
        rc, out = cargo(["build", "--offline", "--manifest-path", os.path.join(V, "mem", "Cargo.toml"), "--target-dir", tdir, "--release"], tdir)
        if rc != 0:
            raise NoVerdict("the build with the counting allocator failed:\n" + tail(out))
    exe = os.path.join(tdir, "release", "mem")
    names = subprocess.run([exe, "list"], stdout=subprocess.PIPE, env=env_for(), timeout=60).stdout.decode().split()
    n, seeds = (8192, 1) if ctx.tier == "quick" else (131072, 3)
    jobs = [(kind, op, ctx.seed + 1000 * k) for kind in ("size", "keep") for op in names for k in range(seeds)]
    t0 = time.time()
    rep = {"evals": 0, "decided": 0, "distinct": 0, "counts": {}, "samples": [], "stages": [], "variant": "counting allocator",
           "rules": ["an evaluation is one measured call, or one use of an operation with inputs of its own (distinct): no call named otherwise than _alloc allocates in AuCPace, live memory does not grow with the uses, the peak of a call is at most 256 KiB and 12 times its input, and 16 times the input is at most 40 times the work (and 2 ms)"]}
    def limit():
        import resource
        resource.setrlimit(resource.RLIMIT_CPU, (300 if n < 10000 else 1500,) * 2)
    def once(j):
        kind, op, seed = j
        r = subprocess.run([exe, kind, op, str(seed), str(n)], cwd=TMP, env=env_for(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800 if n < 10000 else 3000, preexec_fn=limit)
        lines = r.stdout.decode(errors="replace").splitlines()
        if -r.returncode in (signal.SIGXCPU, signal.SIGKILL):
            return {"viol": [f"after 300 s of processor time and more still busy: {lines[-1] if lines else kind + ' ' + op} (some seconds are normal)"], "samples": [], "counts": {}}
        if r.returncode != 0 or not lines:
            raise NoVerdict(f"mem {kind} {op} ended with {r.returncode}: {tail(r.stderr.decode(errors='replace'), 8)}")
        return json.loads(lines[-1])
    os.makedirs(TMP, exist_ok=True)
    with cf.ThreadPoolExecutor(max(1, min(6, (os.cpu_count() or 4) - 1))) as ex:
        for j, d in ex.map(lambda j: (j, once(j)), jobs):
            for k, v in d["counts"].items():
                rep["counts"][k] = max(rep["counts"].get(k, 0), v) if k.startswith("largest") else rep["counts"].get(k, 0) + v
            rep["samples"] += d["samples"][:1] if j[2] == ctx.seed and len(rep["samples"]) < 10 else []
            if d["viol"]:
                # processor time is measured: it counts what can be seen again
                again = [once(j)["viol"] for _ in range(2)]
                if all(again):
                    ctx.res.violations.append({"variant": "counting allocator", "seed": j[2], "stage": f"{j[0]} {j[1]}", "case": None, "what": d["viol"][0]})
                else:
                    ctx.res.notes.append(f"seen once, not again: {d['viol'][0]}")
    c = rep["counts"]
    rep["evals"] = rep["decided"] = c.get("calls measured", 0) + c.get("calls measured at growing sizes", 0)
    rep["distinct"] = c.get("uses of operations", 0)
    rep["wall_s"] = round(time.time() - t0, 2)
    ctx.res.runs.append(rep)
    if not ctx.res.violations and (len(names) < 10 or c.get("calls that must not allocate", 0) < 50000 or rep["distinct"] < 8192 * len(names)):
        raise NoVerdict("too little was measured")

SPECIAL = {"C33": c33, "C30": c30, "C29": c29, "C08": c08, "C23": c23, "C24": c24, "C25": c25}

# ---------------------------------------------------------------- findings, evidence, verdict
def findings(prop):
    known = {}
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line)
            if m and m[1] == prop:
                known[m[2]] = m[3].strip()
    return known

ASSUME = {
    "*": ["the executions sampled represent the others: a run covers the cases counted here and no more"],
    "C08": ["work is measured in instructions executed on this processor as callgrind counts them, in an unoptimised and an optimised build"],
    "C24": ["undefined behaviour is what AddressSanitizer, overflow checks and, in the thorough tier, Miri see", "a call that uses 60 s of processor time, or is blocked that long, does not return"],
    "C23": ["races are those ThreadSanitizer sees in the schedules that occurred"],
}

def evidence(ctx, wall, nviol):
    runs = ctx.res.runs
    counts, samples, rules, stages = {}, [], [], []
    for r in runs:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v if not k.startswith(("instructions", "largest")) else v
        samples += [s[:600] for s in r["samples"]]
        rules += [x for x in r.get("rules", []) if x not in rules]
        stages += [{"build": r["variant"], "stage": s[0], "planned": s[1], "done": s[2]} for s in r["stages"]]
    cov = {
        "evaluations": sum(max(r["evals"], r["decided"]) for r in runs),
        "distinct_nontrivial": max([r["distinct"] for r in runs] or [0]),
        "rule": " / ".join(rules) + " (distinct cases of the run that had most; evaluations of all runs)" if len(runs) > 1 else " / ".join(rules),
        "samples": samples[:10] or ["none"],
        "observed": counts,
        "stages": stages[:400],
        "runs": [{"build": r["variant"], "seed": r.get("seed", ctx.seed), "cases": r["evals"], "distinct": r["distinct"], "wall_s": r["wall_s"]} for r in runs],
        "known_findings_observed": {k: v[0] for k, v in ctx.res.known.items()},
    }
    if ctx.res.notes:
        cov["notes"] = ctx.res.notes
    e = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration", "coverage": cov, "assumptions": ASSUME["*"] + ASSUME.get(ctx.prop, []), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", ctx.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
    os.replace(p + ".tmp", p)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    ctx = Ctx(a.prop, a.tier, a.seed)
    t0 = time.time()
    try:
        if a.replay:
            rp = json.load(open(a.replay))
            ctx.seed = rp.get("seed", ctx.seed)
            if rp.get("variant") in VARIANTS:
                only = (rp["stage"], rp["case"]) if rp.get("stage") and rp.get("case") is not None else None
                monitors(ctx, rp["variant"], rp["seed"], rp["scale"], thorough=rp["thorough"], only=only)
            else:
                ctx.tier = rp.get("tier", ctx.tier)
                SPECIAL.get(a.prop, plain)(ctx)
        else:
            SPECIAL.get(a.prop, plain)(ctx)
        listed = findings(a.prop)
        for sig, (n, what) in sorted(ctx.res.known.items()):
            if sig in listed:
                print(f"KNOWN-FINDING: property={a.prop} {sig}: {listed[sig]} (seen {n} times)")
            else:
                ctx.res.violations.append({"variant": "rel", "seed": ctx.seed, "scale": 1, "thorough": False, "stage": None, "case": None, "what": f"{sig}: {what}"})
    except (NoVerdict, subprocess.TimeoutExpired) as e:
        if not ctx.res.violations:
            print(f"NO VERDICT property={a.prop}: {e}")
            return 2
    except Exception as e:  # the machinery failed, the property is undecided
        if not ctx.res.violations:
            import traceback
            traceback.print_exc()
            return 2
    v = ctx.res.violations
    if not a.replay:
        evidence(ctx, time.time() - t0, len(v))
    if v:
        d = os.path.join(TMP, "replays")
        os.makedirs(d, exist_ok=True)
        body = json.dumps({"property": a.prop, "tier": a.tier, **v[0]}, indent=1)
        path = a.replay or os.path.join(d, f"{a.prop}-{hashlib.sha1(body.encode()).hexdigest()[:12]}.json")
        if not a.replay:
            with open(path, "w") as f:
                f.write(body)
        print(v[0]["what"][:3000])
        print(f"(replay with: python3 check.py {a.prop} --replay {path})")
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    n = sum(max(r["evals"], r["decided"]) for r in ctx.res.runs)
    print(f"property {a.prop} held on {n} evaluations ({a.tier}, seed {ctx.seed}, {time.time() - t0:.1f} s)")
    return 0

if __name__ == "__main__":
    sys.exit(main())
