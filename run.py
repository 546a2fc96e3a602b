#!/usr/bin/env python3
"""Driver of the checks.

  run.py setup                 build everything the checks need
  run.py <PROPERTY> <tier>     run one check (tier quick or thorough)
  run.py replay <file>         run the one case a violation names
  run.py regenerate <number>   build the generated derived types of that number
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
WORK = os.path.join(HERE, "work")
HARNESS = os.path.join(HERE, "harness")
HOST = "x86_64-unknown-linux-gnu"
BIG = "s390x-unknown-linux-gnu"
SMALL = "i686-unknown-linux-gnu"


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- builds

def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "target", "work", "evidence", "seeded", "__pycache__"))
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def base_env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO_", "RUST", "MIRI")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    e["XDG_CACHE_HOME"] = os.path.join(TARGET, "cache")
    return e


STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
CAP = "--cap-lints=warn"

VARIANTS = {
    # name: (toolchain, directory, profile, target, rustflags)
    "checked": (STABLE, "native", "checked", None, CAP),
    "release": (STABLE, "native", "release", None, CAP),
    "universal": (STABLE, "universal", "checked", None, CAP + " --cfg bsn1_universal_buffer"),
    "asan": (NIGHTLY, "asan", "release", HOST, CAP + " -Zsanitizer=address --cfg mon_asan"),
    "asan-universal": (NIGHTLY, "asan-universal", "release", HOST,
                       CAP + " -Zsanitizer=address --cfg mon_asan --cfg bsn1_universal_buffer"),
    "tsan": (NIGHTLY, "tsan", "release", HOST, CAP + " -Zsanitizer=thread --cfg mon_asan"),
    "miri-" + HOST: (NIGHTLY, "miri", "dev", HOST, CAP),
    "miri-" + BIG: (NIGHTLY, "miri", "dev", BIG, CAP),
    "miri-" + SMALL: (NIGHTLY, "miri", "dev", SMALL, CAP),
}


def cargo_env(variant):
    tc, d, profile, target, flags = VARIANTS[variant]
    e = base_env()
    e["RUSTUP_TOOLCHAIN"] = tc
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, d)
    e["RUSTFLAGS"] = flags
    e["CARGO_INCREMENTAL"] = "0" if variant.startswith(("miri", "asan", "tsan")) else "1"
    return e


def fresh(variant):
    """Make cargo forget what it built from other sources, whatever their time stamps say."""
    tc, d, profile, target, flags = VARIANTS[variant]
    stamp = os.path.join(TARGET, d, "stamp-" + variant)
    now = tree_hash(REPO) + tree_hash(HARNESS)
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != now:
        if variant.startswith("miri"):
            sub = os.path.join(TARGET, d, "miri", target)
            if os.path.isdir(sub):
                shutil.rmtree(sub)
        else:
            args = ["cargo", "clean", "--offline"]
            if profile != "dev":
                args += ["--profile", profile]
            if target:
                args += ["--target", target]
            for p in ("bsn1", "bsn1_serde", "bsn1_serde_macros", "bsn1-mon"):
                args += ["-p", p]
            subprocess.run(args, cwd=HARNESS, env=cargo_env(variant), stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=600)
    return stamp, now


class Built:
    """Command lines by program name; `broken` tells why the derived types were left out."""

    def __init__(self):
        self.cmd, self.broken = {}, None


def first_errors(text):
    at = [m.start() for m in re.finditer(r"^error", text, re.M)]
    return "\n".join(text[i:i + 700].split("\n\n")[0] for i in at[:3])


def build(variant, bins=("mon",), gen=None, optional=False):
    """Build the monitors.

    When they do not build with the derived types but build without them, the latter are used and
    `broken` is set: the derive macros then refuse or break documented input, which is for the
    checks of C16 and C17 to report, not for the others."""
    tc, d, profile, target, flags = VARIANTS[variant]
    stamp, now = fresh(variant)
    if os.path.exists(stamp):
        os.unlink(stamp)
    env = cargo_env(variant)
    if gen:
        env["MON_GEN"] = gen
    out = Built()
    t = time.time()
    for extra in ([], ["--no-default-features"]):
        names = [x for b in bins for x in ("--bin", b)]
        if variant.startswith("miri"):
            # Runs nothing but the argument check of the monitor; the build is what is wanted.
            env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
            cmd = ["cargo", "miri", "run", "--offline", "--target", target] + extra + names + ["--", "C00"]
        else:
            cmd = ["cargo", "build", "--offline", "--profile", profile] + extra + names
            if target:
                cmd += ["--target", target]
            if variant == "tsan":
                cmd += ["-Zbuild-std"]
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=1500)
        if p.returncode == 0:
            break
        if optional:
            out.broken = first_errors(p.stdout)
            return out
        if extra:
            log(p.stdout[-6000:])
            raise Inconclusive("building %s failed" % variant)
        out.broken = first_errors(p.stdout)
    os.makedirs(os.path.dirname(stamp), exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)
    log("built %s%s in %.1f s" % (variant, " WITHOUT the derived types" if out.broken else "", time.time() - t))
    for b in bins:
        if variant.startswith("miri"):
            out.cmd[b] = ["cargo", "miri", "run", "-q", "--offline", "--target", target] + extra + ["--bin", b, "--"]
        else:
            sub = ([target] if target else []) + ["debug" if profile == "dev" else profile, b]
            out.cmd[b] = [os.path.join(TARGET, d, *sub)]
    return out


# ---------------------------------------------------------------- stages

def stage(variant, tier=None, salt=0, args=(), miriflags="", timeout=None, label=None, scale=None, binary="mon",
          work=None):
    """`work`: the property whose workload is run, when it is not the one being decided."""
    return dict(variant=variant, tier=tier, salt=salt, args=list(args), miriflags=miriflags, timeout=timeout,
                label=label or variant, scale=scale, binary=binary, work=work)


def two(**kw):
    return [stage("checked", **kw), stage("release", salt=7001, **kw)]


def miri_stages(seeds, targets=(HOST, BIG, SMALL), prop_args=(), trees=0):
    out = []
    for t in targets:
        for s in range(seeds):
            out.append(stage("miri-" + t, tier="tiny", salt=9001 * (s + 1), args=prop_args,
                             label="miri %s #%d" % (t.split("-")[0], s)))
    for s in range(trees):
        out.append(stage("miri-" + HOST, tier="tiny", salt=9001 * (s + 101), args=prop_args,
                         miriflags="-Zmiri-tree-borrows", label="miri tree-borrows #%d" % s))
    return out


def other_machines(seeds):
    """The functional monitors on a 32-bit and a big-endian machine. Borrow rules are for C10."""
    return [stage("miri-" + t, tier="tiny", salt=9001 * (s + 201), miriflags="-Zmiri-disable-stacked-borrows",
                  label="%s #%d" % (t.split("-")[0], s)) for t in (BIG, SMALL) for s in range(seeds)]


# What the quick tier decides on these machines too.
OTHER_MACHINES = ("C01", "C02", "C03", "C04", "C08", "C09", "C12", "C14", "C20")

# Workloads of other properties that C10 runs under its observers with their own oracles muted.
BORROWED = ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C18", "C19", "C20", "C21")


def borrowed(variant, scale, salt, timeout):
    return [stage(variant, salt=salt + i, tier="quick", scale=scale, args=["--part", "muted"], timeout=timeout, work=w,
                  label="%s, workload of %s" % (variant, w)) for i, w in enumerate(BORROWED)]


# What the distinct count of each property counts.
RULES = {
    "C01": "distinct identifier octets (or refused byte strings) on which the model and the crate were compared",
    "C02": "distinct lengths and byte strings on which the model and the crate were compared",
    "C03": "distinct (type, contents) pairs on which the model and the crate were compared",
    "C04": "distinct byte strings judged by the model, accepted and refused ones",
    "C05": "distinct concatenations and failing inputs whose consumption was measured",
    "C06": "distinct (element, delivery script) pairs",
    "C07": "distinct hostile inputs processed under the memory and CPU limits",
    "C08": "distinct element states reached by edit histories",
    "C09": "distinct (identifier, contents) pairs built through all routes",
    "C10": "distinct octet states touched under the checking allocator, sanitizer or interpreter",
    "C11": "distinct pairs and copies compared",
    "C12": "distinct (type, encoding) pairs taken through all entry points",
    "C13": "distinct (type, encoding) pairs compared with the model",
    "C14": "distinct (type, byte string) pairs judged by the model, accepted and refused ones",
    "C15": "distinct (type, encoding with indefinite levels or displaced markers) pairs judged by the model",
    "C16": "distinct (derived type, byte string) pairs judged by the model, over fixed and freshly generated types",
    "C17": "distinct derive inputs given to the compiler",
    "C18": "distinct (type, encoding, sink script) triples",
    "C19": "distinct (cause, contexts) chains inspected",
    "C20": "distinct states of byte stores reached by histories",
    "C21": "distinct (entry point and type, failing call, kind of failure) combinations",
}
# Events without which a run has not observed its property.
NEED = {
    "C01": ("accepted", "redundant", "ended early", "triples", "set_number grows", "set_number shrinks"),
    "C02": ("accepted", "indefinite", "overflow", "redundant", "ended early", "pairs", "values"),
    "C03": ("read", "boolean reads", "refused empty", "refused overflow", "refused redundant", "values written"),
    "C04": ("accepted", "refused: ended early", "refused: indefinite", "refused: overflow", "refused: redundant",
            "truncation points"),
    "C05": ("moved past an element", "refusal left the cursor", "stream moved past an element",
            "elements recovered in order", "value read", "value refused, element passed"),
    "C06": ("read calls", "interruptions delivered", "fault positions", "end of stream seen", "reader error passed on",
            "whole element read", "value refused"),
    "C07": ("hostile announcements", "timed calls", "low-level successes", "values read", "values refused"),
    "C08": ("extend_from_slice", "push", "truncate", "edit identifier", "grow across boundary", "shrink across boundary",
            "length octets grew", "length octets shrank", "outgrew inline size", "huge"),
    "C09": ("routes compared", "primitive values", "text contents"),
    "C10": ("accounted cases", "fill patterns compared", "looks at shared values", "hostile reader: panic passed on",
            "hostile writer: panic passed on", "mutable views", "identifier histories", "refused UnmatchedId",
            "round trips, from_ber", "indefinite forms"),
    "C11": ("equal pairs", "different pairs", "identifier orderings", "independence histories"),
    "C12": ("round trips, from_der", "round trips, from_ber", "round trips, parse_der", "round trips, parse_ber",
            "round trips, read_der", "round trips, read_ber", "values read from a sequence",
            "a level of 127 or 128 octets", "a level of 255 or 256 octets", "a level of 65535 or 65536 octets"),
    "C13": ("contents empty", "contents to 127 octets", "contents to 255 octets", "contents to 65535 octets",
            "contents over 65535 octets", "equal values compared"),
    "C14": ("values read", "refused ExtraContentsOctet", "refused IndefiniteLength", "refused InvalidKeyValuePair",
            "refused InvalidUtf8", "refused OverFlow", "refused RedundantBytes", "refused UnmatchedId",
            "refused UnterminatedBytes", "refused by a conversion"),
    "C15": ("indefinite forms", "indefinite levels", "inner indefinite lengths put to DER", "markers dropped",
            "markers moved", "values read"),
    "C16": ("derived types", "values", "elements", "indefinite forms", "refused by a conversion", "values read"),
    "C17": ("accepted", "refused"),
    "C18": ("failures, sink error", "failures, sink full", "successes", "successes after interruptions"),
    "C19": ("bare causes", "causes behind contexts", "conversion failures", "foreign causes kept",
            "library errors out of conversions", "stream failures"),
    "C20": ("growths", "clone", "compare", "comparisons", "extend_from_slice", "filled to the last octet", "move", "octet write", "push",
            "reserve", "set_len down", "set_len up", "through a vector", "write", "write_all", "large"),
    "C21": ("failures of write_id", "failures of write_der_contents", "failures of id_len", "failures of der_contents_len",
            "failures of from_ber", "failures of from_der"),
}


# Multiplies the number of cases of the quick tier.
QUICK_SCALE = {"C01": 36, "C02": 12, "C03": 10, "C04": 24, "C05": 30, "C06": 20, "C07": 4, "C08": 20, "C09": 8, "C10": 5, "C11": 40,
               "C12": 30, "C13": 40, "C14": 10, "C15": 20, "C16": 12, "C18": 25, "C19": 40, "C20": 5, "C21": 10}
GENERATED = 4   # programs with generated types


def plan(prop, tier):
    q = tier == "quick"
    big = None if q else 5400
    if prop == "C10":
        st = two(timeout=big) + [stage("universal", salt=7003, timeout=big),
                                 stage("asan", salt=7005, timeout=big, scale=1.5 if q else None)]
        st += [stage("tsan", tier="quick", salt=7009, timeout=big, scale=.3 if q else 5)]
        if q:
            return st + borrowed("asan", .4, 7101, big) + borrowed("tsan", .1, 7201, big) + miri_stages(3, trees=2)
        st += [stage("asan-universal", salt=7007, timeout=big)]
        st += borrowed("asan", 5, 7101, big) + borrowed("tsan", 1, 7201, big)
        st += miri_stages(24, trees=8)
        for i, w in enumerate(BORROWED):
            for j, t in enumerate((HOST, BIG, SMALL)):
                st.append(stage("miri-" + t, tier="tiny", salt=7401 + 10 * i + j, args=["--part", "muted"], work=w,
                                label="miri %s, workload of %s" % (t.split("-")[0], w)))
        return st
    st = two(timeout=big)
    if prop in ("C08", "C09", "C11", "C20"):
        st += [stage("universal", salt=7003, timeout=big)]
    if prop == "C07":
        return st
    if not q:
        return st + other_machines(6)
    return st + (other_machines(3) if prop in OTHER_MACHINES else [])


def run_stage(prop, tier, seed, st, cmd, workdir):
    env = cargo_env(st["variant"])
    t = st["tier"] or tier
    s = (seed * 1000003 + st["salt"]) % (1 << 62)
    line = cmd + [st["work"] or prop, "--seed", str(s), "--tier", t] + st["args"]
    scale = st["scale"] or (QUICK_SCALE.get(prop) if t == "quick" else None)
    if scale:
        line += ["--scale", str(scale)]
    if st["variant"].startswith("miri"):
        env["MIRIFLAGS"] = ("-Zmiri-disable-isolation -Zmiri-seed=%d %s" % (s % 1000, st["miriflags"])).strip()
    if st["variant"].startswith("asan"):
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=43:detect_stack_use_after_return=1"
    if st["variant"] == "tsan":
        env["TSAN_OPTIONS"] = "exitcode=43:halt_on_error=1"
    limit = st["timeout"] or (600 if tier == "quick" else 3600)
    t0 = time.time()
    cwd = HARNESS if st["variant"].startswith("miri") else workdir
    try:
        p = subprocess.run(line, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit)
    except subprocess.TimeoutExpired:
        return dict(stage=st["label"], error="ran longer than %d s" % limit, violations=[], wall_s=time.time() - t0)
    out = p.stdout.decode("utf-8", "replace")
    err = p.stderr.decode("utf-8", "replace")
    r = dict(stage=st["label"], seed=s, wall_s=round(time.time() - t0, 1), violations=[], exit=p.returncode)
    at = ("?", 0)
    for l in out.split("\n"):
        if l.startswith("EVIDENCE "):
            r["evidence"] = json.loads(l[9:])
        elif l.startswith("CRASH\t"):
            _, g, i, msg = l.split("\t", 3)
            r["violations"].append(dict(group=g, idx=int(i), msg=msg))
        elif l.startswith("AT\t"):
            _, g, i = l.split("\t")
            at = (g, int(i))
    if "evidence" in r:
        r["violations"] += r["evidence"].pop("violations")
    if st["variant"].startswith("miri") and p.returncode not in (0, 3) and not r["violations"]:
        m = re.search(r"^error: (Undefined Behavior|memory leaked|.*[Dd]ata race|the evaluated program|.*deadlock)[^\n]*"
                      r"(\n.*?)?(?=\n\s*\n|\Z)", err, re.M | re.S)
        if m:
            r["violations"].append(dict(group=at[0], idx=at[1], msg="Miri: " + m.group(0)[:900]))
    if st["variant"] == "tsan" and "WARNING: ThreadSanitizer" in err:
        i = err.index("WARNING: ThreadSanitizer")
        r["violations"].append(dict(group=at[0], idx=at[1], msg=err[i:i + 900]))
    if st["variant"].startswith("asan") and "ERROR: AddressSanitizer" in err:
        i = err.index("ERROR: AddressSanitizer")
        for v in r["violations"]:
            if v["msg"].startswith("AddressSanitizer"):
                v["msg"] = err[i:i + 900]
    if not r["violations"] and p.returncode != 0:
        r["error"] = "ended with %d: %s" % (p.returncode, (err[-1500:] or out[-500:]))
    return r


def known_findings():
    """Entries `known: property=<id> | <exact message part>`; `fixed:` lines suppress nothing."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) \| (.+)$", l.rstrip("\n"))
            if m:
                out.append((m.group(1), m.group(2)))
    return out


def save_replay(prop, n, what):
    d = os.path.join(WORK, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(p, "w") as f:
        json.dump(what, f, indent=1)
        f.write("\n")
    return p


def conclude(prop, tier, seed, t0, results, coverage, assumptions=()):
    """Write evidence, print the verdict, return the exit code."""
    known, fresh_v, listed = known_findings(), [], []
    for r in results:
        for v in r["violations"]:
            for kp, kt in known:
                if kp == prop and kt in v["msg"]:
                    listed.append((kt, v))
                    break
            else:
                fresh_v.append((r, v))
    errors = [r for r in results if r.get("error")]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
              wall_s=round(time.time() - t0, 1), violations=len(fresh_v), assumptions=list(assumptions))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for kt in sorted(set(k for k, _ in listed)):
        log("KNOWN-FINDING: property=%s %s" % (prop, kt))
    log("%s %s seed %d: %d evaluations, %d distinct, %d stages, %.1f s" % (
        prop, tier, seed, coverage["evaluations"], coverage["distinct_nontrivial"], len(results), time.time() - t0))
    if fresh_v:
        for n, (r, v) in enumerate(fresh_v[:5]):
            path = save_replay(prop, n, dict(property=prop, tier=tier, stage=r["stage"], variant=r.get("variant"),
                                             seed=r.get("seed"), replay=r.get("replay"), **v))
            log("  [%s] %s:%s %s" % (r["stage"], v.get("group"), v.get("idx"), v["msg"][:1200]))
            log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for r in errors:
        log("ERROR in %s: %s" % (r["stage"], r["error"]))
    if errors:
        return 2
    if coverage["evaluations"] == 0 or coverage["distinct_nontrivial"] == 0:
        log("ERROR: nothing was observed")
        return 3
    missing = [e for e in NEED.get(prop, ()) if not coverage.get("events", {}).get(e)]
    if missing:
        log("ERROR: inconclusive, never observed: " + ", ".join(missing))
        return 3
    return 0


def merge(results, rule):
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=rule, samples=[], events={}, maxima={}, stages=[])
    for r in results:
        e = r.get("evidence")
        d = dict(stage=r["stage"], wall_s=r["wall_s"])
        if e:
            cov["evaluations"] += e["evaluations"]
            cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], e["distinct"])
            for k, v in e["events"].items():
                cov["events"][k] = cov["events"].get(k, 0) + v
            for k, v in e["maxima"].items():
                cov["maxima"][k] = max(cov["maxima"].get(k, 0), v)
            if len(cov["samples"]) < 30:
                cov["samples"] += e["samples"][:30 - len(cov["samples"])]
            d.update(cases=e["cases"], evaluations=e["evaluations"], distinct=e["distinct"], groups=e["groups"])
        cov["stages"].append(d)
    return cov


def run_stages(prop, tier, seed, stages, builds, results):
    """Run stages until one reports a violation."""
    todo = list(stages)
    while todo:
        # Interpreter runs are single-threaded: side by side. Native runs use all cores: one by one.
        if todo[0]["variant"].startswith("miri"):
            batch = [s for s in todo if s["variant"].startswith("miri")]
        else:
            batch = [todo[0]]
        todo = [s for s in todo if s not in batch]
        for v in dict.fromkeys(s["variant"] for s in batch):
            if v not in builds:
                builds[v] = build(v)
        with ThreadPoolExecutor(max_workers=8) as ex:
            rs = list(ex.map(lambda s: run_stage(prop, tier, seed, s, builds[s["variant"]].cmd[s["binary"]], WORK), batch))
        for s, r in zip(batch, rs):
            r["variant"] = s["variant"]
            r["replay"] = dict(args=s["args"], miriflags=s["miriflags"], tier=s["tier"] or tier, binary=s["binary"],
                               gen=s.get("gen"), work=s["work"] or prop, scale=s["scale"])
        results += rs
        if any(r["violations"] for r in rs):
            return False
    return True


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    results = []
    if prop == "C16":
        check_c16(tier, seed, results)
    elif prop == "C17":
        check_c17(tier, seed, results)
    else:
        run_stages(prop, tier, seed, plan(prop, tier), {}, results)
    return conclude(prop, tier, seed, t0, results, merge(results, RULES[prop]))


# ---------------------------------------------------------------- C16: freshly generated derived types

def generate(seed, count):
    import gen_derive
    d = os.path.join(WORK, "gen")
    os.makedirs(d, exist_ok=True)
    for i in range(GENERATED):
        with open(os.path.join(d, "g%d.rs" % i), "w") as f:
            f.write(gen_derive.module(seed * 1000 + i, count, "mon"))
    return d


def not_compiling(stage, text, replay):
    return dict(stage=stage, seed=None, wall_s=0, variant="checked", replay=replay, violations=[
        dict(group="compile", idx=0, msg="documented derive input does not compile: " + text)])


def check_c16(tier, seed, results):
    big = None if tier == "quick" else 5400
    builds = {"checked": build("checked")}
    if builds["checked"].broken:
        results.append(not_compiling("fixed derived types", builds["checked"].broken,
                                     dict(how="cd harness && cargo build --offline")))
        return
    if not run_stages("C16", tier, seed, two(timeout=big), builds, results):
        return
    for rnd in range(1 if tier == "quick" else 24):
        g = seed * 100 + rnd
        gen = generate(g, 40)
        bins = ["gen%d" % i for i in range(GENERATED)]
        variant = "checked" if rnd % 2 == 0 else "release"
        b = build(variant, bins, gen, optional=True)
        if b.broken:
            results.append(not_compiling("generated derived types", b.broken,
                                         dict(how="python3 run.py regenerate %d" % g)))
            return
        builds = {variant: b}
        st = [stage(variant, tier="quick", salt=8001 + 10 * rnd + i, label="generated types #%d.%d" % (rnd, i),
                    binary="gen%d" % i, scale=2 if tier == "quick" else 10) for i in range(GENERATED)]
        for x in st:
            x["gen"] = g
        if not run_stages("C16", tier, seed, st, builds, results):
            return


# ---------------------------------------------------------------- C17: what the compiler says

CRATE = """[package]
name = "derive-input"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
bsn1_serde = { path = "/repo/bsn1_serde" }

[profile.dev]
debug = false
"""


def compile_items(items, what):
    """Compile (number, item) pairs in one crate; return {number: first error text} and stray errors."""
    import derive_rules
    d = os.path.join(WORK, "c17")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    text, ranges = derive_rules.source(items)
    for name, content in (("Cargo.toml", CRATE), ("src/main.rs", text)):
        with open(os.path.join(d, name), "w") as f:
            f.write(content)
    lock = os.path.join(d, "Cargo.lock")
    if os.path.exists(lock):
        os.unlink(lock)
    e = base_env()
    e["RUSTUP_TOOLCHAIN"] = STABLE
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "c17")
    e["RUSTFLAGS"] = "--cap-lints=warn"
    p = subprocess.run(["cargo", "check", "--offline", "--message-format=json"], cwd=d, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, timeout=1500)
    starts = [a for _, a, _ in ranges]
    import bisect

    def lines(span):
        while span:
            if span["file_name"].endswith("src/main.rs") and "/repo/" not in span["file_name"]:
                yield span["line_start"]
            span = (span.get("expansion") or {}).get("span")

    bad, stray, ours = {}, [], False
    for l in p.stdout.split("\n"):
        if not l.startswith("{"):
            continue
        j = json.loads(l)
        if j.get("reason") != "compiler-message" or j["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        if j["target"]["name"] != "derive-input":
            stray.append(j["message"].get("rendered") or j["message"]["message"])
            continue
        ours = True
        if not j["message"]["spans"]:
            continue                      # "aborting due to ..."
        hit = False
        for sp in j["message"]["spans"]:
            for n in lines(sp):
                k = bisect.bisect_right(starts, n) - 1
                if k >= 0 and n <= ranges[k][2]:
                    bad.setdefault(ranges[k][0], j["message"]["message"])
                    hit = True
        if not hit:
            stray.append(j["message"].get("rendered") or j["message"]["message"])
    if p.returncode != 0 and not ours and not stray:
        stray.append(p.stderr[-2000:])
    log("compiled %d %s derive inputs: %d with errors" % (len(items), what, len(bad)))
    return bad, stray


def check_c17(tier, seed, results):
    import derive_rules
    t0 = time.time()
    clean = os.path.join(TARGET, "c17", "stamp")
    now = tree_hash(REPO)
    if os.path.exists(clean) and open(clean).read() != now:
        shutil.rmtree(os.path.join(TARGET, "c17"))
    os.makedirs(os.path.dirname(clean), exist_ok=True)
    with open(clean, "w") as f:
        f.write(now)
    rounds = 1 if tier == "quick" else 20
    count = 250 if tier == "quick" else 1500
    r = dict(stage="compiler", wall_s=0, seed=seed, variant=None, violations=[])
    seen, samples, events, cases = set(), [], {}, 0
    for rnd in range(rounds):
        its = list(enumerate(derive_rules.items(seed * 1000 + rnd, count)))
        yes = [x for x in its if x[1].expect == "accept"]
        no = [x for x in its if x[1].expect == "reject"]
        cases += len(its)
        replay = dict(how="python3 tools/derive_rules.py %d %d %%s" % (seed * 1000 + rnd, count))

        def fail(n, it, msg):
            r["violations"].append(dict(group=it.expect, idx=n, msg="%s\n%s\nthe input, %s:\n%s" % (
                msg, "rule: " + it.why, "derive " + it.derive, it.text("T%d" % n))))
        # A first pass over each half; refused inputs are reported together, by the macros.
        bad, stray = compile_items(no, "contradictory")
        if stray:
            raise Inconclusive("error outside the derive inputs: " + stray[0][:1500])
        silent = [x for x in no if x[0] not in bad]
        if silent:
            # Alone they may still be refused later in the compilation.
            late, stray = compile_items(silent, "so far accepted")
            for n, it in silent:
                if n not in late:
                    fail(n, it, "accepted instead of refused")
                else:
                    bad[n] = late[n]
        good, stray = compile_items(yes, "documented")
        for n, it in yes:
            if n in good:
                fail(n, it, "refused instead of accepted: " + good[n])
        if stray and not good:
            raise Inconclusive("error outside the derive inputs: " + stray[0][:1500])
        for n, it in its:
            seen.add(it.text("T"))
            k = "refused" if n in bad else "accepted"
            events[k] = events.get(k, 0) + 1
        for n, m in bad.items():
            k = "diagnostic: " + re.sub(r"`[^`]*`", "`..`", m)[:60]
            events[k] = events.get(k, 0) + 1
        for n, it in (no[:: max(1, len(no) // 12)] + yes[:: max(1, len(yes) // 6)]):
            if len(samples) < 30:
                samples.append("%s: %s -> %s" % (it.expect, it.why, bad.get(n, "compiles")))
        if r["violations"]:
            r["replay"] = dict(how=replay["how"] % r["violations"][0]["group"])
            break
    r["wall_s"] = round(time.time() - t0, 1)
    r["evidence"] = dict(evaluations=cases, distinct=len(seen), cases=cases, events=events, samples=samples,
                         maxima={}, groups=[["inputs", cases]])
    results.append(r)


def replay(path):
    w = json.load(open(path))
    if w.get("replay") and w["replay"].get("how"):
        log("to replay: " + w["replay"]["how"])
        return subprocess.run(w["replay"]["how"], shell=True, cwd=HERE).returncode
    gen = generate(w["replay"]["gen"], 40) if w["replay"].get("gen") is not None else None
    binary = w["replay"]["binary"]
    cmd = build(w["variant"], [binary], gen).cmd[binary]
    env = cargo_env(w["variant"])
    if w["variant"].startswith("miri"):
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation " + w["replay"]["miriflags"]
    line = cmd + [w["replay"]["work"], "--seed", str(w["seed"]), "--tier", w["replay"]["tier"]] + w["replay"]["args"]
    scale = w["replay"]["scale"] or QUICK_SCALE.get(w["property"])
    if scale and w["replay"]["tier"] == "quick":
        line += ["--scale", str(scale)]
    line += ["--case", "%s:%s" % (w["group"], w["idx"])]
    log(" ".join(line))
    return subprocess.run(line, cwd=HARNESS, env=env).returncode


def setup():
    for v in VARIANTS:
        if v == "asan-universal":
            continue
        build(v)
    build("checked", ["gen%d" % i for i in range(GENERATED)], generate(100, 40))
    import derive_rules
    compile_items(list(enumerate(derive_rules.items(1, 1)))[-3:-2], "sample")
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["setup"]:
            return setup()
        if a[:1] == ["replay"]:
            return replay(a[1])
        if a[:1] == ["regenerate"]:
            b = build("checked", ["gen%d" % i for i in range(GENERATED)], generate(int(a[1]), 40), optional=True)
            log(b.broken or "builds")
            return 1 if b.broken else 0
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier)
    except Inconclusive as e:
        log("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
