#!/usr/bin/env python3
"""Orchestrates the checks: `run.py check P01 [quick|thorough]`, `run.py setup`.

Everything is rebuilt from /repo's working tree. Exit codes: 0 held, 1 violated, 2 the check itself failed.
"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
MC = VERIF / "mc"
TARGET = VERIF / "target"
GEN = VERIF / "gen"
REPLAY = VERIF / "replay"
SHARDS = 8

ENV = dict(os.environ)
for k in list(ENV):
    if k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET") or k.startswith("CARGO_PROFILE_"):
        del ENV[k]
ENV.update(
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
    CARGO_NET_OFFLINE="true",
    CARGO_INCREMENTAL="0",
    CARGO_TERM_COLOR="never",
    RUST_BACKTRACE="0",
    CARGO_TARGET_DIR=str(TARGET),
)


class Broken(Exception):
    """The check can't decide (tool failure, /repo doesn't build, ...)."""


def cargo(args, cwd, ok=True):
    """Runs cargo with JSON messages; returns (success, messages, stderr)."""
    p = subprocess.run(
        ["cargo"] + args + ["--offline", "--message-format=json"],
        cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
    )
    msgs = []
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            msgs.append(json.loads(line))
    return p.returncode == 0, msgs, p.stderr


def errors(msgs):
    for m in msgs:
        if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            yield m


def head():
    """Common part of generated Cargo.toml files."""
    return f"""[dependencies]
hyperdrive = {{ path = "/repo" }}
rt = {{ path = "{MC}/rt" }}
serde = {{ version = "1", features = ["derive"] }}

""" + (MC / "profile.toml").read_text()


def put(path, text):
    path.parent.mkdir(parents=True, exist_ok=True)
    if not path.exists() or path.read_text() != text:
        path.write_text(text)


def package(name):
    """Directory of a generated package, with a lock file."""
    d = GEN / name
    (d / "src").mkdir(parents=True, exist_ok=True)
    lock = d / "Cargo.lock"
    if not lock.exists():
        lock.write_text((MC / "Cargo.lock.base").read_text())
    return d


def build_bin(crate, name, extra=()):
    """Builds a committed crate under mc/ and returns its binary's path."""
    d = MC / crate
    ok, msgs, err = cargo(["build", "--bin", name] + list(extra), d)
    if not ok:
        blame(msgs, err)
    return TARGET / "debug" / name


def blame(msgs, err):
    """Explains a failed build that isn't a verdict."""
    for m in errors(msgs):
        raise Broken("build of %s failed:\n%s" % (m["package_id"], m["message"]["rendered"]))
    raise Broken("build failed:\n" + err[-3000:])


def run_json(cmd, timeout=None):
    p = subprocess.run(cmd, env=ENV, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        raise Broken("%s gave no result (exit %s):\n%s\n%s" % (cmd, p.returncode, p.stdout[-1500:], p.stderr[-3000:]))


def output(cmd, timeout=800):
    p = subprocess.run(cmd, env=ENV, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    return p.stdout, p.returncode


def merge(into, r):
    for k, v in r.items():
        if isinstance(v, bool):
            into[k] = into.get(k, True) and v
        elif isinstance(v, int):
            into[k] = into.get(k, 0) + v
        elif isinstance(v, list):
            into.setdefault(k, []).extend(v)
        elif isinstance(v, dict):
            merge(into.setdefault(k, {}), v)
        else:
            into[k] = v


# ------------------------------------------------------------------ program families

def item_of(src, line):
    """The `mod pN { ... }` around a line of a generated file."""
    lines = src.splitlines()
    i = min(line - 1, len(lines) - 1)
    while i > 0 and not re.match(r"mod p\d+ \{", lines[i]):
        i -= 1
    j = i + 1
    while j < len(lines) and not re.match(r"mod p\d+ \{|fn main", lines[j]):
        j += 1
    return "\n".join(lines[i:j])


def compile_violations(pkg, msgs, err):
    """Generated programs are all valid, so those that don't compile are violations."""
    out = []
    for m in errors(msgs):
        if "gen/" not in m["target"]["src_path"]:
            raise Broken("build of %s failed:\n%s" % (m["package_id"], m["message"]["rendered"]))
        spans = [s for s in m["message"]["spans"] if s["is_primary"]] or m["message"]["spans"]
        if not spans:
            continue
        src = Path(m["target"]["src_path"]).read_text()
        out.append({
            "program": item_of(src, spans[0]["line_start"]),
            "expected": "a valid declaration compiles",
            "got": m["message"]["rendered"][:1500],
        })
    if not out:
        raise Broken("build failed:\n" + err[-3000:])
    return out


def build_family(fam, tier, skip=()):
    gen = build_bin("model", "gen")
    d = package(fam)
    (GEN / "head.toml").write_text(head())
    p = subprocess.run([gen, fam, tier, d, str(SHARDS), GEN / "head.toml"] + ([",".join(map(str, skip))] if skip else []), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise Broken("gen failed: " + p.stderr[-2000:])
    programs = int(p.stdout)
    # hyperdrive itself has to build, or there is no verdict
    ok, msgs, err = cargo(["build", "--bins"], d)
    return programs, d, ok, msgs, err


def family_check(fam, tier, args=()):
    """Builds and runs the programs of a family. Those of families ending in `x` may be rejected by the derive; then
    they're left out."""
    programs, d, ok, msgs, err = build_family(fam, tier)
    res = {"programs": programs}
    rejected = set()
    while not ok and fam.endswith("x"):
        new = {int(re.match(r"mod p(\d+)", v["program"]).group(1)) for v in compile_violations(d, msgs, err)} - rejected
        if not new:
            break
        rejected |= new
        if len(rejected) == programs:
            return {"programs": programs, "rejected": programs, "states": 0, "transitions": 0, "runs": 0, "violations": 0, "details": [], "samples": []}
        programs, d, ok, msgs, err = build_family(fam, tier, sorted(rejected))
    if fam.endswith("x"):
        res["rejected"] = len(rejected)
    if not ok:
        v = compile_violations(d, msgs, err)
        res.update(states=0, transitions=0, runs=0, violations=len(v), details=v[:10], samples=v[:1])
        return res
    bins = [TARGET / "debug" / ("%s_%d" % (fam, i)) for i in range(SHARDS)]
    with ThreadPoolExecutor(SHARDS) as ex:
        for r in ex.map(lambda b: run_json([str(b)] + list(args)), bins):
            merge(res, r)
    return res


# ------------------------------------------------------------------ bookkeeping

def known_findings(prop):
    out = {}
    for line in (VERIF / "KNOWN_FINDINGS.txt").read_text().splitlines():
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def finish(prop, tier, level, res, coverage, t0, assumptions):
    known = known_findings(prop)
    fresh, seen = [], set()
    for d in res.get("details", []):
        k = d.get("key")
        if k in known:
            seen.add(k)
        else:
            fresh.append(d)
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    (VERIF / "evidence").mkdir(exist_ok=True)
    cov = dict(coverage)
    cov["samples"] = [shorten(s) for s in res.get("samples", [])[:8]]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
    }
    (VERIF / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1))
    if fresh:
        REPLAY.mkdir(exist_ok=True)
        p = REPLAY / (prop + ".json")
        p.write_text(json.dumps({"property": prop, "violations": fresh[:20]}, indent=1))
        d = fresh[0]
        print("first violation: " + json.dumps(shorten(d), indent=1))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if res.get("violations", 0) and not seen:
        raise Broken("violations counted but not described")
    print("%s held: %s" % (prop, json.dumps({k: v for k, v in cov.items() if k != "samples"})[:1500]))
    return 0


def shorten(x, n=1200):
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return [shorten(v, n) for v in x[:40]]
    if isinstance(x, str) and len(x) > n:
        return x[:n] + "..."
    return x


PROGRAM_ASSUMPTIONS = [
    "programs and requests beyond the stated bounds behave like those within",
    "the reference router states the documented meaning of the attributes",
    "http::Uri hands hyperdrive the raw path and query (checked against the reference on every request)",
]


PROGRAM_RULE = ("states: distinct (program, reference outcome) pairs; transitions: (program, request) pairs of the enumerated family, "
                "evaluated in the reference; traces: executions of the real derived decoder (`from_request_and_body` in order, `from_request` in reverse order, and `from_request_sync` for up to 100 requests per program) compared with it")


def check_family(fam):
    def f(prop, tier, t0):
        res = family_check(fam, tier)
        extra = {}
        if fam == "p02":
            x = family_check("p02x", tier)
            extra["mixed_orders"] = {"programs": x.pop("programs"), "rejected_by_derive": x.pop("rejected")}
            merge(res, x)
        cov = {
            "states": res["states"], "transitions": res["transitions"], "traces_validated_against_impl": res["runs"],
            "programs": res["programs"], "subfamilies": res.get("families", {}), "outcomes": res.get("outcomes", {}),
            "targets_http_rejects": res.get("unparseable", 0), "exhaustive": True,
            "rule": PROGRAM_RULE,
        }
        cov.update(extra)
        return finish(prop, tier, "model_checking", res, cov, t0, PROGRAM_ASSUMPTIONS)
    return f


# ------------------------------------------------------------------ P06: verdicts of rustc

def write_items(name, items, shards, head_src):
    """Package with one module per item, spread over `shards` libraries-like binaries."""
    d = package(name)
    toml = '[package]\nname = "gen_%s"\nversion = "0.1.0"\nedition = "2018"\nautobins = false\n\n' % name + head()
    where = {}
    for s in range(shards):
        toml += '\n[[bin]]\nname = "%s_%d"\npath = "src/s%d.rs"\n' % (name, s, s)
        lines = head_src.split("\n")
        for i in range(s, len(items), shards):
            lines.append("mod p%d { use hyperdrive::FromRequest;" % i)
            start = len(lines)
            lines.extend(items[i].rstrip("\n").split("\n"))
            lines.append("}")
            for n in range(start, len(lines) + 1):
                where[("s%d.rs" % s, n)] = i
        lines.append("fn main() {}")
        put(d / "src" / ("s%d.rs" % s), "\n".join(lines) + "\n")
    put(d / "Cargo.toml", toml)
    return d, where


def verdicts(name, items, head_src, shards=SHARDS):
    """Which items rustc reports errors for: {index: message}; False if something else failed."""
    d, where = write_items(name, items, shards, head_src)
    ok, msgs, err = cargo(["check", "--bins", "--keep-going"], d)
    bad = {}
    for m in errors(msgs):
        if "gen/" not in m["target"]["src_path"]:
            raise Broken("build of %s failed:\n%s" % (m["package_id"], m["message"]["rendered"]))
        spans = [s for s in m["message"]["spans"] if s["is_primary"]] or m["message"]["spans"]
        for s in spans:
            # errors in macro expansions: walk out to the item
            while s["expansion"] and Path(s["file_name"]).name not in ("s%d.rs" % k for k in range(shards)):
                s = s["expansion"]["span"]
            i = where.get((Path(s["file_name"]).name, s["line_start"]))
            if i is not None:
                bad.setdefault(i, m["message"]["rendered"])
    if not ok and not bad:
        raise Broken("cargo check failed:\n" + err[-3000:])
    return bad


ACCEPT_HEAD = """#![allow(warnings)]
use hyperdrive::FromRequest;
#[derive(FromRequest)] #[get("/fwd")] pub struct Fwd;
pub struct NotAGuard;"""


def check_accept(prop, tier, t0):
    build_bin("model", "gen_accept")
    p = subprocess.run([str(TARGET / "debug/gen_accept"), tier], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise Broken("gen_accept failed: " + p.stderr[-2000:])
    rows = [json.loads(l) for l in p.stdout.splitlines()]
    stats = rows.pop()
    uniq = {}
    for r in rows:
        uniq.setdefault(r["src"], r)
    rows = list(uniq.values())
    good = [r for r in rows if r["accept"]]
    bad = [r for r in rows if not r["accept"]]
    details = []
    got = verdicts("p06ok", [r["src"] for r in good], ACCEPT_HEAD)
    for i, msg in sorted(got.items()):
        details.append({"program": good[i]["src"], "why": good[i]["why"], "expected": "accepted: well-formed and unambiguous", "got": msg[:800]})
    # items that are expected to be rejected; those without an error are tried again without the others, since
    # rustc doesn't get to all kinds of errors if there are some
    left = list(range(len(bad)))
    rounds = 0
    while left and rounds < 4:
        got = verdicts("p06bad%d" % rounds, [bad[i]["src"] for i in left], ACCEPT_HEAD)
        rounds += 1
        if not got:
            break
        left = [x for k, x in enumerate(left) if k not in got]
    for i in left[:200]:
        details.append({"program": bad[i]["src"], "why": bad[i]["why"], "expected": "rejected: ambiguous or malformed", "got": "compiles"})
    kinds = {}
    for r in rows:
        kinds[r["why"]] = kinds.get(r["why"], 0) + 1
    res = {"details": details, "violations": len(details),
           "samples": [{"program": r["src"], "accepted": r["accept"]} for r in (good[10:12] + bad[10:12] + good[-2:] + bad[-2:])]}
    cov = {"states": len(rows), "transitions": stats["pairs"], "traces_validated_against_impl": len(good) + len(bad) - len(left) if not details else len(rows) - len(details),
           "accepted": len(good), "rejected": len(bad), "kinds": kinds, "witness_paths_per_pattern": stats["paths"], "rounds_for_rejections": rounds, "exhaustive": True,
           "rule": "states: distinct declarations with a model verdict; transitions: pattern pairs whose overlap verdict in the model was itself decided by "
                   "brute force over all witness paths; traces: declarations whose verdict by rustc running the real derive was compared"}
    return finish(prop, tier, "model_checking", res, cov, t0, [
        "declarations beyond the bounds get verdicts by the same rules",
        "rustc reports an error inside every item it rejects"])


SCHEDULE_ASSUMPTIONS = [
    "schedules, faults and programs beyond the stated bounds behave like those within",
    "all nondeterminism of the code under test comes from the items, streams and wakeups the explorer controls",
]


def explored(prop, tier, t0, res, extra, rule):
    if res.get("diverged", 0) and not res.get("details"):
        raise Broken("the code under test doesn't repeat the same decisions when re-executed (%d times)" % res["diverged"])
    cov = {"states": res["states"], "transitions": res["transitions"], "traces_validated_against_impl": res["runs"]}
    for k, v in res.items():
        if k not in ("states", "transitions", "runs", "violations", "details", "samples", "diverged"):
            cov[k] = v
    cov["exhaustive"] = not res.get("truncated", 0)
    cov["rule"] = rule
    cov.update(extra)
    return finish(prop, tier, "model_checking", res, cov, t0, SCHEDULE_ASSUMPTIONS)


DYN_RULE = ("states: nodes of the decision trees (outcome and readiness of every guard, body decoder and body poll, spurious polls, early drops); "
            "transitions: calls and polls executed; traces: complete executions of real derived decoders, each compared with the reference (calls, their order, result)")


def check_dyn(prop, tier, t0):
    res = family_check("p08", tier, [prop, tier])
    return explored(prop, tier, t0, res, {}, DYN_RULE)


AMC_RULES = {
    "P07": "transitions: (query type, query string) pairs, all strings over an alphabet; each decoded by the real derive and compared with serde_urlencoded alone",
    "P09": "states: nodes of the decision trees over all deliveries (portions, empty chunks, delays, failures) of all documents; transitions: calls and polls; traces: complete executions compared with the parser alone",
    "P11": "states: nodes of the decision trees (instance per request, outcomes, schedules, drops, response); transitions: calls and polls; traces: complete histories on real services, each compared with the reference",
    "P16": "states: nodes of the decision trees (closure outcomes, executor's answers, drops, poll order); transitions: polls; traces: complete executions, and runs on tokio's thread pool",
    "P18": "states: errors made (status x source, sequences and sets of methods); transitions: questions asked; each answer compared with the reference",
}
AMC_RULES["P20"] = ("states: nodes of the decision trees (outcomes, readiness, drops at every point); transitions: calls and polls; traces: complete executions of real decoders, "
                    "services and blocking futures, after each of which the live objects that belong to the request are counted")
WIRE_RULE = "; families 'on connections', 'on HTTP/2 connections' and 'clients': states: (requests, way to deliver or cut their bytes) pairs; traces: complete connections served by hyper itself, the bytes answered compared with the reference"
AMC_RULES["P11"] += WIRE_RULE
for _p in ("P12", "P13", "P14", "P15"):
    AMC_RULES[_p] = AMC_RULES["P11"]
for _p in ("P09", "P20"):
    AMC_RULES[_p] += WIRE_RULE


def amc(prop, tier):
    return run_json([str(build_bin("amc", "amc")), prop, tier])


def check_amc(prop, tier, t0):
    return explored(prop, tier, t0, amc(prop, tier), {}, AMC_RULES[prop])


def threads(tier):
    """Threads under a controlled scheduler: an instrumented build of hyperdrive and of a crate using it."""
    d = MC / "conc"
    old = dict(ENV)
    ENV.update(RUSTC_WRAPPER=str(d / "wrap.sh"), CARGO_TARGET_DIR=str(TARGET / "conc"))
    try:
        ok, msgs, err = cargo(["build"], d)
    finally:
        ENV.clear()
        ENV.update(old)
    if not ok:
        blame(msgs, err)
    res = {}
    with ThreadPoolExecutor(SHARDS) as ex:
        for r in ex.map(lambda i: run_json([str(TARGET / "conc/debug/conc"), str(i), str(SHARDS), tier]), range(SHARDS)):
            merge(res, r)
    return res


def check_concurrent(prop, tier, t0):
    res = amc(prop, tier)
    t = threads(tier)
    for k in ("states", "transitions", "runs", "violations"):
        res[k] += t.pop(k)
    res["details"] += t.pop("details")
    res["samples"] += t.pop("samples")
    res["threads"] = t
    return explored(prop, tier, t0, res, {}, AMC_RULES[prop] + "; threads: decisions at scheduling points, points passed, complete schedules of real threads each compared with the requests alone")


def check_query(prop, tier, t0):
    res = family_check("p07", tier)
    r = amc(prop, tier)
    cov = {
        "states": res["states"] + r["states"], "transitions": res["transitions"] + r["transitions"], "traces_validated_against_impl": res["runs"] + r["runs"],
        "programs": res["programs"], "subfamilies": res.get("families", {}), "outcomes": res.get("outcomes", {}),
        "query_strings": r["families"], "targets_http_rejects": res.get("unparseable", 0) + r["targets_http_rejects"], "exhaustive": True,
        "rule": PROGRAM_RULE + "; " + AMC_RULES[prop],
    }
    both = {"details": res.get("details", []) + r["details"], "samples": res["samples"], "violations": res["violations"] + r["violations"]}
    return finish(prop, tier, "model_checking", both, cov, t0, PROGRAM_ASSUMPTIONS + ["serde_urlencoded is the documented meaning of query data"])


def check_lifetimes(prop, tier, t0):
    res = family_check("p08", tier, [prop, tier])
    merge(res, amc(prop, tier))
    return explored(prop, tier, t0, res, {}, AMC_RULES[prop])


PYTHON_RULES = {
    "P17": "states: programs (shapes and markings of contexts, sequences of requirements); transitions: programs plus references and decoded values compared; traces: programs compiled and run with the real derives",
    "P19": "states: programs (names x roles, shapes, scopes, editions, dependencies); transitions: programs plus decoded values compared; traces: programs compiled (and run) with the real derives",
}


def check_python(prop, tier, t0):
    import context, hygiene
    res = {"P17": context, "P19": hygiene}[prop].explore(sys.modules[__name__], tier == "thorough")
    return explored(prop, tier, t0, res, {}, PYTHON_RULES[prop])


CHECKS = {
    "P17": check_python,
    "P19": check_python,
    "P08": check_dyn,
    "P10": check_dyn,
    "P06": check_accept,
    "P01": check_family("p01"),
    "P02": check_family("p02"),
    "P03": check_family("p03"),
    "P04": check_family("p04"),
    "P05": check_family("p05"),
    "P07": check_query,
}
for _p in ("P09", "P11", "P12", "P13", "P14", "P15", "P16", "P18"):
    CHECKS[_p] = check_amc
CHECKS["P15"] = check_concurrent
CHECKS["P20"] = check_lifetimes


def main():
    cmd = sys.argv[1]
    if cmd == "check":
        prop = sys.argv[2]
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        t0 = time.time()
        try:
            sys.exit(CHECKS[prop](prop, tier, t0))
        except Broken as e:
            print("ERROR: the check could not decide: %s" % e)
            sys.exit(2)
    elif cmd == "setup":
        build_bin("model", "gen")
    else:
        sys.exit("usage: run.py check PROPERTY [quick|thorough] | setup")


if __name__ == "__main__":
    main()
