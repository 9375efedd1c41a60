"""Shared by the checks that enumerate programs in Python (P17, P19): builds many small modules into a few
programs, runs them, and tells which module each compiler error belongs to."""
import re
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path


class Case:
    """One module `pN` of a program. `code` is its content; `run` is an expression of type
    `Result<u32, String>` (the number of things compared) evaluated outside of it, in which `$` is the
    module's path."""
    __slots__ = ("key", "family", "code", "run", "outside")

    def __init__(self, family, key, code, run=None, outside=""):
        self.family, self.key, self.code, self.run, self.outside = family, key, code, run, outside

    def __repr__(self):
        return self.code.strip() + ("\n// checked by: " + self.run if self.run else "")


# index of the part that all programs have in common
COMMON = -1


def source(cases, idx, head):
    """The text of a program made of the cases with the given indices, and the case of each line."""
    lines = head.rstrip("\n").split("\n")
    owner = {}
    runs = []
    for i in idx:
        c = cases[i]
        start = len(lines) + 1
        if c.outside:
            lines += c.outside.strip("\n").split("\n")
        lines.append("pub mod p%d {" % i)
        lines += c.code.strip("\n").split("\n")
        lines.append("}")
        if c.run:
            lines.append("fn r%d() -> Result<u32, String> { %s }" % (i, c.run.replace("$", "self::p%d" % i)))
            runs.append("    one(%d, r%d, &mut n);" % (i, i))
        for k in range(start, len(lines) + 1):
            owner[k] = i
    lines += ["fn one(i: u32, f: fn() -> Result<u32, String>, n: &mut u32) {",
              "    match ::std::panic::catch_unwind(f) { Ok(Ok(k)) => *n += k, Ok(Err(e)) => println!(\"BAD {} {}\", i, e.replace('\\n', \" \")), Err(_) => println!(\"BAD {} panics\", i) }",
              "}",
              "fn main() {", "    let mut n = 0;"] + runs + ["    println!(\"DONE {}\", n);", "}"]
    return "\n".join(lines) + "\n", owner


def decide(run, name, cases, head, shards, toml_extra="", deps=None, edition="2018", execute=True):
    """Compiles (and runs) all cases. Returns ({index: message}, compared). Cases that fail to compile are
    taken out until the rest compiles, since rustc stops at early errors. If the part that all programs have
    in common (`head`) doesn't compile, `COMMON` is an index of the result."""
    bad = {}
    done = 0
    left = list(range(len(cases)))
    for rounds in range(8):
        d = run.package(name)
        toml = '[package]\nname = "gen_%s"\nversion = "0.1.0"\nedition = "%s"\nautobins = false\n%s\n' % (name, edition, toml_extra)
        toml += deps or '[dependencies]\nhyperdrive = { path = "/repo" }\n'
        toml += "\n" + (run.MC / "profile.toml").read_text()
        owners = []
        n = min(shards, max(1, len(left)))
        for s in range(n):
            text, owner = source(cases, left[s::n], head)
            run.put(d / "src" / ("s%d.rs" % s), text)
            owners.append(owner)
            toml += '\n[[bin]]\nname = "%s_%d"\npath = "src/s%d.rs"\n' % (name, s, s)
        run.put(d / "Cargo.toml", toml)
        ok, msgs, err = run.cargo(["build" if execute else "check", "--bins", "--keep-going"], d)
        now = {}
        common = None
        for m in run.errors(msgs):
            if "gen/" not in m["target"]["src_path"]:
                raise run.Broken("build of %s failed:\n%s" % (m["package_id"], m["message"]["rendered"]))
            spans = list(m["message"]["spans"])
            for c in m["message"]["children"]:
                spans += c["spans"]
            for s in spans:
                # errors in macro expansions: walk out to the item
                while s["expansion"] and not re.match(r"s\d+\.rs$", Path(s["file_name"]).name):
                    s = s["expansion"]["span"]
                f = re.match(r"s(\d+)\.rs$", Path(s["file_name"]).name)
                i = owners[int(f.group(1))].get(s["line_start"]) if f else None
                if i is not None:
                    now.setdefault(i, "doesn't compile: " + m["message"]["rendered"])
                    break
                if f:
                    common = "doesn't compile: " + m["message"]["rendered"]
        if not ok and not now and common:
            # what all programs have in common only uses the public interface and its derives
            bad[COMMON] = common
            return bad, 0
        if not ok and not now:
            raise run.Broken("cargo failed on %s:\n%s" % (name, err[-3000:]))
        bad.update(now)
        left = [i for i in left if i not in now]
        if ok:
            break
    else:
        return bad, 0
    if execute and left:
        bins = [run.TARGET / "debug" / ("%s_%d" % (name, s)) for s in range(n)]
        with ThreadPoolExecutor(n) as ex:
            for out, rc in ex.map(lambda b: run.output([str(b)]), bins):
                m = re.search(r"^DONE (\d+)$", out, re.M)
                for b in re.finditer(r"^BAD (\d+) (.*)$", out, re.M):
                    bad[int(b.group(1))] = b.group(2)
                if not m:
                    raise run.Broken("a program of %s ended with %s: %s" % (name, rc, out[-500:]))
                done += int(m.group(1))
    return bad, done
