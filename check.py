#!/usr/bin/env python3
"""Launcher of the checks: python3 check.py <property> | --replay <file>

Builds what the check needs from /repo's working tree, runs the engines, merges what they covered
into evidence/<property>.json.  Exit 0: held; 1: violated (VIOLATION line); 2: no answer.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(WORK, "target")
REPLAYS = os.path.join(VERIF, "replays")
SEED = os.environ.get("VERIF_SEED", "1")
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()
KNOWN = open(os.path.join(VERIF, "known_findings.txt")).read().splitlines()

from properties_info import INFO  # noqa: E402


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def fail(msg):
    print("check error: " + msg, file=sys.stderr, flush=True)
    sys.exit(2)


def cargo_env(extra=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k != "CARGO_HOME" or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.update(extra or {})
    return env


class NoBuild(Exception):
    pass


class Lost(Exception):
    """laby does not compile for some of the architectures."""


INT = r"(?:std::num::|core::num::)?(?:NonZero<\w+>|NonZero\w+|[iu](?:8|16|32|64|128|size))"
# of a type the harness renders, the property that says how it renders
TYPES = [
    ("C06", r"^(?:&\s*)?(?:%s|bool|\(\))$" % INT),
    ("C07", r"^(?:&\s*)?f(?:32|64)$"),
    ("C01", r"^(?:&\s*)?(?:'\w+ )?(?:str|(?:std::string::)?String|char)$"),
    ("C08", r"(?:^|::)(?:Option|Cow|Arguments|RenderDisplay|RenderRaw|Raw)\b"),
    ("C09", r"(?:^|::)RenderIterator"),
]


def not_rendered(out):
    """The types that laby does not render (any more) though it should, by the property that is about them."""
    found = {}
    lacking = re.findall(r"the trait bound `([^`]+): (?:[\w:]*::)?Render` is not satisfied", out)
    for m in re.finditer(r"(?:no method named `render` found for|the method `render` exists for) .*?`([^`]+)`(?s:.{0,400}?method (?:not found in|cannot be called on) `([^`]+)`)?", out):
        lacking.append(m.group(2) or m.group(1))
    for t in lacking:
        for pid, pat in TYPES:
            if re.search(pat, t.strip()):
                found.setdefault(pid, []).append(t)
                break
    return found


class Build:
    """Builds run in parallel threads; each has its own target directory."""

    def __init__(self):
        self.threads = {}
        self.results = {}

    def start(self, name, crate, args, target=None):
        if name in self.threads:
            return
        tdir = os.path.join(TARGET, target or name)

        def go():
            cmd = ["cargo", "build", "--offline", "-q"] + args
            p = subprocess.run(cmd, cwd=os.path.join(HARNESS, crate), env=cargo_env({"CARGO_TARGET_DIR": tdir}),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            self.results[name] = (p.returncode, p.stdout, tdir)
            log("built", name, "rc", p.returncode)

        t = threading.Thread(target=go)
        t.start()
        self.threads[name] = t

    def wait(self, name):
        self.threads[name].join()
        rc, out, tdir = self.results[name]
        if rc != 0 and name.startswith("rt-"):
            raise NoBuild(out)
        if rc != 0:
            sys.stderr.write("\n".join(l for l in out.splitlines())[-6000:] + "\n")
            fail("cannot build %s against /repo" % name)
        return tdir


BUILD = Build()

# For what the guest is built, and how wide a pointer is there.
X86_64, X86 = "x86_64-unknown-linux-gnu", "i686-unknown-linux-gnu"
ARCHS = [
    ("aarch64", "aarch64-unknown-linux-gnu", 64, ""),
    ("s390x", "s390x-unknown-linux-gnu", 64, ""),
    ("armv7", "armv7-unknown-linux-gnueabihf", 32, ""),
    ("powerpc", "powerpc-unknown-linux-gnu", 32, ""),
    ("x86 with SSE2", X86, 32, ""),
    ("x86-64 with AVX2", X86_64, 64, "-C target-feature=+avx2"),
    ("x86-64 with SSE2", X86_64, 64, ""),
    ("x86 with AVX2", X86, 32, "-C target-feature=+avx2"),
]


class Guests:
    """Builds of the guest for Miri, one for each architecture, each with a standard library of its own."""

    def __init__(self):
        self.threads = []
        self.results = {}

    def start(self):
        for i, a in enumerate(ARCHS):
            t = threading.Thread(target=self.build, args=(i, a))
            t.start()
            self.threads.append(t)
            BUILD.threads["guest-%d" % i] = t

    def entry(self, i, a):
        d = os.path.join(TARGET, "guest-%d" % i)
        env = {
            "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-seed={seed}", "CARGO_NET_OFFLINE": "true",
            "CARGO_TARGET_DIR": d, "XDG_CACHE_HOME": os.path.join(d, "cache"), "RUSTFLAGS": a[3],
        }
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target", a[1]]
        return {"name": a[0], "bits": a[2], "dir": os.path.join(HARNESS, "guest"), "cmd": cmd, "env": env}

    def build(self, i, a):
        g = self.entry(i, a)
        env = cargo_env({k: v.replace("{seed}", "1") for k, v in g["env"].items()})
        p = subprocess.run(g["cmd"], cwd=g["dir"], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.results[i] = (p.returncode, p.stdout)
        log("guest for", a[0], "rc", p.returncode)

    def wait(self):
        """The file that says how to run the guests, and what is wrong with laby on some of the architectures."""
        for t in self.threads:
            t.join()
        bad = [i for i, r in self.results.items() if r[0] != 0]
        for i in bad:
            sys.stderr.write("%s:\n%s\n" % (ARCHS[i][0], self.results[i][1][-3000:]))
        lost = [i for i in bad if re.search(r"could not compile `laby(_common)?`", self.results[i][1])]
        if lost and len(lost) == len(bad) < len(ARCHS):
            return None, "laby does not compile for " + ", ".join(ARCHS[i][0] for i in lost)
        if bad:
            fail("cannot build the guest against /repo")
        f = os.path.join(RUN, "guests.json")
        with open(f, "w") as o:
            json.dump([self.entry(i, a) for i, a in enumerate(ARCHS)], o)
        return f, None


GUESTS = Guests()


def start_builds(engines):
    for e in engines:
        if e["engine"] == "rt":
            if e.get("guests"):
                GUESTS.start()
            if e["profile"] == "release":
                BUILD.start("rt-release", "rt", ["--release"])
            elif e["profile"] == "plain":
                BUILD.start("rt-plain", "rt", ["--config", "profile.dev.opt-level=0"])
            else:
                BUILD.start("rt-dev", "rt", [])
        elif e["engine"] == "pg":
            BUILD.start("pg", "pg", ["--release"])
            if e.get("decl_macro"):
                BUILD.start("laby-decl", "labylib", ["--features", "decl_macro"])
            BUILD.start("laby", "labylib", [])


def find_rlib(tdir):
    """The laby library and the directory of its dependencies, as cargo built them."""
    d = os.path.join(tdir, "debug")
    r = os.path.join(d, "liblaby.rlib")
    if not os.path.exists(r):
        c = [f for f in os.listdir(os.path.join(d, "deps")) if f.startswith("liblaby-") and f.endswith(".rlib")]
        if len(c) != 1:
            fail("cannot find the laby library in " + d)
        r = os.path.join(d, "deps", c[0])
    return r, os.path.join(d, "deps")


def engine_cmd(e, pid):
    """Command and environment of one engine run."""
    env = cargo_env({"VERIF_SEED": SEED, "VERIF_TIER": TIER, "VERIF_LABEL": e["label"], "VERIF_WORK": RUN})
    env["VERIF_PART"] = str(e.get("part", 1))
    if e.get("cpu"):
        env["VERIF_CPU"] = e["cpu"]
    if e.get("guests"):
        env["VERIF_GUESTS"], wrong = GUESTS.wait()
        if wrong:
            raise Lost(wrong)
    if e["engine"] == "rt":
        name = "rt-" + e["profile"]
        tdir = BUILD.wait(name)
        exe = os.path.join(tdir, "release" if e["profile"] == "release" else "debug", "rt")
        return [exe, pid], env
    if e["engine"] == "pg":
        tdir = BUILD.wait("pg")
        rlib, deps = find_rlib(BUILD.wait("laby"))
        env["LABY_RLIB"], env["LABY_DEPS"] = rlib, deps
        if e.get("decl_macro"):
            env["LABY_DECL_RLIB"], env["LABY_DECL_DEPS"] = find_rlib(BUILD.wait("laby-decl"))
        env["PG_MODE"] = e.get("mode", "")
        return [os.path.join(tdir, "release", "pg"), pid], env
    fail("unknown engine")


def run_engine(e, pid, extra=()):
    cmd, env = engine_cmd(e, pid)
    p = subprocess.run(cmd + list(extra), env=env, cwd=RUN)
    part = os.path.join(RUN, "%s-%s-part.json" % (pid, e["label"]))
    if p.returncode not in (0, 1) or not os.path.exists(part):
        fail("engine %s of %s ended with %s" % (e["label"], pid, p.returncode))
    with open(part) as f:
        d = json.load(f)
    os.remove(part)
    log("ran", e["label"], "rc", p.returncode, "cases", d["evaluations"])
    return p.returncode, d


def clip(x):
    """Without the middle of what is long."""
    if isinstance(x, str):
        return x if len(x) <= 600 else "%s... (%d characters) ...%s" % (x[:400], len(x), x[-100:])
    if isinstance(x, list):
        return [clip(y) for y in x] if len(x) <= 200 else [clip(y) for y in x[:150]] + ["... (%d in all)" % len(x)]
    if isinstance(x, dict):
        return {k: clip(y) for k, y in x.items()}
    return x


def empty_part():
    return {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "classes": {}, "violation": None}


def compile_violation(e, pid, what, msg):
    src = os.path.join(RUN, "compile.json")
    with open(src, "w") as f:
        json.dump({"property": pid, "engine": e["label"], "replay": {"stream": "compile", "types": what}, "message": msg}, f, indent=1)
    d = empty_part()
    d.update({"evaluations": 1, "distinct_nontrivial": 1, "samples": [{"compile": what}], "violation": {"replay": src, "message": msg}})
    return 1, d


def no_build(e, pid, out):
    """The harness does not compile against laby: a violation if laby does, and a type that should render does not."""
    sys.stderr.write(out[-6000:] + "\n")
    BUILD.start("laby", "labylib", [])
    BUILD.wait("laby")
    types = not_rendered(out).get(pid)
    if not types:
        fail("cannot build the harness against /repo")
    msg = "no Render for " + ", ".join(sorted(set(types)))
    return compile_violation(e, pid, types, msg)


def main():
    global RUN
    args = sys.argv[1:]
    replay = None
    if args and args[0] == "--replay":
        replay = os.path.abspath(args[1])
        with open(replay) as f:
            rec = json.load(f)
        pid = rec["property"]
    else:
        pid = args[0]
    if pid not in INFO:
        fail("unknown property " + pid)
    info = INFO[pid]
    RUN = os.path.join(WORK, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(RUN, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    engines = info["engines"]
    if replay:
        engines = [e for e in engines if e["label"] == rec["engine"]]
        if not engines:
            fail("no engine " + rec["engine"])
    try:
        start_builds(engines)
        code = 0
        ev = {"evaluations": 0, "distinct_nontrivial": 0, "rule": info["rule"], "samples": [], "classes": {}, "parts": {}}
        nviol = 0
        findings = []
        for e in engines:
            try:
                if replay and rec["replay"].get("stream") == "compile":
                    engine_cmd(e, pid)
                    rc, d = 0, empty_part()
                else:
                    rc, d = run_engine(e, pid, ["--replay", replay] if replay else [])
            except NoBuild as x:
                rc, d = no_build(e, pid, x.args[0])
            except Lost as x:
                rc, d = compile_violation(e, pid, x.args[0], x.args[0])
            ev["evaluations"] += d["evaluations"]
            ev["distinct_nontrivial"] += d["distinct_nontrivial"]
            ev["parts"][e["label"]] = {"evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"], "classes": d["classes"]}
            ev["samples"] += [clip(x) for x in d["samples"][: max(2, 12 // len(engines))]]
            for k, v in d.get("extra", {}).items():
                ev[k] = v
            for f in d.get("known_findings", []):
                if "finding: property=%s %s" % (pid, f) in KNOWN:
                    findings.append(f)
                elif rc == 0:
                    # not a finding on record
                    rc = 1
                    src = os.path.join(RUN, "finding.json")
                    with open(src, "w") as g:
                        json.dump({"property": pid, "engine": e["label"], "replay": {"stream": "example"}, "message": f}, g, indent=1)
                    d["violation"] = {"replay": src, "message": f}
            if rc == 1:
                code = 1
                nviol += 1
                src = d["violation"]["replay"]
                with open(src) as f:
                    body = f.read()
                h = hashlib.sha256(body.encode()).hexdigest()[:12]
                dst = os.path.join(REPLAYS, "%s-%s.json" % (pid, h))
                with open(dst, "w") as f:
                    f.write(body)
                print("violation: " + d["violation"]["message"][:3000])
                print("VIOLATION property=%s replay=%s" % (pid, dst), flush=True)
                break
        del ev["classes"]
        for f in findings:
            print("KNOWN-FINDING: property=%s %s" % (pid, f), flush=True)
        if not replay:
            out = {
                "property": pid, "tier": TIER, "seed": int(SEED), "level": "exploration", "coverage": ev,
                "assumptions": info["assumptions"], "wall_s": round(time.time() - T0, 2), "violations": nviol,
            }
            with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
                json.dump(out, f, indent=1)
        log("done", pid, "exit", code)
        return code
    finally:
        for t in BUILD.threads.values():
            t.join()
        shutil.rmtree(RUN, ignore_errors=True)


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.exit(main())
