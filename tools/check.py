#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

check.py PROPERTY [quick|thorough]   0: held, 1: violated (VIOLATION line), 3: no verdict
check.py --replay FILE               runs the case of a replay file again
check.py --setup                     builds once
"""
import fcntl
import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
sys.path.insert(0, HERE)
from plan import ASSUMPTIONS, PLAN, SANITIZED, SANITIZED_THOROUGH  # noqa: E402

HARNESS = os.path.join(VERIF, "harness")
TARGETS = os.path.join(VERIF, "target")
EVIDENCE = os.path.join(VERIF, "evidence")
HOST = "x86_64-unknown-linux-gnu"


class NoVerdict(Exception):
    pass


def say(*text):
    print(*text, flush=True)


# ---------------------------------------------------------------- building


def seed_target(target):
    """Takes over dependencies that /repo's own build has left, which saves compiling them."""
    source = os.path.join(REPO, "target/debug")
    if os.path.isdir(target) or not os.path.isdir(f"{source}/deps"):
        return
    try:
        partial = tempfile.mkdtemp(prefix="seed.", dir=os.path.dirname(target))

        def skip(folder, files):
            if os.path.basename(folder) != "deps":
                return [f for f in files if f.startswith("perception")]
            keep = (".rlib", ".rmeta", ".so", ".d")
            return [f for f in files if "perception_eval" in f or not f.endswith(keep)]

        for part in ("deps", "build", ".fingerprint"):
            shutil.copytree(f"{source}/{part}", f"{partial}/debug/{part}", ignore=skip, symlinks=True)
        os.rename(partial, target)
    except OSError as e:
        say("seeding the target directory failed:", e)


def forget(target):
    """cargo judges by modification times; a changed tree must always be compiled."""
    for base in (f"{target}/debug", f"{target}/{HOST}/debug"):
        for name in ("perception-eval-*", "pmon-*"):
            for path in glob.glob(f"{base}/.fingerprint/{name}"):
                shutil.rmtree(path, ignore_errors=True)


def build(kind, prop, dest):
    """Builds the harness with /repo's tree and puts it to dest. kind: plain, fast, address, thread.

    Returns the compiler's complaint if it refuses what the property claims."""
    concurrent, iterators = prop == "P26", True
    os.makedirs(TARGETS, exist_ok=True)
    target = os.path.join(TARGETS, kind)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    for keep in ("CARGO_HOME", "RUSTUP_HOME"):
        if keep in os.environ:
            env[keep] = os.environ[keep]
    env.update(
        PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
        HOME=os.environ.get("HOME", "/root"),
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="1" if kind == "plain" else "0",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only",
        CARGO_TARGET_DIR=target,
        RUSTC_WRAPPER="",
        RUSTUP_TOOLCHAIN="stable-" + HOST,
    )
    argv = ["cargo", "build", "--offline", "--locked"]
    out = f"{target}/debug/pmon"
    if kind in ("address", "thread"):
        env["RUSTUP_TOOLCHAIN"] = "nightly-" + HOST
        env["RUSTFLAGS"] = f"-Zsanitizer={kind}"
        argv += ["--target", HOST]
        out = f"{target}/{HOST}/debug/pmon"
        if kind == "thread":
            argv += ["-Zbuild-std"]
    if kind == "fast":
        env["CARGO_PROFILE_DEV_OPT_LEVEL"] = "2"
    features = ["concurrent"] if concurrent else []
    with open(f"{target}.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if kind == "plain":
            seed_target(target)
        attempt = 0
        while attempt < 2:
            forget(target)
            more = ["--features", ",".join(features + (["iterators"] if iterators else []))]
            r = subprocess.run(argv + more, cwd=HARNESS, env=env, capture_output=True, text=True, errors="replace")
            if r.returncode == 0:
                shutil.copy2(out, dest)
                return ""
            if concurrent and thread_error(r.stderr):
                return r.stderr
            if iterators and iterator_error(r.stderr):
                if prop == "P17":
                    return r.stderr
                iterators = False
                continue
            # left-over build output may be at fault
            attempt += 1
            if attempt == 1:
                shutil.rmtree(target, ignore_errors=True)
    raise NoVerdict(f"the build ({kind}) fails:\n" + r.stderr[-3000:])


def thread_error(text):
    """The compiler's complaint if values can no longer be shared between threads."""
    return re.search(r"cannot be (shared|sent) between threads safely", text)


def iterator_error(text):
    """The compiler's complaint if instances, maps or visibilities cannot be iterated over."""
    return re.search(r"Iter<.*(InstanceInternal|Instance|Map|Visibility).*(is not an iterator|Iterator` is not satisfied)", text) or re.search(
        r"error.*(is not an iterator|exists for struct `[^`]*Iter<)", text
    )


# ---------------------------------------------------------------- running


def limits(kind, cpu):
    def set_them():
        os.setsid()
        if kind in ("plain", "fast"):
            room = 12 << 30
            resource.setrlimit(resource.RLIMIT_AS, (room, room))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    return set_them


class Run:
    def __init__(self, prop, tier, seed, known, scratch):
        self.prop, self.tier, self.seed, self.known, self.scratch = prop, tier, seed, known, scratch

    def spawn(self, kind, binary, args, timeout, cpu=0):
        env = {
            "PATH": "/usr/bin:/bin",
            "HOME": self.scratch,
            "TMPDIR": self.scratch,
            "PMON_KNOWN": " ".join(self.known),
            "RUST_BACKTRACE": "0",
            # nothing may depend on these
            "TZ": "America/St_Johns",
            "LANG": "de_DE.UTF-8",
            "LC_ALL": "C",
            "RUST_LOG": "error",
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:max_allocation_size_mb=4096:hard_rss_limit_mb=12000",
            "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1",
        }
        for tool in glob.glob("/usr/bin/llvm-symbolizer*") + glob.glob("/usr/lib/llvm-18/bin/llvm-symbolizer"):
            env["ASAN_SYMBOLIZER_PATH"] = tool if os.path.basename(tool) == "llvm-symbolizer" else env.get("ASAN_SYMBOLIZER_PATH", tool)
            env["TSAN_OPTIONS"] += f":external_symbolizer_path={tool}"
            break
        log = tempfile.TemporaryFile()
        p = subprocess.Popen(
            [binary, *map(str, args)], cwd=self.scratch, env=env, stdin=subprocess.DEVNULL,
            stdout=log, stderr=subprocess.STDOUT, preexec_fn=limits(kind, cpu),
        )
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if rc == "timeout":
            p.wait()
        log.seek(0)
        text = log.read().decode("utf-8", "replace")
        return rc, text

    def go(self, kind, binary, cases, workers, max_s):
        """Runs the cases. Returns the report and a violation or None."""
        scratch, notes = tempfile.mkdtemp(dir=self.scratch), tempfile.mkdtemp(dir=self.scratch)
        out = os.path.join(self.scratch, f"{kind}.json")
        rc, text = self.spawn(
            kind, binary, ["run", self.prop, self.seed, cases, workers, max_s, scratch, notes, out, self.tier],
            timeout=max_s + 120,
        )
        shutil.rmtree(scratch, ignore_errors=True)
        if rc == 66 and "ThreadSanitizer" in text:
            return None, {"kind": kind, "index": self.suspects(notes), "message": "ThreadSanitizer: " + first_report(text), "log": text}
        if rc in (0, 1, 2):
            with open(out) as f:
                report = json.load(f)
            if report["violation"]:
                return report, {"kind": kind, "log": "", **report["violation"]}
            if report["error"] or rc != 0:
                raise NoVerdict(f"the harness fails ({kind}): {report['error']} {text[-500:]}")
            return report, None
        return None, self.crash(kind, binary, rc, text, self.suspects(notes))

    def suspects(self, notes):
        found = []
        for name in sorted(os.listdir(notes)):
            with open(os.path.join(notes, name)) as f:
                value = f.read().strip()
            if value.isdigit():
                found.append(int(value))
        return found

    def crash(self, kind, binary, rc, text, suspects):
        """The process ended in the middle: which case does that, and again?"""
        what = {97: "a case does not end", "timeout": "a case does not end"}.get(rc, f"the process dies ({rc})")
        if "AddressSanitizer" in text:
            what = "AddressSanitizer: " + first_report(text)
        for index in suspects:
            seen = []
            # what takes milliseconds gets a minute of processor time
            for _ in range(2):
                scratch = tempfile.mkdtemp(dir=self.scratch)
                again, log = self.spawn(
                    kind, binary, ["one", self.prop, self.seed, index, scratch, self.tier],
                    timeout=100 if self.prop == "P26" else 200, cpu=400 if self.prop == "P26" else 60,
                )
                shutil.rmtree(scratch, ignore_errors=True)
                if again == 1 or (again == 66 and "ThreadSanitizer" in log):
                    return {"kind": kind, "index": index, "message": log.strip()[-3000:], "log": log}
                if again in (0, 2) or (again == "timeout" and self.prop != "P26"):
                    break
                seen.append((again, log))
            if len(seen) == 2:
                again, log = seen[1]
                ending = {-signal.SIGXCPU: "uses more than a minute of processor time", "timeout": "does not end",
                          -signal.SIGSEGV: "ends in a segmentation fault or stack overflow",
                          -signal.SIGABRT: "aborts (stack overflow, failed allocation or memory error)"}.get(again, f"ends with {again}")
                return {"kind": kind, "index": index, "message": f"{what}; alone, the case {ending}, twice: {log.strip()[:600]}", "log": text + log}
        raise NoVerdict(f"{what}, but no case does so alone ({kind}, cases {suspects}): {text[-1500:]}")


def first_report(text):
    lines = [l.strip() for l in text.splitlines() if l.strip()]
    for i, l in enumerate(lines):
        if "WARNING: ThreadSanitizer" in l or "ERROR: AddressSanitizer" in l:
            return " | ".join(lines[i : i + 14])[:1500]
    return text[:500]


# ---------------------------------------------------------------- verdicts


def known_findings(prop):
    """Lines 'finding: property=P25 key=[...] text' of the file of known findings."""
    found = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) key=(\[\S+\]) (.*)", line.strip())
            if m and m.group(1) == prop:
                found.append((m.group(2), m.group(3)))
    return found


def check(prop, tier, seed):
    started = time.time()
    os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
    cases, deep, workers, rule = PLAN[prop]
    known = known_findings(prop)
    fast = tier == "thorough"
    sanitized = dict(SANITIZED_THOROUGH if fast else {}, **SANITIZED).get(prop)
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 1 << 30 else None
    scratch = tempfile.mkdtemp(prefix="pmon.", dir=base)
    runs, violation, builds = [], None, {}
    try:
        run = Run(prop, tier, seed, [k for k, _ in known], scratch)
        plan = [("fast" if fast else "plain", deep if fast else cases, workers, 560 if fast else 240)]
        if sanitized:
            plan.append((sanitized[0], sanitized[2] if fast else sanitized[1], sanitized[3], 1200 if fast else 200))
        bins = tempfile.mkdtemp(prefix="pmon-bin.")
        for kind, number, threads, max_s in plan:
            binary = os.path.join(bins, f"pmon-{kind}")
            t = time.time()
            complaint = build(kind, prop, binary)
            builds[kind] = round(time.time() - t, 1)
            if complaint:
                found = thread_error(complaint) or iterator_error(complaint)
                text = complaint[max(0, found.start() - 200) :][:1500]
                claim = "shared between threads" if prop == "P26" else "enumerated"
                violation = {"kind": kind, "index": None, "message": f"the compiler refuses that records or results are {claim}: {text}", "log": complaint}
                break
            report, violation = run.go(kind, binary, number, threads, max_s)
            if report:
                runs.append((kind, report))
            if violation:
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if "bins" in locals():
            shutil.rmtree(bins, ignore_errors=True)

    events, samples = {}, []
    for kind, r in runs:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        samples += [dict(s, build=kind) for s in r["samples"]]
    coverage = {
        "evaluations": sum(r["evaluations"] for _, r in runs),
        # the sanitized runs repeat cases of the plain one
        "distinct_nontrivial": max([r["distinct"] for _, r in runs] or [0]),
        "rule": rule + " Distinct: by what the monitors saw in the case (counts of judged events and fingerprints of situations).",
        "samples": samples[:6] or ["no case finished"],
        "judged_events": events,
        "distinct_situations": max([r["situations"] for _, r in runs] or [0]),
        "runs": [{"build": k, "evaluations": r["evaluations"], "nontrivial": r["nontrivial"], "wall_s": round(r["wall_s"], 1)} for k, r in runs],
        "build_s": builds,
    }
    inputs = [dict(r["census"], build=k) for k, r in runs if r.get("census")]
    if inputs:
        # of every fourth case: which features the judged objects, pairs and frames had
        coverage["inputs_seen"] = inputs
    if known:
        coverage["known_findings_seen"] = [dict(k, build=kind) for kind, r in runs for k in r["known"]]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - started, 1), "violations": 1 if violation else 0,
    }
    path = os.path.join(EVIDENCE, f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)

    if violation:
        replay = os.path.join(EVIDENCE, "replay", f"{prop}.json")
        with open(replay, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "build": violation["kind"], "index": violation["index"],
                       "message": violation["message"], "log": violation["log"][-20000:],
                       "how": f"python3 tools/check.py --replay {os.path.relpath(replay, VERIF)}"}, f, indent=1)
        say(violation["message"][:3000])
        say(f"VIOLATION property={prop} replay={replay}")
        return 1

    with open(os.path.join(HERE, "floors.json")) as f:
        floors = json.load(f).get(prop, {})
    missed = {k: (events.get(k, 0), v) for k, v in floors.items() if events.get(k, 0) < v}
    if not floors or missed:
        raise NoVerdict(f"the monitors of {prop} saw too little to decide: (seen, needed) {missed}")
    for _, text in known:
        say(f"KNOWN-FINDING: property={prop} {text}")
    say(f"{prop} held on {coverage['evaluations']} executions ({coverage['distinct_nontrivial']} distinct), {sum(events.values())} judged events, {evidence['wall_s']} s")
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    scratch = tempfile.mkdtemp(prefix="pmon.")
    try:
        binary = os.path.join(scratch, "pmon")
        complaint = build(r["build"], r["property"], binary)
        if complaint:
            say(complaint[-3000:])
            return 1
        indices = r["index"] if isinstance(r["index"], list) else [r["index"]]
        run = Run(r["property"], r["tier"], r["seed"], [k for k, _ in known_findings(r["property"])], scratch)
        worst = 0
        for index in indices:
            work = tempfile.mkdtemp(dir=scratch)
            rc, text = run.spawn(r["build"], binary, ["one", r["property"], r["seed"], index, work, r["tier"]], 300)
            say(f"case {index}: {rc}\n{text[-5000:]}")
            worst = worst or (0 if rc == 0 else 1)
        return worst
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    args = sys.argv[1:]
    try:
        if args[:1] == ["--replay"]:
            return replay(args[1])
        if args[:1] == ["--setup"]:
            with tempfile.TemporaryDirectory() as d:
                build("plain", "P01", os.path.join(d, "pmon"))
            return 0
        tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(args[0], tier, int(os.environ.get("VERIF_SEED", "1")))
    except NoVerdict as e:
        say("NO VERDICT:", e)
        return 3


if __name__ == "__main__":
    sys.exit(main())
