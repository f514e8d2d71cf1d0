#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--only STAGE:INDEX] [--seed N] [--keep]

Copies the source tree under test (VERIF_REPO, default /repo) to a scratch
directory, builds it together with the monitors of harness/, runs them and
reports. Exit 0: the property held on everything observed. Exit 1: violated,
with a VIOLATION line. Exit 2: no answer (build failure, harness trouble, too
little observed)."""

import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PKG = "gitlab.cs.fau.de/since/radolan"
ASSUMPTIONS = {
    "*": ["the Go compiler, runtime and standard library of this sandbox (Go 1.27, linux/amd64) behave as documented",
          "the reference models of harness/ (file writer, catalogue, projections, colours) state the meaning correctly"],
    "C01": ["address space limited to 16 GB; no case legitimately needs 90 s of processor time"],
    "C17": ["the race detector reports races of accesses that are executed; interleavings are sampled, not enumerated"],
}


def say(*a):
    print(*a, flush=True)


def environment(scratch, race):
    env = {k: v for k, v in os.environ.items() if k in ("LANG", "LC_ALL", "LD_LIBRARY_PATH")}
    path = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env.update(PATH=path + ":" + os.environ.get("PATH", ""), HOME=scratch, GO111MODULE="off", GOENV="off", GOTOOLCHAIN="local",
               GOPROXY="off", GOFLAGS="-buildvcs=false", GOWORK="off", GOTELEMETRY="off",
               GOPATH=os.path.join(scratch, "gopath") + ":" + os.path.join(HERE, "harness"),
               GOCACHE=os.path.join(scratch, "gocache"), GOTMPDIR=scratch, TMPDIR=scratch,
               CGO_ENABLED="1" if race else "0", TZ="Europe/Berlin")
    return env


def build(env, args, out, pkg, cwd):
    p = subprocess.run(["go", "build"] + args + ["-o", out, pkg], cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        say("build of", pkg, "failed:")
        say(p.stdout[-4000:])
        return False
    return True


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out


def main():
    args = sys.argv[1:]
    only, keep = "", False
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    pos = []
    while args:
        a = args.pop(0)
        if a == "--only":
            only = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--keep":
            keep = True
        else:
            pos.append(a)
    prop = pos[0]
    tier = pos[1] if len(pos) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    scratch = tempfile.mkdtemp(prefix="radolan-verif-")

    def stop(sig, frame):
        sys.exit(2)

    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        sys.exit(run(prop, tier, seed, only, scratch))
    finally:
        if keep:
            say("kept", scratch)
        else:
            subprocess.run(["chmod", "-R", "u+w", scratch], stderr=subprocess.DEVNULL)
            shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, only, scratch):
    t0 = time.time()
    repo = os.environ.get("VERIF_REPO", "/repo")
    src = os.path.join(scratch, "gopath", "src", PKG)
    shutil.copytree(repo, src, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    race = prop == "C17"
    env = environment(scratch, race)
    mon, cli = os.path.join(scratch, "mon"), os.path.join(scratch, "radolan2png")
    if not build(env, ["-race"] if race else [], mon, "verif/mon", src):
        return 2
    if race:  # the same monitors at full speed
        cli = os.path.join(scratch, "mon-fast")
        if not build(environment(scratch, False), [], cli, "verif/mon", src):
            return 2
    if prop in ("C21", "C22") and not build(env, [], cli, PKG + "/radolan2png", src):
        return 2
    built = time.time()

    work = os.path.join(scratch, "work")
    os.mkdir(work)
    out = os.path.join(scratch, "result.json")
    cmd = [mon, "-prop", prop, "-tier", tier, "-seed", str(seed), "-src", src, "-work", work, "-cli", cli, "-out", out]
    if only:
        cmd += ["-only", only]
    renv = dict(env)
    renv["GOTRACEBACK"] = "all"
    if race:
        renv["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=50 log_path=" + os.path.join(scratch, "race")

    def limits():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if prop == "C01":
            resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))

    err_path = os.path.join(scratch, "stderr")
    timeout = 780 if tier == "quick" else 4 * 3600
    timed_out = False
    with open(err_path, "wb") as ef:
        p = subprocess.Popen(cmd, cwd=work, env=renv, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, preexec_fn=limits)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            p.kill()
            rc = p.wait()
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
    stderr = open(err_path, errors="replace").read()
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    violations = []
    if res:
        violations = res.get("violations") or []
    elif rc == 3 or "harness: " in stderr:
        say("harness trouble:", stderr[-2000:])
        return 2
    elif timed_out:
        say("no result within", timeout, "s")
        return 2
    elif "fatal error: " in stderr or "panic: " in stderr or "runtime: " in stderr or "unexpected fault address" in stderr:
        cur = ""
        try:
            cur = open(os.path.join(work, "current")).read()
        except OSError:
            pass
        m = re.search(r"(fatal error|panic): .*", stderr)
        violations = [{"stage": "process", "index": 0, "msg": "process died: " + (m.group(0) if m else "runtime error"),
                       "detail": stderr[:6000], "input": cur}]
    elif rc in (0, 1) or rc > 3:  # the monitors end with 2 or 3 only, or with a result
        violations = [{"stage": "process", "index": 0, "msg": "the process was ended by a call (exit status %d)" % rc, "detail": stderr[:6000]}]
    else:
        say("worker ended with status", rc, stderr[-2000:])
        return 2
    if res and prop == "C23" and stderr.strip():
        violations.append({"stage": "process", "index": 0, "msg": "output on standard output or error: " + stderr[:300], "detail": stderr[:6000]})
    # reports of the race detector
    races = 0
    for f in sorted(glob.glob(os.path.join(scratch, "race.*"))):
        text = open(f, errors="replace").read()
        n = text.count("WARNING: DATA RACE")
        races += n
        if n:
            violations.append({"stage": "race detector", "index": 0, "msg": "%d data race report(s)" % n, "detail": text[:8000]})

    # known findings
    fresh = []
    known = known_findings(prop)
    seen = set()
    for v in violations:
        for rx, text in known:
            if rx.search(v.get("msg", "")):
                if text not in seen:
                    seen.add(text)
                    say("KNOWN-FINDING: property=%s %s" % (prop, text))
                break
        else:
            fresh.append(v)

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    res = res or {}
    cov = {
        "evaluations": res.get("evaluations", 0),
        "distinct_nontrivial": res.get("distinct", 0),
        "rule": " ".join(res.get("rules") or []),
        "samples": res.get("samples") or [],
        "observed": res.get("observed") or {},
        "build_s": round(built - t0, 2),
    }
    if race:
        cov["race_reports"] = races
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUMPTIONS["*"] + ASSUMPTIONS.get(prop, []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if not only:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    if fresh:
        replay = os.path.join(HERE, "evidence", "violation-%s.json" % prop)
        with open(replay, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed,
                       "replay": "cd %s && python3 check.py %s %s --seed %d --only '%s:%s'" % (
                           HERE, prop, tier, seed, fresh[0]["stage"], fresh[0]["index"]),
                       "violations": fresh}, f, indent=1)
            f.write("\n")
        for v in fresh[:5]:
            say("  %s:%s %s" % (v["stage"], v["index"], v["msg"][:600]))
        say("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if res.get("unmet") and not only:
        say("too little observed:", "; ".join(res["unmet"]))
        return 2
    say("%s %s: %d evaluations, %d distinct, no violation (%.1f s)" % (
        prop, tier, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    return 0


main()
