#!/usr/bin/env python3
"""Decide one property of faerie against the TLA+ specification in spec/.

    check.py --prop C08            (VERIF_TIER=quick|thorough, VERIF_SEED=n)
    check.py --replay FILE         re-run and re-judge one recorded violation
    check.py --setup               build the harness only

The stages of a check:
  1. the harness (a driver around the real crate, rebuilt from /repo) is compiled;
  2. TLC checks the specification itself on small constants (spec/MC*.tla) and prints behaviours
     of it, which become call programs; tools/gen.py proposes further random programs;
  3. the harness runs all programs against the real crate and records a trace;
  4. TLC validates every recorded trace against spec/Trace.tla (spec/Bulk.tla for very large artifacts), judging
     the clauses of this property at every call.
All verdicts come from TLC evaluating the specification; this file only moves data around.
Exit 0: held on everything explored; 1: VIOLATION; 2: the machinery failed."""
import argparse, collections, fcntl, glob, json, os, re, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import gen, models  # noqa: E402

REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
FH = os.path.join(HARNESS, "target/debug/fh")
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8
IDS = ["C%02d" % i for i in range(1, 24)]


class ToolError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def machinery(what):
    raise ToolError(what)


def build():
    os.makedirs(os.path.join(HERE, "scratch"), exist_ok=True)
    with open(os.path.join(HERE, "scratch", "build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # never trust timestamps of a copied tree: the crate and the driver are always recompiled
        for d in glob.glob(os.path.join(HARNESS, "target/debug/.fingerprint/faerie-*")) + glob.glob(os.path.join(HARNESS, "target/debug/.fingerprint/fh-*")):
            shutil.rmtree(d, ignore_errors=True)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HARNESS, "target"), CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(FH):
            raise ToolError("building the harness failed:\n" + p.stdout[-3000:])


def limit():
    # an object or a loop gone wild must end as a recorded abort, not take the machine down
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    os.setsid()


def launch(programs, work, tag, shards):
    pf = os.path.join(work, tag + ".programs")
    with open(pf, "w") as f:
        for p in programs:
            f.write(json.dumps(p, separators=(",", ":")) + "\n")
    prefix = os.path.join(work, tag)
    return prefix, subprocess.Popen([FH, "run", pf, prefix, str(shards)], stdout=subprocess.DEVNULL, stderr=open(prefix + ".err", "w"), preexec_fn=limit)


def finished(prefix, p, deadline):
    """wait for a driver: None, "abort" or "hang" (a call that makes no progress for a minute)"""
    while True:
        try:
            rc = p.wait(timeout=.2)
            if rc == 2:
                raise ToolError("harness: " + open(prefix + ".err", errors="replace").read()[-2000:])
            return "abort" if rc else None
        except subprocess.TimeoutExpired:
            if [c for c in glob.glob(prefix + ".*.cur") if os.path.exists(c) and time.time() - os.path.getmtime(c) > 60]:
                kill(p)
                return "hang"
            if time.time() > deadline:
                kill(p)
                raise ToolError("the programs take too long")


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def whole(path):
    """the complete lines of a trace"""
    data = open(path).read() if os.path.exists(path) else ""
    return data[:data.rfind("\n") + 1].splitlines()


def drive(programs, work, tag, timeout, depth=0):
    """Run programs on the real crate; returns the trace paths."""
    deadline = time.time() + timeout
    shards = SHARDS if depth == 0 else max(1, min(SHARDS, len(programs)))
    prefix, p = launch(programs, work, tag, shards)
    try:
        how = finished(prefix, p, deadline)
    finally:
        kill(p)
    traces = [prefix + ".%d.ndjson" % i for i in range(shards)]
    if how:
        # the process died or hung in some call: each program under way is run again by itself, then the rest
        suspects, rest = [], []
        for i, t in enumerate(traces):
            cur, lines = prefix + ".%d.cur" % i, whole(t)
            if os.path.exists(cur) or not os.path.exists(t):
                at = int((open(cur).read().split() or [i])[0]) if os.path.exists(cur) else i
                if at < len(programs):
                    suspects.append(programs[at])
                    lines = [x for x in lines if json.loads(x)["pid"] != programs[at]["id"]]
                    rest += [programs[k] for k in range(at + shards, len(programs), shards)]
            with open(t, "w") as f:
                f.write("".join(x + "\n" for x in lines))
        runs = [(x,) + launch([x], work, "%s.s%d" % (tag, k), 1) for k, x in enumerate(suspects)]
        try:
            for x, pre, q in runs:
                h = finished(pre, q, deadline)
                if h:
                    salvage(x, pre, h)
                traces.append(pre + ".0.ndjson")
        finally:
            for _, _, q in runs:
                kill(q)
        if rest and depth < 3:
            traces += drive(rest, work, tag + "r", max(10, deadline - time.time()), depth + 1)
    return [t for t in traces if os.path.exists(t) and os.path.getsize(t) > 0]


def salvage(program, prefix, how):
    """The process died or hung in a call: that is the outcome of the call."""
    t, cur = prefix + ".0.ndjson", prefix + ".0.cur"
    lines = whole(t)
    b = int((open(cur).read().split() or [0, 0])[1]) if os.path.exists(cur) else 0
    o = dict(program["ops"][b])
    last = json.loads(lines[-1]) if lines else {}
    if o["op"] == "join":
        o.update(pid=program["id"], seq=b, first=b == 0, res={"r": "noobject", "e": how, "s": ""}, img={"ok": False})
        lines.append(json.dumps(o))
    elif last.get("seq") != b and o["op"] not in ("new", "clone", "absorb", "build", "data", "cmp"):
        o.setdefault("slot", 0)
        o.update(pid=program["id"], seq=b, first=b == 0, res={"r": how, "e": how, "s": "", "msg": ""}, imps=last.get("imps", []), und=last.get("und", []))
        if program.get("kf"):
            o["kf"] = True
        if o["op"] == "link":
            o["rel"] = gen.AUTO
        if o["op"] == "emit" and not o["via"].endswith("_as"):
            o["bf"] = next((x["bf"] for x in reversed(program["ops"][:b]) if x["op"] in ("new", "settarget") and x.get("slot", 0) == o["slot"]), "elf")
        lines.append(json.dumps(o))
    with open(t, "w") as f:
        f.write("".join(x + "\n" for x in lines))


def java(args, env, log, timeout, heap):
    cmd = ["timeout", "-k", "5", str(int(timeout)), "java", "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + os.path.dirname(log), "-cp", CP, "tlc2.TLC"] + args
    return subprocess.Popen(cmd, env=dict(os.environ, **env), stdout=open(log, "w"), stderr=subprocess.STDOUT)


def unq(line):
    """a line TLC printed for a string value"""
    line = line.strip()
    return json.loads(line) if line.startswith('"') else line


class Verdict:
    def __init__(self):
        self.fails, self.counts = {}, collections.Counter()
        self.states = self.transitions = self.traces = 0
        self.errors = []
        self.notes = []


def validate(traces, work, tag, cfgs, v, timeout, tries=4):
    """TLC on every trace shard; a configuration names its module."""
    todo = list(enumerate(traces))
    deadline = time.time() + timeout
    for attempt in range(tries):
        procs = []
        for i, t in todo:
            log = os.path.join(work, "%s.%d.%d.log" % (tag, i, attempt))
            md = os.path.join(work, "%s.%d.md" % (tag, i))
            cfg = cfgs if isinstance(cfgs, str) else cfgs[t]
            procs.append((i, t, log, java(["-noGenerateSpecTE", "-workers", "1", "-config", cfg, "-metadir", md,
                                           os.path.join(SPEC, "Bulk.tla" if os.path.basename(cfg).startswith("bulk") else "Trace.tla")],
                                          {"TRACE": t}, log, max(10, deadline - time.time()), "3g")))
        todo = []
        for i, t, log, p in procs:
            rc = p.wait()
            shutil.rmtree(os.path.join(work, "%s.%d.md" % (tag, i)), ignore_errors=True)
            text = open(log, errors="replace").read()
            for m in re.finditer(r'^"FAIL .*$', text, re.M):
                f = json.loads(unq(m.group(0))[5:])
                v.fails[(f["p"], f["c"], f["pid"], f["k"], f["op"])] = f
            if rc == 0:
                m = re.search(r'^"COUNTS .*$', text, re.M)
                for k, n in (json.loads(unq(m.group(0))[7:]) or {}).items() if m else []:
                    v.counts[k] += n
                m = re.search(r"(\d+) states generated, (\d+) distinct", text)
                v.transitions += int(m.group(1)) - 1
                v.states += int(m.group(2))
                v.traces += sum(1 for x in open(t) if '"first":true' in x or '"first": true' in x)
                continue
            if rc in (124, 137):
                v.errors.append("TLC ran out of time on " + os.path.basename(t))
                continue
            # an evaluation error: leave the program at fault out and judge the others
            err = re.search(r"(?s)Error: .{0,900}", text)
            ls = re.findall(r"^/\\ l = (\d+)", text, re.M)
            v.errors.append("TLC could not evaluate an event of %s: %s" % (os.path.basename(t), err.group(0) if err else text[-600:]))
            if not ls:
                continue
            lines = open(t).read().splitlines()
            k = min(int(ls[-1]), len(lines)) - 1
            pid = json.loads(lines[k])["pid"]
            v.errors[-1] += "\n(program %s, line %d)" % (pid, k + 1)
            with open(t, "w") as f:
                f.write("".join(x + "\n" for x in lines if json.loads(x)["pid"] != pid))
            if os.path.getsize(t):
                todo.append((i, t))
        if not todo:
            break


def known_findings(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def judge_cfg(prop, work, tier="quick"):
    cfg = os.path.join(work, "judge.cfg")
    with open(cfg, "w") as f:
        f.write('SPECIFICATION Spec\nCONSTANT Judge = {"%s"}\nCONSTANT Fidelity = %d\nINVARIANT Sound\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n' % (prop, 1 if tier != "quick" else 4 if prop in ("C07", "C14") else 0))
    return cfg


def is_bulk(program):
    return any(o["op"] == "bulk" for o in program["ops"])


def bulk_cfg(prop, work):
    cfg = os.path.join(work, "bulk.cfg")
    with open(cfg, "w") as f:
        f.write('SPECIFICATION Spec\nCONSTANT Judge = "%s"\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n' % prop)
    return cfg


# random programs per property and tier
QUICK = collections.defaultdict(lambda: 6000, {"C06": 3000, "C19": 4400, "C22": 2800, "C20": 4000, "C18": 4000, "C23": 2400})


def size(prop, tier):
    return QUICK[prop] if tier == "quick" else 3 * QUICK[prop]


def run(prop, tier, seed, work):
    t0 = time.time()
    v = Verdict()
    budget = 800 if tier == "quick" else 3 * 3600
    started = models.start(prop, tier, work)                 # stage 2: the specification itself
    build()
    t1 = time.time()
    mc = models.finish(started, seed, say, machinery)
    programs = mc["programs"] + gen.programs(prop, seed, size(prop, tier), tier == "thorough")
    kfs = known_findings(prop)
    for k in kfs:
        for n, p in enumerate(k["programs"]):
            programs.append(dict(p, id="kf-%s-%d" % (k["id"], n), kf=True))
    if tier == "thorough" and prop != "C11":
        for s in range(1, 4):
            programs += [dict(p, id="s%d-%s" % (s, p["id"])) for p in gen.programs(prop, seed + 1000 * s, size(prop, tier), True)]
    t2 = time.time()
    # in batches, so that traces never fill the disk
    batch = 12000
    samples = []
    for b in range(0, len(programs), batch):
        part = programs[b:b + batch]
        some, cfgs = [], {}
        for bulk in (True, False):
            mine = [p for p in part if is_bulk(p) == bulk]
            if mine:
                new = drive(mine, work, "%s%d" % ("b" if bulk else "t", b // batch), budget)
                cfgs.update({t: bulk_cfg(prop, work) if bulk else judge_cfg(prop, work, tier) for t in new})
                some += new
                if not samples or not bulk:
                    samples = sample(new)
        left = budget - (time.time() - t0)
        validate(some, work, "v%d" % (b // batch), cfgs, v, max(60, left))
        for t in some:
            os.remove(t)
        if v.fails and any(not f["pid"].startswith("kf-") for f in v.fails.values()):
            break
    t3 = time.time()
    byid = {p["id"]: p for p in programs}
    expected, bad = collections.defaultdict(set), []
    for f in v.fails.values():
        if f["p"] != prop:
            continue
        k = next((k for k in kfs if f["pid"].startswith("kf-%s-" % k["id"])), None)
        if k and f["c"] in k["labels"]:
            expected[k["id"]].add(f["c"])
        else:
            bad.append(f)
    for k in kfs:
        if expected[k["id"]]:
            say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            say("note: known finding %s was not observed on this tree" % k["id"])
    bad += mc.get("violations", [])
    evidence(prop, tier, seed, v, mc, programs, samples, len(bad), time.time() - t0)
    say("%s %s seed %d: build %.1fs, model %.1fs, %d programs driven and judged %.1fs; %d states, %d transitions" %
        (prop, tier, seed, t1 - t0, t2 - t1, len(programs), t3 - t2, v.states, v.transitions))
    for k, n in sorted(v.counts.items()):
        if prop in k or k == "events":
            say("   %-46s %d" % (k, n))
    if bad:
        bad.sort(key=lambda f: len(byid[f["pid"]]["ops"]) if f["pid"] in byid else 0)
        path = os.path.join(HERE, "scratch", "replay-%s-%s-%d.json" % (prop, tier, seed))
        first = bad[0]
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "failure": first, "program": byid.get(first["pid"]),
                       "all": bad[:200], "labels": collections.Counter(x["c"] for x in bad)}, f, indent=1)
        for lab, n in collections.Counter(x["c"] for x in bad).most_common(12):
            say("   fails: %s (%d times)" % (lab, n))
        for e in v.errors[:2]:
            say("   also:", e[:300])
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if v.errors:
        for e in v.errors[:5]:
            say("ERROR", e)
        return 2
    return 0


def sample(traces):
    out = []
    for t in traces[:2]:
        prog = []
        for line in open(t):
            e = json.loads(line)
            if e["first"] and prog:
                break
            e.pop("obs", None)
            prog.append(e)
        out.append(prog[:12])
    return out


def evidence(prop, tier, seed, v, mc, programs, samples, nviol, wall):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ops = collections.Counter(o["op"] for p in programs for o in p["ops"])
    cov = {"states": v.states + mc.get("states", 0), "transitions": v.transitions + mc.get("transitions", 0),
           "traces_validated_against_impl": v.traces, "samples": samples,
           "trace_states": v.states, "model_states": mc.get("states", 0),
           "events_judged": v.counts.get("events", 0), "counts": dict(sorted(v.counts.items())),
           "programs_from_the_model": len(mc["programs"]), "calls_by_kind": dict(ops), "models": mc.get("report", []), "exhaustive": False}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(wall, 2), "violations": nviol,
          "assumptions": ["the decoders of harness/src/elf.rs and mach.rs read object bytes faithfully",
                          "TLC evaluates the specification correctly",
                          "properties are decided on the executions driven, which the specification judges completely; other executions are not seen"]}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    r = json.load(open(path))
    prop = r["property"]
    build()
    work = os.path.join(HERE, "scratch", "replay-run-%d" % os.getpid())
    os.makedirs(work)
    try:
        v = Verdict()
        traces = drive([r["program"]], work, "r", 300)
        validate(traces, work, "r", bulk_cfg(prop, work) if is_bulk(r["program"]) else judge_cfg(prop, work), v, 600)
        for t in traces:
            for line in open(t):
                e = json.loads(line)
                say(json.dumps({k: x for k, x in e.items() if k not in ("obs", "imps", "und", "first")}))
        for f in v.fails.values():
            say("FAILS", json.dumps(f))
        say("ERRORS" if v.errors else "reproduced" if v.fails else "not reproduced", *v.errors)
        return 1 if v.fails else 2 if v.errors else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", choices=IDS)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        build()
        return 0
    if a.replay:
        return replay(a.replay)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = os.path.join(HERE, "scratch", "%s-%d" % (a.prop, os.getpid()))
    os.makedirs(work)
    try:
        return run(a.prop, tier, seed, work)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        say("ERROR", e)
        sys.exit(2)
