"""Stage 2: TLC explores the specification itself (spec/MC*.tla), checks what is claimed of it,
and prints its states; they are turned into call programs for the real crate.

`start` launches the TLC processes (so that they run while the driver is compiled), `finish`
collects what they printed.  A model that TLC finds wanting is a defect of the specification,
not of the crate: it ends the check without a verdict."""
import json, os, random, re, subprocess
import gen

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "..", "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

OBJECT_PROPS = ["C02", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C21", "C22"]
FRONT_PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C19"]
AUTO = {"t": "auto", "r": [0, 0, 0], "sz": 0, "add": [0, 0, 0]}
LO_RESERVE = 65280
LARGE_PROPS = sorted(gen.LARGE) + ["C11"]

# a planted error of the emitter's model, and the property that must notice it in the scope
SENSITIVITY = {
    "C09": [("ElfBuild", "custom-not-counted", "pairs"), ("ElfBuild", "weak-counted", "pairs")],
    "C10": [("ElfBuild", "symbol-off-by-one", "links"), ("ElfBuild", "repeat-dropped", "links2"), ("ElfBuild", "weak-by-section", "links")],
    "C12": [("ElfBuild", "bss-size-zero", "pairs"), ("MachBuild", "bss-size-zero", "pairs"), ("MCLarge", "bss-size-zero", "-")],
    "C15": [("MachBuild", "weak-not-external", "pairs"), ("MCLarge", "weak-not-external", "-")],
    "C16": [("MachBuild", "own-alignment", "pairs"), ("MCLarge", "own-alignment", "-")], "C17": [("MachBuild", "reloc-base", "links"), ("MCLarge", "reloc-base", "-")],
    "C11": [("ElfBuild", "boundary", "-"), ("ElfBuild", "table-truncated", "-"), ("ElfBuild", "table-everywhere", "-"), ("ElfBuild", "symbol-off-by-one", "-")],
    "C23": [("MCLinker", "weak-by-section", "-"), ("MCLinker", "symbol-off-by-one", "-"), ("MCLinker", "weak-not-external", "-"), ("MCLinker", "reloc-base", "-")],
    "C06": [("MCSink", "once", "-"), ("MCSink", "gives-up", "-"), ("MCSink", "ignores", "-"), ("MCSink", "rewinds", "-"), ("MCSink", "truncates", "-"), ("MCSink", "appends", "-")],
}


def cfg(consts, invs, extra=()):
    out = ["SPECIFICATION Spec"]
    if consts:
        out.append("CONSTANTS " + "\n ".join("%s = %s" % kv for kv in consts.items()))
    out += list(extra)
    out.append("INVARIANTS " + " ".join(invs))
    out.append("CHECK_DEADLOCK FALSE")
    return "\n".join(out) + "\n"


def tset(xs):
    return "{" + ", ".join(json.dumps(x) for x in xs) + "}"


def objects_cfg(scope, prop, bug="none", emit=True):
    judged = [prop] if prop in OBJECT_PROPS else OBJECT_PROPS
    invs = (["Emit"] if emit else []) + (["Sound", "Holds"] if bug == "none" else ["Unnoticed"])
    return cfg({"Scope": json.dumps(scope), "Judged": tset(judged), "Bug": json.dumps(bug)}, invs)


def front_cfg(big, links, commute):
    invs = ["Emit", "Inv", "RefusedIsNeutral", "DeclOutcome", "Partition", "OnceDefined", "LinkRule", "Completable", "DeclCommute"]
    return cfg({"Big": "TRUE" if big else "FALSE", "MaxLinks": links}, invs + (["Commute"] if commute else []), ["VIEW View", "PROPERTY NeverLost"])


def linker_cfg(size, shared, judge, bug="none"):
    invs = ["Emit", "Sound", "OrderFree", "Agreement", "Locality", "StrongWins", "Growth", "OneLive", "Bridged", "Program", "Strict"] if bug == "none" else ["Unnoticed"]
    return cfg({"Size": size, "Shared2": "TRUE" if shared else "FALSE", "Judge": judge, "Bug": json.dumps(bug)}, invs)


def plan(prop, tier):
    """the models of a property: (name, module, configuration, workers, programs to take, converter)"""
    quick = tier == "quick"
    out = []
    if prop in FRONT_PROPS:
        n = {"C02": 150, "C06": 250, "C19": 150}.get(prop, 300)
        if quick:
            out.append(("front", "MCFront", front_cfg(False, 1, False), 1, n, front_program))
        else:
            out.append(("front", "MCFront", front_cfg(False, 1, True), 1, None, front_program))
            out.append(("front-big", "MCFront", front_cfg(True, 1, False), 1, 6000, front_program))
            if prop in ("C05", "C04"):
                out.append(("front-two-links", "MCFront", front_cfg(False, 2, False), 1, 6000, front_program))
    if prop == "C01":
        ex = {0, 3} if quick else {0, 3, 63}
        out.append(("absorb", "MCAbsorb", cfg({"Exponents": tset(sorted(ex)), "Triples": "FALSE"},
                    ["Emit", "Reflexive", "Symmetric", "OrderFree", "Stable", "KindSafe", "OneDefinition", "Third"]), 1, 4000 if quick else None, absorb_program))
        if not quick:
            out.append(("absorb-triples", "MCAbsorb", cfg({"Exponents": "{3}", "Triples": "TRUE"}, ["Third"]), 4, 0, absorb_program))
    if prop == "C06":
        out.append(("sink", "MCSink", cfg({"MaxLen": 4, "MaxPre": 2, "Design": '"all"'}, ["Emit", "Delivered", "Reported", "NeverMore", "Placed"], ["PROPERTY Ends"]), 1, None, sink_program))
    if prop == "C20":
        out.append(("builder", "MCBuilder", cfg({"Exponents": "{0, 4}" if quick else "{0, 4, 12, 63}"},
                    ["Emit", "OneAttribute", "KindKept", "LastWins", "Independent", "Settable"], ["VIEW View"]), 1, None, builder_program))
        out.append(("start", "MCStart", cfg({"Texts": '{"x", "faerie.o", ""}', "MaxCalls": 3 if quick else 5}, ["Emit", "LastDecides", "Folded"]), 1, None, start_program))
    if prop == "C11":
        out.append(("numbering", "MCNumbering", cfg({"Lo": 9, "MaxLinks": 1 if quick else 2, "Bug": '"none"'}, ["Emit", "Holds"]), 2 if quick else 6, 8 if quick else 80, numbering_program))
    if prop in LARGE_PROPS and (prop == "C11" or not quick):
        # all artifacts of the scope in one property, and a share of their perturbations in each
        k = LARGE_PROPS.index(prop)
        out.append(("large", "MCLarge", cfg({"Arches": '{"x86_64"}' if quick else '{"x86_64", "%s"}' % ("i686", "aarch64", "powerpc")[k % 3], "MaxLinks": 1,
                    "Slice": k, "Slices": 0 if quick else 97, "Bug": '"none"'}, ["Holds", "Agrees"]), 2 if quick else 4, 0, None))
    if prop == "C23":
        out.append(("parts", "MCLinker", linker_cfg(3, False, 2 if quick else 3), 3 if quick else 6, 450 if quick else None, linker_program))
        if not quick:
            out.append(("parts-two-names", "MCLinker", linker_cfg(2, True, 2), 6, None, linker_program))
    if prop in OBJECT_PROPS or prop == "C19":
        scopes = {"C18": ["targets", "single"], "C10": ["links", "pairs"], "C17": ["links", "pairs"], "C22": ["pairs"], "C21": ["pairs", "single"],
                  "C02": ["pairs"], "C07": ["pairs", "names"], "C14": ["pairs", "names"], "C19": ["names", "targets"], "C09": ["pairs"]}.get(prop, ["single", "pairs"])
        n = {"C22": 200}.get(prop, 250)
        if not quick:
            scopes = ["single", "pairs", "links", "names", "targets", "triples"] + (["names2"] if prop in ("C07", "C08", "C14", "C19") else [])
            scopes += ["links2"] if prop in ("C07", "C10", "C14", "C17", "C21", "C22") else []
        for s in scopes:
            out.append((s, "MCObjects", objects_cfg(s, prop), 2 if quick else 4, n if quick else 6000, object_program))
    return out


# ---- states of the specification as programs ----
def new(i, arch="x86_64", name="t.o", slot=0):
    return {"op": "new", "via": ("new", "builder")[i % 2], "arch": arch, "bf": ("elf", "macho")[i // 2 % 2], "name": name, "slot": slot}


def emit(via, f, slot=0, **kw):
    return dict({"op": "emit", "via": via, "bf": f, "slot": slot}, **kw)


def at(ops, slot):
    return [dict(o, slot=slot) for o in ops]


def front_program(prop, i, s, ctx):
    """build the artifact, emit it, make every call of the alphabet in it, emit it again"""
    alpha = ctx["alphabet"]
    stay = set(s["stay"])
    lite = prop not in ("C01", "C02", "C03", "C05")
    ops = [new(i)] + at(s["path"], 0)
    vias = [("emit_as", "write_as")[(i + k) % 2] for k in range(4)]
    if prop in ("C02", "C04", "C06", "C19") or i % 4 == 0:
        ops += [emit(vias[0], "elf", lite=lite), emit(vias[1], "macho", lite=lite)]
    for k in sorted(stay):
        ops.append(dict(alpha[k - 1], slot=0))
    if prop in ("C01", "C03", "C04", "C05", "C06", "C19"):
        ops += [emit(vias[2], "macho", lite=lite), emit(vias[3], "elf", lite=lite)]
    if prop == "C06":
        ops += [{"op": "clone", "slot": 0, "dst": 2}, emit("write_as", "elf", 2, lite=True), emit("emit_as", "macho", 2, lite=True)]
    for k in range(1, len(alpha) + 1):
        if k not in stay and (prop not in ("C02", "C06", "C19") or (k + i) % 3 == 0):
            ops += [{"op": "clone", "slot": 0, "dst": 1}, dict(alpha[k - 1], slot=1)]
            if prop == "C04" and (k + i) % 3 == 0:
                ops.append(emit(vias[0], ("elf", "macho")[k % 2], 1, lite=True))
    return [{"id": "m-%s-%d" % (ctx["name"], i), "ops": ops}]


def items(path):
    """the calls of a path, grouped by the name they are about; links last"""
    groups, links = {}, []
    for o in path:
        if o["op"] in ("link", "linkw"):
            links.append(o)
        else:
            groups.setdefault(o["n"], []).append(o)
    return list(groups.values()), links


def object_program(prop, i, s, ctx):
    fmts = [f for f in ("elf", "macho") if s[f]]
    if prop in ("C07", "C08", "C09", "C10"):
        fmts = [f for f in fmts if f == "elf"]
    if prop in ("C14", "C15", "C17"):
        fmts = [f for f in fmts if f == "macho"]
    if not fmts:
        return []
    ops = [new(i, s["arch"], s["name"])] + at(s["path"], 0)
    vias = ("emit_as", "write_as")
    if prop == "C22":
        r = random.Random(i)
        gs, ls = items(s["path"])
        r.shuffle(gs)
        r.shuffle(ls)
        ops.append(new(i, s["arch"], s["name"], 1))
        # all declarations first, then the contents, or name by name
        calls = [o for g in gs for o in g]
        if r.random() < .5:
            calls = [o for o in calls if o["op"] in ("declare", "import", "declwith")] + [o for o in calls if o["op"] not in ("declare", "import", "declwith")]
        ops += at(calls + ls, 1)
        for f in fmts:
            ops += [emit("emit_as", f, 0), emit("emit_as", f, 1), {"op": "cmp", "slot": 0, "other": 1, "bf": f}]
    else:
        if i % 2:
            fmts.reverse()
        for k, f in enumerate(fmts):
            ops.append(emit(vias[(i + k) % 2], f))
    return [{"id": "m-%s-%d" % (ctx["name"], i), "ops": ops}]


def linker_program(prop, i, s, ctx):
    """the parts of a team, and what the linkers make of their objects, in both orders"""
    if not s["lds"]:
        return []
    ops, n = [], len(s["parts"])
    for k, part in enumerate(s["parts"]):
        ops += [new(i + k, "x86_64", part["name"], k)] + at(part["calls"], k)
    lds = sorted(s["lds"])
    for k, ld in enumerate(lds):
        parts = list(range(n))
        if (i + k) % 2:
            parts.reverse()
        ops.append({"op": "join", "slots": parts, "bf": s["form"], "ld": ld, "arch": "x86_64", "slot": 0})
    return [{"id": "m-%s-%d" % (ctx["name"], i), "ops": ops}]


def absorb_program(prop, i, s, ctx):
    if i % 40 == 0:
        ctx["last"] = {"id": "m-absorb-%d" % i, "ops": [new(0)]}
        ctx["last"]["ops"].append(dict(s, op="absorb", slot=0))
        return [ctx["last"]]
    ctx["last"]["ops"].append(dict(s, op="absorb", slot=0))
    return []


def builder_program(prop, i, s, ctx):
    b = {"op": "build", "base": s["base"], "sk": s["sk"], "slot": 0}
    return [{"id": "m-builder-%d" % i, "ops": [new(i), dict(b, calls=s["calls"])] + [dict(b, calls=s["calls"] + [c]) for c in s["next"]]}]


def start_program(prop, i, s, ctx):
    return [{"id": "m-start-%d" % i, "ops": [{"op": "new", "via": "builder", "arch": "x86_64", "bf": ("elf", "macho")[i % 2], "slot": 0, "chain": s["chain"]}]}]


def sink_program(prop, i, s, ctx):
    out = []
    for f in ("elf", "macho"):
        if s["pre"] or s["at"] or s["app"]:
            n = 700 * s["len"] + 37 * (i % 40)
            ops = [new(i), {"op": "declwith", "n": "d", "slot": 0, "b": "5a" * n,
                            "d": {"k": "data", "scope": "G", "vis": "D", "w": False, "dt": "bytes", "sk": "-", "al": -1}},
                   emit("emit_as", f, lite=True), emit("file_as", f, lite=True, pre=700 * s["pre"] + i % 3, at=700 * s["at"] + i % 2, app=s["app"])]
            out.append({"id": "m-sink-%s-%d" % (f, i), "ops": ops})
            continue
        n = max(0, 4096 * s["len"] - 900 + 37 * (i % 40))
        ops = [new(i), {"op": "declwith", "n": "d", "slot": 0, "b": "5a" * n,
                        "d": {"k": "data", "scope": "G", "vis": "D", "w": False, "dt": "bytes", "sk": "-", "al": -1}},
               emit("emit_as", f, lite=True), emit("short_as", f, lite=True, cap=8, fill=8 - min(8, s["room"])), emit("write_as", f, lite=True)]
        out.append({"id": "m-sink-%s-%d" % (f, i), "ops": ops})
    return out


def prefix(f):
    d = f["d"]
    return ".text." if d["k"] == "fn" else "" if d["k"] == "sec" else "-" if d["k"] in ("ifn", "idata") else ".bss." if f["zero"] else ".data." if d["w"] else ".rodata."


def numbering_program(prop, i, s, ctx):
    """the same artifact with its largest family of definitions enlarged by 65280 - Lo"""
    fams = [dict(f) for f in s["fams"]]
    big = max((k for k, f in enumerate(fams) if f["d"]["k"] not in ("ifn", "idata")), key=lambda k: fams[k]["n"])
    grow = LO_RESERVE - 9
    old = fams[big]["n"]
    fams[big]["n"] += grow
    links = []
    for l in s["links"]:
        l = dict(l)
        for who, idx, name in (("ff", "fi", "from"), ("tf", "ti", "to")):
            if l[who] == big + 1 and l[idx] == old - 1 and old > 1:
                l[idx] += grow
            l[name] = fams[l[who] - 1]["pre"]
        links.append(l)
    ops = [{"op": "new", "via": "new", "arch": "x86_64", "bf": "elf", "name": "big.o"}] + [dict(op="bulk", **f) for f in fams]
    if links:
        ops.append({"op": "blinks", "groups": links})
    ops.append(emit("emit_as", "elf", bulk={"fams": [{"pre": f["pre"], "sec": prefix(f), "sy": f["sy"]} for f in fams]}))
    return [{"id": "m-numbering-%d" % i, "quiet": True, "ops": at(ops, 0)}]


# ---- running TLC ----
def tlc(module, text, work, name, workers, timeout):
    c = os.path.join(work, "mc-%s.cfg" % name)
    with open(c, "w") as f:
        f.write(text)
    log = os.path.join(work, "mc-%s.log" % name)
    cmd = ["timeout", "-k", "5", str(timeout), "java", "-Xmx5g", "-Xss16m", "-Djava.io.tmpdir=" + work, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", CP, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-fp", "1", "-config", c, "-metadir", os.path.join(work, "mc-%s.md" % name), os.path.join(SPEC, module + ".tla")]
    return subprocess.Popen(cmd, stdout=open(log, "w"), stderr=subprocess.STDOUT), log


def read(log):
    """states, alphabet and totals of a finished run"""
    states, alpha, tot, err = [], None, (0, 0), None
    for line in open(log, errors="replace"):
        if line.startswith('"STATE '):
            states.append(json.loads(line)[6:])
        elif line.startswith('"ALPHABET '):
            alpha = json.loads(json.loads(line)[9:])
        elif line.startswith("Error:") and err is None:
            err = line.strip()
        else:
            m = re.match(r"(\d+) states generated, (\d+) distinct", line)
            if m:
                tot = (int(m.group(1)), int(m.group(2)))
    return states, alpha, tot, err


def start(prop, tier, work):
    h = []
    seq = plan(prop, tier)
    timeout = 300 if tier == "quick" else 5400
    for p in seq:
        h.append((p, tlc(p[1], p[2], work, p[0], p[3], timeout) if tier == "quick" else None))
    return {"prop": prop, "tier": tier, "work": work, "runs": h, "timeout": timeout}


def finish(h, seed, say, fail):
    prop, tier, work = h["prop"], h["tier"], h["work"]
    programs, report, states, trans = [], [], 0, 0
    for (name, module, text, workers, take, conv), run in h["runs"]:
        if run is None:
            run = tlc(module, text, work, name, workers, h["timeout"])
        p, log = run
        rc = p.wait()
        found, alpha, (gen, dist), err = read(log)
        if rc != 0 or err:
            fail("the specification does not check (%s, %s): %s" % (module, name, err or "rc %d" % rc))
        os.remove(log)
        states += dist
        trans += gen
        # sorted: what is taken does not depend on the order in which TLC's workers found it
        found = sorted(set(found))
        if take is not None and len(found) > take:
            found = random.Random("%s-%s-%s" % (prop, seed, name)).sample(found, take)
        ctx = {"alphabet": alpha, "name": name}
        mine = []
        for i, s in enumerate(found):
            mine += conv(prop, i, json.loads(s), ctx)
        programs += mine
        report.append({"model": module, "scope": name, "states": dist, "generated": gen, "replayed_states": len(found), "programs": len(mine),
                       "checked": re.search(r"INVARIANTS (.*)", text).group(1).split()})
    if tier != "quick":
        report += sensitivity(prop, work, fail)
        if prop in OBJECT_PROPS:
            report.append(mutants(prop, work, fail))
    return {"programs": programs, "states": states, "transitions": trans, "report": report}


def mutants(prop, work, fail):
    """every perturbation of an emitted object is noticed by some property, or left open on purpose; how many does this one notice?"""
    p, log = tlc("MCMutants", cfg({"Arches": tset(["x86_64", "aarch64", "i686", "s390x"])}, ["Pinned", "Who"]), work, "mutants", 6, 900)
    rc = p.wait()
    n, mine, fields = 0, 0, {}
    for line in open(log, errors="replace"):
        if line.startswith('"WHO '):
            _, f, part, field, who = line.strip().strip('"').split(" ")
            n += 1
            if prop in who.split(","):
                mine += 1
                k = "%s %s.%s" % (f, part, field)
                fields[k] = fields.get(k, 0) + 1
        elif line.startswith("Error:"):
            fail("the properties have a hole, or do not evaluate (MCMutants): " + line.strip())
    if rc != 0 or mine == 0:
        fail("no perturbation of an object is noticed by " + prop)
    os.remove(log)
    return {"model": "MCMutants", "perturbed_objects": n, "noticed_by_this_property": mine, "fields": fields, "checked": ["Pinned"]}


def sensitivity(prop, work, fail):
    """errors planted in the models must be noticed by the property's clauses"""
    out = []
    for module, bug, scope in SENSITIVITY.get(prop, []):
        if module == "MCSink":
            m, text = "MCSink", cfg({"MaxLen": 4, "MaxPre": 2, "Design": json.dumps(bug)}, ["Delivered", "Placed"])
        elif module == "MCLarge":
            m, text = module, cfg({"Arches": '{"x86_64"}', "MaxLinks": 1, "Slice": 0, "Slices": 0, "Bug": json.dumps(bug)}, ["Unnoticed"])
        elif module == "MCLinker":
            m, text = module, linker_cfg(2, False, 0, bug)
        elif prop == "C11":
            m, text = "MCNumbering", cfg({"Lo": 9, "MaxLinks": 1, "Bug": json.dumps(bug)}, ["Unnoticed"])
        else:
            m, text = "MCObjects", objects_cfg(scope, prop, bug, False)
        p, log = tlc(m, text, work, "bug-" + bug, 4, 900)
        p.wait()
        if not re.search(r"Invariant (Unnoticed|Delivered|Placed) is violated", open(log).read()):
            fail("the specification of %s does not notice the planted design error %s" % (prop, bug))
        out.append({"model": m, "planted": bug, "noticed": True})
    return out
