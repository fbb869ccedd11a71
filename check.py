#!/usr/bin/env python3
"""Decides one property: generates behaviours from the specification with TLC,
replays them into the code of /repo, and has TLC judge the recorded traces.

usage: check.py C01            (VERIF_SEED, VERIF_TIER from the environment)
       check.py C01 --replay FILE
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RAP_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8
sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402


class Broken(Exception):
    """The machinery failed: no verdict."""


def seed_of(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:4], "big") % 2000000000 + 1


def run(cmd, timeout, env=None, cwd=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        if out:
            with open(out, "w") as f:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
            return p.returncode, ""
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        raise Broken("timeout after %ds: %s" % (timeout, " ".join(cmd)[:200]))


def tail(path, n=25):
    return "".join(x[:2000] for x in open(path, errors="replace").readlines()[-n:])


def java(work, mod, cfg, extra, env, timeout, out, heap="3g"):
    cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1" if timeout < 400 else "-Xshare:auto",
           "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + work,
           "-cp", JARS, "tlc2.TLC", "-metadir", os.path.join(work, "m." + os.path.basename(out)),
           "-config", cfg] + extra + [mod + ".tla"]
    return run(cmd, timeout, env, cwd=os.path.join(work, "spec"), out=out)[0]


def build(work, race=False):
    """The harness and the command line tool, from /repo's working tree."""
    if race:
        src = os.path.join(work, "harness.race")
        exe = os.path.join(work, "rapverif.race")
        try:
            build_in(src, exe, ["-race"], {"CGO_ENABLED": "1"})
            code, out = run([exe, "replay", "-out", os.path.join(work, "r")], 60, {}, cwd=work)
            return exe if code == 0 else None
        except Broken:
            return None
    return build_in(os.path.join(work, "harness"), os.path.join(work, "rapverif"), [], {})


def build_in(src, exe, flags, extra):
    env = {"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GOWORK": "off"}
    env.update(extra)
    shutil.copytree(os.path.join(HERE, "harness"), src)
    if REPO != "/repo":
        p = os.path.join(src, "go.mod")
        s = open(p).read().replace("=> /repo", "=> " + REPO)
        open(p, "w").write(s)
    code, out = run(["go", "build", "-buildvcs=false"] + flags + ["-o", exe, "."], 600, env, src)
    if code != 0:
        raise Broken("building the harness:\n" + out[-3000:])
    return exe


def build_cli(work):
    env = {"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GOWORK": "off"}
    dst = os.path.join(work, "rap-cli")
    mod = os.path.join(work, "repo.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "repo.sum"))
    code, out = run(["go", "build", "-buildvcs=false", "-modfile", mod, "-o", dst, "./cmd/rap-cli"], 600, env, REPO)
    if code != 0:
        raise Broken("building rap-cli:\n" + out[-3000:])
    return dst


STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")
SIMUL = re.compile(r"The number of states generated: ([\d,]+)")


def counts(path):
    text = "".join(x for x in open(path, errors="replace") if len(x) < 300 and "@@" not in x)
    m = None
    for m in STATES.finditer(text):
        pass
    if m:
        return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    m = SIMUL.search(text)
    n = int(m.group(1).replace(",", "")) if m else 0
    return n, n


def generate(work, i, g, seed, tier):
    """One campaign: runs TLC on a generator module; gives its scenarios."""
    out = os.path.join(work, "gen%d.txt" % i)
    n = g.get(tier, g["quick"])
    env = {"FAM": g.get("fam", ""), "SEED": str(seed), "TIER": tier}
    env.update({k: str(v) for k, v in g.get("env", {}).items()})
    env.update({k: str(v) for k, v in g.get("env_" + tier, {}).items()})
    cfg = g.get("cfg", g["mod"]) + ".cfg"
    timeout = 300 if tier == "quick" else 3000
    if g.get("bfs"):
        code = java(work, g["mod"], cfg, ["-workers", str(g.get("workers", 1)), "-seed", str(seed)], env, timeout, out, g.get("heap", "4g"))
    else:
        code = java(work, g["mod"], cfg, ["-simulate", "num=%d" % n, "-depth", str(g.get("depth", 60)),
                                          "-seed", str(seed), "-workers", "1"], env, timeout, out)
    if code != 0:
        raise Broken("specification %s %s (%d):\n%s" % (g["mod"], g.get("fam", ""), code, tail(out)))
    scs = os.path.join(work, "gen%d.ndjson" % i)
    k = 0
    with open(scs, "w") as f:
        for line in open(out, errors="replace"):
            p = line.find("@@S ")
            if p >= 0:
                f.write(line[p + 4:].rstrip("\n")[:-1].replace('\\"', '"').replace("\\\\", "\\") + "\n")
                k += 1
    gen, dist = counts(out)
    if k == 0 and not g.get("silent"):
        raise Broken("specification %s %s gave no behaviour" % (g["mod"], g.get("fam", "")))
    return {"module": g["mod"], "family": g.get("fam", ""), "seed": seed, "exhaustive": bool(g.get("bfs")),
            "scenarios": k, "states": dist, "transitions": gen}, scs


def check_shard(work, pre, i):
    trace = os.path.join(work, "%s%d.ndjson" % (pre, i))
    out = os.path.join(work, "check-%s%d.txt" % (pre, i))
    lines = sum(1 for _ in open(trace, "rb"))
    code = java(work, "RapTrace", "RapTrace.cfg", ["-workers", "1"], {"TRACE": trace}, 3400, out, "3g")
    text = open(out, errors="replace").read()
    if code != 0 or "@@END %d" % lines not in text:
        raise Broken("trace check %s%d (%d):\n%s" % (pre, i, code, tail(out)))
    vs = []
    for m in re.finditer(r'^"@@V (.*)"$', text, re.M):
        vs.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    gen, dist = counts(out)
    return vs, dist, gen, lines


def scenario_at(trace, line):
    """The number of the scenario a trace line belongs to, and the line itself."""
    sc, last = None, None
    with open(trace) as f:
        for k, text in enumerate(f, 1):
            if text.startswith('{"id"') or '"op":"reset"' in text[:400]:
                e = json.loads(text)
                if e.get("op") == "reset":
                    sc = e["sc"]
            if k == line:
                last = text
                break
    return sc, last


def replay_and_check(work, exe, cli, files, tally, env=None, pre="t", flags=()):
    cmd = [exe, "replay", "-out", os.path.join(work, pre), "-shards", str(SHARDS)] + list(flags) + files
    e = {"RAP_CLI": cli or "", "RAP_SCRATCH": os.path.join(work, "scratch")}
    e.update(env or {})
    os.makedirs(e["RAP_SCRATCH"], exist_ok=True)
    code, out = run(cmd, 3000, e, cwd=work)
    if code != 0:
        raise Broken("replay (%d):\n%s" % (code, out[-3000:]))
    stats = json.loads(out.strip().splitlines()[-1])
    found = []
    with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
        for i, (vs, dist, gen, lines) in enumerate(ex.map(lambda i: check_shard(work, pre, i), range(SHARDS))):
            tally["trace_states"] += dist
            tally["trace_lines"] += lines
            for v in vs:
                found.append((os.path.join(work, "%s%d.ndjson" % (pre, i)), v["l"], v["v"]))
    tally["scenarios"] += stats["scenarios"]
    tally["calls"] += stats["calls"]
    for k, v in stats.get("ops", {}).items():
        tally["ops"][k] = tally["ops"].get(k, 0) + v
    return found


def with_races(work, exe, cli, scs, tally):
    """A replay under Go's race detector, one trace after the other."""
    log = os.path.join(work, "races")
    env = {"RAP_RACES": log, "GORACE": "log_path=%s halt_on_error=0 exitcode=0 history_size=3" % log}
    return replay_and_check(work, exe, cli, [scs], tally, env, "u", ["-serial"])


def known_findings(pid):
    """Listed defects of this property: [match (substring of the reason), text]."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=\"([^\"]*)\" (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    plan = PLAN[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="rapverif.")
    keep = "--keep" in sys.argv
    try:
        shutil.copytree(os.path.join(HERE, "spec"), os.path.join(work, "spec"))
        tally = {"scenarios": 0, "calls": 0, "trace_lines": 0, "trace_states": 0, "ops": {}}
        gens, found, files, samples, distinct = [], [], [], [], set()
        pool = concurrent.futures.ThreadPoolExecutor(8)
        fexe = pool.submit(build, work)
        races = [g for g in plan["gen"] if g.get("race")]
        frace = pool.submit(build, work, True) if races else None
        fcli = pool.submit(build_cli, work) if plan.get("cli") else None
        if "--replay" in sys.argv:
            files = [os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])]
            exe, cli = fexe.result(), (fcli.result() if fcli else "")
            one = os.path.join(work, "one.ndjson")
            with open(one, "w") as f:
                f.write(json.dumps(json.load(open(files[0]))["scenario"]) + "\n")
            found = [(x, one) for x in replay_and_check(work, exe, cli, [one], tally)]
            if frace and frace.result():
                found += [(x, one) for x in with_races(work, frace.result(), cli, one, tally)]
        else:
            rounds = plan.get("rounds", 1) if tier == "thorough" else 1
            for rnd in range(rounds):
                todo = [g for g in plan["gen"] if rnd == 0 or not g.get("bfs")]
                futs = [pool.submit(generate, work, 1000 * rnd + k, g, seed_of(seed, pid, g["mod"], g.get("fam", ""), rnd), tier)
                        for k, g in enumerate(todo)]
                files = []
                for f in futs:
                    info, path = f.result()
                    gens.append(info)
                    files.append((path, bool(todo[len(files)].get("race"))))
                exe, cli = fexe.result(), (fcli.result() if fcli else "")
                for race in ([False, True] if races else [False]):
                    allscs = os.path.join(work, "races.ndjson" if race else "all.ndjson")
                    with open(allscs, "w") as out:
                        for path, israce in files:
                            if israce != race:
                                continue
                            for k, line in enumerate(open(path)):
                                out.write(line)
                                distinct.add(hashlib.sha1(line.encode()).digest())
                                if k == 0 and rnd == 0 and len(samples) < 6:
                                    samples.append(line.strip()[:600])
                            os.remove(path)
                    if race and frace.result():
                        got = with_races(work, frace.result(), cli, allscs, tally)
                    else:
                        got = replay_and_check(work, exe, cli, [allscs], tally, pre="u" if race else "t")
                    for x in got:
                        found.append((x, allscs))
                if any(r[0] == pid and not any(k[0] in r[1] for k in known_findings(pid))
                       for (_, _, v), _ in found for r in v):
                    break
        # verdict
        mine, listed = [], known_findings(pid)
        hit = set()
        lines = None
        for (trace, line, vs), scs in found:
            reasons = [r[1] for r in vs if r[0] == pid]
            fresh = []
            for r in reasons:
                m = [k for k in listed if k[0] in r]
                if m:
                    hit.update(m)
                else:
                    fresh.append(r)
            if fresh:
                mine.append((trace, line, fresh, scs))
        for _, text in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
        others = sorted({r[0] for (_, _, v), _ in found for r in v if r[0] != pid})
        wall = time.time() - t0
        ev = {"property": pid, "tier": tier, "seed": seed, "level": plan["level"],
              "coverage": {
                  "states": sum(g["states"] for g in gens) + tally["trace_states"],
                  "transitions": sum(g["transitions"] for g in gens) + tally["trace_lines"],
                  "traces_validated_against_impl": tally["scenarios"],
                  "evaluations": tally["calls"], "distinct_nontrivial": len(distinct),
                  "rule": "scenarios are behaviours of the generator modules (TLC, simulated or exhaustive); distinct ones are counted by content; evaluations are calls into the code under test",
                  "generators": gens, "race_detector": bool(frace and frace.result()), "trace_lines": tally["trace_lines"], "operations": tally["ops"], "samples": samples},
              "assumptions": plan.get("assumes", []), "wall_s": round(wall, 1), "violations": len(mine)}
        if "--replay" not in sys.argv:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        print("%s %s: %d behaviours, %d calls, %d trace lines, %.1f s%s" %
              (pid, tier, tally["scenarios"], tally["calls"], tally["trace_lines"], wall,
               "; also seen: " + " ".join(others) if others else ""))
        if "--all" in sys.argv:
            for (trace, line, vs), _ in found[:20]:
                print("  ", trace, line, vs)
        if mine:
            rdir = os.path.join(HERE, "replays")
            os.makedirs(rdir, exist_ok=True)
            trace, line, reasons, scs = mine[0]
            sc, text = scenario_at(trace, line)
            scenario = None
            with open(scs) as f:
                for k, t in enumerate(f):
                    if k == sc:
                        scenario = json.loads(t)
            path = os.path.join(rdir, "%s-%d-%s.json" % (pid, seed, tier))
            with open(path, "w") as f:
                json.dump({"property": pid, "reasons": reasons, "line": (text or "")[:20000], "scenario": scenario,
                           "all": [[r, k[1]] for k in mine[:30] for r in k[2]]}, f, indent=1)
            for r in sorted({r for k in mine for r in k[2]})[:5]:
                print("  " + r)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0
    except Broken as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
