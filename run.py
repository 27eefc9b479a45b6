#!/usr/bin/env python3
"""Runs the check of one property: run.py <ID> [quick|thorough]

1. TLC checks the specification of the property (models),
2. the harness is built against /repo's working tree and drives the real code,
   with scripts enumerated by TLC and with seeded random scenarios,
3. TLC decides for every recorded scenario whether it is a behaviour of the
   specification (trace validation).
Exit 0: held; 1: VIOLATION; 2: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(ROOT, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

BUILD = os.environ.get("VERIF_BUILD_DIR", os.path.join(ROOT, ".build"))


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ)
    env.update(HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_TOOLCHAIN="stable",
               CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
               RUSTFLAGS="--cfg everscale_verif -Awarnings",
               CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    for extra in (["--features", "internals"], []):
        p = subprocess.run(["cargo", "build", "--offline", "--locked", *extra], cwd=os.path.join(ROOT, "harness"),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
        print("note: the harness does not build", *extra)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-6000:])
    return os.path.join(BUILD, "target", "debug", "everscale-verif")


def tlc(spec, cfg, env=None, workers=1, mem="2g", timeout=600, args=()):
    meta = tempfile.mkdtemp(prefix="tlc")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", f"-Xmx{mem}",
           f"-Djava.io.tmpdir={meta}", "-cp", JARS, "tlc2.TLC",
           "-config", cfg, "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
           *args, spec]
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return None, (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def counts(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states", out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def run_model(m, tier, scripts):
    cfg = m["cfg"]
    if tier == "thorough":
        t = cfg.replace(".cfg", ".thorough.cfg")
        if os.path.exists(os.path.join(SPECS, t)):
            cfg = t
    env = {}
    emits = m.get("scripts", False)
    path = None
    if emits:
        path = scripts + "." + cfg
        env["SCRIPTS"] = path
    args = []
    if "simulate" in m:
        num, depth = m["simulate"][tier]
        args = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(SEED)]
    rc, out = tlc(m["spec"], cfg, env, workers=1 if emits else m.get("workers", 4),
                  mem=m.get("mem", "4g"), timeout=m.get("timeout", {}).get(tier, 800 if tier == "thorough" else 200), args=args)
    gen, distinct = counts(out)
    expect = m.get("expect", "ok")
    if expect == "violation":
        if not re.search(r"(Invariant|property|properties|Property) .*(violated|was violated)|were violated", out):
            raise ToolError(f"model {cfg}: expected a counterexample\n{out[-2000:]}")
    elif rc != 0:
        raise ToolError(f"model {m['spec']} {cfg} failed (rc {rc}):\n{out[-4000:]}")
    if "simulate" in m:
        mm = re.search(r"([\d,]+) states checked", out) or re.search(r"The number of states generated: ([\d,]+)", out)
        if mm:
            gen = distinct = int(mm.group(1).replace(",", ""))
    return {"spec": m["spec"], "cfg": cfg, "expect": expect, "generated": gen, "distinct": distinct,
            "mode": "simulate" if "simulate" in m else "exhaustive"}, path


def run_harness(binary, pid, tier, out, scripts, hang):
    cmd = [binary, pid, "--seed", str(SEED), "--tier", tier, "--out", out, "--hang", str(hang)]
    if scripts:
        cmd += ["--scripts", scripts]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=420 if tier == "quick" else 3600)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


def read_scenarios(path):
    """list of (first line number, [lines])"""
    res = []
    with open(path) as f:
        for line in f:
            line = line.rstrip("\n")
            if not line.startswith("{") or not line.endswith("}"):
                continue  # cut by a crash
            if line.startswith('{"e":"Reset"') or '"e":"Reset"' in line and json.loads(line)["e"] == "Reset" or not res:
                res.append([])
            res[-1].append(line)
    return res


def validate_chunk(args):
    spec, cfg, chunk, name, mem, timeout = args
    """chunk: list of (scenario index, lines). Returns accepted, generated, distinct, rejections"""
    accepted, gen, distinct, rejected = 0, 0, 0, []
    todo = list(chunk)
    rounds = 0
    while todo:
        rounds += 1
        path = f"{name}.{rounds}.ndjson"
        with open(path, "w") as f:
            for _, lines in todo:
                f.write("\n".join(lines) + "\n")
        rc, out = tlc(spec, cfg, {"TRACE": path}, mem=mem, timeout=timeout)
        os.unlink(path)
        g, d = counts(out)
        gen += g
        distinct += d
        total = sum(len(lines) for _, lines in todo)
        m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', out)
        if rc == 0 and m and int(m.group(1)) == total:
            accepted += len(todo)
            break
        if rc is None:
            raise ToolError(f"trace validation of {spec} timed out")
        if "java.lang.OutOfMemoryError" in out or "ran out of memory" in out or (
                m is None and "Parse" in out and "rror" in out and "Semantic" in out):
            raise ToolError(f"trace validation of {spec}:\n{out[-3000:]}")
        why = ""
        if m:
            matched = int(m.group(1))
        else:
            # stopped by an invariant, or by an error while evaluating a step
            nums = [int(x) for x in re.findall(r"/\\ l = (\d+)", out)] or [int(x) for x in re.findall(r"^l = (\d+)", out, re.M)]
            if nums:
                matched = max(nums) - 1
                inv = re.search(r"(Error: .*)", out)
                why = inv.group(1) if inv else "error"
                if "nvariant" in why:
                    matched -= 1
            else:
                raise ToolError(f"trace validation of {spec}:\n{out[-3000:]}")
        seen = 0
        for i, (idx, lines) in enumerate(todo):
            if matched < seen + len(lines):
                rejected.append({"scenario": idx, "line": matched - seen, "lines": lines, "why": why})
                accepted += i
                todo = todo[i + 1:]
                break
            seen += len(lines)
        else:
            raise ToolError(f"trace validation of {spec}: cannot locate the rejection\n{out[-3000:]}")
        if len(rejected) >= 6:
            break
    return accepted, gen, distinct, rejected


def known_findings(pid):
    res = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=(\{.*?\}) (.*)", line)
            if m and m.group(1) == pid:
                res.append((json.loads(m.group(2)), m.group(3).strip()))
    return res


def matches(event, pattern):
    return all(k in event and event[k] == v for k, v in pattern.items())


def main():
    global SEED
    pid = sys.argv[1]
    if pid == "--setup":
        try:
            print("harness:", build())
            return 0
        except ToolError as e:
            print(e)
            return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    SEED = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    started = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    try:
        with ThreadPoolExecutor(8) as pool:
            fb = pool.submit(build)
            scripts = os.path.join(work, "scripts")
            ms = [m for m in c["models"] if tier in m.get("tiers", ("quick", "thorough"))]
            fm = [pool.submit(run_model, m, tier, scripts) for m in ms]
            binary = fb.result()
            models = []
            with open(scripts, "w") as f:
                for x in fm:
                    info, path = x.result()
                    models.append(info)
                    if path and os.path.exists(path):
                        seen = set()
                        n = 0
                        for line in open(path):
                            if line not in seen:
                                seen.add(line)
                                f.write(line)
                                n += 1
                        info["scripts"] = n
        t_model = time.time()

        # the runs of the real code
        violations = []
        runs = c.get("runs", [{}])
        stats = {"events": 0, "scenarios": 0, "accepted": 0, "gen": 0, "distinct": 0, "kinds": {}}
        samples = []
        for r in runs:
            target = r.get("id", pid)
            out = os.path.join(work, f"{target}.trace.ndjson")
            hang = c.get("hang", 20)
            for attempt in (1, 2):
                rc, text = run_harness(binary, target, tier, out, scripts, hang)
                if rc == 0:
                    break
            extra = []
            if rc != 0:
                if rc == "timeout" or rc == 3 or rc == 101 or (isinstance(rc, int) and rc < 0 and rc != -9) or rc == 134:
                    extra = [json.dumps({"e": "Crash", "rc": str(rc), "text": text[-500:]})]
                else:
                    raise ToolError(f"harness ended with {rc}: {text[-2000:]}")
            scen = read_scenarios(out)
            if extra:
                if not scen:
                    scen = [['{"e":"Reset"}']]
                scen[-1] += extra
            if not scen:
                raise ToolError("empty trace")
            t = r.get("trace", c.get("trace"))
            spec, cfg = t
            total = sum(len(s) for s in scen)
            w = min(r.get("chunks", 6 if total > 3000 else 3), len(scen))
            if tier == "thorough":
                w = max(w, min(len(scen), total // 15000 + 1))
            chunks = [[] for _ in range(w)]
            sizes = [0] * w
            for i, s in enumerate(scen):
                k = sizes.index(min(sizes))
                chunks[k].append((i, s))
                sizes[k] += len(s)
            with ThreadPoolExecutor(6) as pool:
                res = list(pool.map(validate_chunk, [
                    (spec, cfg, ch, os.path.join(work, f"{target}.{i}"), c.get("mem", "2g"),
                     c.get("trace_timeout", 300 if tier == "quick" else 3000))
                    for i, ch in enumerate(chunks) if ch]))
            for a, g, d, rej in res:
                stats["accepted"] += a
                stats["gen"] += g
                stats["distinct"] += d
                violations += [dict(x, spec=spec, run=target) for x in rej]
            stats["events"] += total
            stats["scenarios"] += len(scen)
            for s in scen:
                for line in s:
                    k = json.loads(line)["e"]
                    stats["kinds"][k] = stats["kinds"].get(k, 0) + 1
            mid = scen[len(scen) // 2]
            samples.append({"run": target, "spec": spec, "scenario": [json.loads(x) for x in mid[:12]]})

        # report
        fresh, known = [], {}
        findings = known_findings(pid)
        for v in violations:
            ev = json.loads(v["lines"][v["line"]]) if v["line"] < len(v["lines"]) else {"e": "?"}
            v["event"] = ev
            for pat, text in findings:
                if matches(ev, pat):
                    known[text] = v
                    break
            else:
                fresh.append(v)
        for text in known:
            print(f"KNOWN-FINDING: property={pid} {text}")
        for i, v in enumerate(fresh[:5]):
            path = os.path.join(ROOT, "evidence", f"{pid}.replay{i}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "spec": v["spec"], "run": v["run"], "seed": SEED, "tier": tier,
                           "why": v["why"] or "the event is not a step the specification allows",
                           "rejected_event": v["event"],
                           "events": [json.loads(x) for x in v["lines"][:v["line"] + 1]]}, f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print("  rejected:", json.dumps(v["event"])[:400], v["why"])
        ev = {
            "property": pid, "tier": tier, "seed": SEED, "level": c["level"],
            "coverage": {
                "states": sum(m["distinct"] for m in models) + stats["distinct"],
                "transitions": sum(m["generated"] for m in models) + stats["gen"],
                "traces_validated_against_impl": stats["accepted"],
                "trace_events": stats["events"],
                "event_kinds": stats["kinds"],
                "scenarios": stats["scenarios"],
                "models": models,
                "samples": samples,
                "rule": c.get("rule", ""),
            },
            "assumptions": c.get("assumptions", []),
            "wall_s": round(time.time() - started, 2),
            "violations": len(fresh),
        }
        with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{pid} {tier}: {sum(m['distinct'] for m in models)} model states, "
              f"{stats['accepted']}/{stats['scenarios']} scenarios ({stats['events']} events) accepted, "
              f"{len(fresh)} violations, {ev['wall_s']} s (build+models {t_model - started:.1f} s)")
        return 1 if fresh else 0
    except ToolError as e:
        print(f"CHECK-ERROR {pid}: {e}")
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
