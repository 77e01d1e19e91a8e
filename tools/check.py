#!/usr/bin/env python3
"""Decides one property: check.py <property id> [quick|thorough]  (or: check.py replay <file>)

1. TLC checks the design models of the property exhaustively (and lets them write behaviours).
2. The driver is compiled against /repo/include as it is now and records one event per call
   (it also replays the behaviours the models wrote).
3. TLC validates every recorded event against the property's specification module.
Exit 0: held. Exit 1 + VIOLATION line: a recorded execution is not one the specification allows
(judged twice). Exit 2: the machinery itself failed.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CONFIG = json.load(open(os.path.join(VERIF, "tools", "config.json")))
CHAINS = 64


class Broken(Exception):
    """the check itself cannot give an answer"""


def sh(cmd, timeout=None, cwd=None, env=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", timeout=timeout, cwd=cwd, env=env)


def java_classes(tmp):
    """Rat.class: from setup if it is newer than its source, else compiled here"""
    src = os.path.join(SPEC, "java", "Rat.java")
    srcs = [src, os.path.join(SPEC, "java", "tlc2", "overrides", "TLCOverrides.java")]
    built = os.path.join(VERIF, "build", "classes")
    if os.path.exists(os.path.join(built, "Rat.class")) and \
            os.path.getmtime(os.path.join(built, "Rat.class")) >= max(map(os.path.getmtime, srcs)):
        return built
    out = os.path.join(tmp, "classes")
    os.makedirs(out, exist_ok=True)
    p = sh(["javac", "-cp", JARS, "-d", out] + srcs, timeout=300)
    if p.returncode:
        raise Broken("javac: " + p.stdout)
    return out


def tlc(classes, tmp, module, cfg_text, workers, timeout, name, xmx="6g"):
    """runs TLC on spec/<module>.tla with the given configuration; returns (rc, output)"""
    d = os.path.join(tmp, "tlc-" + name)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + xmx, "-Djava.io.tmpdir=" + d, "-cp", classes + ":" + JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-config", cfg, os.path.join(SPEC, module + ".tla")]
    try:
        p = sh(cmd, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + module)
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        raise Broken("TLC gave no statistics:\n" + tail(out))
    return int(m.group(1)), int(m.group(2))


def tail(s, n=40):
    return "\n".join(s.splitlines()[-n:])


def run_model(classes, tmp, m, tier):
    """a design model must satisfy its properties: anything else is a defect of the specification"""
    cfg = open(os.path.join(SPEC, m["cfg"] if "cfg" in m else m["module"] + ".cfg")).read()
    consts = dict(m.get("const", {}))
    consts.update(m.get("const_thorough", {}) if tier == "thorough" else {})
    beh = None
    if m.get("emit"):
        beh = os.path.join(tmp, m["emit"] + ".beh")
        consts["OutFile"] = '"%s"' % beh
    if consts:
        cfg += "\nCONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in consts.items()) + "\n"
    rc, out = tlc(classes, tmp, m["module"], cfg, m.get("workers", 4), 800 if tier == "quick" else 7200, "m-" + m["module"] + m.get("tag", ""))
    if rc != 0 or "No error has been found" not in out:
        raise Broken("design model %s does not check (rc %d):\n%s" % (m["module"], rc, tail(out)))
    gen, dist = stats(out)
    return {"module": m["module"], "generated": gen, "distinct": dist, "beh": beh, "emit": m.get("emit"), "out": out}


def compile_driver(tmp, unit):
    src = os.path.join(DRV, unit["driver"])
    exe = os.path.join(tmp, "%s-%d" % (os.path.basename(unit["driver"])[:-4], id(unit)))
    cmd = [unit.get("cxx", "g++"), "-std=c++17", unit.get("opt", "-O1"), "-w", "-D_GLIBCXX_ASSERTIONS", "-I", os.path.join(REPO, "include"), "-I", DRV]
    cmd += unit.get("flags", [])
    cmd += [src, "-o", exe]
    p = sh(cmd, timeout=600)
    return p, exe


def compiler_works(tmp, unit):
    src = os.path.join(tmp, "hello.cpp")
    open(src, "w").write("#include <vector>\nint main() { return std::vector<int>().size(); }\n")
    return sh([unit.get("cxx", "g++"), "-std=c++17", src, "-o", os.path.join(tmp, "hello")], timeout=300).returncode == 0


def run_driver(exe, trace, seed, n, tier, beh):
    cmd = [exe, trace, str(seed), str(n)] + (["thorough"] if tier == "thorough" else [])
    if beh:
        cmd.append("beh=" + beh)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=78", UBSAN_OPTIONS="print_stacktrace=0:exitcode=78")
    try:
        p = sh(cmd, timeout=600 if tier == "quick" else 3600, env=env)
    except subprocess.TimeoutExpired:
        raise Broken("driver timed out")
    return p


def validate(classes, tmp, unit, trace, tag, timeout):
    mode = unit.get("mode", "events")
    text = "CONSTANTS\n  TraceFile = \"%s\"\n  Chains = %d\n" % (trace, CHAINS)
    text += "  Post <- %s\n" % unit.get("post", "Post" + unit["module"])
    if mode == "hist":
        text += "  StInit <- %s\n  StNext <- %s\n" % (unit["init"], unit["next"])
    text += "INIT Init\nNEXT Next\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n"
    # the conformance module is the property's module plus the trace machine
    module = unit.get("conf", "T_" + unit["module"])
    rc, out = tlc(classes, tmp, module, text, 8, timeout, tag, "12g")
    rej = [tuple(int(x) for x in m.split(",")) for m in re.findall(r'<<"REJECTED", ([0-9, ]+)>>', out)]
    if rc != 0 and mode == "hist" and re.search(r"TLC threw an unexpected exception|Evaluating|attempted|Attempted", out):
        # the relation is not even defined on a recorded event (a missing element, say): the event is
        # the one after the last state TLC prints, and it is not an execution the specification allows
        v = {k: re.findall(r"^/\\ %s = (\d+)" % k, out, re.M) for k in ("ch", "pos", "k")}
        if v["ch"] and v["pos"]:
            c, p = int(v["ch"][-1]), int(v["pos"][-1])
            bad = (c + p * CHAINS,) if mode == "events" else (c + (p - 1) * CHAINS, int(v["k"][-1]) + 1)
            return sorted(set(rej) | {bad}), 0, 0
    if rc != 0 or "No error has been found" not in out:
        raise Broken("conformance run of %s failed (rc %d):\n%s" % (module, rc, tail(out)))
    gen, dist = stats(out)
    return sorted(set(rej)), gen, dist


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                e = json.loads(l)
                if e["property"] == prop and e["status"] == "known":
                    res.append(e)
    return res


def event_of(line, rej):
    e = json.loads(line)
    return e[rej[1] - 1] if len(rej) > 1 else e


def matches(finding, ev):
    return all(ev.get(k) == v for k, v in finding["match"].items())


def check(prop, tier, seed):
    t0 = time.time()
    cfg = CONFIG[prop]
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vm-%s-" % prop)
    violations, known, samples = [], [], []
    states = trans = events = 0
    parts = []
    try:
        classes = java_classes(tmp)
        with cf.ThreadPoolExecutor(4) as ex:
            fm = [ex.submit(run_model, classes, tmp, m, tier) for m in cfg.get("models", [])
                  if tier == "thorough" or not m.get("thorough_only")]
            fd = [(u, ex.submit(compile_driver, tmp, u)) for u in cfg["units"]
                  if tier == "thorough" or not u.get("thorough_only")]
            models = [f.result() for f in fm]
            built = [(u,) + f.result() for u, f in fd]
        for m in models:
            states += m["distinct"]
            trans += m["generated"]
            parts.append({"model": m["module"], "states": m["distinct"], "transitions": m["generated"]})
        beh = {m["emit"]: m["beh"] for m in models if m["emit"]}
        for u, p, exe in built:
            if p.returncode:
                if u.get("must_compile"):
                    # a translation unit of static assertions: not compiling is the observation
                    rp = write_replay(prop, {"unit": u["driver"], "compiler": p.stdout[-6000:]})
                    first = re.findall(r"(?:error|static assertion failed).*", p.stdout)[:3]
                    violations.append((rp, "compile-time evaluation: " + " | ".join(first)))
                    continue
                if "error:" not in p.stdout or not compiler_works(tmp, u):
                    raise Broken("driver %s does not compile:\n%s" % (u["driver"], p.stdout[-3000:]))
                rp = write_replay(prop, {"unit": u["driver"], "compiler": p.stdout[-6000:]})
                violations.append((rp, "the public interface this property is about can no longer be used: "
                                   + " | ".join(re.findall(r"error: .*", p.stdout)[:3])))
                continue
            if u.get("compile_only"):
                continue
            n = u["n"][0 if tier == "quick" else 1]
            trace = os.path.join(tmp, "trace.ndjson")
            b = beh.get(u.get("beh"))
            if u.get("beh") and not (b and os.path.exists(b)):
                raise Broken("no behaviours from " + u["beh"])
            p = run_driver(exe, trace, seed, n, tier, b)
            if p.returncode != 0:
                m = re.search(r"DRIVER-(crash) signal=\d+ event=(.*)", p.stdout)
                p2 = p if m else run_driver(exe, trace, seed, n, tier, b)
                if p2.returncode == 0:
                    raise Broken("driver failed once only:\n" + p.stdout[-3000:])
                m = m or re.search(r"DRIVER-(\w+) signal=\d+ event=(.*)", p2.stdout)
                kind = m.group(1) if m else "abort"
                rp = write_replay(prop, {"unit": u["driver"], "kind": kind, "event": m.group(2) if m else None,
                                         "output": p2.stdout[-6000:]})
                violations.append((rp, "the call did not return normally (%s): %s" % (kind, (m.group(2) if m else p2.stdout[-300:])[:400])))
                continue
            lines = open(trace).read().splitlines()
            if not lines:
                raise Broken("driver %s recorded nothing" % u["driver"])
            rej, gen, dist = validate(classes, tmp, u, trace, u["module"], 800 if tier == "quick" else 7200)
            ops = {}
            for l in lines:
                for m in re.findall(r'"op":"(\w+)"', l):
                    ops[m] = ops.get(m, 0) + 1
            states += dist
            trans += gen
            events += len(lines)
            parts.append({"trace_spec": u["module"], "driver": u["driver"], "events": len(lines), "states": dist,
                          "transitions": gen, "per_operation": ops})
            samples += [json.loads(lines[i]) for i in sorted({0, len(lines) // 2, len(lines) - 1})]
            if rej:
                # confirm: let TLC judge the rejected lines again, on their own (the drivers are
                # deterministic, so a recording that varies is the code's doing and still counts)
                sub = os.path.join(tmp, "sub.ndjson")
                idx = sorted({r[0] for r in rej})
                with open(sub, "w") as f:
                    f.write("\n".join(lines[i - 1] for i in idx) + "\n")
                rej2, _, _ = validate(classes, tmp, u, sub, u["module"] + "-confirm", 800)
                conf = {(idx[r[0] - 1],) + r[1:] for r in rej2}
                both = [r for r in rej if r in conf]
                if not both:
                    raise Broken("rejection not repeatable: %s" % lines[rej[0][0] - 1][:2000])
                kf = known_findings(prop)
                seen = {}
                for r in both:
                    ev = event_of(lines[r[0] - 1], r)
                    hit = next((f for f in kf if matches(f, ev)), None)
                    if hit:
                        known.append(hit["text"])
                        continue
                    seen.setdefault(ev.get("op"), []).append((r, ev))
                for op, l in sorted(seen.items()):
                    r, ev = l[0]
                    rp = write_replay(prop, {"unit": u["driver"], "module": u["module"], "mode": u.get("mode", "events"),
                                             "trace_line": json.loads(lines[r[0] - 1]), "event": ev, "seed": seed,
                                             "rejected_events_of_this_operation": len(l),
                                             "more": [x[1] for x in l[1:10]]})
                    violations.append((rp, "%s: %d recorded calls rejected, first: %s" % (op, len(l), json.dumps(ev)[:600])))
        for t in sorted(set(known)):
            print("KNOWN-FINDING: property=%s %s" % (prop, t))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": events,
                       "samples": samples[:6], "parts": parts},
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for rp, text in violations:
        print(text)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    print("%s %s: %d states, %d transitions, %d recorded calls, %d violations, %.1f s"
          % (prop, tier, states, trans, events, len(violations), time.time() - t0))
    return 1 if violations else 0


def write_replay(prop, obj):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    k = len(glob.glob(os.path.join(d, prop + "-*.json"))) + 1
    p = os.path.join(d, "%s-%d.json" % (prop, k))
    with open(p, "w") as f:
        json.dump(obj, f, indent=1)
    return p


def replay(path):
    """lets TLC judge the recorded line of a replay file again"""
    o = json.load(open(path))
    prop = os.path.basename(path).split("-")[0]
    unit = next(u for u in CONFIG[prop]["units"] if u["driver"] == o["unit"])
    tmp = tempfile.mkdtemp(prefix="vm-replay-")
    try:
        t = os.path.join(tmp, "t.ndjson")
        open(t, "w").write(json.dumps(o["trace_line"]) + "\n")
        rej, _, _ = validate(java_classes(tmp), tmp, unit, t, "replay", 600)
        print("rejected" if rej else "accepted")
        return 1 if rej else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    d = os.path.join(VERIF, "build", "classes")
    os.makedirs(d, exist_ok=True)
    p = sh(["javac", "-cp", JARS, "-d", d] + glob.glob(os.path.join(SPEC, "java", "**", "*.java"), recursive=True))
    if p.returncode:
        print(p.stdout)
        return 2
    tmp = tempfile.mkdtemp(prefix="vm-setup-")
    try:
        rc, out = tlc(d, tmp, "MC_Rat", open(os.path.join(SPEC, "MC_Rat.cfg")).read(), 1, 300, "rat")
        print(tail(out, 5))
        return 0 if rc == 0 else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if sys.argv[1] == "setup":
        return setup()
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return check(sys.argv[1], tier, seed)
    except Broken as e:
        print("CHECK-ERROR property=%s %s" % (sys.argv[1], e))
        return 2


sys.exit(main())
