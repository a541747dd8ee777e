#!/usr/bin/env python3
"""Driver of the checks: builds a property's harness from /repo's working tree,
runs the generated-input search, writes evidence/<ID>.json.

  check.py <ID> [--tier quick|thorough]     run one check (exit 0 / 1)
  check.py <ID> --replay FILE               re-run one saved failing case
"""
import argparse, json, os, threading, re, shutil, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks_table import CHECKS   # noqa: E402

CFG = """#ifndef SpatialOps_Configure_h
#define SpatialOps_Configure_h
%s
#define SOPS_REPO_DATE "none"
#define SOPS_REPO_HASH "none"
#endif
"""
VARIANTS = {
    "serial": "#define NTHREADS 1",
    "threads": "#define ENABLE_THREADS\n#define FIELD_EXPRESSION_THREADS\n#define STENCIL_THREADS\n"
               "#define TILL_THREADS\n#define NTHREADS 4",
}
LIBSRC = {
    "core": ["structured/GhostData.cpp", "structured/Grid.cpp", "structured/MemoryPool.cpp",
             "structured/MemoryWindow.cpp"],
    "mem": ["structured/GhostData.cpp", "structured/MemoryPool.cpp", "structured/MemoryWindow.cpp"],
    "stencil": ["structured/stencil/StencilBuilder.cpp"],
    "onedim": ["structured/onedim/LagrangePoly.cpp"],
    "pool": ["ThreadPool.cpp"],
}
BASE = ["-w", "-std=gnu++17", "-ffp-contract=off", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-DBOOST_ALLOW_DEPRECATED_HEADERS"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True,
                          errors="replace", **kw)


SLOW = threading.Lock()


def build_exe(exe, bdir, fuzz=False, jobs=8):
    """exe: dict(name, src=[..harness..], libs=[..], variant, san, opt, defs). Returns path."""
    variant = exe.get("variant", "serial")
    cfg = os.path.join(bdir, "cfg-" + variant, "spatialops")
    os.makedirs(cfg, exist_ok=True)
    with open(os.path.join(cfg, "SpatialOpsConfigure.h"), "w") as f:
        f.write(CFG % VARIANTS[variant])
    flags = BASE + [exe.get("opt", "-O1"), "-I" + os.path.dirname(cfg), "-I" + REPO, "-I" + os.path.join(HERE, "engine"),
                    "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(bdir, "gen")] + exe.get("defs", [])
    cxx = exe.get("cxx", "g++")
    if exe.get("san"):
        flags += SAN + ["-g1"]
    if exe.get("tsan"):
        flags += ["-fsanitize=thread", "-g1"]
    link = []
    if fuzz:
        cxx = "clang++"
        flags = [x for x in flags if x not in SAN] + ["-g1", "-DPBT_LIBFUZZER", "-fsanitize=fuzzer-no-link,address,undefined",
                 "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=undefined"]
        link = ["-fsanitize=fuzzer,address,undefined"]
    launcher = ["ccache"] if os.environ.get("VERIF_CCACHE") and not any("allowlist" in x for x in exe.get("defs", [])) else []
    srcs = []
    for s in (exe.get("src_thorough") if exe.get("tier") == "thorough" else None) or exe["src"]:
        s, _, d = s.partition(":")           # "file.cpp:-DPART=1"
        srcs.append((os.path.join(HERE, "harness", s), d.split(",") if d else []))
    opts = exe.get("libopt", {})
    for l in exe.get("libs", []):
        for s in LIBSRC[l]:
            srcs.append((os.path.join(REPO, "spatialops", s), [opts[l]] if l in opts else []))
    odir = os.path.join(bdir, exe["name"] + ("-fuzz" if fuzz else ""))
    os.makedirs(odir, exist_ok=True)
    objs = []

    def one(a):
        i, (s, d) = a
        o = os.path.join(odir, "%d-%s.o" % (i, os.path.basename(s)))
        r = sh(launcher + [cxx] + flags + d + ["-c", s, "-o", o])
        for k in range(3):           # the compiler was ended for lack of memory: again, one at a time
            if r.returncode == 0 or "Killed" not in r.stderr:
                break
            with SLOW:
                time.sleep(5 * k)
                r = sh(launcher + [cxx] + flags + d + ["-c", s, "-o", o])
        return o, r, s
    with ThreadPoolExecutor(jobs) as ex:
        for o, r, s in ex.map(one, list(enumerate(srcs))):
            if r.returncode:
                if exe.get("builds") and not fuzz and s.startswith(HERE) and " error: " in r.stderr:
                    raise Rejected(exe, s, r.stderr)
                sys.stderr.write(r.stderr[-4000:])
                raise SystemExit("build of %s failed" % s)
            objs.append(o)
    out = os.path.join(odir, "run")
    san = (SAN if exe.get("san") and not fuzz else []) + (["-fsanitize=thread"] if exe.get("tsan") and not fuzz else [])
    r = sh([cxx] + san + link + objs + ["-o", out] + exe.get("link", []) +
           ["-lboost_thread", "-lboost_system", "-lboost_filesystem", "-lpthread"])
    if r.returncode:
        sys.stderr.write(r.stderr[-4000:])
        raise SystemExit("link of %s failed" % exe["name"])
    return out


class Rejected(Exception):
    """A program the property says is expressible is rejected by the compiler (executables with builds=True only)."""
    def __init__(self, exe, src, err):
        self.exe, self.src = exe, src
        i = err.find(" error: ")
        self.text = err[max(0, err.rfind("\n", 0, i)):i + 400].strip()


def load_known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)).get("findings", []):
            if k["property"] == pid:
                out.append(k)
    return out


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
    return e


def decode_fuzz(data):
    ch, i = [], 1
    while i < len(data):
        if data[i] < 0xf0:
            ch.append(data[i]); i += 1
        else:
            k = min(4, len(data) - i - 1); v = 0
            for j in range(k):
                v = v << 8 | data[i + 1 + j]
            i += 1 + k; ch.append(v)
    return ch


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("--exe"); ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.replay:
        a.tier = json.load(open(a.replay)).get("tier", a.tier)
    pid, tier = a.pid, ("thorough" if a.tier == "thorough" else "quick")
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bdir = os.path.join(HERE, "build", pid + "-" + tier + os.environ.get("VERIF_BTAG", ""))
    os.makedirs(bdir, exist_ok=True)
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    edir = os.path.join(HERE, "evidence"); os.makedirs(edir, exist_ok=True)
    for g in spec.get("gen", []):            # generated sources (expressions), from the seed
        gseed = json.load(open(a.replay)).get("gen_seed", seed) if a.replay else seed
        gd = os.path.join(bdir, "gen"); os.makedirs(gd, exist_ok=True)
        r = sh([sys.executable, os.path.join(HERE, "tools", g[0])] + list(g[1 if tier == "quick" else 2]) + ["--seed", str(gseed), "--out", gd])
        if r.returncode:
            sys.stderr.write(r.stderr[-3000:]); sys.exit(2)
    exes = [x for x in spec["exes"] if (tier == "thorough" or not x.get("thorough_only")) and (not a.exe or x["name"] == a.exe)]
    for x in exes:
        x["tier"] = tier
    try:
        with ThreadPoolExecutor(len(exes)) as ex:
            bins = list(ex.map(lambda x: build_exe(x, bdir), exes))
    except SystemExit as e:
        sys.stderr.write("ERROR: %s\n" % e)
        sys.exit(2)
    except Rejected as e:
        msg = "%s: the generated use of the library no longer compiles: %s" % (os.path.basename(e.src), e.text)
        print(msg)
        if not a.replay:
            rp = os.path.join(rdir, "%s-%s-%s-seed%d.json" % (pid, e.exe["name"], tier, seed))
            json.dump(dict(target="compile", key=pid + ":compile", message=msg, seed=seed, choices=[], exe=e.exe["name"], property=pid,
                           gen_seed=seed, tier=tier), open(rp, "w"), indent=1)
            ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
                      coverage=dict(evaluations=1, distinct_nontrivial=1, rule=spec["rule"], samples=["(no sample: the generated programs are rejected by the compiler)"],
                                    violation=dict(target="compile", message=msg)),
                      assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1)
            json.dump(ev, open(os.path.join(edir, pid + ".json"), "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, HERE)))
        sys.exit(1)
    tb = time.time() - t0
    if a.replay:
        rc = 0
        rep = json.load(open(a.replay))
        for x, b in zip(exes, bins):
            if rep.get("exe") in (None, x["name"]):
                r = subprocess.run([b, "--replay", a.replay, "--hang", str(x.get("hang", 60))], env=env())
                rc = max(rc, r.returncode)
        sys.exit(1 if rc else 0)
    known = load_known(pid)
    tot = dict(evaluations=0, nontrivial=0, distinct=0, discarded=0)
    labels, targets, samples, khits, notes, per = {}, {}, [], {}, [], []
    viol = None
    for x, b in zip(exes, bins):
        cases = int(x["cases"][0 if tier == "quick" else 1] * a.scale)
        res = os.path.join(bdir, x["name"] + ".json")
        rp = os.path.join(rdir, "%s-%s-%s-seed%d.json" % (pid, x["name"], tier, seed))
        for f in (res, rp):
            if os.path.exists(f):
                os.unlink(f)
        el = os.path.join(bdir, x["name"] + ".err")
        if os.path.exists(el):
            os.unlink(el)
        cmd = [b, "--seed", str(seed), "--cases", str(cases), "--workers", str(x.get("workers", 8)), "--out", res,
               "--replay-out", rp, "--hang", str(x.get("hang", 60)), "--errlog", el,
               "--max-time", str(x.get("max_time", (200 if tier == "quick" else 1500)))]
        for k in known:
            cmd += ["--known", k["key"]]
        if a.only:
            cmd += ["--only", a.only]
        r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if r.returncode not in (0, 1) or not os.path.exists(res):
            sys.stderr.write("ERROR: runner of %s ended with %d\n%s\n" % (x["name"], r.returncode, r.stderr[-2000:]))
            sys.exit(2)
        j = json.load(open(res))
        tot["evaluations"] += j["evaluations"]; tot["nontrivial"] += j["nontrivial"]
        tot["distinct"] += j["distinct_nontrivial"]; tot["discarded"] += j["discarded"]
        for k, v in j["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in j["targets"].items():
            targets[x["name"] + "/" + k] = targets.get(x["name"] + "/" + k, 0) + v
        samples += ["[%s] %s" % (x["name"], s) for s in j["samples"][:6]]
        for k, v in j["known"].items():
            khits[k] = (khits.get(k, (0, ""))[0] + v["hits"], v["message"])
        notes += ["unreproduced observation: " + u for u in j["unreproduced"]] + j["infra"]
        per.append(dict(executable=x["name"], variant=x.get("variant", "serial"), sanitizers=bool(x.get("san")),
                        cases=j["evaluations"], wall_s=round(j["wall_s"], 2)))
        if j["violation"]:
            viol = (j["violation"], rp, x["name"])
            rep = json.load(open(rp)); rep["exe"] = x["name"]; rep["property"] = pid; rep["gen_seed"] = seed; rep["tier"] = tier
            json.dump(rep, open(rp, "w"), indent=1)
            break
    # coverage-guided stage (thorough only)
    fuzzinfo = []
    if tier == "thorough" and viol is None:
        for x, b in zip(exes, bins):
            if not x.get("fuzz"):
                continue
            try:
                fb = build_exe(x, bdir, fuzz=True)
            except SystemExit as e:
                notes.append("coverage-guided build failed: %s" % e); continue
            art = os.path.join(bdir, x["name"] + "-art"); cor = os.path.join(bdir, x["name"] + "-corpus")
            for d in (art, cor):
                shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            e = env(); e["PBT_KNOWN"] = "|" + "|".join(k["key"] for k in known) + "|"
            secs = int(x["fuzz"] * a.scale)
            procs = []
            for w in range(8):
                procs.append(subprocess.Popen([fb, "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % secs, "-max_len=512",
                             "-timeout=%d" % int(x.get("hang", 60)), "-rss_limit_mb=3000", "-print_final_stats=1",
                             "-artifact_prefix=%s/" % art, "-reload=1", cor], env=e, stdout=subprocess.DEVNULL,
                             stderr=open(os.path.join(bdir, "%s-fuzz%d.log" % (x["name"], w)), "w")))
            for p in procs:
                p.wait()
            n = 0
            for w in range(8):
                m = re.search(r"number_of_executed_units:\s*(\d+)", open(os.path.join(bdir, "%s-fuzz%d.log" % (x["name"], w)), errors="replace").read())
                n += int(m.group(1)) if m else 0
            tot["evaluations"] += n
            fuzzinfo.append(dict(executable=x["name"], executions=n, corpus=len(os.listdir(cor)), seconds=secs))
            for f in sorted(glob.glob(art + "/crash-*") + glob.glob(art + "/timeout-*")):
                data = open(f, "rb").read()
                names = sorted(j0 for j0 in [])
                order = subprocess.run([b, "--list"], stdout=subprocess.PIPE, text=True).stdout.split()
                if not data or not order:
                    continue
                rp = os.path.join(rdir, "%s-%s-fuzz-seed%d.json" % (pid, x["name"], seed))
                rep = dict(target=order[data[0] % len(order)], key="", message="found by coverage-guided fuzzing", seed=seed,
                           choices=decode_fuzz(data), case_indices=[], exe=x["name"], property=pid, gen_seed=seed, tier=tier)
                json.dump(rep, open(rp, "w"))
                cmd = [b, "--replay", rp, "--hang", str(x.get("hang", 60))]
                rs = [subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, text=True, errors="replace") for _ in range(3)]
                bad = [r for r in rs if r.returncode == 1]
                m = re.match(r"\w+ key=(\S*)", bad[0].stdout) if bad else None
                if len(bad) == 3 and not (m and m.group(1) in [k["key"] for k in known]):
                    viol = (dict(target=rep["target"], key=m.group(1) if m else "", message=bad[0].stdout[:1500]), rp, x["name"])
                    break
                else:
                    notes.append("fuzzer artifact %s did not fail in the plain build" % os.path.basename(f))
            if viol:
                break
    nviol = 1 if viol else 0
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=tot["evaluations"], distinct_nontrivial=tot["distinct"], rule=spec["rule"],
                            samples=samples[:12] or ["(no sample: the run stopped at a violation)"], nontrivial=tot["nontrivial"], discarded=tot["discarded"],
                            classes=dict(sorted(labels.items())), targets=targets, executables=per, fuzzing=fuzzinfo,
                            known_findings_hit={k: v[0] for k, v in khits.items()}),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nviol)
    if notes:
        ev["coverage"]["notes"] = notes[:20]
    if viol:
        ev["coverage"]["violation"] = viol[0]
    json.dump(ev, open(os.path.join(edir, pid + ".json"), "w"), indent=1)
    for k in known:
        if k["key"] in khits:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs" %
          (pid, tier, seed, tot["evaluations"], tot["distinct"], tb, time.time() - t0))
    for n in notes[:5]:
        print("note: " + n)
    if not a.keep:
        shutil.rmtree(bdir, ignore_errors=True)
    if viol:
        print("%s: %s" % (viol[0]["key"], viol[0]["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(viol[1], HERE)))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
