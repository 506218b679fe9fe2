#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's working tree, runs it, writes the evidence.

usage: run_check.py ID [quick|thorough] [--replay FILE] [--only TEST] [--mult X] [--build-only]
Exit 0: held on everything explored; 1: violation (a VIOLATION line names the replay file); 2: the check itself failed.
"""
import glob, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MODULES = ["AlexandriaKernel", "Configuration", "FilePool", "GridContainer", "Histogram", "KdTree", "MathUtils",
           "NdArray", "PhysicsUtils", "SOM", "SourceCatalog", "Table", "XYDataset"]
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

WARN = "-w"
VARIANTS = {
    # gcc, address + undefined behaviour sanitizers, libstdc++ assertions: an out of bounds access is a failed case
    "asan": ("g++", "-O1 -g1 -ftrivial-auto-var-init=pattern -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr "
                    "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"),
    "tsan": ("g++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread"),
    "plain": ("g++", "-O2 -g1 -ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS"),
    "fuzz": ("clang++", "-O1 -g1 -ftrivial-auto-var-init=pattern -fno-omit-frame-pointer -fsanitize=fuzzer,address,undefined -fno-sanitize=vptr,function "
                        "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -DPBT_LIBFUZZER"),
}
LIBS = ("-lboost_filesystem -lboost_iostreams -lboost_program_options -lboost_regex -lboost_serialization "
        "-lboost_system -lboost_thread -lpthread -ldl")


def sources(modules):
    """The sources of the modules. 'Module:a,b' restricts a module to the named files (a shortcut that saves time)."""
    out = []
    for m in modules:
        m, _, names = m.partition(":")
        for f in sorted(glob.glob(f"{REPO}/{m}/src/**/*.cpp", recursive=True)):
            rel = os.path.relpath(f, REPO)
            if "/program/" in rel:
                continue
            if names and os.path.splitext(os.path.basename(f))[0] not in names.split(","):
                continue
            out.append(f)
    return out


def write_ninja(prop, variants, modules):
    cfg = CHECKS[prop]
    inc = " ".join([f"-I{VERIF}/shim", f"-I{VERIF}/harness"] + [f"-I{REPO}/{m}" for m in MODULES])
    lines = ["ninja_required_version = 1.5", f"builddir = {BUILD}"]
    for v in variants:
        cxx, fl = VARIANTS[v]
        extra = cfg.get("flags", "")
        lines += [f"rule cxx_{v}",
                  f"  command = {cxx} -std=c++14 -DNDEBUG {WARN} {fl} {extra} -include memory -include array -include cstdint {inc} $extra -MMD -MF $out.d -c $in -o $out",
                  "  depfile = $out.d", "  deps = gcc", f"  description = [{v}] $in",
                  f"rule ar_{v}",
                  "  command = rm -f $out && ar rcs $out $in",
                  f"  description = [{v}] archive",
                  f"rule link_{v}",
                  f"  command = {cxx} {fl} $in -o $out {LIBS} {cfg.get('libs', '')}",
                  f"  description = [{v}] link $out"]
    targets = []
    for v in variants:
        objs, lib = [], []
        tag = v + cfg.get("tag", "")
        srcs = []
        for f in sources(modules):
            m = os.path.relpath(f, REPO).split("/")[0]
            # Boost 1.83 no longer includes this header for AsciiReaderHelper.cpp
            srcs.append((f, f"-I{REPO}/{m}/src/lib" + (" -include boost/io/quoted.hpp" if m == "Table" else "")))
        srcs += [(f"{VERIF}/harness/{h}", "") for h in cfg["harness"]]
        srcs += [(f"{VERIF}/harness/common/pbt_main.cpp", "")]
        for f, ex in srcs:
            base = REPO if f.startswith(REPO + "/") else VERIF
            o = f"{BUILD}/{tag}/{os.path.relpath(f, base)}.o"
            lines += [f"build {o}: cxx_{v} {f}", f"  extra = {ex}"]
            (lib if base == REPO else objs).append(o)
        exe = f"{BUILD}/{tag}/{prop}"
        if lib:
            lines.append(f"build {exe}.a: ar_{v} {' '.join(lib)}")
            objs.append(exe + ".a")
        lines.append(f"build {exe}: link_{v} {' '.join(objs)}")
        targets.append((v, exe))
    os.makedirs(BUILD, exist_ok=True)
    path = f"{BUILD}/{prop}-{'-'.join(variants)}.ninja"
    text = "\n".join(lines) + "\n"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    return path, targets


def build(prop, variants):
    # first with the sources the harness is known to need; if code was moved to other files, with all of them
    for modules in (CHECKS[prop]["modules"], MODULES):
        path, targets = write_ninja(prop, variants, modules)
        r = subprocess.run(["ninja", "-f", path] + [e for _, e in targets], cwd=BUILD, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            break
    if r.returncode != 0:
        print(r.stdout[-6000:], file=sys.stderr)
        print(f"ERROR property={prop}: the harness does not build", file=sys.stderr)
        sys.exit(2)
    return targets


def known_findings():
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                f = line.split(None, 3)
                known[(f[1].split("=", 1)[1], f[2].split("=", 1)[1])] = f[3]
    return known


def environment(cfg):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=6000:detect_stack_use_after_return=1" + cfg.get("asan", "")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:report_signal_unsafe=0:history_size=4:detect_deadlocks=0"
    env["LC_ALL"] = "C.UTF-8"
    return env


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER") or "quick"
    opts = {}
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--build-only":
            opts[a] = True
        else:
            opts[a] = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED") or 1)
    cfg = CHECKS[prop]
    t0 = time.time()
    variants = list(cfg.get("variants", ["asan"]))
    env = environment(cfg)
    replay_dir = os.path.join(VERIF, "replays")
    if "--replay" in opts:
        head = open(opts["--replay"]).read().split("\n---")[0]
        v = [ln.split()[1] for ln in head.splitlines() if ln.startswith("variant")]
        targets = dict(build(prop, [v[0] if v else variants[0]]))
        exe = list(targets.values())[0]
        sys.exit(subprocess.run([exe, "--replay", opts["--replay"]], env=env).returncode)
    targets = build(prop, variants)
    if "--build-only" in opts:
        return 0
    t_build = time.time() - t0
    # Coverage-guided fuzzing of the same tests, in the thorough tier
    results, rc = [], 0
    os.makedirs(f"{BUILD}/out", exist_ok=True)
    caps = cfg.get("cap", {}).get(tier, 45 if tier == "quick" else 420) / len(targets)
    for v, exe in targets:
        out = f"{BUILD}/out/{prop}.{v}.json"
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "--tier", tier, "--seed", str(seed), "--out", out, "--prop", prop, "--variant", v,
               "--replay-dir", replay_dir, "--cap", opts.get("--cap", str(caps))]
        mult = float(opts.get("--mult", "1")) * cfg.get("mult", {}).get(v, 1)
        cmd += ["--mult", str(mult)]
        if "--only" in opts:
            cmd += ["--only", opts["--only"]]
        if "--workers" in opts:
            cmd += ["--workers", opts["--workers"]]
        r = subprocess.run(cmd, env=env)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print(f"ERROR property={prop}: harness ended with {r.returncode}", file=sys.stderr)
            return 2
        results.append(json.load(open(out)))
        if results[-1]["violations"]:
            break
    fuzz_info = None
    if tier == "thorough" and cfg.get("fuzz") and not results[-1]["violations"]:
        fuzz_info, extra = fuzz(prop, cfg, seed, env, dict(targets)["asan"], replay_dir, float(opts.get("--fuzz-s", cfg.get("fuzz_s", 150))))
        results[0]["violations"] += extra

    known = known_findings()
    violations, known_lines = [], []
    for res in results:
        violations += res["violations"]
        for k in res["known"]:
            if not k["fails"]:
                continue
            if (prop, k["id"]) in known:
                line = f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}"
                if line not in known_lines:
                    known_lines.append(line)
            else:
                os.makedirs(replay_dir, exist_ok=True)
                p = f"{replay_dir}/{prop}-{k['id']}.txt"
                open(p, "w").write(f"probe {k['id']} of the harness fails\n{k['what']}\n{k['msg']}\n")
                violations.append({"test": k["id"], "replay": p, "msg": k["what"] + ": " + k["msg"]})
    tests = [dict(t, variant=res["variant"]) for res in results for t in res["tests"]]
    samples = []
    for t in tests:
        samples += t.pop("samples")
    cov = {
        "evaluations": sum(t["evaluations"] for t in tests),
        # the variants run the same generator with the same seed: count the distinct cases once
        "distinct_nontrivial": sum(t["distinct_nontrivial"] for t in results[0]["tests"]),
        "rule": cfg["rule"],
        "samples": samples[:12] if samples else ["(no sample)"],
        "tests": tests,
        "unconfirmed_failures": sum(r["unconfirmed"] for r in results),
    }
    if fuzz_info:
        cov["coverage_guided"] = fuzz_info
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "wall_s": round(time.time() - t0, 3), "violations": len(violations),
        "assumptions": cfg.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "build_s": round(t_build, 3),
        "known_findings": known_lines,
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    tmp = f"{VERIF}/evidence/{prop}.json.tmp"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, f"{VERIF}/evidence/{prop}.json")
    for line in known_lines:
        print(line)
    for v in violations:
        print(f"  {v['test']}: {v['msg'][:600]}")
        print(f"VIOLATION property={prop} replay={v['replay']}")
    if not violations:
        print(f"OK property={prop} tier={tier} seed={seed} evaluations={cov['evaluations']} "
              f"distinct_nontrivial={cov['distinct_nontrivial']} wall={ev['wall_s']}s (build {ev['build_s']}s)")
    return 1 if violations else 0


COMMON_ASSUMPTIONS = [
    "Elements framework and CCfits are replaced by the stand-ins in /verif/shim",
    "x86-64 Linux, gcc 13, IEEE-754 doubles, 'C' locale",
]


def fuzz(prop, cfg, seed, env, asan_exe, replay_dir, total_s):
    (_, exe), = build(prop, ["fuzz"])
    names = [ln.split()[0] for ln in subprocess.run([asan_exe, "--list", "x"], env=env, stdout=subprocess.PIPE, text=True).stdout.splitlines()
             if ln.split()[1] == "fuzz"]
    info, extra = [], []
    jobs = []
    base = f"{BUILD}/fuzz/{prop}"
    shutil.rmtree(base, ignore_errors=True)
    per = max(10, int(total_s / max(1, (len(names) + 7) // 8)))
    for k in range(0, len(names), 8):
        batch = []
        for n in names[k:k + 8]:
            d = f"{base}/{n}"
            os.makedirs(d + "/corpus")
            e = dict(env, PBT_TEST=n, PBT_FUZZ_REPLAY=d + "/replay.txt")
            log = open(d + "/log", "w")
            batch.append((n, d, subprocess.Popen(
                [exe, f"-max_total_time={per}", f"-seed={seed}", "-max_len=2048", "-timeout=60", "-rss_limit_mb=3500",
                 "-malloc_limit_mb=3000", "-print_final_stats=1", f"-artifact_prefix={d}/", d + "/corpus"],
                env=e, stdout=log, stderr=log)))
        for n, d, p in batch:
            p.wait()
            text = open(d + "/log").read()
            runs = [ln.split(":")[1].strip() for ln in text.splitlines() if "number_of_executed_units" in ln]
            cov = [ln for ln in text.splitlines() if " cov: " in ln]
            info.append({"test": n, "executions": int(runs[0]) if runs else 0, "corpus": len(os.listdir(d + "/corpus")),
                         "coverage": cov[-1].split("cov: ")[1].split()[0] if cov else "?"})
            if os.path.exists(d + "/replay.txt"):
                # confirm and shrink with the ordinary driver; what it does not confirm is not reported
                r = subprocess.run([asan_exe, "--replay", d + "/replay.txt", "--shrink", "1", "--prop", prop, "--variant", "asan",
                                    "--replay-dir", replay_dir], env=env, stdout=subprocess.PIPE, text=True)
                for ln in r.stdout.splitlines():
                    if ln.startswith("REPLAY "):
                        extra.append({"test": n, "replay": ln.split(None, 1)[1], "msg": "found by coverage-guided fuzzing"})
    shutil.rmtree(base, ignore_errors=True)
    return info, extra


if __name__ == "__main__":
    sys.exit(main())
