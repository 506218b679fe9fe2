#!/usr/bin/env python3
"""Mutation analysis of the checks, to find what they miss (not part of any check).

usage: mutate.py OUT.jsonl MAX_PER_PROPERTY JOBS [ID ...]
Small changes in the files a property is anchored in, each in a scratch copy; records which ones its check does not see.
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue

out_path, per_prop, jobs, ids = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
REPO, VERIF = "/repo", "/verif"
props = [json.loads(l) for l in open(f"{VERIF}/properties.jsonl")]
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
       (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"std::min\(", "std::max("), (r"std::max\(", "std::min("),
       (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"), (r"\bfloor\(", "ceil("), (r"\bceil\(", "floor("),
       (r" \+= ", " = "), (r" -= ", " += "), (r"\+\+", "--"), (r"\.first\b", ".second"), (r"\.second\b", ".first"),
       (r"\.begin\(\)", ".end()"), (r"\bif \((.*)\) \{$", r"if (!(\1)) {"), (r"\bif \((.*)\) \{$", r"if (false && (\1)) {"),
       (r"%", "/"), (r"<< *", "<< "), (r"\bstd::abs\(", "("), (r"\bsize_t\b", "uint16_t"), (r"\bint64_t\b", "int32_t"), (r"\bdouble\b", "float")]
STATEMENT = re.compile(r"^\s+[\w.\->\[\]()*&:{}]+(\s*[+\-*/|]?=[^=]|\().*;\s*$")


def mutants(path):
    text = open(path).read().split("\n")
    res, comment = [], False
    for i, line in enumerate(text):
        s = line.strip()
        if "/*" in s:
            comment = "*/" not in s
            continue
        if comment:
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "using", "namespace", "template", "static_assert", "@")) or "logger." in s or "throw " in s or s.startswith(("<<", '"')):
            continue
        code = line.split("//")[0]
        for a, b in OPS:
            if a == r"<< *":
                continue
            for m in re.finditer(a, code):
                before = code[:m.start()]
                if before.count('"') % 2:
                    continue
                new = before + m.expand(b) + line[m.end():]
                if new != line:
                    res.append((i, line, new))
        if STATEMENT.match(line) and not re.match(r"\s*(return|auto|const|std::\w+ \w|using|case|default|else|for|if|while)\b", line) and "override" not in line and "= default" not in line:
            res.append((i, line, re.match(r"\s*", line).group(0) + ";"))
    return res


def work(k, q, lock, out):
    w = f"/tmp/mut/w{k}"
    for d in ("repo", "verif"):
        os.makedirs(f"{w}/{d}", exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "_build", REPO + "/", f"{w}/repo/"] if shutil.which("rsync") else
                   ["bash", "-c", f"cp -ru {REPO}/[A-Z]* {w}/repo/"], check=True)
    for n in ("run_check.py", "checks.py", "known_findings.txt"):
        shutil.copy(f"{VERIF}/{n}", f"{w}/verif/{n}")
    for d in ("harness", "shim"):
        shutil.rmtree(f"{w}/verif/{d}", ignore_errors=True)
        shutil.copytree(f"{VERIF}/{d}", f"{w}/verif/{d}")
    env = dict(os.environ, VERIF_REPO=f"{w}/repo", VERIF_SEED="1", VERIF_TIER="quick")
    while True:
        try:
            prop, rel, i, old, new = q.get_nowait()
        except queue.Empty:
            return
        path = f"{w}/repo/{rel}"
        orig = open(f"{REPO}/{rel}").read()
        lines = orig.split("\n")
        assert lines[i] == old
        lines[i] = new
        open(path, "w").write("\n".join(lines))
        try:
            p = subprocess.Popen(["python3", "run_check.py", prop, "quick", "--workers", "3"], cwd=f"{w}/verif", env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            try:
                o, _ = p.communicate(timeout=400)
                verdict = {0: "survived", 1: "caught"}.get(p.returncode, "error")
                if "does not build" in o:
                    verdict = "nobuild"
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                verdict, o = "timeout", ""
        finally:
            open(path, "w").write(orig)
        with lock:
            out.write(json.dumps(dict(property=prop, file=rel, line=i + 1, old=old.strip(), new=new.strip(), verdict=verdict,
                                      msg=(o.splitlines() or [""])[-1][:200] if verdict == "error" else "")) + "\n")
            out.flush()
        shutil.rmtree(f"{w}/verif/replays", ignore_errors=True)


rng = random.Random(int(os.environ.get("MUT_SEED", "1")))
todo = queue.Queue()
count = 0
for p in props:
    if ids and p["id"] not in ids:
        continue
    files = p["anchors"]["files"]
    allm = [(p["id"], f, *m) for f in files if os.path.exists(f"{REPO}/{f}") for m in mutants(f"{REPO}/{f}")]
    rng.shuffle(allm)
    for m in allm[:per_prop]:
        todo.put(m)
        count += 1
    print(p["id"], len(files), "files", len(allm), "mutants", flush=True)
print("to run:", count, flush=True)
out = open(out_path, "a")
lock = threading.Lock()
ts = [threading.Thread(target=work, args=(k, todo, lock, out)) for k in range(jobs)]
[t.start() for t in ts]
[t.join() for t in ts]
