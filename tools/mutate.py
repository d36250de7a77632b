#!/usr/bin/env python3
"""Sample small edits of the sources and see which checks notice: mutate.py TREE N SEED LOG [file-regex]
TREE is a scratch copy of /repo (it is edited and restored); survivors are for a human to read."""
import json, os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tree, N, seed, log = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
rx = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
rng = random.Random(seed)
SKIP = re.compile(r"linenoise|xgetopt|stackDump|git_info|gitinfo|v13|elementary_debug|TSpace_load_v1")
PROPS = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
SLOW = {"C29", "C30"}
EV = os.path.join("/verif", "evidence")


def wall(i):
    try:
        return json.load(open(os.path.join(EV, i + ".json")))["wall_s"]
    except Exception:
        return 20


def anchors(p):
    a = p.get("anchors", p)
    return a.get("files", []) if isinstance(a, dict) else []


def order(f):
    """Checks anchored on the file, then all the others but the slowest."""
    first = sorted((p["id"] for p in PROPS if any(f == a or f.startswith(a + "/") for a in anchors(p))), key=wall)
    rest = sorted((p["id"] for p in PROPS if p["id"] not in first), key=wall)
    return [x for x in first + rest if x not in SLOW] + [x for x in first if x in SLOW]


OPS = [
    (r"<=", ["<", ">"]), (r">=", [">", "<"]), (r"==", ["!="]), (r"!=", ["=="]),
    (r"(?<![<\-=>])<(?![<=])(?= )", ["<="]), (r"(?<![\->=])>(?![>=])(?= )", [">="]),
    (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+=", ["-=", "="]), (r"-=", ["+=", "="]),
    (r"(?<=[\w\)\]]) ?\+ ?(?=[\w\(])", ["-"]), (r"(?<=[\w\)\]]) ?- ?(?=[\w\(])", ["+"]),
    (r"(?<=[\w\)\]]) ?\* ?(?=[\w\(])", ["/"]), (r"(?<=[\w\)\]]) ?/ ?(?=[\w\(])", ["*"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"std::max\b", ["std::min"]), (r"std::min\b", ["std::max"]),
    (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]), (r"\b0\.5\b", ["0.51"]),
    (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\bif ?\(", ["if (!"]), (r"\.r\b", [".r*1.001"]), (r"_min\b", ["_max"]), (r"_max\b", ["_min"]),
    (r"\brotl\(", ["-rotl("]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", [";"]), (r"\bfabs\(", ["("]), (r"\babs\(\)", ["abs2()"]),
]


def candidates(f):
    out = []
    block = False
    for no, line in enumerate(open(os.path.join(tree, f), errors="replace").read().split("\n")):
        if "/*" in line and "*/" not in line:
            block = True
        if block:
            block = "*/" not in line
            continue
        code = re.sub(r"//.*", "", line)
        s = code.strip()
        if not s or s.startswith(("#", "fprintf", "printf", "perror", "VVMON", "static_assert", "assert", "template", "using", "friend", "std::cerr")) or "throw" in s or "DEBUG" in line:
            continue
        strs = [m.span() for m in re.finditer(r'"(?:\\.|[^"])*"', code)]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if any(a <= m.start() < b for a, b in strs):
                    continue
                for r in reps:
                    new = code[:m.start()] + r + code[m.end():]
                    if r == "if (!":
                        # negate the whole condition
                        d, k = 1, m.end()
                        while k < len(code) and d:
                            d += (code[k] == "(") - (code[k] == ")"); k += 1
                        if d:
                            continue
                        new = code[:m.start()] + "if (!(" + code[m.end():k - 1] + "))" + code[k:]
                    out.append((no, line, new))
        if re.match(r"^[\w\.\->\[\]\(\)\*&:]+ ?[-+*/]?= ?[^=].*;$", s) or re.match(r"^[\w\.\->:]+\(.*\);$", s):
            if not re.match(r"^(return|delete|auto|const|int|double|float|bool|TVec|char|size_t|unsigned|long|H5\w*close)\b", s):
                out.append((no, line, code.replace(s, ";")))
    return out


files = []
for d in ("libvvhd/src", "libvvhd/headers", "utils/vvflow", "utils/vvplot", "utils/vvxtract"):
    for n in sorted(os.listdir(os.path.join(tree, d))):
        f = os.path.join(d, n)
        if n.endswith((".cpp", ".hpp", ".h")) and not SKIP.search(f) and rx.search(f):
            files.append(f)
cand = [(f, *c) for f in files for c in candidates(f)]
rng.shuffle(cand)
seen = set()
if os.path.exists(log):
    for l in open(log):
        r = json.loads(l)
        seen.add((r["file"], r["line"], r["new"]))
print(len(files), "files", len(cand), "candidates", flush=True)
env = dict(os.environ, VV_REPO=tree, VERIF_SEED="1", VERIF_TIER="quick")
done = 0
for f, no, old, new in cand:
    if done >= N:
        break
    if (f, no + 1, new.strip()) in seen:
        continue
    p = os.path.join(tree, f)
    txt = open(p, encoding="utf8", errors="surrogateescape").read()
    ls = txt.split("\n")
    ls[no] = new
    open(p, "w", encoding="utf8", errors="surrogateescape").write("\n".join(ls))
    t0 = time.time()
    rec = dict(file=f, line=no + 1, old=old.strip(), new=new.strip(), killed=None, odd=[])
    try:
        r = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r)\nfrom vv import build\nfor n in ('vvflow', 'vvplot', 'vvxtract'): build.program(n, 'rel')" % os.path.join(V, "lib")],
                           env=env, capture_output=True)
        if r.returncode:
            continue
        if sum(1 for _ in [0]):
            done += 1
        for i in order(f):
            try:
                r = subprocess.run(["python3-vt", "checks/%s.py" % i.lower()], cwd=V, env=env, capture_output=True, text=True, errors="replace", timeout=400)
            except subprocess.TimeoutExpired:
                rec["odd"].append(i + ":timeout")
                continue
            if r.returncode == 1 and "VIOLATION property=" + i in r.stdout:
                rec["killed"] = i
                rec["msg"] = r.stdout.split("\n")[1][:120] if "\n" in r.stdout else ""
                break
            if r.returncode:
                rec["odd"].append("%s:%d" % (i, r.returncode))
    finally:
        open(p, "w", encoding="utf8", errors="surrogateescape").write(txt)
    rec["s"] = round(time.time() - t0)
    with open(log, "a") as fp:
        fp.write(json.dumps(rec) + "\n")
    print(rec["killed"] or "SURVIVED", rec["odd"], rec["s"], f, no + 1, "|", rec["old"][:70], "->", rec["new"][:70], flush=True)
