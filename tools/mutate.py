#!/usr/bin/env python3
"""Mutation campaign: makes small changes to the library's sources (one at a time, in scratch copies), runs the
checks whose evidence says they execute the changed function, and lists the changes no check reports.
usage: mutate.py OUTDIR [--per N] [--seed S] [--only REGEX] [--workers W]
Nothing in /repo is touched.  Needs evidence files of a full run."""
import argparse, collections, glob, hashlib, json, os, queue, random, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--per", type=int, default=4)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--only", default="")
ap.add_argument("--workers", type=int, default=3)
ap.add_argument("--list", action="store_true")
ap.add_argument("--ops", type=int, default=1, help="1: operators and conditions; 2: narrower types, other constants, order and repetition of statements")
a = ap.parse_args()
sys.path.insert(0, V + "/tools")
import vpdriver
INC = ["-I" + R + "/include", "-I" + R + "/fcontext/src"]
os.makedirs(a.out, exist_ok=True)

# functions executed by the checks, and how long each check takes
props = collections.defaultdict(set)
wall = {}
for f in glob.glob(V + "/evidence/C*.json"):
    e = json.load(open(f))
    wall[e["property"]] = float(e.get("wall_s", 30))
    for k in e["coverage"]["functions_encoded"]:
        m = re.match(r"(\S+) \((.*)\)", k)
        props[(m[1], m[2])].add(e["property"])
# lines with code and the function each belongs to
fn_of = {}
for src in sorted(glob.glob(R + "/src/*.c")):
    p = subprocess.run(["clang++", "-x", "c++", "-std=gnu++14", "-w", "-g", "-O0"] + ["-D" + d for d in vpdriver.CONFIG_DEFINES] + INC +
                       ["-S", "-emit-llvm", "-o", "-", src], capture_output=True, text=True)
    if p.returncode:
        continue
    files, subs, blocks = {}, {}, {}
    for l in p.stdout.splitlines():
        m = re.match(r"(!\d+) = (?:distinct )?!(\w+)\((.*)\)", l)
        if not m:
            continue
        i, k, b = m.groups()
        if k == "DIFile":
            files[i] = re.search(r'filename: "([^"]*)"', b)[1]
        elif k == "DISubprogram":
            ln = re.search(r'linkageName: "([^"]*)"', b)
            subs[i] = (ln[1] if ln else re.search(r'name: "([^"]*)"', b)[1], re.search(r"file: (!\d+)", b)[1])
        elif k in ("DILexicalBlock", "DILexicalBlockFile"):
            blocks[i] = re.search(r"scope: (!\d+)", b)[1]
    for l in p.stdout.splitlines():
        m = re.search(r"!DILocation\(line: (\d+).*?scope: (!\d+)", l)
        if not m:
            continue
        s = m[2]
        while s in blocks:
            s = blocks[s]
        if s in subs and int(m[1]):
            fn = os.path.relpath(os.path.join("/", files[subs[s][1]]), R)
            if not fn.startswith(".."):
                fn_of[(fn, int(m[1]))] = subs[s][0]


def mutants(line):
    """(description, new text) of one source line"""
    s = line.rstrip("\r\n")
    body = s.strip()
    if not body or body.startswith(("//", "#", "*", "/*")) or "klog(" in body or "assert(" in body or "printf" in body or "perror" in body:
        return
    ind = s[:len(s) - len(s.lstrip())]
    if re.match(r"^[\w\->\.\[\]\*\(\)&, :\+\-!]+(\s*[\+\-\|&]?=\s*[^=].*)?;$", body) and not re.match(r"^(return|break|continue|goto|else|struct|const|static)\b", body) \
            and not re.match(r"^[\w\*]+\s+\*?\w+\s*(=.*)?;$", body):
        yield "delete", ind + "/* " + body.replace("*/", "") + " */;"
    for pat, rep in ((r"(?<![<\-=!>])<(?![<=])", "<="), (r"<=(?!=)", "<"), (r"(?<![\->=<])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
                     (r" \+ ", " - "), (r" - ", " + "), (r"\+\+", "--"), (r"--", "++"), (r"&&", "||"), (r"\|\|", "&&"), (r"\+=", "-="), (r"-=", "+="),
                     (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"KBIT_SET\(", "KBIT_CLR("), (r"KBIT_CLR\(", "KBIT_SET("),
                     (r"(?<![\w\.\"])0(?![\w\.])", "1"), (r"(?<![\w\.\"])1(?![\w\.])", "0"), (r"(?<![\w\.\"])1(?![\w\.])", "2"), (r"!(?=[\w\(])", ""), (r"\bbreak;", ";"), (r"\bcontinue;", ";"),
                     (r"->prev\b", "->next"), (r"->next\b", "->prev"), (r"OP_READ", "OP_WRITE"), (r"OP_WRITE", "OP_READ"),
                     (r"STF_READ\b", "STF_WRITE"), (r"STF_WRITE\b", "STF_READ"), (r"\|STF_\w+", ""), (r"STF_\w+\|", ""), (r"\bkev_ok\b", "kev_destroy")):
        for m in re.finditer(pat, s):
            if '"' in s[:m.start()] and s[:m.start()].count('"') % 2:
                continue
            if rep in (">=", "<=", "<", ">") and "#include" in s:
                continue
            yield m[0].strip() + " to " + (rep.strip() or "nothing"), s[:m.start()] + rep + s[m.end():]
    m = re.match(r"^(\s*(?:\}\s*else\s+)?if\s*)\((.*)\)(\s*\{?)$", s)
    if m:
        yield "negate", m[1] + "(!(" + m[2] + "))" + m[3]
        for k in re.finditer(r" (&&|\|\|) ", m[2]):
            if m[2][:k.start()].count("(") == m[2][:k.start()].count(")"):
                yield "drop left", m[1] + "(" + m[2][k.end():] + ")" + m[3]
                yield "drop right", m[1] + "(" + m[2][:k.start()] + ")" + m[3]


SIMPLE = re.compile(r"^[\w\->\.\[\]\*\(\)&, :\+\-!]+(\s*[\+\-\|&]?=\s*[^=].*)?;$")


def simple(body):
    return SIMPLE.match(body) and not re.match(r"^(return|break|continue|goto|else|struct|const|static|case|default)\b", body) and "assert(" not in body and "printf" not in body and "klog(" not in body


def mutants2(line, nxt):
    s = line.rstrip("\r\n")
    body = s.strip()
    if not body or body.startswith(("//", "#", "*", "/*")) or "klog(" in body or "assert(" in body or "printf" in body or "perror" in body:
        return
    ind = s[:len(s) - len(s.lstrip())]
    for pat, rep in ((r"\bu?int64_t\b", "int32_t"), (r"\bsize_t\b", "int"), (r"\bsize_t\b", "uint16_t"), (r"\buint32_t\b", "uint16_t"), (r"\bint\b(?! main)", "int16_t"), (r"\bint\b(?! main)", "int8_t"),
                     (r"\btime_t\b", "int"), (r"\boff_t\b", "int"), (r"\buint16_t\b", "uint8_t"), (r"\bu_char\b", "char"), (r"\bunsigned char\b", "char"), (r"\bunsigned\b(?! char)", "int")):
        for m in re.finditer(pat, s):
            yield "narrow " + m[0], s[:m.start()] + rep + s[m.end():]
    for m in re.finditer(r"(?<![\w\.\"])(\d+)(?![\w\.])", s):
        v = int(m[1])
        if v >= 2:
            for w in (v - 1, v + 1, v * 2):
                yield "constant", s[:m.start()] + str(w) + s[m.end():]
    for m in re.finditer(r"(?<![=!<>\+\-\|&])= ?([^=;][^;]*);", s):
        if "{" in m[1] or '"' in m[1] or re.match(r"^(NULL|true|false|\d+)$", m[1].strip()):
            continue
        for t in ("(uint8_t)", "(int16_t)", "(int32_t)"):
            yield "cast", s[:m.start(1)] + t + "(" + m[1] + ")" + s[m.end(1):]
    if simple(body) and not re.match(r"^[\w\*]+\s+\*?\w+\s*(=.*)?;$", body):
        yield "twice", s + " " + body
        if nxt is not None and simple(nxt.strip()):
            yield "swap", ind + nxt.strip() + "\x01" + s
    m = re.match(r"^(\s*(?:\}\s*else\s+)?(?:if|while)\s*)\((.*)\)(\s*\{?)$", s)
    if m:
        for k in re.finditer(r"([\w\->\.]+) (==|!=|<|>|<=|>=) ([\w\->\.]+)", m[2]):
            if k[3] == "NULL":
                continue
            yield "off by one", m[1] + "(" + m[2][:k.end()] + " + 1" + m[2][k.end():] + ")" + m[3]
            yield "off by one", m[1] + "(" + m[2][:k.end()] + " - 1" + m[2][k.end():] + ")" + m[3]
    m = re.match(r"^(\s*for\s*\(.*?;.*?)(;.*)$", s)
    if m and "<" in m[1]:
        yield "off by one", m[1] + " - 1" + m[2]
        yield "off by one", m[1] + " + 1" + m[2]


text = {}
todo = collections.defaultdict(list)
for (fn, ln), func in sorted(fn_of.items()):
    if a.only and not re.search(a.only, fn + ":" + func):
        continue
    if fn not in text:
        text[fn] = open(os.path.join(R, fn), encoding="latin1", newline="").read().splitlines(keepends=True)
    ps = props.get((func, fn)) or props.get((func.split("(")[0], fn))
    if not ps or ln > len(text[fn]):
        continue
    seen = set()
    for d, new in (mutants(text[fn][ln - 1]) if a.ops == 1 else mutants2(text[fn][ln - 1], text[fn][ln].rstrip("\r\n") if ln < len(text[fn]) else None)):
        if new not in seen and new.strip() != text[fn][ln - 1].strip():
            seen.add(new)
            todo[(fn, func)].append((fn, ln, func, d, new, ps))
rnd = random.Random(a.seed)
work = []
for k in sorted(todo):
    l = todo[k]
    rnd.shuffle(l)
    # larger functions get more
    n = a.per if len(l) < 40 else a.per * 2 if len(l) < 120 else a.per * 4
    work += l[:n]
if os.environ.get("KEYS"):
    ks = set(open(os.environ["KEYS"]).read().split())
    work = [w for l in todo.values() for w in l if hashlib.sha1(("%s:%d:%s" % (w[0], w[1], w[4])).encode()).hexdigest()[:10] in ks]
rnd.shuffle(work)
print(len(work), "mutants of", sum(len(x) for x in todo.values()), "in", len(todo), "functions", flush=True)
if a.list:
    sys.exit(0)
res_f = open(os.path.join(a.out, "results.txt"), "a")
done = set(l.split("\t")[1] for l in open(os.path.join(a.out, "results.txt")))
lock = threading.Lock()
q = queue.Queue()
for w in work:
    q.put(w)


def key(w):
    return hashlib.sha1(("%s:%d:%s" % (w[0], w[1], w[4])).encode()).hexdigest()[:10]


def one(w, slot):
    fn, ln, func, d, new, ps = w
    k = key(w)
    if k in done:
        return
    tree = os.path.join(a.out, "tree%d" % slot)
    shutil.rmtree(tree, ignore_errors=True)
    os.makedirs(tree)
    for s in ("src", "include", "fcontext"):
        shutil.copytree(os.path.join(R, s), os.path.join(tree, s))
    t = list(text[fn])
    old = t[ln - 1]
    if "\x01" in new:
        new, t[ln] = new.split("\x01")
        t[ln] += "\n"
    t[ln - 1] = new + ("\r\n" if old.endswith("\r\n") else "\n")
    open(os.path.join(tree, fn), "w", encoding="latin1", newline="").write("".join(t))
    probe = [os.path.join(tree, fn)] if fn.endswith(".c") else [os.path.join(tree, "src/kserver.c"), os.path.join(tree, "src/kfiber.c"), os.path.join(tree, "src/kfiber_sync.c")]
    for pr in probe:
        c = subprocess.run(["clang++", "-x", "c++", "-std=gnu++14", "-w", "-fsyntax-only"] + ["-D" + x for x in vpdriver.CONFIG_DEFINES] + ["-I" + tree + "/include", "-I" + tree + "/fcontext/src", pr], capture_output=True)
        if c.returncode:
            return
    verdict, by, other = "SURVIVED", "-", []
    for p in sorted(ps, key=lambda p: wall.get(p, 30)):
        try:
            r = subprocess.run([sys.executable, V + "/run.py", p], capture_output=True, text=True, timeout=600, env=dict(os.environ, VP_REPO=tree, VP_JOBS="3"))
        except subprocess.TimeoutExpired:
            other.append(p + ":timeout")
            continue
        if r.returncode == 1:
            verdict, by = "killed", p
            break
        if r.returncode != 0:
            other.append("%s:%d" % (p, r.returncode))
    with lock:
        res_f.write("\t".join([verdict, k, by, "%s:%d" % (fn, ln), func, d, old.strip(), "=>", new.strip(), "tried " + ",".join(sorted(ps)), " ".join(other)]) + "\n")
        res_f.flush()


def worker(slot):
    while True:
        try:
            w = q.get_nowait()
        except queue.Empty:
            return
        try:
            one(w, slot)
        except Exception as ex:
            print("error", ex, w[:4], flush=True)


ts = [threading.Thread(target=worker, args=(i,)) for i in range(a.workers)]
[t.start() for t in ts]
[t.join() for t in ts]
for i in range(a.workers):
    shutil.rmtree(os.path.join(a.out, "tree%d" % i), ignore_errors=True)
