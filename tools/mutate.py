#!/usr/bin/env python3
"""Mutation survey: which small changes of the library does neither the test suite nor the simulator see?
mutate.py FILE... [--every=N --off=K --out=FILE --kinds=A,B --skip=LOG,LOG]   (paths relative to the repository)"""
import sys, os, re, json, subprocess, random, time
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H + "/seeds")
import mk
W = os.environ.get("MUT_WORK", "/tmp/mutwork")
Q = ["C01", "C06", "C05", "C03", "C04", "C23"]
MAP = {
 "quota.h": ["C01", "C06", "C05", "C23"], "quota_lessor.h": ["C06", "C23", "C24"], "lf_lifo.h": ["C02", "C05", "C03"],
 "slab_arena.c": ["C03", "C04", "C05"], "slab_arena.h": ["C03", "C04"], "slab_cache.c": ["C07", "C08", "C23"], "slab_cache.h": ["C07", "C08", "C23"],
 "slab_list.h": ["C07", "C08", "C13"], "mempool.c": ["C09", "C10", "C11"], "mempool.h": ["C09", "C10", "C11"],
 "small.c": ["C11", "C12"], "small.h": ["C11", "C12"], "small_class.c": ["C11", "C12"], "small_class.h": ["C11", "C12"],
 "region.c": ["C13"], "region.h": ["C13"], "lsregion.c": ["C14", "C15"], "lsregion.h": ["C14", "C15"],
 "ibuf.c": ["C16", "C24"], "ibuf.h": ["C16", "C24"], "obuf.c": ["C17", "C18"], "obuf.h": ["C17", "C18"],
 "matras.c": ["C19", "C20", "C21"], "matras.h": ["C19", "C20", "C21"], "static.c": ["C22"], "static.h": ["C22"],
 "util.h": ["C13", "C11", "C16", "C17", "C22", "C24"], "rlist.h": ["C09", "C14", "C13"], "lifo.h": ["C09"],
}
def props(f):
    b = os.path.basename(f)
    return ["C24"] if "_asan" in b else MAP[b]

def code_mask(s, structs=False):
    """positions that are code (not comment, string, preprocessor, assert, VALGRIND)"""
    m = bytearray(b"1" * len(s))
    def hide(r):
        nonlocal s
        for x in re.finditer(r, s, re.S): m[x.start():x.end()] = b"0" * (x.end() - x.start())
        s = re.sub(r, lambda x: re.sub(r"[^\n]", " ", x.group()), s, flags=re.S)
    hide(r"/\*.*?\*/"); hide(r"//[^\n]*"); hide(r'"(\\.|[^"\\\n])*"'); hide(r"'(\\.|[^'\\\n])+'")
    rest = [r"(?ms)^#if 0$.*?^#endif", r"\(void\) ?\w+;", r"(?m)^[ \t]*#(?:[^\n\\]|\\\n|\\.)*", r"\bassert\s*\([^;]*;", r"\bVALGRIND_\w+\([^;]*;", r"\bstatic_assert\([^;]*;", r"\bsmall_(un)?likely\b"]
    for r in rest + ([] if structs else [r"\bstruct \w+ \{[^}]*\}"]): hide(r)
    return m

def mutants(s):
    mask, smask = code_mask(s), code_mask(s, True)
    def ok(a, b): return b"0" not in mask[a:b]
    def sok(a, b): return b"0" not in smask[a:b]
    out = []
    def add(a, b, new, kind): out.append((a, b, new, kind))
    for x in re.finditer(r"(?<![-<>=!&|+])(<=|>=|==|!=|<|>|&&|\|\|)(?![<>=])", s):
        if not ok(*x.span()): continue
        t = x.group(1)
        for n in {"<": ["<=", ">="], "<=": ["<", ">"], ">": [">=", "<="], ">=": [">", "<"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"]}[t]:
            add(x.start(1), x.end(1), n, "rel")
    for x in re.finditer(r"(?<=[\w\)\]] )([-+])(?= [\w\(&*])", s):
        if ok(*x.span()): add(x.start(1), x.end(1), "-" if x.group(1) == "+" else "+", "arith")
    for x in re.finditer(r"(?<=[\w\)\]] )([-+|])=(?= )", s):
        if ok(*x.span()): add(x.start(), x.end(), {"+": "-=", "-": "+=", "|": "="}[x.group(1)], "arith"); 
    for x in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", s):
        if ok(*x.span()) and len(x.group(1)) < 3: add(x.start(), x.end(), "(%s + 1)" % x.group(1), "const")
    for x in re.finditer(r"\bif (\()", s):
        if not ok(*x.span()): continue
        i, d = x.start(1), 0
        while True:
            d += s[i] == "("; d -= s[i] == ")"
            i += 1
            if d == 0: break
        c = s[x.start(1):i]
        add(x.start(1), i, "(0 && %s)" % c, "if0"); add(x.start(1), i, "(1 || %s)" % c, "if1")
        c = s[x.start(1) + 1:i - 1]		# drop one term of a condition
        for op in ("&&", "||"):
            d, cut = 0, []
            for k, ch in enumerate(c):
                d += ch == "("; d -= ch == ")"
                if d == 0 and c[k:k + 2] == op: cut.append(k)
            if not cut or ("&&" if op == "||" else "||") in c: continue
            pos = [0] + cut + [len(c)]
            parts = [c[(p + 2 if k else p):pos[k + 1]] for k, p in enumerate(pos[:-1])]
            for k in range(len(parts)): add(x.start(1), i, "(" + op.join(parts[:k] + parts[k + 1:]) + ")", "drop")
    for x in re.finditer(r"(?m)(?<=[;{}\n])([ \t]+)((?!return|goto|case|default|break|struct|int |size_t|uint|char|void|bool|unsigned|const|static|else|typedef|extern|long|for|while|do\b|if)[\w(*][^;{}#]*;)", s):
        if ok(x.start(2), x.start(2) + 3) and ok(x.end(2) - 1, x.end(2)): add(x.start(2), x.end(2), ";", "del")
    # exchange neighbouring statements
    for x in re.finditer(r"(?m)^([ \t]+)((?!return|goto|case|default|break|struct|if|else|while|for|do)[\w(*+-][^;{}\n]*;)\n(?=\1((?!return|goto|case|default|break|struct|if|else|while|for|do)[\w(*+-][^;{}\n]*;)\n)", s):
        e = x.end() + len(x.group(1)) + len(x.group(3))
        if ok(x.start(2), x.start(2) + 3) and ok(x.end(2) - 1, x.end(2)) and ok(e - 1, e): add(x.start(2), e, x.group(3) + "\n" + x.group(1) + x.group(2), "swap")
    for x in re.finditer(r"\b(continue|break|return);", s):
        if ok(*x.span()): add(x.start(), x.end(), ";", "del")
    for x in re.finditer(r"\buint64_t|\bsize_t|\bint64_t", s):
        if sok(*x.span()) and s[x.end():x.end() + 2] not in ("(", ): add(x.start(), x.end(), {"size_t": "unsigned"}.get(x.group(), "int" if x.group() == "int64_t" else "unsigned"), "narrow")
    for x in re.finditer(r"\b(uint32_t|uint16_t|int|unsigned|intptr_t|uintptr_t|ptrdiff_t|ssize_t|matras_id_t|off_t)\b(?= \*?\w)", s):
        if sok(*x.span()): add(x.start(), x.end(), {"uint32_t": "uint16_t", "uint16_t": "uint8_t", "int": "signed char", "unsigned": "unsigned char", "matras_id_t": "uint16_t"}.get(x.group(), "int"), "narrow2")
    for x in re.finditer(r"\bint\b(?= \w+( =|;))", s):
        if sok(*x.span()): add(x.start(), x.end(), "short", "narrow2")
    for x in re.finditer(r"(?m)^[ \t]+([\w>.\[\]-]+ [-+]= [^;\n]*;|[\w>.\[\]-]+(\+\+|--);)", s):	# twice
        if ok(*x.span(1)): add(x.start(1), x.end(1), "{ %s %s }" % (x.group(1), x.group(1)), "twice")
    seen = set(); r = []
    for a, b, n, k in out:
        if (a, b, n) in seen or s[a:b] == n: continue
        seen.add((a, b, n)); r.append((a, b, n, k))
    return sorted(r)

def main():
    files = [a for a in sys.argv[1:] if not a.startswith("--")]
    opt = dict(a[2:].split("=") for a in sys.argv[1:] if a.startswith("--"))
    every, off = int(opt.get("every", 1)), int(opt.get("off", 0)); out = opt.get("out", "/tmp/mut.log")
    mk.W = W
    d = mk.scratch("m")
    env = dict(os.environ, SMALL_REPO=d, SMALL_SIM_BUILD=W + "/build", VERIF_SEED=opt.get("seed", "1"), SMALL_SIM_OUT=W)
    log = open(out, "a")
    done = set(l[10:].split(" => ")[0] for g in opt.get("skip", "").split(",") if g for l in open(g))
    for f in files:
        p = os.path.join(d, f); s = open(p).read(); ms = mutants(s)
        print(f, len(ms), "mutants", flush=True)
        for k, (a, b, n, kind) in enumerate(ms):
            if k % every != off: continue
            if "kinds" in opt and kind not in opt["kinds"].split(","): continue
            line = s.count("\n", 0, a) + 1
            if re.search(r"strerror|fprintf|ignore_it|char buf", s.split("\n")[line - 1]): continue
            desc = "%s:%d [%s] `%s` -> `%s` :: %s" % (f, line, kind, s[a:b].replace("\n", " ")[:60], n[:60].replace("\n", " "), s.split("\n")[line - 1].strip()[:90])
            if desc in done: continue
            open(p, "w").write(s[:a] + n + s[b:])
            t0 = time.time(); res = None
            for pr in props(f):
                try:
                    r = subprocess.run(["python3", V + "/run.py", "check", pr, "--tier=mut"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=300)
                except subprocess.TimeoutExpired: res = "TIMEOUT " + pr; break
                if r.returncode == 1: res = "caught " + pr + " " + r.stdout.strip().split("\n")[0][:100]; break
                if r.returncode != 0: res = "nobuild/err rc=%d %s" % (r.returncode, r.stdout.strip()[-150:].replace("\n", " ")); break
            if res is None:
                e = mk.build_test(d)
                res = "tests " + e[:100].replace("\n", " ") if e else "SURVIVED"
            log.write("%-9s %s => %s (%.0fs)\n" % (res.split()[0], desc, res, time.time() - t0)); log.flush()
        open(p, "w").write(s)
    subprocess.run(["rm", "-rf", d])
main()
