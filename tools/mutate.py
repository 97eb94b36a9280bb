#!/usr/bin/python3
"""
tools/mutate.py OUT.jsonl [--per N] [--jobs N] [FILE...]   mutation test of the checks:
small syntactic changes of the code (operators, constants, conditions, deleted
statements), each in a copy of /repo, each run against the checks anchored in
the file until one reports a violation.  Survivors are to be read by hand:
they are equivalent, outside the stated properties, or gaps.
"""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

L = "lib/daeso/"
MAP = {
    L + "gb/graphbank.py": "C08 C05 C07", L + "gb/graphml.py": "C09", L + "gb/gbstats.py": "C14",
    L + "gb/parser.py": "C09 C07", L + "gb/register.py": "C09 C07", L + "gb/graphstub.py": "C07",
    L + "graph/daesograph.py": "C10", L + "graph/ograph.py": "C10",
    L + "pgc/corpus.py": "C06 C01 C07 C02 C08", L + "pgc/graphpair.py": "C03 C04 C05 C01 C08",
    L + "pair.py": "C05 C03",
    L + "pgc/evaluate.py": "C11 C12", L + "pgc/agreement.py": "C12", L + "pgc/diff.py": "C13",
    L + "pgc/pgcstats.py": "C14", L + "pgc/creation.py": "C19",
    L + "ptc/document.py": "C15 C17", L + "ptc/ielemtree.py": "C16", L + "ptc/textalign.py": "C17",
    L + "ptc/diff.py": "C18", L + "ptc/evaluate.py": "C18",
    L + "string/lcs.py": "C22", L + "string/levenshtein.py": "C22", L + "string/median.py": "C22",
    L + "string/needleman_wunsch.py": "C20", L + "string/smith_waterman.py": "C20",
    L + "string/waterman_eggert.py": "C21", L + "string/ngram.py": "C23", L + "string/sgram.py": "C23",
    L + "string/rouge.py": "C23", L + "string/similar.py": "C24", L + "string/tf_idf.py": "C25",
    L + "string/number.py": "C26", L + "stats/table.py": "C14", L + "stats/corpus.py": "C14",
    L + "utils/etree.py": "C05 C01 C15", L + "utils/opsys.py": "C31", L + "utils/cli.py": "C14 C31",
    L + "utils/report.py": "C14",
    L + "thirdparty/GenericCache/GenericCache.py": "C27 C28", L + "thirdparty/GenericCache/LRUStock.py": "C27",
    L + "thirdparty/GenericCache/decorators.py": "C27", L + "thirdparty/odict.py": "C30",
    L + "thirdparty/counter.py": "C30", L + "thirdparty/munkres.py": "C29",
    "bin/gb_stats.py": "C14", "bin/pgc_stats.py": "C14", "bin/pgc_agreement.py": "C12",
    "bin/pgc_chdir.py": "C02", "bin/pgc_cp.py": "C02", "bin/pgc_diff.py": "C13",
    "bin/pgc_extract_phrases.py": "C31", "bin/pgc_from_ptc.py": "C19", "bin/pgc_join.py": "C31",
    "bin/pgc_split.py": "C31", "bin/pgc_zip.py": "C31", "bin/ptc_chdir.py": "C15",
    "bin/ptc_diff.py": "C18", "bin/ptc_eval.py": "C18", "bin/ptc_n_to_id.py": "C15",
}
TOK = re.compile(r'''
 (?P<string>[uUrRbB]{0,2}(?:"""(?:\\.|[^\\])*?"""|\'\'\'(?:\\.|[^\\])*?\'\'\'|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'))
|(?P<comment>\#[^\n]*)|(?P<cont>\\\n)|(?P<nl>\n)|(?P<space>[ \t]+)
|(?P<number>0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)|(?P<name>[A-Za-z_]\w*)
|(?P<op>\*\*=?|//=?|>>=?|<<=?|<=|>=|==|!=|<>|[-+*/%&|^=<>]=?|[^\w\s])''', re.X | re.S)
SWAP = {"==": "!=", "!=": "==", "<>": "==", "<": "<=", ">": ">=", "<=": "<", ">=": ">",
        "+": "-", "-": "+", "*": "+", "/": "*", "+=": "-=", "-=": "+=", "%": None}
NSWAP = {"and": "or", "or": "and", "True": "False", "False": "True", "break": "pass",
         "continue": "pass", "not": "", "min": "max", "max": "min", "any": "all", "all": "any",
         "append": None, "sorted": "list", "is": None, "in": None}


def mutants(src):
    toks = []
    pos = 0
    while pos < len(src):
        m = TOK.match(src, pos)
        if not m:
            pos += 1
            continue
        toks.append((m.lastgroup, m.group(), m.start(), m.end()))
        pos = m.end()
    out = []
    # logical lines
    depth, line, lines = 0, [], []
    for t in toks:
        k, s, a, b = t
        if k == "op" and s in "([{":
            depth += 1
        elif k == "op" and s in ")]}":
            depth -= 1
        if k == "nl" and depth == 0:
            if line:
                lines.append(line)
            line = []
        elif k not in ("comment", "cont", "space", "nl"):
            line.append(t)
    for ln in lines:
        first = ln[0]
        if first[0] == "string" or first[1] in ("import", "from", "class", "def", "global", "raise", "print", "assert", "@"):
            if first[1] not in ("def",):
                continue
        text = src[first[2]:ln[-1][3]]
        if text.startswith("__authors__") or "add_argument" in text or "parser" in text[:30] or "usage" in text[:20]:
            continue
        if first[1] == "def":
            # default values only
            rng = ln[2:]
        else:
            rng = ln
        if first[1] in ("if", "elif", "while") and ln[-1][1] == ":":
            a, b = ln[1][2], ln[-1][2]
            out.append((a, b, "not (" + src[a:b] + ")", "negate condition"))
        elif first[1] == "return" and len(ln) > 1:
            if src[ln[1][2]:ln[-1][3]] != "None":
                out.append((ln[1][2], ln[-1][3], "None", "return None"))
        elif first[1] not in ("def", "if", "elif", "else", "for", "while", "try", "except", "finally", "with", "return", "pass", "break", "continue", "yield"):
            out.append((first[2], ln[-1][3], "pass", "delete statement"))
        for i, (k, s, a, b) in enumerate(rng):
            prev = rng[i - 1] if i else None
            if k == "op" and SWAP.get(s):
                if s in "+-*" and (prev is None or prev[0] == "op" and prev[1] not in ")]}" or prev[1] in ("return", "in", "and", "or")):
                    if s == "-":
                        out.append((a, b, "", "drop minus"))
                    continue
                if s in ("*", "**") and prev[1] in ("(", ","):
                    continue
                out.append((a, b, SWAP[s], "operator"))
            elif k == "name" and NSWAP.get(s) is not None:
                if s == "in" or s == "not" and i + 1 < len(rng) and rng[i + 1][1] == "in":
                    continue
                if s == "not" and prev and prev[1] == "is":
                    continue
                out.append((a, b, NSWAP[s], "word"))
            elif k == "name" and s == "in" and first[1] != "for" and "for" not in [x[1] for x in rng[:i]]:
                if prev[1] == "not":
                    out.append((prev[2], b, "in", "not in"))
                else:
                    out.append((a, b, "not in", "in"))
            elif k == "name" and s == "is":
                n = rng[i + 1]
                if n[1] == "not":
                    out.append((a, n[3], "is", "is not"))
                else:
                    out.append((a, b, "is not", "is"))
            elif k == "number":
                try:
                    v = repr(int(s) + 1) if s.isdigit() else repr(float(s) + 1)
                except ValueError:
                    continue
                out.append((a, b, v, "number"))
            elif k == "name" and s == "None" and prev and prev[1] == "=":
                pass
            elif k == "string" and i and len(s) > 2 and "doc" not in src[max(0, a - 20):a]:
                if prev[1] in ("==", "!=", "[", "in", "get", "(") or (i + 1 < len(rng) and rng[i + 1][1] in ("]", ")")):
                    q = s.rstrip("'\"")
                    out.append((a, b, q + "X" + s[len(q):], "string"))
    return out


def valid(path, cands):
    """filter out what does not compile (one JVM for all)"""
    t = tempfile.mkdtemp(prefix="mutc-")
    src = open(path, encoding="latin-1", newline="").read()
    try:
        json.dump([src[:a] + r + src[b:] for a, b, r, w in cands], open(t + "/c.json", "w"))
        open(t + "/c.py", "w").write(
            "import json\nout=[]\nfor s in json.load(open('%s/c.json')):\n"
            "  try: compile(s.encode('latin-1'),'x','exec'); out.append(1)\n"
            "  except Exception: out.append(0)\nf=open('%s/o.json','w'); f.write(json.dumps(out)); f.close()\n" % (t, t))
        subprocess.check_call(["bash", "-c", ". /opt/jy/env.sh; jython2 %s/c.py" % t])
        good = json.load(open(t + "/o.json"))
        return [c for c, g in zip(cands, good) if g]
    finally:
        shutil.rmtree(t)


def run_check(prop, repo, t, workers):
    """True/False/None: caught, survived, no answer; stops at the first violation"""
    verif = t + "/verif"
    hit = t + "/HIT"
    if os.path.exists(hit):
        os.unlink(hit)
    jyb = t + "/jyb"
    os.makedirs(jyb, exist_ok=True)
    p = subprocess.Popen(["unshare", "-Urm", "bash", "-c",
        "mount --bind %s /repo && mount --bind %s /verif && mount --bind %s /opt/jy/build && cd /verif && MC_HIT=%s exec ./check.py %s --tier quick --workers %d"
        % (repo, verif, jyb, hit, prop, workers)], stdout=open(t + "/log", "wb"), stderr=subprocess.STDOUT, start_new_session=True)
    end = time.time() + 900
    while p.poll() is None:
        if os.path.exists(hit) or time.time() > end:
            # the workers have sessions of their own
            out = subprocess.run(["pgrep", "-f", "mc-%s-" % prop], stdout=subprocess.PIPE).stdout.split()
            kids = children(p.pid)
            for k in kids + [p.pid]:
                try:
                    os.kill(k, signal.SIGKILL)
                except OSError:
                    pass
            p.wait()
            return True if os.path.exists(hit) else None
        time.sleep(0.2)
    if p.returncode == 1:
        return True
    return False if p.returncode == 0 else None


def children(pid):
    out, todo = [], [pid]
    table = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                s = open("/proc/%s/stat" % d).read()
            except OSError:
                continue
            table.setdefault(int(s.rsplit(")", 1)[1].split()[1]), []).append(int(d))
    while todo:
        for c in table.get(todo.pop(), []):
            out.append(c)
            todo.append(c)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("files", nargs="*")
    ap.add_argument("--per", type=int, default=30)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--salt", default="")
    a = ap.parse_args()
    seen = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            r = json.loads(l)
            seen.add((r["file"], r["old"], r["new"], r["at"]))
    t = tempfile.mkdtemp(prefix="mut-")
    try:
        subprocess.check_call(["cp", "-a", "/repo", t + "/repo"])
        shutil.copytree("/verif", t + "/verif", ignore=shutil.ignore_patterns("seeded", ".git"))
        core = t + "/verif/mc/core.py"
        s = open(core).read()
        s = s.replace("        self.seen_sigs.add(sig)\n",
                      "        self.seen_sigs.add(sig)\n        if sig not in self.known and os.environ.get('MC_HIT'):\n            open(os.environ['MC_HIT'], 'w').close()\n", 1)
        open(core, "w").write(s)
        for f in a.files or list(MAP):
            path = t + "/repo/" + f
            src = open(path, encoding="latin-1", newline="").read()
            cands = mutants(src)
            cands.sort(key=lambda c: hashlib.md5(repr((a.salt, f, c)).encode()).hexdigest())
            cands = valid(path, cands[:a.per * 2])[:a.per]
            print("==", f, len(cands), flush=True)
            if a.list:
                continue
            for x, y, r, w in cands:
                line = src.count("\n", 0, x) + 1
                rec = dict(file=f, line=line, at=x, old=src[x:y], new=r, what=w)
                if (f, rec["old"], r, x) in seen:
                    continue
                b = src.rfind("\n", 0, x) + 1
                e = src.find("\n", y)
                rec["text"] = src[b:x] + "[[" + src[x:y] + " => " + r + "]]" + src[y:e]
                open(path, "w", encoding="latin-1", newline="").write(src[:x] + r + src[y:])
                start = time.time()
                rec["by"] = None
                for c in MAP[f].split():
                    got = run_check(c, t + "/repo", t, a.workers)
                    if got:
                        rec["by"] = c
                        break
                    if got is None:
                        rec.setdefault("noanswer", []).append(c)
                        rec["log"] = open(t + "/log", errors="replace").read()[-600:]
                rec["s"] = round(time.time() - start)
                open(path, "w", encoding="latin-1", newline="").write(src)
                with open(a.out, "a") as o:
                    o.write(json.dumps(rec) + "\n")
                print(("CAUGHT " + rec["by"]) if rec["by"] else "SURVIVED", rec["s"], f, line, rec["text"].strip()[:160], rec.get("noanswer", ""), flush=True)
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    main()
