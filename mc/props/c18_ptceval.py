# -*- coding: utf-8 -*-
"""C18: evaluation and comparison of text alignments"""

import itertools
import re

from daeso.ptc.diff import print_diff
from daeso.ptc.document import HitaextDoc
from daeso.ptc.evaluate import eval_alignment, compute_scores, count_alignment

from mc import fx, script
from mc.core import eq, ok, close

S_DOC = u"""<doc><p id="p1"><s id="s1">Aap \xe9n.</s><s id="s2">b %s c</s></p></doc>"""
T_DOC = u"""<text><p id="q1"><s id="s1">x</s> <s id="s2">y</s></p></text>"""
S_TEXT = {("p", 1): u"Aap \xe9n.b %s c", ("s", 1): u"Aap \xe9n.", ("s", 2): u"b %s c"}
T_TEXT = {("p", 1): u"xy", ("s", 1): u"x", ("s", 2): u"y"}
IDS_S = {("p", 1): "p1", ("s", 1): "s1", ("s", 2): "s2"}
IDS_T = {("p", 1): "q1", ("s", 1): "s1", ("s", 2): "s2"}
LINKS = [(("s", 1), ("s", 1)), (("s", 1), ("s", 2)), (("s", 2), ("s", 1)), (("s", 2), ("s", 2)),
         (("p", 1), ("p", 1)), (("s", 1), ("p", 1)), (("p", 1), ("s", 2))]


def bare(doc):
    return re.sub(u' id="[^"]*"', u"", doc)


def write(path, links, kind, d):
    """kind: id, n, or bare (no identifiers at all)"""
    docs = ("bs.xml", "bt.xml") if kind == "bare" else ("s.xml", "t.xml")
    out = [u'<hitaext><from><filename>%s/%s</filename></from><to><filename>%s/%s</filename></to>' % (d, docs[0], d, docs[1])]
    out.append(u'<alignment%s>' % {"id": u' method="id"', "n": u' method="n"', "bare": u""}[kind])
    for a, b in links:
        if kind == "id":
            ref = u'from_id="%s" to_id="%s"' % (IDS_S[a], IDS_T[b])
        else:
            ref = u'from_n="%d" to_n="%d"' % (a[1], b[1])
        out.append(u'<link from_tag="%s" to_tag="%s" %s/>' % (a[0], b[0], ref))
    out.append(u"</alignment></hitaext>")
    return fx.write_bytes(path, u"".join(out))


def subset(mask):
    ls = [l for i, l in enumerate(LINKS) if mask >> i & 1]
    return ls if mask % 3 else ls[::-1]


def scores(t, p, c):
    pr = c / float(p) if p else 0.0
    rc = c / float(t) if t else 0.0
    return [p / float(t) if t else 0.0, pr, rc, 2 * pr * rc / (pr + rc) if pr + rc else 0.0]


def counts(a, b, tag):
    a = set(l for l in a if l[0][0] == l[1][0] == tag)
    b = set(l for l in b if l[0][0] == l[1][0] == tag)
    return len(a), len(b), len(a & b)


def judge_eval(text, parts, labels, tag, ctx):
    rows = [l for l in text.split("\n") if l and not l.startswith("-") and "#true" not in l]
    eq(len(rows), len(parts) + 1, "rows printed", (ctx, text))
    tot = [0, 0, 0]
    for row, (a, b), label in zip(rows, parts, labels):
        c = counts(a, b, tag)
        tot = [x + y for x, y in zip(tot, c)]
        judge_row(row, c, label, ctx)
    judge_row(rows[-1], tot, "", ctx)


def judge_row(row, c, label, ctx):
    cells = [row[i:i + 10].strip() for i in range(0, 70, 10)]
    eq([int(x) for x in cells[:3]], list(c), "counts", (ctx, row))
    for x, w in zip(cells[3:], scores(*c)):
        ok(abs(float(x) - w) < 0.00501, "score", (ctx, row))
    eq(row[70:].strip(), label, "label", ctx)


def judge_diff(text, a, b, tag, kind, ctx):
    if isinstance(text, str):
        text = text.decode("utf-8")
    blocks = [x for x in text.split(u"\n\n") if x.strip()]
    got = []
    for i, x in enumerate(blocks):
        ls = x.strip(u"\n").split(u"\n")
        m = re.match(u"#(\\d+) (true|predicted) only \\((.*), (.*)\\):?$", ls[0])
        ok(m, "heading of a difference", (ctx, x))
        eq(int(m.group(1)), i + 1, "number of a difference", ctx)
        got.append((m.group(2), m.group(3), m.group(4)) + tuple(ls[1:]))
    want = []
    for name, one, two in (("true", a, b), ("predicted", b, a)):
        for s, t in set(one) - set(two):
            if s[0] == tag:
                ids = ("None", "None") if kind == "bare" else (IDS_S[s], IDS_T[t])
                want.append((name,) + ids + (S_TEXT[s], T_TEXT[t]))
    eq(sorted(got), sorted(want), "differences", ctx)


def run(ck):
    d = ck.tmpdir()
    fx.write_bytes(d + "/s.xml", S_DOC)
    fx.write_bytes(d + "/t.xml", T_DOC)
    fx.write_bytes(d + "/bs.xml", bare(S_DOC))
    fx.write_bytes(d + "/bt.xml", bare(T_DOC))
    n = len(LINKS)
    ck.bounds["alignments"] = "all ordered pairs of subsets of %d links" % n
    made = {}

    def get(mask, kind, side):
        k = (mask, kind)
        if k not in made:
            made[k] = write("%s/%s%d.ptc" % (d, kind, mask), subset(mask), kind, d)
        return made[k]
    masks = range(1 << n)
    for i, j in itertools.product(masks, repeat=2):
        key = ("pair", i, j)
        if not ck.want(key):
            continue
        if ck.quick and (i * 5 + j) % 4:
            continue
        with ck.case(key, "pairs of alignments"):
            a, b = subset(i), subset(j)
            kinds = ("id", "n", "bare")
            kind = kinds[(i + j) % 3]
            f, g = get(i, kind, 0), get(j, kind, 1)
            for tag in ("s", "p", "x"):
                t, p = HitaextDoc(file=f), HitaextDoc(file=g)
                eq(tuple(count_alignment(t, p, tag)), counts(a, b, tag), "counts", (key, tag, kind))
                text = script.capture(print_diff, t if tag == "s" else f, p if tag == "p" else g, tag)[1]
                judge_diff(text, a, b, tag, kind, (key, tag, kind))
                ck.step(2)
                ck.outcome((tag, counts(a, b, tag)))
            ck.state(key)
    # tables over several files, and the scripts
    some = [0, 1, 6, 9, 15, 24, 37, 127]
    for k in (1, 2) if ck.quick else (1, 2, 3):
        for pick in itertools.product(itertools.product(some if k < 3 else some[2:7], repeat=2), repeat=k):
            key = ("table", pick)
            if not ck.want(key):
                continue
            if ck.quick and k == 2 and sum(x + y for x, y in pick) % 4:
                continue
            with ck.case(key, "tables over %d files" % k):
                kind = ("id", "n")[sum(x + 2 * y for x, y in pick) % 2]
                fs = [(get(x, kind, 0), get(y, kind, 1)) for x, y in pick]
                parts = [(subset(x), subset(y)) for x, y in pick]
                for tag in ("s", "p"):
                    labels = ["one two", u"l2", "l3"][:k]
                    judge_eval(script.capture(eval_alignment, fs, tag, labels)[1], parts, labels, tag, (key, tag))
                    names = [y.split("/")[-1] for x, y in fs]
                    args = ["-t"] + [x for x, y in fs] + ["-p"] + [y for x, y in fs]
                    rc, so, se = script.run("ptc_eval.py", args + (["--tag", tag] if tag == "p" or k == 2 else []))
                    eq(rc, 0, "exit status", se)
                    judge_eval(so, parts, names, tag, (key, tag, "script"))
                    rc, so, se = script.run("ptc_diff.py", list(fs[0]) + (["-t", tag] if tag == "p" or k == 2 else []))
                    eq(rc, 0, "exit status", se)
                    judge_diff(so, parts[0][0], parts[0][1], tag, kind, (key, tag, "script"))
                    ck.step(3)
                ck.state(key)
    # scores from counts
    for t, p in itertools.product(range(9), repeat=2):
        for c in range(min(t, p) + 1):
            key = ("scores", t, p, c)
            if not ck.want(key):
                continue
            with ck.case(key, "scores from counts"):
                got = compute_scores(t, p, c)
                eq(len(got), 4, "number of scores")
                for x, w in zip(got, scores(t, p, c)):
                    close(x, w, "score", key)
                ck.step(1)
                ck.state(key)
