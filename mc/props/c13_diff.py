# -*- coding: utf-8 -*-
"""C13: comparison of two annotations of the same corpus"""

import itertools
import re
import StringIO

from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.diff import pgc_diff
from daeso.pgc.evaluate import AlignEval

from mc import fx, script
from mc.core import eq, ok

R1, R2, R3 = "equals", "specifies", u"r\xe9l"

# source and target graphs: identifiers are numbers, so that the order asked
# for (2 before 10) is not the order of strings
NUM = (fx.GSpec("1", ["d", u"h\xe9", "."], [("10", "top", ["d", u"h\xe9", "."]), ("2", u"w\xe9", ["d"]), ("1", "w", [u"h\xe9"])],
                [("10", "2"), ("10", "1")], root="10"),
       fx.GSpec("2", ["x", "y"], [("0", "top", ["x", "y"]), ("1", "w", ["x"]), ("3", u"v<&>\"%s", ["y"])],
                [("0", "1"), ("0", "3")], root="0"))
# names, and no non-terminal at one side
NAM = (fx.GSpec(u"g\xe9", ["p", "q"], [("b", "top", ["p", "q"]), ("a", "w", ["p"]), (u"z\xe9", "w", ["q"])],
                [("b", "a"), ("b", u"z\xe9")], root="b"),
       fx.GSpec("h", ["m"], [("n", "w", ["m"]), ("m", "w", ["m"])], [], root="n"))


def matchings(g, h, rels, limit=None):
    out = []
    ss, ts = [n[0] for n in g.nodes], [n[0] for n in h.nodes]
    for k in range(min(len(ss), len(ts)) + 1):
        if limit is not None and k > limit:
            break
        for src in itertools.combinations(ss, k):
            for trg in itertools.permutations(ts, k):
                for rs in itertools.product(rels, repeat=k):
                    out.append(dict(zip(zip(src, trg), rs)))
    return out


def write_corpus(path, pairs, comments=None, declared=(R1, R2, R3)):
    """pairs: [(source graph id, target graph id, {(s, t): relation})]"""
    from xml.sax.saxutils import escape, quoteattr
    out = [u'<?xml version="1.0" encoding="UTF-8"?>\n<parallel_graph_corpus><graphbanks>\n']
    for k, f in (("1", "s.gml"), ("2", "t.gml")):
        out.append(u'<file id="%s" format="graphml">%s</file>' % (k, f))
    out.append(u"</graphbanks>\n<aligned_graphs>\n")
    if declared:
        out.insert(1, u"<node_relations>%s</node_relations>" % u"".join(u"<relation>%s</relation>" % r for r in declared))
    for i, (a, b, al) in enumerate(pairs):
        out.append(u'<graph_pair from_bank_id="1" from_graph_id=%s to_bank_id="2" to_graph_id=%s>' % (quoteattr(a), quoteattr(b)))
        c = comments and comments[i]
        if c is not None:
            out.append(u"<graph_meta_data>%s</graph_meta_data>" % c)
        for (s, t), r in al.items():
            out.append(u'<node_pair from_node_id=%s to_node_id=%s relation=%s/>' % (quoteattr(s), quoteattr(t), quoteattr(r)))
        out.append(u"</graph_pair>\n")
    out.append(u"</aligned_graphs>\n</parallel_graph_corpus>\n")
    return fx.write_bytes(path, u"".join(out))


def nodekey(ids):
    try:
        return dict((i, int(i)) for i in ids)
    except ValueError:
        return dict((i, i) for i in ids)


def line(spec, n):
    for i, label, toks in spec.nodes:
        if i == n:
            return u'(%s) %s [:]: "%s"' % (i, label, u" ".join(toks))


def required(specs, a, b, names, words, ident, rels, comments):
    """sections of one graph pair: [(title, entries)], entries ordered by
    source node, each being (source line, relations, target line)"""
    g, h = specs
    inner = [set(e[0] for e in s.edges) for s in specs]
    key = nodekey([n[0] for n in g.nodes])

    def keep(p, r):
        return ((not rels or r in rels) and
                not (words and p[0] in inner[0] and p[1] in inner[1]))
    secs = {"Identical": [], "Relation different": [], names[0] + " only": [], names[1] + " only": []}
    for p in set(a) | set(b):
        r1, r2 = a.get(p), b.get(p)
        if not (r1 and keep(p, r1) or r2 and keep(p, r2)):
            continue
        if r1 is None:
            title = names[1] + " only"
        elif r2 is None:
            title = names[0] + " only"
        elif r1 == r2:
            title = "Identical"
        else:
            title = "Relation different"
        entry = (line(g, p[0]), u"<<< %s / %s >>>" % ((r1 or u"NONE").upper(), (r2 or u"NONE").upper()), line(h, p[1]))
        secs[title].append((key[p[0]], entry))
    out = []
    for name, c in zip(names, comments):
        if c is not None:
            out.append(("Comments by " + name, [c]))
    order = (["Identical"] if ident else []) + ["Relation different", names[0] + " only", names[1] + " only"]
    for t in order:
        if secs[t]:
            out.append((t, [e for k, e in sorted(secs[t])]))
    return (u" ".join(g.tokens), u" ".join(h.tokens), out)


def parse(text):
    """the report as plain data"""
    if isinstance(text, str):
        text = text.decode("utf-8")
    ls = text.split(u"\n")
    i = 0
    out = []
    cur = None
    pair = None
    while i < len(ls):
        l = ls[i]
        if l and len(set(l)) == 1 and l[0] in "#=-" and len(l) >= 80:
            j = i + 1
            head = []
            while ls[j] != l:
                head.append(ls[j])
                j += 1
            i = j + 1
            if l[0] == "#":
                out.append(("corpora", head))
            elif l[0] == "=":
                rest = [x for x in ls[i:i + 6]]
                pair = [head, [], []]
                out.append(("pair", pair))
                cur = pair[1]
            else:
                cur = []
                pair[2].append((u"\n".join(head), cur))
            continue
        if cur is not None and l.strip():
            cur.append(l.rstrip(u" "))
        i += 1
    return out


def judge(key, text, files, names, wanted, counts_from=0):
    out = parse(text)
    eq(out[0][0], "corpora", "heading of the report", key)
    eq(out[0][1], ["%s corpus: %s" % (n, f) for n, f in zip(names, files)], "names in the heading", key)
    pairs = out[1:]
    eq(len(pairs), len(wanted), "number of graph pairs reported", key)
    n = counts_from
    for k, ((_, (head, toks, secs)), (st, tt, want)) in enumerate(zip(pairs, wanted)):
        eq(head, ["Graph pair %d" % (k + 1)], "number of the graph pair", key)
        eq([t for t in toks], [st, tt], "text of the graph pair", key)
        eq([t for t, e in secs], [t for t, e in want], "sections reported", (key, text))
        for (title, got), (_, entries) in zip(secs, want):
            if title.startswith("Comments by"):
                eq(u"\n".join(got).strip(), entries[0], "comment", key)
                continue
            lines = []
            for e in entries:
                n += 1
                lines += [u"#%d:" % n] + list(e)
            eq(got, lines, "entries under " + title.replace(names[0], "first").replace(names[1], "second"), key)


RELSETS = (None, [R1], [R2], [R1, R2], ["unused"])


def options(full):
    opts = list(itertools.product((False, True), (False, True), RELSETS))
    return opts if full else None


def load(path):
    return ParallelGraphCorpus(inf=path)


def run(ck):
    d = ck.tmpdir()
    spaces = []
    for tag, specs in (("num", NUM), ("nam", NAM)):
        g, h = specs
        sub = d + "/" + tag
        import os
        os.mkdir(sub)
        fx.write_bank(sub + "/s.gml", [g])
        fx.write_bank(sub + "/t.gml", [h])
        spaces.append((tag, sub, specs, matchings(g, h, (R1, R2), 2 if ck.quick and tag == "num" else None)))
    # loaded once, compared many times
    opts = options(True)
    serial = 0
    for tag, sub, specs, als in spaces:
        corp = []
        for i, al in enumerate(als):
            f = write_corpus("%s/c%d.pgc" % (sub, i), [(specs[0].id, specs[1].id, al)], declared=((R1, R2), (R2, R1, R3), ())[i % 3])
            corp.append(f)
        ck.bounds["annotations (%s)" % tag] = "%d, all ordered pairs" % len(als)
        cache = {}

        def get(i):
            if i not in cache:
                cache[i] = load(corp[i])
            return cache[i]
        full = len(als) <= 60
        for i, j in itertools.product(range(len(als)), repeat=2):
            serial += 1
            if not ck.want((tag, i, j)):
                continue
            with ck.case((tag, i, j), "pairs of annotations, " + tag):
                a, b = als[i], als[j]
                use = opts if full else [opts[(serial * 7 + k * 3) % len(opts)] for k in range(4)]
                for words, ident, rels in use:
                    out = StringIO.StringIO()
                    c1, c2 = get(i), get(j)
                    stray = script.capture(lambda: pgc_diff(
                        c1, c2, corpus_name1="X.pgc", corpus_name2="Y.pgc", annot1="Ann", annot2="Bob",
                        words_only=words, show_ident=ident, relations=rels, out=out))[1]
                    eq(stray, "", "written elsewhere", tag)
                    want = required(specs, a, b, ("Ann", "Bob"), words, ident, rels, (None, None))
                    judge((a, b, words, ident, rels), out.getvalue(), ("X.pgc", "Y.pgc"), ("Ann", "Bob"), [want])
                    ck.step(1)
                    ck.outcome([(t, len(e)) for t, e in want[2]])
                ck.state((tag, i, j))

    # the script: several graph pairs, comments, other relations and texts
    g, h = NUM
    sub = d + "/tool"
    os.mkdir(sub)
    fx.write_bank(sub + "/s.gml", [g, fx.GSpec("s2", ["k"], [("0", "w", ["k"])], [], root="0")])
    fx.write_bank(sub + "/t.gml", [h])
    some = [{}, {("10", "0"): R1}, {("2", "1"): R2, ("10", "0"): R3}, {("10", "0"): R2, ("1", "3"): R1},
            {("2", "3"): R1, ("1", "1"): R1, ("10", "0"): R1}]
    if ck.quick:
        some = some[1:]
    coms = [None, u"<comment>a\xe9 &lt;b&gt;</comment>", u"<comment/>", u"<comment> \n </comment>", u"<other>x</other>"]
    meaning = [None, u"a\xe9 <b>", None, None, None]
    second = {("0", "0"): R1}
    dist = fx.GSpec("s2", ["k"], [("0", "w", ["k"])], [], root="0")
    n = 0
    for i, j, flag in itertools.product(range(len(some)), range(len(some)), range(16)):
        n += 1
        if not ck.want(("tool", i, j, flag)):
            continue
        with ck.case(("tool", i, j, flag), "script over two graph pairs with comments"):
            decl = () if n % 4 == 0 else (R1, R2, R3)
            c1, c2, c3 = n % 5, (n // 5) % 5, (n * 3 + flag) % 5
            f1 = write_corpus(sub + "/a.pgc", [("1", "2", some[i]), ("s2", "2", second)], (coms[c1], coms[c2]), decl)
            f2 = write_corpus(sub + "/b.pgc", [("1", "2", some[j]), ("s2", "2", {})], (coms[c2], coms[c3]), decl)
            names = ("First annotator", "Second annotator")
            args = [f1, f2]
            if flag & 1:
                args += ["-i"]
            if flag & 2:
                args += ["-c"]
            if flag & 4:
                names = ("A", "B")
                args += ["-1", "A", "-2", "B"]
            rels = None
            if flag & 8:
                rels = [R1] if n % 2 else [R2, R1]
                args += ["-r"] + rels
            ev = n % 3 == 0 and bool(decl) and R3 not in some[i].values() + some[j].values()
            if ev:
                args += ["--evaluate"]
            rc, so, se = script.run("pgc_diff.py", args)
            eq(rc, 0, "exit status", se)
            so = so.decode("utf-8")
            if ev:
                k1, k2 = load(f1), load(f2)
                al = AlignEval()
                al.add(k1, k2)
                al.run_eval()
                tail = script.capture(al.write)[1].decode("utf-8")
                ok(so.endswith(tail) and tail, "evaluation at the end of the report", so)
                so = so[:-len(tail)]
            cm = ((meaning[c1], meaning[c2]), (meaning[c2], meaning[c3])) if flag & 2 else ((None, None), (None, None))
            want = [required(NUM, some[i], some[j], names, False, flag & 1, rels, cm[0]),
                    required((dist, h), second, {}, names, False, flag & 1, rels, cm[1])]
            judge((some[i], some[j], args), so, (f1, f2), names, want)
            ck.step(1)
            ck.state(("tool", i, j, flag))
