# -*- coding: utf-8 -*-
"""C15: parallel text corpora"""

import itertools
import os
import xml.etree.cElementTree as et
from xml.sax.saxutils import escape, quoteattr

from daeso.ptc.document import HitaextDoc
from daeso.ptc.ielemtree import IndexElemTree

from mc import fx, script
from mc.core import eq, ok, raises, multiset

S_DOC = u"""<doc><p id="p1"><s id="s1">Aap \xe9n.</s><s id="s2">b</s></p><p id="p2"><s id="s3">c</s></p></doc>"""
T_DOC = u"""<text><p id="q\xe9"><s id="u1">x</s> <s id="u2">y</s></p></text>"""
# documents in which some elements have no id
S_BARE = u"""<doc><p><s id="s1">a</s><s>b</s></p><p id="p2"><s id="s3">c</s></p></doc>"""

SRC = [("p", 1, "p1"), ("s", 1, "s1"), ("s", 3, "s3")]
TRG = [("p", 1, u"q\xe9"), ("s", 1, "u1"), ("s", 2, "u2")]
LINKS = list(itertools.product(SRC, TRG))


def corpus_text(links, method, sname, tname, extra=u"", lattr=u""):
    out = [u'<?xml version="1.0" encoding="utf-8"?>\n<hitaext%s><from><filename> %s </filename><render><font size="9"/>'
           u'<elements pseudo_root="p"><p ignore="False" newline="True" uniq="False"/><s skip="True"/></elements></render></from>'
           u'<to><filename>%s</filename><render><font/><elements><s note="\xe9 &lt;"/></elements></render></to>'
           % (extra, escape(sname), escape(tname))]
    out.append(u"<alignment%s>" % (u"" if method is None else u' method="%s"' % method))
    for (ft, fn, fi), (tt, tn, ti) in links:
        if method == "id":
            a = u"from_id=%s to_id=%s" % (quoteattr(fi), quoteattr(ti))
        else:
            a = u'from_n="%d" to_n="%d"' % (fn, tn)
        out.append(u'<link from_tag="%s" to_tag="%s" %s%s/>' % (ft, tt, a, lattr))
    out.append(u"</alignment></hitaext>")
    return u"".join(out)


def links_of(elem, method):
    """multiset of links below an <alignment> element"""
    k = "id" if method == "id" else "n"
    return sorted((l.get("from_tag"), unicode(l.get("from_" + k)), l.get("to_tag"), unicode(l.get("to_" + k))) for l in elem)


def wanted(links, method):
    i = 2 if method == "id" else 1
    return sorted((a[0], unicode(a[i]), b[0], unicode(b[i])) for a, b in links)


def parse(path):
    return et.fromstring(fx.read_bytes(path))


def without(root, *paths):
    """plain value of the tree without the elements at paths"""
    for p in paths:
        e = root.find(p)
        e.text = None
        e[:] = []
        e.attrib.clear()
    return fx.elem_value(root)


def run(ck):
    d = ck.tmpdir()
    fx.write_bytes(d + "/s.xml", S_DOC)
    fx.write_bytes(d + "/t.xml", T_DOC)
    fx.write_bytes(d + "/bare.xml", S_BARE)
    ck.bounds["alignments"] = "all subsets of %d links" % len(LINKS)
    methods = ("n", None, "id")

    # 1. reading and writing; taking out and putting back; n to id
    for mask in range(1 << len(LINKS)):
        links = [l for i, l in enumerate(LINKS) if mask >> i & 1]
        if mask % 3 == 1:
            links = links[::-1]
        for method in methods:
            key = ("links", mask, method)
            if not ck.want(key):
                continue
            with ck.case(key, "alignments: read, write, inject, extract, convert"):
                f = d + "/c.ptc"
                names = ("s.xml", "t.xml") if mask % 2 else (d + "/s.xml", d + "/t.xml")
                text = corpus_text(links, method, names[0], names[1],
                                   u' version="\xe9"' if mask % 4 == 0 else u"", u' note="z"' if mask % 5 == 0 else u"")
                fx.write_bytes(f, text)
                before = fx.elem_value(parse(f))
                c = HitaextDoc(file=f)
                eq(c.get_filename("from"), names[0], "file name read")
                eq(c.get_alignment_method(), method, "method read")
                g = d + "/out.ptc"
                c.write(g)
                eq(fx.elem_value(parse(g)), before, "corpus read and written", text)
                ok(fx.read_bytes(g).startswith("<?xml"), "declaration missing")
                trees = c.get_doc_trees(search=True)
                c.inject_alignments(trees.source, trees.target)
                got = sorted((a.tag, a.get("_n"), b.tag, b.get("_n")) for a in trees.source.getiterator() for b in a.get("_alignments"))
                eq(got, sorted((a[0], a[1], b[0], b[1]) for a, b in links), "elements aligned", text)
                back = sorted((a.tag, a.get("_n"), b.tag, b.get("_n")) for b in trees.target.getiterator() for a in b.get("_alignments"))
                eq(back, got, "elements aligned, seen from the target", text)
                # put back in either way
                c.extract_alignments(trees.source, trees.target)
                eq(links_of(c.get_alignments(), method), wanted(links, method), "alignments put back", text)
                c.write(g)
                again = parse(g)
                eq(links_of(again.find("alignment"), method), wanted(links, method), "alignments put back and written", text)
                eq(again.find("alignment").get("method"), method, "method afterwards")
                eq(without(again, "alignment"), without(parse(f), "alignment"), "rest of the corpus", text)
                for other in ("n", "id"):
                    c.set_alignment_method(other)
                    c.extract_alignments(trees.source, trees.target)
                    eq(links_of(c.get_alignments(), other), wanted(links, other), "alignments by " + other, text)
                c.clear_alignments()
                eq(len(c.get_alignments()), 0, "alignments cleared")
                if mask % 2 == 0:
                    # the script, on two corpora at once
                    h = d + "/c2.ptc"
                    fx.write_bytes(h, corpus_text(links[::2], method, names[0], names[1]))
                    rest = without(parse(h), "alignment")
                    args = [f, h] + (["-V"] if mask % 8 == 0 else [])
                    rc, so, se = script.run("ptc_n_to_id.py", args)
                    eq((rc, so), (0, ""), "exit status and output", se)
                    for fn, ls in ((f, links), (h, links[::2])):
                        r = parse(fn)
                        eq(r.find("alignment").get("method"), "id", "method after conversion")
                        eq(links_of(r.find("alignment"), "id"), wanted(ls, "id"), "alignments after conversion", text)
                        if fn == h:
                            eq(without(r, "alignment"), rest, "rest of the converted corpus", text)
                    rc, so, se = script.run("ptc_n_to_id.py", [f])
                    eq(links_of(parse(f).find("alignment"), "id"), wanted(links, "id"), "alignments after converting twice", text)
                ck.step(6)
                ck.outcome((len(links), method))
                ck.state(key)

    # 2. elements without id: converting either succeeds or leaves the corpus alone
    allsrc = [("p", 1, None), ("s", 1, "s1"), ("s", 2, None), ("s", 3, "s3"), ("p", 2, "p2")]
    cands = list(itertools.product(allsrc, TRG[1:]))
    for k in range(4):
        for links in itertools.combinations(cands, k):
            key = ("bare", links)
            if not ck.want(key):
                continue
            with ck.case(key, "conversion with elements lacking an id"):
                f = d + "/b.ptc"
                text = corpus_text(links, "n", d + "/bare.xml", d + "/t.xml")
                fx.write_bytes(f, text)
                data = fx.read_bytes(f)
                lacking = [l for l in links if l[0][2] is None]
                try:
                    rc, so, se = script.run("ptc_n_to_id.py", [f])
                except Exception:
                    ok(lacking, "conversion failed", text)
                    eq(fx.read_bytes(f), data, "corpus damaged by a failing conversion")
                else:
                    if lacking:
                        ok(rc != 0 or fx.read_bytes(f) == data, "alignments without id accepted", text)
                        eq(fx.read_bytes(f), data, "corpus damaged by a failing conversion")
                    else:
                        eq(links_of(parse(f).find("alignment"), "id"), wanted(links, "id"), "alignments after conversion", text)
                ck.step(1)
                ck.state(key)

    # 3. changing directories
    names = ["s.xml", "/a/b/s.xml", "../x/s t.xml", "C:\\dir\\s.xml", "dir\\s.xml", "\\\\host\\s.xml", "a/b\\s.xml", "S", "X:s.xml",
             "./s", u"/h/s.xml", "ab:c.xml", "d/C:s.xml"]
    base = dict(zip(names, ["s.xml", "s.xml", "s t.xml", "s.xml", "s.xml", "s.xml", "s.xml", "S", "s.xml", "s", u"s.xml", "ab:c.xml", "C:s.xml"]))
    dirs = [None, "new", "/abs/new", "../up/", "a b"]
    for a, b in itertools.product(names, repeat=2):
        for di, dr in enumerate(dirs):
            for flag in (0, 1, 2):
                key = ("chdir", a, b, dr, flag)
                if not ck.want(key):
                    continue
                with ck.case(key, "change of directory"):
                    fs = []
                    for n, links in (("/x.ptc", LINKS[:3]), ("/y.ptc", [])):
                        fx.write_bytes(d + n, corpus_text(links, methods[di % 3], a, b if n == "/x.ptc" else "t.xml", lattr=u' k="\xe9"'))
                        fs.append(d + n)
                    before = [fx.read_bytes(f) for f in fs]
                    rest = [without(parse(f), "from/filename", "to/filename") for f in fs]
                    args = fs + [[], ["-V"], ["-t"]][flag]
                    if dr is not None:
                        args += ["--dir", dr]
                    rc, so, se = script.run("ptc_chdir.py", args)
                    eq(rc, 0, "exit status", se)
                    if flag == 2:
                        eq([fx.read_bytes(f) for f in fs], before, "corpus changed by a dry run")
                    else:
                        for f, r, pair in zip(fs, rest, ((a, b), (a, "t.xml"))):
                            root = parse(f)
                            for side, n in zip(("from", "to"), pair):
                                want = base.get(n, n)
                                if dr:
                                    want = dr + ("" if dr.endswith("/") else "/") + want
                                eq(root.find(side + "/filename").text, want, "path changed", (n, dr))
                            eq(without(root, "from/filename", "to/filename"), r, "rest of the corpus")
                    ck.step(1)
                    ck.state(key)

    # 4. finding the documents: as given, next to the corpus, or by name only
    for present in itertools.product((0, 1), repeat=4):
        for name in ("x/s.xml", "s.xml", u"x/d\xe9.xml"):
            for corpus in ("c.ptc", "s.ptc"):
                key = ("search", present, name, corpus)
                if not ck.want(key):
                    continue
                with ck.case(key, "search for documents"):
                    top = ck.tmpdir()
                    work = top + "/work"
                    os.makedirs(work + "/x")
                    os.makedirs(top + "/c/x")
                    bn = name.split("/")[-1]
                    places = [name, top + "/c/" + name, top + "/c/" + bn]
                    real = [work + "/" + name] + places[1:]
                    for p, r in zip(present, real):
                        if p:
                            fx.write_bytes(r, "<doc/>")
                    f = top + "/c/" + corpus
                    fx.write_bytes(f, corpus_text([], None, name, "t.xml"))
                    if present[3]:
                        fx.write_bytes(top + "/" + bn, "<doc/>")     # never looked at
                    c = HitaextDoc(file=f)
                    home = os.getcwd()
                    os.chdir(work)
                    try:
                        got = c.get_filename("from", search=True)
                        plain = c.get_filename("from")
                    finally:
                        os.chdir(home)
                    eq(plain, name, "file name without search")
                    hits = [(p, r) for p, r in zip(places, real) if os.path.exists(r)]
                    if hits:
                        eq(os.path.realpath(os.path.join(work, got)), os.path.realpath(hits[0][1]), "document found", (present, name))
                    else:
                        eq(got, name, "no document to be found")
                    ck.step(1)
                    ck.state(key)

    # 5. a new corpus: histories of changing it
    histories(ck, d)


OPS = ("add n", "add id", "clear", "method n", "method id", "method x", "write", "file", "elements", "root")


def histories(ck, d):
    depth = 3 if ck.quick else 4
    for k in range(1, depth + 1):
        for ops in itertools.product(OPS, repeat=k):
            key = ("history", ops)
            if not ck.want(key):
                continue
            with ck.case(key, "histories of changes"):
                c = HitaextDoc()
                m = dict(links=[], method=None, files=["", ""], elems=[[], []], root=[None, None])
                for i, op in enumerate(ops):
                    step(c, m, op, i, d)
                    eq([dict(l.attrib) for l in c.get_alignments()], m["links"], "alignments", ops)
                    eq(c.get_alignment_method(), m["method"], "method", ops)
                    for side, f, e, r in zip(("from", "to"), m["files"], m["elems"], m["root"]):
                        if f:
                            eq(c.get_filename(side), f, "file name", ops)
                        eq(c.get_elem_tags(side), [x[0] for x in e], "tags of elements", ops)
                        eq(sorted(set(c.get_pseudo_root_tags(side))), sorted(set(x[0] for x in e if x[1])), "tags that occur once", ops)
                        eq(c.get_pseudo_root(side), r, "pseudo root", ops)
                        for t in ("ignore", "newline"):
                            eq(c.get_tags(side, t), [], "tags set", ops)
                    ck.step(1)
                    ck.state((sorted(m.items())))
                # read again
                for i, side in enumerate(("from", "to")):
                    if not m["files"][i]:
                        c.set_filename(side, "f")
                        m["files"][i] = "f"
                f = d + "/h.ptc"
                c.write(f)
                c2 = HitaextDoc(file=f)
                eq(fx.elem_value(c2.getroot()), fx.elem_value(c.getroot()), "corpus written and read", ops)


def step(c, m, op, i, d):
    if op == "add n":
        c.add_n_alignment("p", i + 1, "s", 2 * i)
        m["links"].append(dict(from_tag="p", from_n=str(i + 1), to_tag="s", to_n=str(2 * i)))
    elif op == "add id":
        c.add_id_alignment("p", u"\xe9%d" % i, "s", "x")
        m["links"].append(dict(from_tag="p", from_id=u"\xe9%d" % i, to_tag="s", to_id="x"))
    elif op == "clear":
        c.clear_alignments()
        m["links"] = []
    elif op == "method x":
        raises(AssertionError, lambda: c.set_alignment_method("x"), "unknown method accepted")
    elif op.startswith("method"):
        m["method"] = op.split()[1]
        c.set_alignment_method(m["method"])
    elif op == "write":
        import StringIO
        out = StringIO.StringIO()
        c.write(out)
        eq(fx.elem_value(et.fromstring(out.getvalue())), fx.elem_value(c.getroot()), "written to a file-like object")
    elif op == "file":
        m["files"][i % 2] = u"d/\xe9%d.xml" % i
        c.set_filename(("from", "to")[i % 2], m["files"][i % 2])
    elif op == "elements":
        side = i % 2
        if m["elems"][side]:
            return
        tree = et.ElementTree(et.fromstring((u"<d><a/><b><a/><c/></b></d>", u"<d><d/><a/></d>")[(i + len(m["links"])) % 2]))
        c.init_elems(("from", "to")[side], tree)
        tags = [e.tag for e in tree.getiterator()]
        for t in tags:
            if t not in [x[0] for x in m["elems"][side]]:
                m["elems"][side].append((t, tags.count(t) == 1))
        m["root"][side] = "d"
        for t in tags:
            eq(c.get_elem(("from", "to")[side], t).get("uniq"), str(tags.count(t) == 1), "uniq")
    elif op == "root":
        c.set_pseudo_root(("from", "to")[i % 2], "p%d" % i)
        m["root"][i % 2] = "p%d" % i
