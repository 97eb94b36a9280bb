# -*- coding: utf-8 -*-
"""C16: text index of document trees"""

import itertools
import StringIO
import xml.etree.cElementTree as et

from daeso.ptc.ielemtree import IndexElemTree

from mc import fx
from mc.core import eq, ok

TEXTS = (None, u" x\xe9 ", u"b c", u"\n ")


def shapes(n):
    """ordered trees of n nodes as nested tuples of children"""
    if n == 1:
        return [()]
    out = []

    def forests(m):
        if m == 0:
            yield ()
            return
        for k in range(1, m + 1):
            for first in shapes(k):
                for rest in forests(m - k):
                    yield (first,) + rest
    return list(forests(n - 1))


class N(object):
    pass


def build(shape, tags, texts, tails, ids):
    """element tree and the list of its nodes in document order"""
    it = itertools.count()

    def make(sh, depth):
        i = next(it)
        e = et.Element(tags[i])
        if ids[i]:
            e.set("id", ids[i])
        e.text = texts[i]
        for s in sh:
            e.append(make(s, depth + 1))
        if depth:
            e.tail = tails[i]
        return e
    return make(shape, 0)


def xml(e):
    return '<?xml version="1.0" encoding="utf-8"?>\n' + et.tostring(e, "utf-8").split("?>\n")[-1]


def required(root, ignore, newline, blank):
    """text of the document; for all elements in document order: tag, id,
    start, end (None if ignored), number of its kind, text"""
    rows = []
    counts = {}

    def walk(e, start, off, top):
        off = off or e.tag in ignore
        counts[e.tag] = counts.get(e.tag, 0) + 1
        row = [e.tag, e.get("id"), None, None, counts[e.tag], u"", off]
        rows.append(row)
        text = u"" if off else (e.text or u"").strip()
        for c in e:
            t = walk(c, start + len(text), off, False)
            if not off:
                text += t
        row[5] = text
        if not off:
            row[2], row[3] = start, start + len(text)
            if e.tag in blank:
                text += u"\n\n"
            elif e.tag in newline:
                text += u"\n"
        return text + (u"" if top else (e.tail or u"").strip())
    text = walk(root, 0, False, True)
    return text, rows


def judge(tree, root, sets, ctx):
    ignore, newline, blank = sets
    text, rows = required(root, ignore, newline, blank)
    eq(tree.text, text, "text of the document", ctx)
    elems = list(tree.getiterator())
    eq(len(elems), len(rows), "number of elements", ctx)
    kinds, byid = {}, {}
    for e, (tag, i, s, t, n, own, off) in zip(elems, rows):
        eq((e.tag, e.get("id")), (tag, i), "elements changed", ctx)
        eq(e.get("_n"), n, "number of the element", (ctx, tag))
        eq(e.get("_alignments"), [], "alignments to begin with", ctx)
        eq(bool(e.get("_ignore")), off, "element marked as ignored", (ctx, tag, n))
        eq(tree.get_elem_text(e), own, "text of an element", (ctx, tag, n))
        eq((e.get("_start"), e.get("_end")), (s, t), "span of an element", (ctx, tag, n))
        kinds.setdefault(tag, []).append(e)
        if i:
            byid[tag, i] = e
    eq(sorted(tree.tagCountTable), sorted(kinds), "tags in the index", ctx)
    for tag in kinds:
        ok(len(tree.tagCountTable[tag]) == len(kinds[tag]) and
           all(a is b for a, b in zip(tree.tagCountTable[tag], kinds[tag])), "elements by position", ctx)
    for (tag, i), e in byid.items():
        ok(tree.tagIdTable[tag][i] is e, "element by identifier", ctx)
    return text


def load(root):
    return IndexElemTree(StringIO.StringIO(xml(root)))


def run(ck):
    # ignore, newline, blank line
    tagsets = [(), ("a",), ("b",), ("a", "b")]
    settings = list(itertools.product(tagsets, tagsets, tagsets))
    few = [((), (), ()), (("a",), (), ()), (("b",), ("a",), ()), ((), ("a", "b"), ("b",)), (("a", "b"), (), ("a",)), (("b",), ("b",), ("a",))]
    ck.bounds["trees"] = "all ordered trees of up to %d elements over two tags" % (4 if ck.quick else 5)
    # 1. all trees
    for n in range(1, 5 if ck.quick else 6):
        for si, shape in enumerate(shapes(n)):
            for tags in itertools.product("ab", repeat=n):
                if n <= 2:
                    combos = itertools.product(itertools.product(TEXTS, repeat=n), itertools.product(TEXTS, repeat=n - 1))
                else:
                    # text and tail present or not at every place, contents in rotation
                    combos = itertools.product(itertools.product((0, 1), repeat=n), itertools.product((0, 1), repeat=n - 1))
                for ci, (tx, tl) in enumerate(combos):
                    key = ("tree", n, si, tags, ci)
                    if not ck.want(key):
                        continue
                    with ck.case(key, "trees of %d elements" % n):
                        if n > 2:
                            tx = [TEXTS[1 + (i + ci) % 3] if t else None for i, t in enumerate(tx)]
                            tl = [TEXTS[1 + (i * 2 + ci) % 3] if t else None for i, t in enumerate(tl)]
                        ids = [(None, "i%d" % i)[(ci >> i) & 1] for i in range(n)]
                        root = build(shape, tags, tx, [None] + list(tl), ids)
                        tree = load(root)
                        use = settings if n <= 2 else few if n == 3 else [few[(ci + k) % 6] for k in range(2)]
                        prev = None
                        for sets in use:
                            fresh = load(root)
                            fresh.update(*[list(s) for s in sets])
                            t = judge(fresh, root, sets, (et.tostring(root), sets))
                            ck.outcome(t)
                            # the same tree, updated again and again
                            if prev is not None:
                                for e in tree.getiterator():
                                    e.get("_alignments").append("old")
                            tree.update(*[list(s) for s in sets])
                            judge(tree, root, sets, (et.tostring(root), prev, sets, "updated"))
                            prev = sets
                            ck.step(2)
                        ck.state((shape, tags, ci))

    # 2. histories of updates
    root = et.fromstring(u"<a>t<b id='1'>u<a>v</a>w</b>x<b>y<b id='2'/>z</b></a>".encode("utf-8"))
    depth = 3 if ck.quick else 4
    hist = few + [((), (), ("a", "b"))]
    for seq in itertools.product(range(len(hist)), repeat=depth):
        key = ("updates", seq)
        if not ck.want(key):
            continue
        with ck.case(key, "histories of updates"):
            tree = load(root)
            for i in seq:
                tree.update(*[list(s) for s in hist[i]])
                judge(tree, root, hist[i], (seq, i))
                ck.step(1)
            # and without arguments
            tree.update()
            judge(tree, root, ((), (), ()), seq)
            ck.state(seq)
