# -*- coding: utf-8 -*-
"""C17: automatic text alignment"""

import itertools
import math
import string
import StringIO

from daeso.pair import Pair
from daeso.ptc import textalign as ta
from daeso.ptc.document import HitaextDoc

from mc import fx
from mc.core import eq, ok, close, raises

# documents: paragraphs of sentences; Q(...) stands for a quotation, R for a
# sentence inside another element
DOCS = [
    [("p", ["a", "b"]), ("p", ["c"])],
    [("p", ["a"]), ("p", ["b", "c"])],
    [("p", ["a", ("q", ["b"])]), ("p", [("e", ["c"])])],
    [("p", []), ("p", ["a", "b"]), ("q", ["c"])],
    [("p", [("p", ["a"]), "b"])],
]


def doc_xml(doc, root):
    n = itertools.count(1)

    def item(x):
        if isinstance(x, str):
            return '<s id="s%d">%s</s>' % (next(n), x)
        return '<%s id="e%d">%s</%s>' % (x[0], next(n), "".join(item(y) for y in x[1]), x[0])
    return "<%s>%s</%s>" % (root, "".join(item(x) for x in doc), root)


class Elem(object):
    """plain element: tag, number among its kind, text, ancestors"""


def elems_of(doc, root):
    out = []
    counts = {}

    def walk(tag, children, anc):
        e = Elem()
        counts[tag] = counts.get(tag, 0) + 1
        e.tag, e.n, e.anc, e.text = tag, counts[tag], anc, ""
        out.append(e)
        if isinstance(children, str):
            e.text = children
        else:
            for c in children:
                if isinstance(c, str):
                    walk("s", c, anc + [e])
                else:
                    walk(c[0], c[1], anc + [e])
    walk(root, doc, [])
    return out


def focus_below(elems, scope, tag, ignore):
    return [e for e in elems if e.tag == tag and scope in e.anc and
            not (e.tag in ignore or [a for a in e.anc if a.tag in ignore])]


def crosses(x, y):
    (i, j), (k, l) = x, y
    return i < k and j > l or i > k and j < l


FILTERS = {
    "none": lambda: None,
    "threshold": lambda: ta.threshold_filter_factory(0.5),
    "nocross": lambda: ta.no_cross_filter_factory(0.5),
}


def judge_filter(name, scores, chosen, ctx):
    """scores: {(i, j): value} in one pair of scopes; chosen: pairs kept"""
    ok(set(chosen) <= set(scores), "pair outside the scope aligned", ctx)
    if name == "none":
        eq(sorted(chosen), sorted(scores), "pairs aligned without filter", ctx)
    elif name == "threshold":
        eq(sorted(chosen), sorted(p for p in scores if scores[p] > 0.5), "pairs above the threshold", ctx)
    else:
        for p in chosen:
            ok(scores[p] >= 0.5, "pair below the threshold aligned", ctx)
        for p, q in itertools.combinations(chosen, 2):
            ok(not crosses(p, q), "crossing alignments", ctx)
        for p in scores:
            if scores[p] >= 0.5 and p not in chosen:
                ok([q for q in chosen if crosses(p, q) and scores[q] >= scores[p]],
                   "pair neither aligned nor crossing a better one", (ctx, p))


def corpus_for(links, method="n"):
    c = HitaextDoc()
    c.set_filename("from", "S")
    c.set_filename("to", "T")
    for ft, fn, tt, tn in links:
        c.add_n_alignment(ft, fn, tt, tn)
    return c


def links_of(c):
    return sorted((l.get("from_tag"), int(l.get("from_n")), l.get("to_tag"), int(l.get("to_n"))) for l in c.get_alignments())


def run(ck):
    d = ck.tmpdir()
    flow(ck, d)
    tables(ck, d)
    functions(ck)


def align(ck, d, sdoc, tdoc, links, focus, scope, ignore, fname, table, clear, key):
    """run the aligner and judge the corpus afterwards"""
    s, t = d + "/s.xml", d + "/t.xml"
    fx.write_bytes(s, doc_xml(sdoc, "doc"))
    fx.write_bytes(t, doc_xml(tdoc, "text"))
    c = corpus_for(links)
    c.set_filename("from", s)
    c.set_filename("to", t)
    seen = []

    def sim(a, b, wa, wb):
        seen.append((wa, wb))
        return table(a, b)

    def weigh(terms):
        return ["w" + x for x in terms]
    al = ta.TextAligner(Pair(*focus), Pair(*scope) if scope else None, Pair(*ignore) if ignore else None,
                        term_func=lambda x: x, weight_func=weigh, sim_func=sim, filter_func=FILTERS[fname]())
    if clear is None:
        al.align_corpus(c)
    else:
        al.align_corpus(c, clear=clear)
    got = links_of(c)
    eq(len(got), len(set(got)), "alignment added twice", key)
    removed = clear is not False
    kept = [l for l in links if not (removed and (l[0] == focus[0] or l[2] == focus[1]))]
    se, te = elems_of(sdoc, "doc"), elems_of(tdoc, "text")
    ok(set(kept) <= set(got), "existing alignment lost", (key, kept, got))
    new = set(got) - set(kept)
    if scope:
        scopes = [(a, b) for a in se for b in te
                  if a.tag in scope[0] and b.tag in scope[1] and (a.tag, a.n, b.tag, b.n) in kept]
        if focus[0] in scope[0] or focus[1] in scope[1]:
            scopes = None
    else:
        scopes = [(se[0], te[0])]
    ign = ignore or ((), ())
    allowed = set()
    uses = 0
    for a, b in scopes:
        fs = focus_below(se, a, focus[0], ign[0])
        ft = focus_below(te, b, focus[1], ign[1])
        sc = dict(((x.n, y.n), table(textof(se, x, ign[0]), textof(te, y, ign[1]))) for x in fs for y in ft)
        uses += len(sc)
        mine = [(x.n, y.n) for x in fs for y in ft]
        allowed |= set((focus[0], i, focus[1], j) for i, j in mine)
        # a pair can be in several scopes only when these are nested
        if len(scopes) == 1:
            chosen = [(i, j) for (ft_, i, tt_, j) in got if ft_ == focus[0] and tt_ == focus[1] and (i, j) in sc]
            if not removed:
                old = [(l[1], l[3]) for l in links if l[0] == focus[0] and l[2] == focus[1]]
                if fname == "nocross":
                    # choices that coincide with old alignments stay hidden
                    chosen = None
                else:
                    base = [p for p in chosen if p not in old]
                    judge = [p for p in sc if fname == "none" or sc[p] > 0.5]
                    eq(sorted(base), sorted(set(judge) - set(old)), "alignments added", key)
                    chosen = None
            if chosen is not None:
                judge_filter(fname, sc, chosen, key)
    ok(new <= allowed, "alignment outside the aligned scopes", (key, sorted(new - allowed)))
    if len(scopes) > 1 and removed:
        disjoint = [dict(((x.n, y.n), table(textof(se, x, ign[0]), textof(te, y, ign[1])))
                         for x in focus_below(se, a, focus[0], ign[0]) for y in focus_below(te, b, focus[1], ign[1])) for a, b in scopes]
        total = sum(len(x) for x in disjoint)
        if total == len(set(itertools.chain(*disjoint))):
            for sc in disjoint:
                judge_filter(fname, sc, [(i, j) for (ft_, i, tt_, j) in got if (ft_, tt_) == tuple(focus) and (i, j) in sc], key)
        elif fname != "nocross":
            want = set((focus[0], p[0], focus[1], p[1]) for sc in disjoint for p in sc if fname == "none" or sc[p] > 0.5)
            eq(sorted(new), sorted(want), "alignments added in nested scopes", key)
    eq(len(seen), uses, "number of comparisons", key)
    for wa, wb in seen:
        ok(wa.startswith("w") and wb.startswith("w"), "weights passed on", key)
    ck.outcome(sorted(new))


def textof(elems, e, ignore=()):
    return e.text + "".join(x.text for x in elems if e in x.anc and x.tag not in ignore and
                            not [a for a in x.anc if a.tag in ignore])


def score(a, b):
    """a fixed score for any two texts"""
    return dict(aa=0.9, ab=0.5, ac=0.3, ba=0.8, bb=0.8, bc=0.1, ca=0.51, cb=0.0, cc=1.0).get(a + b, 0.6 if len(a) == len(b) else 0.4)


def flow(ck, d):
    ck.bounds["flow"] = "all pairs of %d documents, subsets of existing alignments, scopes, ignored tags, filters" % len(DOCS)
    plinks = [("p", 1, "p", 1), ("p", 1, "p", 2), ("p", 2, "p", 1)]
    slinks = [("s", 1, "s", 3), ("s", 2, "p", 1), ("p", 1, "s", 1)]
    configs = []
    for focus in (("s", "s"),):
        for scope in (None, (["p"], ["p"]), (["p", "q"], ["p"])):
            for ignore in (None, (["q"], []), ([], ["q"]), (["q", "e"], ["e"]), (["s"], [])):
                for f in sorted(FILTERS):
                    configs.append((focus, scope, ignore, f))
    n = 0
    for (si, sd), (ti, td) in itertools.product(enumerate(DOCS), repeat=2):
        se = set((e.tag, e.n) for e in elems_of(sd, "doc"))
        te = set((e.tag, e.n) for e in elems_of(td, "text"))
        for mask in range(64):
            links = [l for i, l in enumerate(plinks + slinks) if mask >> i & 1]
            if [l for l in links if l[:2] not in se or l[2:] not in te]:
                continue
            n += 1
            key = ("flow", si, ti, mask)
            if not ck.want(key):
                continue
            with ck.case(key, "documents, scopes, existing alignments, options"):
                step = 7 if ck.quick else 2
                for k in range(n % step, len(configs), step):
                    focus, scope, ignore, f = configs[k]
                    for clear in (None, False):
                        align(ck, d, sd, td, links, focus, scope, ignore, f, score, clear, (key, configs[k], clear))
                        ck.step(1)
                ck.state(key)
    # aligning other elements
    for (si, sd), (ti, td) in itertools.product(enumerate(DOCS), repeat=2):
        for focus in (("p", "p"), ("s", "p"), ("q", "s"), ("s", "q")):
            for f in sorted(FILTERS):
                key = ("focus", si, ti, focus, f)
                if not ck.want(key):
                    continue
                with ck.case(key, "other elements aligned"):
                    for ignore in (None, (["e"], ["q"])):
                        align(ck, d, sd, td, [("p", 1, "p", 1), ("s", 1, "s", 1)], focus, None, ignore, f, score, None, (key, ignore))
                        ck.step(1)
                    ck.state(key)


def tables(ck, d):
    """all small tables of scores"""
    sd, td = [("p", ["a", "b"])], [("p", ["x", "y"])]
    vals = (0.2, 0.5, 0.7, 0.9)
    spaces = [(sd, td, vals), (sd, [("p", ["x", "y", "z"])], (0.2, 0.5, 0.9) if ck.quick else vals)]
    if not ck.quick:
        spaces.append(([("p", ["a", "b", "c"])], [("p", ["x", "y", "z"])], (0.2, 0.6, 0.9)))
    for pi, (sd, td, values) in enumerate(spaces):
        ss, ts = sd[0][1], td[0][1]
        cells = list(itertools.product(ss, ts))
        for vs in itertools.product(values, repeat=len(cells)):
            key = ("table", pi, vs)
            if not ck.want(key):
                continue
            with ck.case(key, "tables of scores"):
                table = dict(zip(cells, vs))
                for f in ("threshold", "nocross"):
                    align(ck, d, sd, td, [], ("s", "s"), None, None, f, lambda a, b: table[a, b], None, (key, f))
                    ck.step(1)
                ck.state(key)


# -- the functions provided ---------------------------------------------------

def grams(seq, n):
    return [" ".join(seq[i:i + n]) for i in range(len(seq) - n + 1)]


def functions(ck):
    words = ["de", "Aa", ".", u"\xe9b", "..", "a,"]
    for k in range(4):
        for ws in itertools.product(words, repeat=k):
            key = ("terms", ws)
            if not ck.want(key):
                continue
            with ck.case(key, "term functions"):
                text = u"  ".join(ws)
                content = [w.lower() for w in ws if w.lower() != "de" and not all(c in string.punctuation for c in w)]
                for n in (1, 2, 3):
                    eq(ta.word_n_gram_factory(n)(text), grams(list(ws), n), "word n-grams", key)
                    eq(ta.char_n_gram_factory(n)(text), grams(list(text), n), "character n-grams", key)
                    # what counts as punctuation is a single symbol here
                    if ".." not in ws:
                        eq(ta.preproc_word_n_gram_factory(n)(text), grams([w.lower() for w in ws if w != "."], n), "preprocessed word n-grams", key)
                    eq(ta.preproc_stopword_word_n_gram_factory(n)(text), grams(content, n), "word n-grams without stop words", key)
                    eq(ta.preproc_char_n_gram_factory(n)(text), grams(list(u" ".join(content)), n), "preprocessed character n-grams", key)
                    ck.step(5)
                ck.state(key)
    sets = [[x for i, x in enumerate("abcd") if m >> i & 1] for m in range(16)]
    for a, b in itertools.product(sets, repeat=2):
        key = ("sim", "".join(a), "".join(b))
        if not ck.want(key):
            continue
        with ck.case(key, "similarity functions"):
            common, na, nb = float(len(set(a) & set(b))), len(a), len(b)
            either = len(set(a) | set(b))
            for f, want in ((ta.equals_sim, float(a == b)),
                            (ta.jaccard_sim, common / either if either else 0.0),
                            (ta.dice_sim, 2 * common / (na + nb) if na + nb else 0.0),
                            (ta.cosine_sim, common / math.sqrt(na * nb) if na and nb else 0.0),
                            (ta.tanimoto_sim, common / either if either else 0.0),
                            (ta.type_match_sim, common),
                            (ta.overlap_min_sim, common / min(na, nb) if na and nb else 0.0),
                            (ta.overlap_max_sim, common / max(na, nb) if na or nb else 0.0)):
                close(f(a, b, None, None), want, "similarity of terms", (key, f.__name__))
            ck.step(8)
            ck.state(key)
    vectors = list(itertools.product((0.0, 0.5, 1.0, 3.0), repeat=3))
    for v, w in itertools.product(vectors, repeat=2):
        key = ("cosine", v, w)
        if not ck.want(key):
            continue
        with ck.case(key, "weighted cosine"):
            dot = sum(x * y for x, y in zip(v, w))
            den = math.sqrt(sum(x * x for x in v)) * math.sqrt(sum(x * x for x in w))
            close(ta.weighted_cosine_sim([], [], list(v), list(w)), dot / den if den else 0.0, "weighted cosine", key)
            ck.step(1)
            ck.state(key)
    docs = [[], ["a"], ["b"], ["a", "b"], ["a", "a"], ["c", "a"]]
    for n in range(4):
        for coll in itertools.product(range(len(docs)), repeat=n):
            key = ("weights", coll)
            if not ck.want(key):
                continue
            with ck.case(key, "weight functions"):
                terms = [docs[i] for i in coll]
                eq(ta.no_weight(terms), [None] * n, "no weights", key)
                vocab = sorted(set(itertools.chain(*terms)))
                got = ta.tf_idf_indicator_weight(terms)
                eq(len(got), n, "number of weight vectors", key)
                for t, g in zip(terms, got):
                    eq(len(g), len(vocab), "length of a weight vector", key)
                    for w, x in zip(vocab, g):
                        df = len([1 for u in terms if w in u])
                        want = (w in t) * (math.log(n / float(df)) / math.log(n) if n > 1 else 0.0)
                        close(x, want, "weight of a term", (key, w))
                ck.step(2)
                ck.state(key)
    # defaults: single words must be equal, everything is kept
    d = ck.tmpdir()
    for (si, sd), (ti, td) in itertools.product(enumerate(DOCS), repeat=2):
        key = ("defaults", si, ti)
        if not ck.want(key):
            continue
        with ck.case(key, "default functions"):
            fx.write_bytes(d + "/s.xml", doc_xml(sd, "doc"))
            fx.write_bytes(d + "/t.xml", doc_xml(td, "text"))
            c = corpus_for([])
            c.set_filename("from", d + "/s.xml")
            c.set_filename("to", d + "/t.xml")
            ta.TextAligner(Pair("s", "s"), filter_func=ta.threshold_filter_factory(0)).align_corpus(c)
            se, te = elems_of(sd, "doc"), elems_of(td, "text")
            eq(links_of(c), sorted(("s", x.n, "s", y.n) for x in se for y in te if x.tag == y.tag == "s" and x.text == y.text), "equal sentences", key)
            c.clear_alignments()
            ta.TextAligner(Pair("s", "s")).align_corpus(c)
            eq(links_of(c), sorted(("s", x.n, "s", y.n) for x in se for y in te if x.tag == y.tag == "s"), "all sentences", key)
            raises(NotImplementedError, lambda: ta.TextAlignerBase(Pair("s", "s")).align_corpus(c), "abstract aligner")
            ck.step(2)
            ck.state(key)
