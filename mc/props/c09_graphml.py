# -*- coding: utf-8 -*-
"""
GraphML graph banks.  Documents are generated from a plain description, which
is also what the parsed graphs have to equal.
"""
import cStringIO
import itertools
import os
from xml.sax.saxutils import escape, quoteattr

from daeso.exception import DaesoError
from daeso.gb.graphbank import GraphBank, SparseGraphBank
from daeso.gb.graphml import GraphmlParser
from mc.core import eq, ok, raises, Mismatch
from mc import fx


def key_xml(k):
    """k = (id, for or None, name, default or None)"""
    id, for_, name, default = k
    out = "<key id=%s attr.name=%s" % (quoteattr(id), quoteattr(name))
    if for_ is not None:
        out += " for=%s" % quoteattr(for_)
    out += ' attr.type="string"'
    if default is None:
        return out + "/>"
    return out + "><desc>no value</desc><default>%s</default></key>" % escape(default)


def data_xml(key, value, how="escape"):
    if how == "cdata":
        text = "<![CDATA[%s]]>" % value
    elif how == "charref":
        text = "".join("&#%d;" % ord(c) for c in value)
    else:
        text = escape(value)
    return "<data key=%s>%s</data>" % (quoteattr(key), text)


KEYS = [("k1", "node", "label", None), ("k2", None, "tokens", None), ("k3", "graph", "root", None),
        ("k4", "edge", "label", None), ("k5", "graph", "label", None), ("k6", "all", "x", None)]


def lookup(keys, ctx, id):
    for for_ in (ctx, "all"):
        for k in keys:
            if k[0] == id and (k[1] or "all") == for_:
                return k[2]
    raise KeyError(id)


def attrs_of(keys, ctx, items):
    """required attributes of a component of kind ctx with the given data"""
    d = {}
    for for_ in ("all", ctx):
        for k in keys:
            if (k[1] or "all") == for_ and k[3] is not None:
                d[k[2]] = k[3]
    for id, value in items:
        d[lookup(keys, ctx, id)] = value
    return d


def doc(keys, graphs, how="escape", pretty=True):
    """graphs = [(id, children)], child = ('data', key, value) |
    ('node', id, [(key, value)]) | ('edge', s, t, [(key, value)])"""
    nl = "\n" if pretty else ""
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<graphml>']
    out += [key_xml(k) for k in keys]
    for gid, children in graphs:
        out.append('<graph id=%s edgedefault="directed">' % quoteattr(gid))
        for c in children:
            if c[0] == "data":
                out.append(data_xml(c[1], c[2], how))
            elif c[0] == "node":
                out.append("<node id=%s>%s%s</node>" % (
                    quoteattr(c[1]), nl, "".join(data_xml(k, v, how) + nl for k, v in c[2])))
            elif c[0] == "desc":
                out.append("<desc>%s</desc>" % escape(c[1]))
            else:
                inner = "".join(data_xml(k, v, how) + nl for k, v in c[3])
                e = "<edge source=%s target=%s" % (quoteattr(c[1]), quoteattr(c[2]))
                out.append(e + (">%s</edge>" % inner if inner else "/>"))
        out.append("</graph>")
    out.append("</graphml>\n")
    return nl.join(out).encode("utf-8")


def required(keys, graphs):
    res = {}
    for gid, children in graphs:
        ga = attrs_of(keys, "graph", [c[1:] for c in children if c[0] == "data"])
        tokens = ga.pop("tokens").split()
        nodes, edges = [], []
        for c in children:
            if c[0] == "node":
                a = attrs_of(keys, "node", c[2])
                a["tokens"] = a["tokens"].split(" ")
                nodes.append((c[1], a))
            elif c[0] == "edge":
                a = attrs_of(keys, "edge", c[3])
                a.setdefault("label", None)
                for n, (s, t, b) in enumerate(edges):
                    if (s, t) == c[1:3]:
                        edges[n] = (s, t, dict(b, **a))
                        break
                else:
                    edges.append((c[1], c[2], a))
        order = [n for n, a in nodes]
        # edges are ordered by source node, then as given
        res[gid] = (gid, tokens, ga.get("root"), ga, dict(nodes),
                    [(s, t, a) for n in order for s, t, a in edges if s == n],
                    dict((n, [s for s, t, a in edges if t == n]) for n in order))
    return res


def value(g):
    ga = dict(g.graph)
    if ga.get("name") == "":
        del ga["name"]
    return (g.id, g.tokens, g.root, ga, dict((n, g.node[n]) for n in g),
            g.edges(data=True), dict((n, g.predecessors(n)) for n in g))


def values(d):
    return dict((k, value(g)) for k, g in d.items())


def parse(text, sparse=None):
    p = GraphmlParser()
    if sparse is None:
        return p.parse_file(cStringIO.StringIO(text), {})
    return p.parse_file(cStringIO.StringIO(text), dict.fromkeys(sparse), sparse=True)


def simple(gid, words, extra=()):
    ch = [("data", "k2", " ".join(words)), ("data", "k3", "n0"),
          ("node", "n0", [("k1", "top"), ("k2", " ".join(words))])]
    for i, w in enumerate(words):
        ch.append(("node", "n%d" % (i + 1), [("k1", "w"), ("k2", w)]))
        ch.append(("edge", "n0", "n%d" % (i + 1), []))
    return (gid, ch + list(extra))


def run(ck):
    structures(ck)
    placement(ck)
    keys(ck)
    texts(ck)
    chunks(ck)
    sparse(ck)
    missing(ck)


def structures(ck):
    top = 3
    maxe = {1: 1, 2: 4, 3: 2 if ck.quick else 4}
    ck.bounds["structure"] = "all sequences of distinct edges: 1 node <=1, 2 nodes <=4, 3 nodes <=%d; edges after all nodes or as early as possible, nodes in all orders" % maxe[3]
    for n in range(1, top + 1):
        ids = ["n%d" % i for i in range(n)]
        pairs = list(itertools.product(ids, repeat=2))
        for k in range(0, maxe[n] + 1):
            for es in itertools.permutations(pairs, k):
                for ordr in itertools.permutations(ids):
                    for early in (False, True):
                        key = ("structure", ordr, es, early)
                        if not ck.want(key):
                            continue
                        with ck.case(key, "structure"):
                            nodes = [("node", i, [("k1", "L" + i), ("k2", "t" + i)]) for i in ordr]
                            edges = [("edge", s, t, [("k4", s + t)]) for s, t in es]
                            if early:
                                ch, seen, left = [], set(), list(edges)
                                for nd in nodes:
                                    ch.append(nd)
                                    seen.add(nd[1])
                                    for e in left[:]:
                                        if e[1] in seen and e[2] in seen:
                                            ch.append(e)
                                            left.remove(e)
                            else:
                                ch = nodes + edges
                            graphs = [("g", [("data", "k2", "a b")] + ch)]
                            text = doc(KEYS, graphs)
                            got = values(parse(text))
                            ck.step()
                            eq(got, required(KEYS, graphs), "parsed graph", key)
                            ck.state(text)
                            ck.outcome(got)


def placement(ck):
    """graph, node and edge data in every position"""
    base = [("node", "n0", [("k1", "A"), ("k2", "a b")]),
            ("node", "n1", [("k2", "b"), ("k6", "nx"), ("k1", "B")]),
            ("edge", "n0", "n1", [("k6", "ex"), ("k4", "E")]),
            ("edge", "n1", "n1", []),
            ("node", "n2", [("k6", "z"), ("k1", "C"), ("k2", "c")]),
            ("edge", "n0", "n1", [("k4", "again")])]
    gdata = [("data", "k2", "a b"), ("data", "k3", "n1"), ("data", "k5", "GL"), ("data", "k6", "gx"), ("desc", "about")]
    npos = len(base) + 1
    for m in range(1, 4 if ck.quick else 5):
        for ds in itertools.combinations(gdata, m):
            if gdata[0] not in ds:
                continue
            for pos in itertools.product(range(npos), repeat=m):
                key = ("placement", m, tuple(d[1] for d in ds), pos)
                if not ck.want(key):
                    continue
                with ck.case(key, "placement of data"):
                    ch = []
                    for i in range(npos):
                        ch += [d for d, p in zip(ds, pos) if p == i]
                        ch += base[i:i + 1]
                    # neighbours must not be affected
                    graphs = [simple("before", ["p"]), ("g", ch), simple("after", ["q", "r"])]
                    text = doc(KEYS, graphs)
                    want = required(KEYS, graphs)
                    got = values(parse(text))
                    eq(got, want, "parsed graph", key)
                    eq(values(parse(text, ["g"])), {"g": want["g"]}, "sparsely parsed graph", key)
                    ck.step(2)
                    ck.state(text)
                    ck.outcome(got)


def keys(ck):
    """scope of keys, several keys with one id, defaults"""
    scopes = [None, "all", "node", "edge", "graph"]
    for names in (("x", "y"), ("x", "x")):
        for s1, s2 in itertools.product(scopes, repeat=2):
            if names == ("x", "x") and (s1 or "all") == (s2 or "all"):
                continue
            for d1, d2 in itertools.product((None, "D1", ""), (None, "D2")):
                for same_id in (False, True):
                    ids = ("a", "a") if same_id else ("a", "b")
                    if same_id and (s1 or "all") == (s2 or "all"):
                        continue
                    if not same_id and names == ("x", "x") and d1 is not None and d2 is not None \
                            and "all" not in (s1 or "all", s2 or "all") and False:
                        continue
                    mine = [(ids[0], s1, names[0], d1), (ids[1], s2, names[1], d2)]
                    for use in itertools.product((0, 1, 2), repeat=3):
                        # which of the keys node n1, its edge and its graph give a value for
                        key = ("keys", names, (s1, s2), (d1, d2), same_id, use)
                        items = []
                        try:
                            for ctx, u in zip(("node", "edge", "graph"), use):
                                it = []
                                if u:
                                    lookup(mine, ctx, ids[u - 1])
                                    it.append((ids[u - 1], "V" + ctx))
                                items.append(it)
                        except KeyError:
                            # key is not defined for that component
                            if sum(1 for u in use if u) > 1:
                                continue
                            if ck.want(key):
                                with ck.case(key, "undefined keys"):
                                    ctxs = dict((c, [(ids[u - 1], "V")] if u else [])
                                                for c, u in zip(("node", "edge", "graph"), use))
                                    text = doc(mine + KEYS[:2], keyed(ctxs["node"], ctxs["edge"], ctxs["graph"]))
                                    raises(DaesoError, lambda: parse(text), "undefined key accepted", key)
                                    ck.step()
                                    ck.outcome("undefined")
                            continue
                        if not ck.want(key):
                            continue
                        with ck.case(key, "keys and defaults"):
                            graphs = keyed(*items)
                            ks = mine + KEYS[:2]
                            text = doc(ks, graphs)
                            got = values(parse(text))
                            ck.step()
                            eq(got, required(ks, graphs), "parsed graph", key)
                            ck.state(text)
                            ck.outcome(got)
    # defaults for the attributes which need special treatment
    for sc_l, sc_t in itertools.product(("node", "all"), repeat=2):
        for groot in (None, "n1"):
            for gl, gt, gg, gr in itertools.product((0, 1), repeat=4):
                for order in (0, 1):
                    key = ("special defaults", sc_l, sc_t, groot, gl, gt, gg, gr, order)
                    if not ck.want(key):
                        continue
                    with ck.case(key, "keys and defaults"):
                        ks = [("l", sc_l, "label", "DL"), ("t", sc_t, "tokens", "D T"),
                              ("r", "graph", "root", groot)]
                        if sc_t == "node":
                            ks.append(("u", "graph", "tokens", "G D"))
                        gk = "u" if sc_t == "node" else "t"
                        if order:
                            ks.reverse()
                        node = ([("l", "L")] if gl else []) + ([("t", "tt")] if gt else [])
                        gd = ([("data", gk, "x y")] if gg else []) + ([("data", "r", "n0")] if gr else [])
                        graphs = [("g", gd + [("node", "n0", node), ("node", "n1", []), ("edge", "n0", "n1", []),
                                              ("node", "n2", node[::-1])]),
                                  ("h", [("node", "n0", [])] + gd)]
                        text = doc(ks, graphs)
                        want = required(ks, graphs)
                        for pretty in (True, False):
                            got = values(parse(doc(ks, graphs, pretty=pretty)))
                            eq(got, want, "parsed graph", key)
                        eq(values(parse(text, ["h"])), {"h": want["h"]}, "sparsely parsed graph", key)
                        ck.step(3)
                        ck.state(text)
                        ck.outcome(got)


def keyed(node, edge, graph):
    ch = [("data", "k2", "w")]
    ch += [("data",) + d for d in graph]
    ch += [("node", "n0", [("k1", "L0"), ("k2", "t0")]),
           ("node", "n1", [("k1", "L1")] + node + [("k2", "t1")]),
           ("edge", "n0", "n1", edge), ("edge", "n1", "n0", [])]
    return [("g", ch)]


TEXTS = [u"", u"a", u" ", u"a b", u"<", u"&", u"&amp;", u"]]", u"a<b&c>d\"e'", u"\xe9", u"\u20ac b", u"\n", u"a\nb",
         u"node", u"0", u"None", u"\ufeff", u"a  b", u"\U0001f600"]


def texts(ck):
    hows = ["escape", "cdata", "charref"]
    ck.bounds["texts"] = "%d texts as label, tokens, ids, attribute values, default; %d encodings" % (len(TEXTS), len(hows))
    for ti, t in enumerate(TEXTS):
        for place in ("label", "tokens", "gtokens", "root", "edge", "x", "nodeid", "graphid", "default", "keyid", "keyname"):
            for how in hows:
                key = ("text", ti, place, how)
                if not ck.want(key):
                    continue
                if place == "label" and not t:
                    continue
                if how == "cdata" and "]]>" in t:
                    continue
                if place in ("nodeid", "graphid", "keyid", "keyname") and (not t.strip() or how != "escape" or "\n" in t):
                    continue
                if place == "keyname" and t in ("label", "tokens", "root", "name"):
                    continue
                with ck.case(key, "texts"):
                    ks = list(KEYS)
                    if place == "default":
                        ks[5] = ("k6", "all", "x", t)
                    k6 = "k6"
                    if place == "keyid":
                        ks[5] = (t, "all", "x", None)
                        k6 = t
                    if place == "keyname":
                        ks[5] = ("k6", "all", t, None)
                    pick = lambda p, d: t if place == p else d
                    nid = pick("nodeid", "n1")
                    graphs = [(pick("graphid", "g"), [
                        ("data", "k2", pick("gtokens", "a b")), ("data", "k3", pick("root", "n0")),
                        ("node", "n0", [("k1", pick("label", "A")), ("k2", pick("tokens", "a"))]),
                        ("node", nid, [("k1", "B"), ("k2", "b")] + ([] if place == "default" else [(k6, pick("x", "X"))])),
                        ("edge", "n0", nid, [("k4", pick("edge", "E"))]),
                        ("edge", nid, nid, [])])]
                    if place == "root" and t == "":
                        pass
                    text = doc(ks, graphs, how)
                    got = values(parse(text))
                    ck.step()
                    eq(got, required(ks, graphs), "parsed graph", (key, text))
                    ck.state(text)
                    ck.outcome(got)


def chunks(ck):
    graphs = [simple("g1", [u"\xe9\u20ac", "b&<"]), simple("g2", ["c"])]
    ks = KEYS[:5] + [("k6", "node", "x", u"d\xe9&")]
    text = doc(ks, graphs, pretty=False)
    want = required(ks, graphs)
    n = len(text)
    ck.bounds["chunks"] = "every split of a document of %d bytes in two, every split in three at multiples of %d" % (
        n, 24 if ck.quick else 6)
    for i in range(0, n + 1):
        for mode in ("full", "sparse", "own"):
            key = ("two chunks", i, mode)
            if not ck.want(key):
                continue
            with ck.case(key, "chunks"):
                chunked(ck, [text[:i], text[i:]], mode, want, key)
    stride = 24 if ck.quick else 6
    for i in range(0, n, stride):
        for j in range(i, n, stride):
            for mode in ("full", "sparse"):
                key = ("three chunks", i, j, mode)
                if not ck.want(key):
                    continue
                with ck.case(key, "chunks"):
                    chunked(ck, [text[:i], text[i:j], text[j:]], mode, want, key)
    for size in range(1, 40):
        for mode in ("full", "sparse", "own"):
            key = ("chunk size", size, mode)
            if not ck.want(key):
                continue
            with ck.case(key, "chunks"):
                chunked(ck, [text[k:k + size] for k in range(0, n, size)], mode, want, key)


def chunked(ck, parts, mode, want, key):
    p = GraphmlParser()
    if mode == "sparse":
        d = dict.fromkeys(["g2"])
        want = {"g2": want["g2"]}
    elif mode == "full":
        d = {}
    for part in parts:
        if mode == "own":
            res = p.parse_string(part)
        else:
            res = p.parse_string(part, d, sparse=(mode == "sparse"))
            ok(res is d, "incremental parsing returns another dictionary", key)
        ck.step()
    p.close()
    eq(values(res), want, "graphs after incremental parsing", key)
    ck.state((mode, [len(p_) for p_ in parts]))
    ck.outcome(sorted(res))


def sparse(ck):
    d = ck.tmpdir()
    ids = ["a", "b", u"\xe9", "d"]
    path = os.path.join(d, "b.xml")
    for k in range(0, 4):
        for present in itertools.permutations(ids, k):
            for m in range(0, 4):
                for req in itertools.combinations(ids, m):
                    key = ("sparse", present, req)
                    if not ck.want(key):
                        continue
                    with ck.case(key, "sparse parsing"):
                        graphs = [simple(g, ["w", g]) for g in present]
                        text = doc(KEYS, graphs)
                        want = required(KEYS, graphs)
                        fx.write_bytes(path, text)
                        bank = GraphBank(path, "graphml")
                        bank.load()
                        eq(dict((g.id, value(g)) for g in bank), want, "graphs of a bank", key)
                        eq(len(bank), len(want), "size of a bank", key)
                        for g in ids:
                            if g in want:
                                eq(value(bank.get_graph(g)), want[g], "graph by id", key)
                            else:
                                raises(KeyError, lambda: bank.get_graph(g), "graph that does not exist", key)

                        def by_chunks():
                            p = GraphmlParser()
                            r = dict.fromkeys(req)
                            p.parse_string(text[:90], r, sparse=True)
                            p.parse_string(text[90:], r, sparse=True)
                            p.close()
                            return r

                        for f in (lambda: parse(text, req), by_chunks,
                                  lambda: GraphmlParser().parse_file(path, dict.fromkeys(req), sparse=True)):
                            ck.step()
                            if set(req) <= set(present):
                                eq(values(f()), dict((r, want[r]) for r in req), "requested graphs", key)
                            else:
                                raises(DaesoError, f, "absent graph is not reported", key)
                        ck.state((present, req))
                        ck.outcome((sorted(want), sorted(req), set(req) <= set(present)))


def missing(ck):
    for n in range(1, 4):
        for ctx in ["gtokens"] + ["%s%d" % (w, i) for w in ("label", "tokens", "emptylabel", "emptydata") for i in range(n)] + [None]:
            for elsewhere in (False, True):
                for sp in (None, "g", "h"):
                    key = ("missing", n, ctx, elsewhere, sp)
                    if not ck.want(key):
                        continue
                    with ck.case(key, "missing attributes"):
                        ch = []
                        if ctx != "gtokens":
                            ch.append(("data", "k2", "a"))
                        for i in range(n):
                            items = []
                            if ctx == "emptylabel%d" % i:
                                items.append(("k1", ""))
                            elif ctx != "label%d" % i and ctx != "emptydata%d" % i:
                                items.append(("k1", "L"))
                            if ctx != "tokens%d" % i and ctx != "emptydata%d" % i:
                                items.append(("k2", "t"))
                            if elsewhere:
                                items.append(("k6", "x"))
                            ch.append(("node", "n%d" % i, items))
                        graphs = [simple("h", ["z"]), ("g", ch), simple("i", ["z"])]
                        text = doc(KEYS, graphs)
                        f = lambda: parse(text, None if sp is None else [sp])
                        ck.step()
                        if ctx is None:
                            want = required(KEYS, graphs)
                            eq(values(f()), want if sp is None else {sp: want[sp]}, "parsed graphs", key)
                        elif sp == "h":
                            eq(sorted(f()), ["h"], "a graph that is not requested", key)
                        else:
                            raises(DaesoError, f, "missing attribute is not reported", key)
                        ck.state(text)
                        ck.outcome((ctx is None, sp))
    # an edge to a node that does not exist
    for s, t in (("n0", "zz"), ("zz", "n0"), ("zz", "zz")):
        key = ("edge without node", s, t)
        if ck.want(key):
            with ck.case(key, "missing attributes"):
                graphs = [("g", [("data", "k2", "a"), ("node", "n0", [("k1", "L"), ("k2", "t")]), ("edge", s, t, [])])]
                raises((DaesoError, ValueError), lambda: parse(doc(KEYS, graphs)), "edge to a missing node", key)
                ck.step()
