# -*- coding: utf-8 -*-
"""
Ordered graphs: operation histories against a plain model, and terminal yields
of all small graphs.
"""
import itertools

from networkx import NetworkXError

from daeso.graph.daesograph import DaesoGraph
from daeso.graph.ograph import ODiGraph
from mc.core import eq, ok, raises, Mismatch


class Refused(Exception):
    pass


class Model(object):
    """nodes: id -> attributes; edges: (s, t) -> attributes, in order of insertion"""

    def __init__(self, daeso):
        self.daeso = daeso
        self.nodes = {}
        self.order = []
        self.edges = []

    def add_node(self, n, attrs):
        if n not in self.nodes:
            self.nodes[n] = {}
            self.order.append(n)
        self.nodes[n].update(attrs)

    def add_edge(self, s, t, attrs):
        if self.daeso and not (s in self.nodes and t in self.nodes):
            raise Refused()
        self.add_node(s, {})
        self.add_node(t, {})
        for e in self.edges:
            if e[:2] == (s, t):
                e[2].update(attrs)
                return
        self.edges.append((s, t, dict(attrs)))

    def remove_edge(self, s, t):
        for i, e in enumerate(self.edges):
            if e[:2] == (s, t):
                del self.edges[i]
                return
        raise Refused()

    def remove_node(self, n):
        if n not in self.nodes:
            raise Refused()
        del self.nodes[n]
        self.order.remove(n)
        self.edges = [e for e in self.edges if n not in e[:2]]

    def value(self):
        return (self.nodes,
                [e for n in self.order for e in self.edges if e[0] == n],
                dict((n, [e[1] for e in self.edges if e[0] == n]) for n in self.nodes),
                dict((n, [e[0] for e in self.edges if e[1] == n]) for n in self.nodes))


def value(g):
    return (dict((n, g.node[n]) for n in g), g.edges(data=True),
            dict((n, g.successors(n)) for n in g), dict((n, g.predecessors(n)) for n in g))


# operations: (name, argument), applied to a graph of either kind and a model

def apply_graph(g, op, daeso):
    name = op[0]
    if name == "node":
        if daeso:
            g.add_node(op[1], "L", ["t"], **dict(op[2]))
        else:
            g.add_node(op[1], **dict(op[2]))
    elif name == "nodedict":
        if daeso:
            g.add_node(op[1], "M", attr_dict=dict(op[2]))
        else:
            g.add_node(op[1], dict(op[2]), z=1)
    elif name == "nodes":
        g.add_nodes_from(op[1], **dict(op[2]))
    elif name == "edge":
        if daeso:
            g.add_edge(op[1], op[2], "E", **dict(op[3]))
        else:
            g.add_edge(op[1], op[2], **dict(op[3]))
    elif name == "edgedict":
        g.add_edge(op[1], op[2], attr_dict=dict(op[3]), y=2)
    elif name == "edges":
        if daeso:
            g.add_edges_from([(s, t) if d is None else (s, t, dict(d)) for s, t, d in op[1]], "F", **dict(op[2]))
        else:
            g.add_edges_from([(s, t) if d is None else (s, t, dict(d)) for s, t, d in op[1]], **dict(op[2]))
    elif name == "deledge":
        g.remove_edge(op[1], op[2])
    elif name == "delnode":
        g.remove_node(op[1])
    elif name == "delnodes":
        g.remove_nodes_from(op[1])
    elif name == "clear":
        g.clear()
    else:
        raise ValueError(name)


def apply_model(m, op, daeso):
    name = op[0]
    if name == "node":
        m.add_node(op[1], dict(dict(label="L", tokens=["t"]) if daeso else {}, **dict(op[2])))
    elif name == "nodedict":
        m.add_node(op[1], dict(dict(label="M", tokens=[]) if daeso else dict(z=1), **dict(op[2])))
    elif name == "nodes":
        for n in op[1]:
            m.add_node(n, dict(op[2]))
    elif name == "edge":
        m.add_edge(op[1], op[2], dict(dict(label="E") if daeso else {}, **dict(op[3])))
    elif name == "edgedict":
        m.add_edge(op[1], op[2], dict(dict(label=None) if daeso else {}, **dict(op[3], y=2)))
    elif name == "edges":
        for s, t, d in op[1]:
            m.add_edge(s, t, dict(dict(label="F") if daeso else {}, **dict(dict(op[2]), **dict(d or ()))))
    elif name == "deledge":
        m.remove_edge(op[1], op[2])
    elif name == "delnode":
        m.remove_node(op[1])
    elif name == "delnodes":
        for n in op[1]:
            if n in m.nodes:
                m.remove_node(n)
    elif name == "clear":
        m.__init__(m.daeso)


def operations(ids, daeso):
    a, b, c = ids
    ops = []
    for n in ids:
        ops.append(("node", n, (("x", 1),)))
        ops.append(("delnode", n))
    ops.append(("node", a, (("x", 2), ("w", 3))))
    ops.append(("nodedict", b, (("x", 4),)))
    if not daeso:
        ops.append(("nodes", (a, b, c), (("q", 1),)))
        ops.append(("nodes", (c, a, c), ()))
    for s, t in ((a, b), (b, a), (a, a), (b, c), (c, b), (a, c)):
        ops.append(("edge", s, t, (("x", 1),)))
    ops.append(("edge", a, b, (("vv", 2),)))
    ops.append(("edgedict", a, b, (("x", 9),)))
    ops.append(("edges", ((a, b, None), (c, b, (("x", 5),)), (a, c, None)), (("k", 1),)))
    ops.append(("edges", ((c, c, None), (a, b, (("k", 5),))), (("k", 1),)))
    for s, t in ((a, b), (a, a), (c, b), (b, c)):
        ops.append(("deledge", s, t))
    ops.append(("delnodes", (a, c)))
    ops.append(("clear",))
    return ops


def starts(ids, daeso):
    a, b, c = ids
    nodes = [("node", n, ()) for n in ids]
    return [[], nodes,
            nodes + [("edge", a, c, ()), ("edge", a, b, ()), ("edge", c, b, ()), ("edge", b, b, ())],
            nodes[::-1] + [("edge", s, t, (("n", i),)) for i, (s, t) in enumerate(itertools.product((c, a, b), (b, c, a)))]]


IDS = {"str": ("n0", "n1", "n2"), "int": (0, 1, 2), "falsy": ("", u"\xe9", ("t", 1))}


def histories(ck):
    depth = 3 if ck.quick else 4
    ck.bounds["histories"] = "all operation sequences of length <= %d from 4 start graphs on 3 nodes, 2 graph classes" % depth
    for daeso in (False, True):
        for kind in ("str", "int", "falsy"):
            ids = IDS[kind]
            ops = operations(ids, daeso)
            for si, start in enumerate(starts(ids, daeso)):
                for k in range(0, (depth if kind == "str" else 2) + 1):
                    for oi in itertools.product(range(len(ops)), repeat=k):
                        if k > 2 and si in (1, 2) and ck.quick:
                            continue
                        key = ("history", daeso, kind, si, oi)
                        if not ck.want(key):
                            continue
                        with ck.case(key, "histories"):
                            history(ck, key, daeso, start, [ops[i] for i in oi])


def history(ck, key, daeso, start, ops):
    g = DaesoGraph(id="g", tokens=["t"]) if daeso else ODiGraph()
    m = Model(daeso)
    for op in start:
        apply_graph(g, op, daeso)
        apply_model(m, op, daeso)
    for n, op in enumerate(ops):
        ck.step()
        try:
            apply_model(m, op, daeso)
            refused = False
        except Refused:
            refused = True
        try:
            apply_graph(g, op, daeso)
            if refused:
                raise Mismatch("impossible operation accepted", "%r after %r" % (op, ops[:n]))
        except (ValueError, NetworkXError), inst:
            if not refused:
                raise Mismatch("operation refused", "%r after %r: %r" % (op, ops[:n], inst))
            if op[0] == "edges":
                # which of several edges are added before the bad one is found is left open
                return
    want = m.value()
    eq(value(g), want, "graph after a history", key)
    eq(sorted(map(repr, g.nodes())), sorted(map(repr, m.nodes)), "nodes", key)
    eq((len(g), g.number_of_edges()), (len(m.nodes), len(m.edges)), "sizes", key)
    for n in m.nodes:
        eq((g.out_degree(n), g.in_degree(n)),
           (len([e for e in m.edges if e[0] == n]), len([e for e in m.edges if e[1] == n])), "degrees", key)
    # no shared attribute storage
    stores = [g.node[n] for n in g] + [d for s, t, d in g.edges(data=True)]
    eq(len(set(map(id, stores))), len(stores), "attribute storage is shared", key)
    # copies
    if len(ops) < 3:
        c = g.copy()
        eq(value(c), want, "copy of a graph", key)
        for n in list(c):
            c.node[n]["spoiled"] = 1
        for s, t, d in c.edges(data=True):
            d["spoiled"] = 1
        c.clear()
        eq(value(g), want, "graph after changing its copy", key)
        if not daeso:
            h = ODiGraph(g)
            eq((value(h)[0], value(h)[2]), (want[0], want[2]), "graph from a graph", key)
            h = ODiGraph([(s, t) for s, t, d in want[1]])
            eq([(s, t) for s, t, d in h.edges(data=True) if 1], regroup([e[:2] for e in want[1]]), "graph from edges", key)
    ck.state(want)
    ck.outcome(want)


def regroup(edges):
    order = []
    for e in edges:
        for n in e:
            if n not in order:
                order.append(n)
    return [e for n in order for e in edges if e[0] == n]


# -- terminals ----------------------------------------------------------------

TOKENS = {"w": ["a", "b"], "p": [","], "P": [".", ")"], "e": [], "m": [",", "x"]}
PUNCT = {"w": False, "p": True, "P": True, "e": False, "m": False}


def dfs(succ, n, seen):
    seen.append(n)
    for t in succ[n]:
        if t not in seen:
            dfs(succ, t, seen)
    return seen


def check_terminals(ck, key, ids, succ, kinds):
    g = DaesoGraph(id="g", tokens=[])
    for i, n in enumerate(ids):
        g.add_node(n, "L%d" % i, list(TOKENS[kinds[i]]))
    for n in ids:
        for t in succ[n]:
            g.add_edge(n, t)
    kind = dict(zip(ids, kinds))
    for n in ids:
        eq(bool(g.node_is_punct(n)), PUNCT[kind[n]], "punctuation", key)
        eq(bool(g.node_is_empty(n)), kind[n] == "e", "empty node", key)
        eq(bool(g.node_is_non_terminal(n)), bool(succ[n]), "non-terminal", key)
    eq(sorted(g.non_terminals()), sorted(n for n in ids if succ[n]), "non-terminals", key)
    for wp in (True, False):
        for we in (True, False):
            wanted = [n for n in ids if not succ[n] and (wp or not PUNCT[kind[n]]) and (we or kind[n] != "e")]
            eq(sorted(g.terminals(with_punct=wp, with_empty=we)), sorted(wanted), "terminals", (key, wp, we))
            for n in ids:
                eq(bool(g.node_is_terminal(n, wp, we)), n in wanted, "terminal", (key, wp, we))
                y = [t for t in dfs(succ, n, []) if t in wanted]
                got = g.terminal_yield(n, with_punct=wp, with_empty=we)
                eq(got, y, "terminal yield", (key, n, wp, we))
                ck.step()
                ck.outcome((kinds, y))
                g.root = n
                eq(g.terminal_yield(with_punct=wp, with_empty=we), y, "terminal yield of the root", (key, n, wp, we))
                other = ids[0] if n != ids[0] else ids[-1]
                eq(g.terminal_yield(other, wp, we), [t for t in dfs(succ, other, []) if t in wanted],
                   "terminal yield of a node other than the root", (key, n, wp, we))
    eq(g.terminals(), list(g.terminals_iter()), "iteration over terminals", key)
    ck.state((ids, sorted(succ.items()), kinds))


def yields(ck):
    ck.bounds["terminal yield"] = ("all digraphs on <= 3 nodes with all successor orders; all digraphs on 4 nodes %s; "
                                   "all token kinds on <= 3 nodes" % ("without self loops, 2 orders" if ck.quick else "with self loops"))
    # all orders of successors
    for n in (1, 2, 3):
        for kind in ("int", "str"):
            ids = IDS[kind][:n]
            rows = [s for k in range(n + 1) for s in itertools.permutations(ids, k)]
            for choice in itertools.product(rows, repeat=n):
                succ = dict(zip(ids, choice))
                srt = all(list(r) == sorted(r) for r in choice)
                if kind == "str":
                    if not srt:
                        continue
                    kk = list(itertools.product("wpe", repeat=n))
                    if n < 3:
                        kk = list(itertools.product("wpPem", repeat=n))
                else:
                    kk = [("w",) * n]
                for kinds in kk:
                    key = ("yield", kind, choice, "".join(kinds))
                    if not ck.want(key):
                        continue
                    with ck.case(key, "terminal yield"):
                        check_terminals(ck, key, ids, succ, kinds)
    ids = (0, "b", u"c", "")
    pairs = [(s, t) for s in range(4) for t in range(4) if s != t or not ck.quick]
    for bits in range(1 << len(pairs)):
        for rev in (0, 1):
            key = ("yield4", bits, rev)
            if not ck.want(key):
                continue
            with ck.case(key, "terminal yield, four nodes"):
                succ = dict((n, []) for n in ids)
                es = [p for i, p in enumerate(pairs) if bits >> i & 1]
                for s, t in (es[::-1] if rev else es):
                    succ[ids[s]].append(ids[t])
                check_terminals(ck, key, ids, succ, ("w", "p", "e", "m"))


def tokens(ck):
    for toks in itertools.chain.from_iterable(itertools.product(["a", u"\xe9", ","], repeat=k) for k in range(4)):
        key = ("tokens", toks)
        if not ck.want(key):
            continue
        with ck.case(key, "token strings"):
            g = DaesoGraph(id="g", tokens=list(toks))
            g.add_node(0, "L", list(toks))
            g.add_node(1, "M")
            s = " ".join(toks)
            eq(g.get_graph_token_string(), s, "token string of a graph", key)
            eq(g.get_node_token_string(0), s, "token string of a node", key)
            eq(g.get_node_tokens(0), list(toks), "tokens of a node", key)
            eq(g.get_node_token_string(1), "", "token string of a node without tokens", key)
            g.set_graph_token_string(s)
            eq(g.tokens, list(toks), "tokens set by string", key)
            if toks:
                g.set_node_token_string(1, s)
                eq(g.get_node_tokens(1), list(toks), "tokens set by string", key)
            g.set_node_tokens(0, ["z"])
            eq(g.get_node_tokens(0), ["z"], "tokens set", key)
            ck.step(4)
            ck.state(toks)


def run(ck):
    histories(ck)
    yields(ck)
    tokens(ck)
