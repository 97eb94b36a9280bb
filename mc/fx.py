# -*- coding: utf-8 -*-
"""Fixtures: small graph banks, graphs, graph pairs and corpora."""

import os
import xml.etree.cElementTree as et
from xml.sax.saxutils import escape, quoteattr

from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pair import Pair
from daeso.pgc.graphpair import GraphMatching, GraphMapping

KEYS = """  <key id="label" for="node" attr.name="label" attr.type="string"/>
  <key id="tokens" attr.name="tokens" attr.type="string"/>
  <key id="root" for="graph" attr.name="root" attr.type="string"/>
"""


def elem(tag, text=None, children=(), **attrs):
    e = et.Element(tag, attrs)
    e.text = text
    for c in children:
        e.append(c)
    return e


def elem_value(e):
    """Plain value of an element tree, white space at the edges ignored"""
    if e is None:
        return None
    return (e.tag, (e.text or "").strip(), (e.tail or "").strip(),
            sorted(e.attrib.items()), [elem_value(c) for c in e])


class GSpec(object):
    """Specification of one graph: nodes = [(id, label, tokens)]"""

    def __init__(self, id, tokens, nodes, edges, root=None):
        self.id = id
        self.tokens = tokens
        self.nodes = nodes
        self.edges = edges          # [(source, target)] or [(s, t, label)]
        self.root = root

    def xml(self):
        out = ['  <graph id=%s edgedefault="directed">' % quoteattr(self.id),
               '    <data key="tokens">%s</data>' % escape(" ".join(self.tokens))]
        if self.root is not None:
            out.append('    <data key="root">%s</data>' % escape(self.root))
        for n, label, tokens in self.nodes:
            out.append('    <node id=%s><data key="label">%s</data>'
                       '<data key="tokens">%s</data></node>' % (
                           quoteattr(n), escape(label), escape(" ".join(tokens))))
        for e in self.edges:
            out.append('    <edge source=%s target=%s/>' % (quoteattr(e[0]), quoteattr(e[1])))
        out.append('  </graph>')
        return "\n".join(out)

    def build(self):
        g = DaesoGraph(id=self.id, tokens=list(self.tokens), root=self.root)
        for n, label, tokens in self.nodes:
            g.add_node(n, label, list(tokens))
        for e in self.edges:
            g.add_edge(e[0], e[1], *e[2:])
        return g


def write_bank(path, specs, header=KEYS):
    text = u'<?xml version="1.0" encoding="UTF-8"?>\n<graphml>\n' + header
    text += u"\n".join(s.xml() for s in specs)
    text += u"\n</graphml>\n"
    f = open(path, "wb")
    f.write(text.encode("utf-8"))
    f.close()
    return path


def small_graph(gid, words=("a", "b"), shape="tree"):
    """a two-level tree: root n0 over one terminal per word"""
    nodes = [("n0", "top", list(words))]
    edges = []
    for i, w in enumerate(words):
        nodes.append(("n%d" % (i + 1), "w", [w]))
        edges.append(("n0", "n%d" % (i + 1)))
    return GSpec(gid, list(words), nodes, edges, root="n0")


def mem_pair(s="/nowhere/s.xml", t="/nowhere/t.xml", sid="g1", tid="g2",
             cls=GraphMatching, meta=None, graphs=None, banks=None):
    banks = banks or Pair(GraphBank(s, "graphml"), GraphBank(t, "graphml"))
    graphs = graphs or Pair(DaesoGraph(id=sid), DaesoGraph(id=tid))
    return cls(banks, graphs, meta_data=meta)


def aligned(gp):
    """alignments of a graph pair as a plain sorted list"""
    return sorted((n.source, n.target, r) for n, r in gp.alignments())


def read_bytes(path):
    f = open(path, "rb")
    try:
        return f.read()
    finally:
        f.close()


def write_bytes(path, data):
    if isinstance(data, unicode):
        data = data.encode("utf-8")
    f = open(path, "wb")
    f.write(data)
    f.close()
    return path
