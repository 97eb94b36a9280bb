# -*- coding: utf-8 -*-
"""A graph bank format, registered the way other formats are, in which graphs
can be failed parses and nodes can be empty."""
from daeso.gb import register
from daeso.gb.graphml import GraphmlParser
from daeso.graph.daesograph import DaesoGraph

EMPTY = "EMPTY"


class Graph14(DaesoGraph):
    def is_failed_parse(self):
        return self.id.startswith("bad")


class Parser14(GraphmlParser):

    def parse_file(self, path, id2graph, *args, **kwargs):
        res = GraphmlParser.parse_file(self, path, id2graph, *args, **kwargs)
        for g in list(id2graph.values()):
            g.__class__ = Graph14
            for n in g:
                if g.get_node_tokens(n) == [EMPTY]:
                    g.set_node_tokens(n, [])
        return res


def install():
    register.c14 = ("mc.props.c14_format", "Parser14")
