# -*- coding: utf-8 -*-
"""C36: names and texts with any characters

Every tool runs in a directory in which each kind of name or text holds a
placeholder, and again in directories in which placeholders are other
characters: all it does has to be the same but for these characters.
"""
import itertools
import os
import re
import shutil
import warnings
import xml.etree.cElementTree as et
import zipfile
from xml.sax.saxutils import escape

from daeso.gb.graphbank import GraphBank
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_ALL, LOAD_NONE
from daeso.pgc.graphpair import GraphPair
from daeso.ptc.document import HitaextDoc
from daeso.stats.corpus import corpus_seg_stats

from mc import fx, script
from mc.core import eq, ok, Mismatch
from mc.props import c15_ptc

# kind of name -> placeholder
PLACES = dict(dir="~", file="^", id="`", token="$", comment="\\", arg="@")
CHARS = [u"\xe9", u"\u6f22", u" ", u"&amp;", u"'", u"%41", u"{0}", u"<", u"\"", u"#", u"\xa0", u"%s", u"\u0130", u"+", u"]", u"}", u"&", u"%", u"{", u"\U0001f600"]
# a token is a word, an argument may have a meaning
NOT = dict(token=u" \xa0", file=u"", dir=u"", id=u"", comment=u"", arg=u"")


def template():
    """relative name -> text, with placeholders"""
    out = {}
    for n, prefix in (("s^.xml", "g"), ("t^.xml", "h")):
        gs = [fx.small_graph("%s`%d" % (prefix, i), w) for i, w in enumerate((("a$", "b"), ("e$", ","), ("c$d",)))]
        text = u'<?xml version="1.0" encoding="UTF-8"?>\n<graphml>\n' + fx.KEYS + u"\n".join(g.xml() for g in gs) + u"\n</graphml>\n"
        for i in range(4):
            text = text.replace('"n%d"' % i, '"n`%d"' % i).replace(">n%d<" % i, ">n`%d<" % i)
        out[n] = text
    e, r = "equals", "restates"
    pairs = [(0, 0, [(0, 0, e), (1, 1, r), (2, 2, e)]), (1, 1, [(1, 1, e)]), (2, 2, []), (2, 0, [(0, 0, e)])]
    others = [(0, 0, [(0, 0, e), (1, 1, e)]), (1, 1, [(1, 1, r)]), (2, 2, [(0, 0, r)]), (2, 0, [(0, 0, e)])]
    for name, ps, up in (("a^.pgc", pairs, ""), ("b^.pgc", others, ""), ("sub/c^.pgc", pairs[1:2], "../")):
        t = u'<?xml version="1.0" encoding="utf-8"?>\n<parallel_graph_corpus>\n<corpus_meta_data/>\n<graphbanks>'
        t += u'<file format="graphml" id="1">%ss^.xml</file><file format="graphml" id="2">%st^.xml</file></graphbanks>\n' % (up, up)
        t += u"<node_relations>" + u"".join(u"<relation>%s</relation>" % x for x in
                                           "equals restates specifies generalizes intersects".split()) + u"</node_relations>\n<aligned_graphs>"
        for i, j, al in ps:
            t += u'<graph_pair from_bank_id="1" from_graph_id="g`%d" to_bank_id="2" to_graph_id="h`%d">' % (i, j)
            t += u"<graph_meta_data><comment>remark \\ on</comment></graph_meta_data>"
            for a, b, x in al:
                t += u'<node_pair from_node_id="n`%d" relation="%s" to_node_id="n`%d"/>' % (a, x, b)
            t += u"</graph_pair>"
        out[name] = t + u"</aligned_graphs>\n</parallel_graph_corpus>\n"
    # texts have node ids only
    out["src^.xml"], out["trg^.xml"] = c15_ptc.S_DOC, c15_ptc.T_DOC
    for n, ks, up in (("a^.htd", (0, 4, 8), ""), ("sub/b^.htd", (0, 5, 7), "../")):
        out[n] = c15_ptc.corpus_text([c15_ptc.LINKS[k] for k in ks], "n", up + "src^.xml", up + "trg^.xml")
    for a in ("ma", "na"):
        for n in ("s^.xml", "t^.xml", "a^.pgc"):
            out["seg~/pgc/%s/x~/%s" % (a, n)] = out[n]
    return out


TEMPLATE = None
CALLS = [
    ("pgc_stats.py", ["a^.pgc"]), ("pgc_stats.py", ["-a", "-l", "*.pgc"]), ("pgc_stats.py", ["sub/*"]),
    ("gb_stats.py", ["-l", "s^.xml", "-F", "graphml"]), ("gb_stats.py", ["[st]^.xml", "-F", "graphml"]),
    ("pgc_diff.py", ["a^.pgc", "b^.pgc", "-c", "-i"]), ("pgc_diff.py", ["a^.pgc", "b^.pgc", "-e", "-r", "restates"]),
    ("pgc_diff.py", ["a^.pgc", "b^.pgc", "-1", "A@", "--second_annotator=B@", "-e"]),
    ("pgc_agreement.py", ["a^.pgc", "b^.pgc"]), ("pgc_agreement.py", ["a^.pgc", "b^.pgc", "-w", "-a", "A", "-a", "B"]),
    ("pgc_chdir.py", ["-V", "-p", "", "n@/", "a^.pgc", "b^.pgc"]), ("pgc_chdir.py", ["-t", "-p", "", "n@/", "a^.pgc"]),
    ("pgc_chdir.py", ["-p", "s^", "v@", "a^.pgc"]),
    ("pgc_cp.py", ["a^.pgc", "sub"]), ("pgc_cp.py", ["a^.pgc", "b^.pgc", "sub/"]), ("pgc_cp.py", ["sub/c^.pgc", "n@.pgc"]),
    ("pgc_cp.py", ["-o", "sub/c^.pgc", "a^.pgc"]), ("pgc_cp.py", ["a^.pgc", "b^.pgc"]), ("pgc_cp.py", ["none^.pgc", "sub"]),
    ("pgc_extract_phrases.py", ["-V", "a^.pgc", "sub/c^.pgc"]), ("pgc_extract_phrases.py", ["-d", "_@_", "a^.pgc"]),
    ("pgc_join.py", ["-V", "a^.pgc", "b^.pgc"]), ("pgc_join.py", ["-f", "*.pgc", "sub/c^.pgc"]),
    ("pgc_split.py", ["-V", "-p", "2", "a^.pgc"]), ("pgc_split.py", ["-s", "1", "sub/c^.pgc"]),
    ("pgc_zip.py", ["z^.zip", "a^.pgc", "b^.pgc"]), ("pgc_zip.py", ["z@.zip", "*.pgc"]),
    ("ptc_chdir.py", ["-V", "-d", "n@", "a^.htd"]), ("ptc_chdir.py", ["-t", "-d", "n@", "a^.htd"]),
    ("ptc_n_to_id.py", ["-V", "a^.htd", "sub/b^.htd"]), ("ptc_diff.py", ["a^.htd", "sub/b^.htd"]),
    ("ptc_diff.py", ["-t", "p", "-e", "utf-8", "a^.htd", "sub/b^.htd"]),
    ("ptc_eval.py", ["-t", "a^.htd", "sub/b^.htd", "-p", "sub/b^.htd", "a^.htd"]),
    ("segment", ["seg~"]), ("segment", ["../d~/seg~/"]), ("api", []),
    ("pgc_diff.py", ["a^.pgc", "none^.pgc"]), ("ptc_diff.py", ["none^.htd", "a^.htd"]),
]


def put_in(text, chars, xml=False):
    for place, c in chars.items():
        text = text.replace(PLACES[place], escape(c, {'"': "&quot;"}) if xml else c)
    return text


def as_bytes(s):
    return s.encode("utf-8")


def tree_value(data):
    def val(e):
        # indentation is no value
        text, tail = [unicode(x or u"") for x in (e.text, e.tail)]
        return (e.tag, sorted((unicode(k), unicode(v)) for k, v in e.attrib.items()),
                text if text.strip(u" \n\t") else u"", tail if tail.strip(u" \n\t") else u"", [val(x) for x in e])
    return val(et.fromstring(data))


def replaced(v, chars):
    if isinstance(v, unicode):
        return put_in(v, chars)
    if isinstance(v, (tuple, list)):
        return [replaced(x, chars) for x in v]
    if isinstance(v, dict):
        return dict((put_in(k, chars), replaced(x, chars)) for k, x in v.items())
    return v


def plain(data):
    """the value of an output: a tree, or text"""
    if data.startswith("<?xml") or data.startswith("<parallel"):
        return replaced(tree_value(data), {})
    return data.decode("utf-8")


def sort(v):
    """puts what has no order in one: lines of text (graph banks in tables), alignments"""
    if isinstance(v, dict):
        return dict((k, sort(x)) for k, x in v.items())
    if isinstance(v, list):
        v = [sort(x) for x in v]
        if len(v) == 5 and v[0] == "graph_pair":
            v[4] = sorted(v[4])
        return v
    if isinstance(v, unicode) and u"\n" in v.strip():
        # nor is the width of columns given
        return sorted(re.sub(u" +", u" ", re.sub(u"---+", u"---", l)) for l in v.split(u"\n"))
    return v


class World(object):

    def __init__(self, root, chars):
        self.root = root
        self.chars = chars
        self.dir = root + u"/" + put_in(u"d~", chars)

    def build(self):
        for name, text in TEMPLATE.items():
            fn = self.dir + u"/" + put_in(name, self.chars)
            if not os.path.isdir(os.path.dirname(fn)):
                os.makedirs(os.path.dirname(fn))
            fx.write_bytes(fn, text if isinstance(text, str) else as_bytes(put_in(text, self.chars, True)))

    def content(self):
        out = {}
        for top, dirs, names in os.walk(self.root):
            for n in names:
                fn = os.path.join(top, n)
                rel = fn[len(self.root) + 1:]
                rel = rel if isinstance(rel, unicode) else rel.decode("utf-8")
                if rel.endswith(".zip"):
                    z = zipfile.ZipFile(fn)
                    out[rel] = sorted([i.decode("utf-8") if isinstance(i, str) else i, plain(z.read(i))] for i in z.namelist())
                    z.close()
                else:
                    out[rel] = plain(fx.read_bytes(fn))
        return out

    def run(self, name, args):
        self.build()
        try:
            os.chdir(self.dir)
            args = [as_bytes(put_in(unicode(a), self.chars)) for a in args]
            rc, out = 0, ""
            try:
                if name == "segment":
                    r, out = script.capture(corpus_seg_stats, ["all"], args[0], ("ma", "na"), (as_bytes(put_in(u"x~", self.chars)),))
                elif name == "api":
                    return self.api()
                else:
                    rc, out, err = script.run(name, args)
            except (IOError, OSError) as e:
                rc = "error"
            out = plain(out)
            return [rc, out, self.content()]
        finally:
            os.chdir("/")
            for n in os.listdir(self.root):
                shutil.rmtree(os.path.join(self.root, n))

    def api(self):
        """corpora read from and written to paths of both types of strings, from all directories"""
        both = lambda s: [as_bytes(s), s]
        a = put_in(u"a^.pgc", self.chars)
        d = self.dir
        sub = d + u"/sub"
        seen = []
        for cwd, src, dst in ((d, a, u"sub/n.pgc"), (sub, u"../" + a, u"n.pgc"), (self.root, d + u"/" + a, sub + u"/n.pgc"),
                              (u"/", d + u"/" + a, sub + u"/n.pgc"), (d, d + u"/" + a, u"sub/n.pgc")):
            for s, t, absolute in itertools.product(both(src), both(dst), (False, True)):
                os.chdir(cwd)
                c = ParallelGraphCorpus(inf=s, graph_loading=LOAD_ALL)
                value = self.value(c)
                c.write(t, abs_path=absolute)
                os.chdir("/")
                again = ParallelGraphCorpus(inf=sub + u"/n.pgc", graph_loading=LOAD_ALL)
                eq(self.value(again), value, "corpus written and read", (s, t, absolute))
                names = [e.text for e in et.fromstring(fx.read_bytes(sub + u"/n.pgc")).findall("graphbanks/file")]
                ok(all(os.path.isabs(n) == absolute for n in names), "paths of graph banks in the file", (names, absolute))
                os.unlink(sub + u"/n.pgc")
                seen.append(value)
        # one bank, whatever the string
        s = put_in(u"s^.xml", self.chars)
        os.chdir(d)
        banks = [GraphBank(p, "graphml") for p in both(s) + both(d + u"/" + s) + both(u"sub/../" + s)]
        for b, c in itertools.combinations(banks, 2):
            ok(b == c and b.get_file_path() == c.get_file_path(), "one file is two graph banks",
               (b.get_file_path(), c.get_file_path()))
        # texts are found
        for fn in both(u"sub/" + put_in(u"b^.htd", self.chars)):
            doc = HitaextDoc(file=fn)
            for side in ("from", "to"):
                ok(os.path.exists(doc.get_filename(side, search=True)), "text not found", (fn, side))
        return seen

    def value(self, c):
        paths = []
        for gp in c:
            for b in gp.get_banks():
                p = b.get_file_path()
                paths.append(p if isinstance(p, unicode) else p.decode("utf-8"))
        return [paths, sorted(replaced([[unicode(x) for x in row] for row in [
            [g.id for g in gp.get_graphs()] + [u"/".join(unicode(x) for x in al) for al in fx.aligned(gp)] +
            [u" ".join(g.get_tokens() if hasattr(g, "get_tokens") else g.tokens) for g in gp.get_graphs()]
            for gp in c]], {}))]


def run(ck):
    global TEMPLATE
    warnings.simplefilter("ignore")
    TEMPLATE = template()
    root = os.path.realpath(ck.tmpdir())
    root = root if isinstance(root, unicode) else root.decode("utf-8")
    worlds = []
    for k, c in enumerate(CHARS):
        for p in sorted(PLACES):
            if c not in NOT[p] and (k < 5 or not ck.quick):
                worlds.append({p: c})
        worlds.append(dict((p, c) for p in PLACES if c not in NOT[p]))
    if not ck.quick:
        for (p, q) in itertools.combinations(sorted(PLACES), 2):
            for c, d in itertools.permutations(CHARS, 2):
                if c not in NOT[p] and d not in NOT[q]:
                    worlds.append({p: c, q: d})
    ck.bounds["characters"] = "%d characters in %d kinds of names and texts, %s alone and all together%s" % (
        len(CHARS), len(PLACES), "five of them also" if ck.quick else "each", "" if ck.quick else ", and all pairs")
    ck.bounds["calls"] = "%d command lines of all tools, and the interface of corpora, under a terminal which knows ASCII only" % len(CALLS)
    base = {}
    script.ENCODING[0] = "ascii"
    try:
        for chars in worlds:
            for i, (name, args) in enumerate(CALLS):
                key = (i, name, sorted(chars.items()))
                if not ck.want(key):
                    continue
                used = set(p for p in chars if PLACES[p] in " ".join(args) or p != "arg")
                if not used:
                    continue
                with ck.case(key, name):
                    if i not in base:
                        base[i] = World(root, {}).run(name, args)
                        ok(base[i][0] in (0, "error") or "none^" in " ".join(args) or name == "api", "exit status", (name, args, base[i]))
                    got = World(root, chars).run(name, args)
                    want = sort(replaced(base[i], chars))
                    got = sort(got)
                    if name != "api":
                        eq(got[0], want[0], "exit status", (name, args, chars))
                        eq(got[1], want[1], "output", (name, args, chars))
                        eq(sorted(got[2]), sorted(want[2]), "files", (name, args, chars))
                        for n in sorted(want[2]):
                            eq(got[2][n], want[2][n], "contents of a file", (name, args, chars, n))
                    eq(got, want, "the same but for the characters", (name, args, chars))
                    ck.step()
                    ck.state(key)
                    ck.outcome(got)
    finally:
        script.ENCODING[0] = "utf-8"
        os.chdir("/")
