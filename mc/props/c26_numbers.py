# -*- coding: utf-8 -*-
"""C26: spelled out numbers"""

import itertools
import os
import subprocess
import sys

from mc.core import eq, ok, Mismatch

UNITS = ("een twee drie vier vijf zes zeven acht negen").split()
TEENS = ("tien elf twaalf dertien veertien vijftien zestien zeventien achttien negentien").split()
TENS = ("twintig dertig veertig vijftig zestig zeventig tachtig negentig").split()
BIG = ("miljoen miljard biljoen biljard triljoen triljard").split()

# words for 1..99
BELOW100 = {}
for _i, _w in enumerate(UNITS):
    BELOW100[_w] = _i + 1
for _i, _w in enumerate(TEENS):
    BELOW100[_w] = _i + 10
for _j, _t in enumerate(TENS):
    BELOW100[_t] = 10 * _j + 20
    for _i, _w in enumerate(UNITS):
        BELOW100[_w + "en" + _t] = 10 * _j + 20 + _i + 1


def read_triple(s, hundreds=False):
    """value of the words for 1..999 (or with hundreds: 11..99 hundreds)"""
    if s in BELOW100:
        return BELOW100[s]
    out = []
    i = s.find("honderd")
    while i >= 0:
        head, tail = s[:i], s[i + 7:]
        if not head:
            h = 1
        else:
            h = BELOW100.get(head)
            if h is not None and (h == 1 or (not hundreds and h > 9) or
                                  (hundreds and (h < 11 or h % 10 == 0))):
                h = None
        t = 0 if not tail else BELOW100.get(tail)
        if h is not None and t is not None:
            out.append(100 * h + t)
        i = s.find("honderd", i + 1)
    if len(out) != 1:
        raise Mismatch("number words can be read", "%r in %r" % (s, out))
    return out[0]


def read(s, hundreds):
    """value of a spelled out number; only the regular spelling is accepted"""
    if s == "nul":
        return 0
    words = s.split(" ")
    total = 0
    last = None
    i = 0
    while i < len(words):
        w = words[i]
        if i + 1 < len(words) and words[i + 1] in BIG:
            level = BIG.index(words[i + 1]) + 2
            value = read_triple(w)
            i += 2
        elif w.endswith("duizend"):
            level = 1
            value = 1 if w == "duizend" else read_triple(w[:-7])
            if w != "duizend" and value == 1:
                raise Mismatch("a thousand is not spelled one thousand", s)
            i += 1
        else:
            level = 0
            value = read_triple(w, hundreds and len(words) == 1)
            i += 1
        if last is not None and level >= last:
            raise Mismatch("groups of digits are in order", s)
        last = level
        total += value * 1000 ** level
    return total


def judge(ck, spell, n):
    for prefer in (None, True, False):
        s = spell(n) if prefer is None else spell(n, prefer)
        ck.step()
        style = prefer is not False and 1000 < n < 10000 and (n // 100) % 10 != 0
        try:
            got = read(s, style)
        except Mismatch, inst:
            raise Mismatch(inst.label, "%d %r: %s" % (n, s, inst.detail))
        eq(got, n, "reading a spelled out number gives the number", "%d %r prefer_hundreds=%r"
           % (n, s, prefer))
        eq(style, style and "duizend" not in s, "hundreds are preferred", "%d %r" % (n, s))
        if n:
            ok("nul" not in s, "zeros are not expressed", "%d %r" % (n, s))
        ck.outcome_set.add(s)


def run(ck):
    limit = 60000 if ck.quick else 1000000
    g3, g5 = ("000 001 021".split(), "000 001 002 100 345".split())
    if not ck.quick:
        g3 = "000 001 021 300".split()
        g5 = "000 001 002 010 100 119 345".split()
    ck.bounds = {"numbers": "0 to %d" % limit,
                 "beyond": "all numbers of up to 8 groups out of %s and up to 5 out of %s"
                           % (g3, g5)}
    key = ("import",)
    if ck.want(key):
        with ck.case(key, "import"):
            from mc import script
            out = script.capture(lambda: __import__("daeso.string.number"))[1]
            eq(out, "", "importing the module prints nothing")
    mod = __import__("daeso.string.number", globals(), locals(), ["spell_out_number"])
    spell = mod.spell_out_number
    step = 500
    for lo in range(0, limit, step):
        key = ("from", lo)
        if not ck.want(key):
            continue
        with ck.case(key, "all numbers"):
            for n in range(lo, lo + step):
                judge(ck, spell, n)
            ck.state(key)
    groups = [("".join(x)) for k in range(1, 6) for x in itertools.product(g5, repeat=k)]
    groups += [("".join(x)) for k in range(6, 9) for x in itertools.product(g3, repeat=k)]
    for i in range(0, len(groups), 100):
        key = ("groups", i)
        if not ck.want(key):
            continue
        with ck.case(key, "groups of digits"):
            for g in groups[i:i + 100]:
                judge(ck, spell, int(g))
                ck.state(g)
            # long integers
            judge(ck, spell, long(groups[i]))
