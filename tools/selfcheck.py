#!/usr/bin/env python3
"""Checks the oracle (harness/ref.hpp), not the library: its four forms against Python's
unicodedata on texts of codepoints assigned in Unicode 9.0 (normalization of those never
changes), its classes against unicodedata.combining. Run by hand: python3 tools/selfcheck.py"""
import os, random, subprocess, tempfile, unicodedata as U
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = r'''#include "ref.hpp"
#include <iostream>
#include <sstream>
int main() { std::string l; while (std::getline(std::cin, l)) { std::istringstream s(l); char f; s >> f; ref::Text t; int x; while (s >> std::hex >> x) t.push_back(x); if (f == 'k') { printf("%d\n", ref::db().ccc(t[0])); continue; } for (int v : ref::db().normalize(t, f)) printf("%X ", v); puts(""); } }'''
with tempfile.TemporaryDirectory() as d:
    open(d + "/a.cpp", "w").write(src); subprocess.check_call(["g++", "-O2", "-std=gnu++14", "-I", here + "/harness", d + "/a.cpp", "-o", d + "/a"])
    ass = []; cc = []; first = None
    for line in open(here + "/data/UnicodeData.txt"):
        c = line.split(";"); cp = int(c[0], 16)
        if c[1].endswith("First>"): first = cp
        elif c[1].endswith("Last>"): ass += [x for x in range(first, cp + 1, 97)] 
        else: ass.append(cp); (c[5] or c[3] != "0") and cc.append(cp)
    ass = [x for x in ass if not 0xD800 <= x < 0xE000]; r = random.Random(7); q = []
    for cp in ass: q.append(("k", [cp]))
    names = {"d": "NFD", "c": "NFC", "D": "NFKD", "C": "NFKC"}
    for cp in ass:
        for f in names: q.append((f, [cp]))
    J = list(range(0x1100, 0x1113)) + list(range(0x1161, 0x1176)) + list(range(0x11A7, 0x11C3))
    for _ in range(400000):
        t = [r.choice(r.choice((ass, cc, cc, cc, J))) for _ in range(r.randint(1, 9))]; q.append((r.choice("dcDC"), t))
    out = subprocess.run([d + "/a"], input="\n".join(f + " " + " ".join("%X" % x for x in t) for f, t in q), text=True, stdout=subprocess.PIPE, env=dict(os.environ, VERIF_DATA=here + "/data")).stdout.split("\n")
    bad = 0
    for (f, t), o in zip(q, out):
        w = str(U.combining(chr(t[0]))) if f == "k" else "".join("%X " % ord(x) for x in U.normalize(names[f], "".join(map(chr, t))))
        if w.strip() != o.strip():
            bad += 1
            if bad < 10: print(f, ["%X" % x for x in t], "oracle", o, "python", w)
    print(len(q), "compared with Unicode", U.unidata_version, "-", bad, "differences")
