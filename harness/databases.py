"""Databases in the format of the Unicode Character Database: the pinned one and
changed ones, each a directory with the three files the table generators read.
Every change keeps what the UCD guarantees: sorted rows, canonical mappings of
one or two codepoints, no cycles, no pair with two composites, disjoint ranges."""
import os, random

FILES = ("UnicodeData.txt", "CompositionExclusions.txt", "GraphemeBreakProperty.txt")
TAGS = "font noBreak initial medial final isolated circle super sub vertical wide narrow small square fraction compat sideways newTag2".split()
CLASSES = "Prepend CR LF Control Extend Regional_Indicator SpacingMark L V T LV LVT E_Base E_Modifier ZWJ Glue_After_Zwj E_Base_GAZ".split()


def make(src, dst, seed):
    """seed 0: the pinned database itself"""
    txt = {f: open(os.path.join(src, f), encoding="utf-8").read() for f in FILES}
    if seed:
        r = random.Random(seed)
        txt["UnicodeData.txt"], comps = unicode_data(txt["UnicodeData.txt"], r)
        txt["CompositionExclusions.txt"] = exclusions(txt["CompositionExclusions.txt"], comps, r)
        txt["GraphemeBreakProperty.txt"] = breaks(txt["GraphemeBreakProperty.txt"], r)
    for f in FILES:
        with open(os.path.join(dst, f), "w", encoding="utf-8") as o: o.write(txt[f])


def h(n): return "%04X" % n


def unicode_data(t, r):
    rows = {}; fixed = set(); free_from = []; start = None
    for line in t.splitlines():
        c = line.split(";"); cp = int(c[0], 16); rows[cp] = c
        if c[1].endswith("First>"): start = cp; fixed.add(cp)
        elif c[1].endswith("Last>"): fixed.add(cp); free_from.append((start, cp))
    gone = set(); taken = lambda cp: cp in rows or cp in gone or any(a <= cp <= b for a, b in free_from) or 0xD800 <= cp < 0xE000
    for cp in [x for x in rows if x not in fixed]:
        if r.random() < 0.02: del rows[cp]; gone.add(cp)   # others may still refer to it
    marks = [cp for cp in rows if rows[cp][3] != "0"]
    for cp in marks:
        if r.random() < 0.05: rows[cp][3] = str(r.choice([0, 1, 7, 9, 200, 218, 220, 228, 230, 232, 240, 254]))
    for cp in rows:                            # letters that become marks and back
        if cp not in fixed and r.random() < 0.0005: rows[cp][3] = str(r.randint(1, 254))
    usable = [cp for cp in rows if cp not in fixed]
    pairs = set()
    for cp in list(rows):
        m = rows[cp][5]
        if m and m[0] != "<" and " " in m:
            if m in pairs: rows[cp][5] = ""
            pairs.add(m)
    # canonical mappings that go through characters of their own, compatibility ones through either
    for _ in range(r.randint(50, 400)):
        cp = r.randint(0x80, 0x2FFFF) if r.random() < 0.7 else r.randint(0x30000, 0x10FFFD)
        if taken(cp): continue
        style = r.randint(0, 6); cls = "0"; mapping = ""
        def some(n): return " ".join(h(r.choice(usable)) for _ in range(n))
        if style == 0: mapping = h(r.choice(usable))
        elif style in (1, 2, 3):
            mapping = h(r.choice(usable)) + " " + h(r.choice(marks) if r.random() < 0.6 else r.choice(usable))
            if mapping in pairs: continue
            pairs.add(mapping)
            if r.random() < 0.1: cls = str(r.randint(1, 254))
        elif style == 4: mapping = "<%s> %s" % (r.choice(TAGS), some(r.randint(1, 4)))
        elif style == 5: mapping = "<%s> %s" % (r.choice(TAGS), some(r.randint(5, 19)))
        else: cls = str(r.randint(0, 254))
        rows[cp] = [h(cp), "NEW CHARACTER", "Lo", cls, "L", mapping] + [""] * 9
        usable.append(cp)
        if cls != "0": marks.append(cp)
    # families: one first with many seconds, one second with many firsts, of all widths
    widths = lambda l: [w for w in ([x for x in l if a <= x < b] for a, b in ((0, 0x1000), (0x1000, 0x4000), (0x4000, 0x10000), (0x10000, 0x30000), (0x30000, 0x110000))) if w]
    uw, mw = widths(usable), widths(marks)
    for _ in range(r.randint(4, 12)):
        one = r.choice(r.choice(uw)); second = r.random() < 0.3
        for _ in range(r.randint(3, 25)):
            cp = r.choice([r.randint(0x80, 0xFFFF), r.randint(0x10000, 0xFFFFF), r.randint(0x100000, 0x10FFFD)]); o = r.choice(r.choice(mw if r.random() < 0.5 and not second else uw))
            mapping = h(o) + " " + h(one) if second else h(one) + " " + h(o)
            if taken(cp) or mapping in pairs: continue
            pairs.add(mapping); rows[cp] = [h(cp), "FAMILY", "Lo", "0", "L", mapping] + [""] * 9; usable.append(cp)
    # long chains, in increasing, decreasing and shuffled order of codepoints
    for _ in range(r.randint(1, 4)):
        n = r.choice([r.randint(4, 40), r.randint(100, 300)]) if _ else r.randint(100, 300); base = r.randint(0x30000, 0x10F000); cps = [cp for cp in range(base, base + n) if not taken(cp)]; o = r.randint(0, 2)
        if o == 0: cps.reverse()
        elif o == 1: r.shuffle(cps)
        prev = r.choice(usable)
        for cp in cps:
            k = r.random(); mapping = h(prev) + (" " + h(r.choice(marks)) if k < 0.7 else "")
            if r.random() < 0.15: mapping = "<%s> %s" % (r.choice(TAGS), mapping)
            if mapping in pairs: continue
            pairs.add(mapping); rows[cp] = [h(cp), "LINK", "Lo", "0", "L", mapping] + [""] * 9; usable.append(cp); prev = cp
    for cp in list(usable):                    # and existing ones lose or change their tag
        m = rows[cp][5]
        if m.startswith("<") and r.random() < 0.02: rows[cp][5] = "<%s>%s" % (r.choice(TAGS), m[m.index(">") + 1:])
        elif m and r.random() < 0.01: rows[cp][5] = ""
    comps = [cp for cp in rows if rows[cp][5] and rows[cp][5][0] != "<" and " " in rows[cp][5]]
    return "".join(";".join(rows[cp]) + "\n" for cp in sorted(rows)), comps


def exclusions(t, comps, r):
    out = []
    for line in t.splitlines():
        if line and line[0] != "#" and r.random() < 0.1: continue
        out.append(line)
    for cp in sorted(r.sample(comps, min(len(comps), r.randint(5, 80)))): out.append(h(cp) + r.choice(["", "    #  SOME CHARACTER", "          # x"]))
    return "\n".join(out) + "\n"


def breaks(t, r):
    cls = {}
    for line in t.splitlines():
        s = line.split("#")[0].strip()
        if not s: continue
        a, v = [x.strip() for x in s.split(";")]; lo, hi = (a.split("..") * 2)[:2]
        for cp in range(int(lo, 16), int(hi, 16) + 1): cls[cp] = v
    for _ in range(r.randint(20, 200)):
        a = r.choice([r.randint(0, 0x3000), r.randint(0, 0x20000), r.randint(0, 0x10FFFF)]); n = r.choice([1, 1, 2, 5, 40]); v = r.choice(CLASSES + [None] * 4)
        for cp in range(a, min(a + n, 0x110000)):
            if v: cls[cp] = v
            else: cls.pop(cp, None)
    by = {}
    for cp in sorted(cls): by.setdefault(cls[cp], []).append(cp)
    out = ["# changed", ""]
    for v in CLASSES:
        l = by.get(v, []); i = 0
        while i < len(l):
            j = i
            while j + 1 < len(l) and l[j + 1] == l[j] + 1 and r.random() < 0.995: j += 1
            a = h(l[i]) if i == j else h(l[i]) + ".." + h(l[j])
            out.append("%-14s ; %s # %s" % (a, v, "Mn SOME NAME" if i == j else "Mn  [%d] SOME NAME..OTHER NAME" % (j - i + 1))); i = j + 1
        out.append(""); out.append("# Total code points: %d" % len(l)); out.append("")
    return "\n".join(out) + "\n"
