"""Well-formed variations of the Unicode data files, from a seed.

   make(src, dst, style, seed): writes all data files to dst, changed according to the style
     light   a few hundred reassignments of points and ranges in every file
     heavy   whole planes of randomly assigned points in the break and class files (many distinct table blocks)
     sparse  most lines of the break and class files removed (at least one per value is kept)
     edge    offsets of table blocks reach exactly the limits of the integer types (2 or 257 different blocks)
     far     only the mirroring data differ: smallest and largest distance at or next to the limits of the integer types
             (entry `seed` of DISTANCES); nothing but the changed code points is looked at
     format  same data: other order of lines, ranges split and merged, other spacing and comments
   Returns a list of changed code points (those most worth looking at).

   Limits respected (properties.jsonl G20): pictographs carry no grapheme break value and no word break value
   other than ALetter, unassigned pictographs stay line break class ID, general categories are left alone (line
   breaking reads them from comments), case mappings stay within a few blocks, at
   most 254 brackets, U+03A3 is left alone."""
import os, random, re, shutil

FILES = ["BidiBrackets", "BidiMirroring", "DerivedBidiClass", "DerivedCoreProperties", "EastAsianWidth", "emoji-data",
         "GraphemeBreakProperty", "LineBreak", "SentenceBreakProperty", "SpecialCasing", "UnicodeData", "WordBreakProperty"]
NCP = 0x110000


# smallest and largest distance to a mirrored character
DISTANCES = [(-128, 127), (-129, 127), (-128, 128), (-32768, 32767), (-32769, 32767), (-32768, 32768), (0, 127), (0, 255), (0, 256), (0, 65535), (0, 65536),
             (-1, 0), (-129, 32767), (-32768, 128)]


def blocks(m, em):
    """offset of the last block in a table of blocks of 256 in which equal stretches are stored once"""
    ids = {}
    data, last, top = b"", None, 0
    for i in range(NCP >> 8):
        b = bytes(ids.setdefault((m.get(c), c in em), len(ids)) for c in range(i << 8, (i + 1) << 8))
        if b == last:
            continue
        last = b
        j = data.find(b)
        if j < 0:
            j = len(data)
            data += b
        top = max(top, j)
    return top


class PropFile:
    """one value per code point; for files with several properties per code point only those in `only`"""

    def __init__(self, path, only=None):
        self.head, self.lines, self.other = [], [], []
        for l in open(path, encoding="utf-8"):
            l = l.rstrip("\n")
            b, _, com = l.partition("#")
            f = [x.strip() for x in b.split(";")]
            if len(f) < 2 or not b.strip():
                self.head.append(l)
                continue
            lo, _, hi = f[0].partition("..")
            e = (int(lo, 16), int(hi or lo, 16), f[1], com.strip())
            (self.lines if only is None or f[1] in only else self.other).append(e)

    def values(self):
        return sorted({e[2] for e in self.lines})

    def to_map(self):
        m = {}
        for a, b, v, _ in self.lines:
            for c in range(a, b + 1):
                m[c] = v
        return m


def ranges(m, gc, split=True):
    """maximal ranges with equal value and (as line breaking reads it from the comment) equal general category"""
    r = []
    for c in sorted(m):
        v, g = m[c], gc[c]
        if r and r[-1][1] == c - 1 and r[-1][2] == v and (not split or r[-1][3] == g):
            r[-1][1] = c
        else:
            r.append([c, c, v, g])
    return r


def write_prop(path, head, rs, rng, wild, sep_style):
    """rs: [lo, hi, value, gc]"""
    out = list(head)
    if wild:
        rs = list(rs)
        # split some ranges
        res = []
        for a, b, v, g in rs:
            while b > a and rng.random() < 0.3:
                m = rng.randint(a, b - 1)
                res.append([a, m, v, g])
                a = m + 1
            res.append([a, b, v, g])
        rs = res
        rng.shuffle(rs)
    for a, b, v, g in rs:
        s = "%04X" % a if a == b and not (wild and rng.random() < 0.05) else "%04X..%04X" % (a, b)
        if wild:
            if rng.random() < 0.1:
                s = re.sub(r"[0-9A-F]{4,}", lambda m: m.group(0).rjust(6, "0"), s)
            sp = " " * rng.randint(0, 14)
            sp2 = " " * rng.randint(0, 3)
            # line breaking reads the category from the comment, so that word stays
            com = " " * rng.randint(0, 3) + g + " " + rng.choice(["", "; x # y", "[2] NAME..NAME", "a" * rng.randint(0, 900), "\u00e9\u4e00"])
            l = s + sp + ";" + sp2 + v + " " * rng.randint(0, 5) + "#" + com
            if rng.random() < 0.03:
                out.append("")
            if rng.random() < 0.03:
                out.append("# " + s + " ; " + v)
            if rng.random() < 0.01:
                out.append(" " * rng.randint(1, 9) + rng.choice(["", "# " + s + " ; " + v]))
        else:
            l = s + sep_style + v + " # " + g + " x"
        out.append(l)
    with open(path, "w", encoding="utf-8") as f:
        f.write("\n".join(out))
        if not wild or rng.random() < 0.5:
            f.write("\n")


def make(src, dst, style, seed):
    rng = random.Random("%s-%d" % (style, seed))
    os.makedirs(dst)
    changed = set()
    p = lambda n: os.path.join(src, n + ".txt")
    q = lambda n: os.path.join(dst, n + ".txt")
    wild = style in ("light", "format")

    # general categories
    gc = ["Cn"] * NCP
    ud = []
    first = None
    for l in open(p("UnicodeData"), encoding="utf-8"):
        f = l.rstrip("\n").split(";")
        c = int(f[0], 16)
        if f[1].endswith(", First>"):
            first = c
        elif f[1].endswith(", Last>"):
            for x in range(first, c + 1):
                gc[x] = f[2]
        gc[c] = f[2]
        ud.append(f)
    single = [f for f in ud if not f[1].startswith("<") and f[0] != "03A3"]

    def region(n):
        """a code point or short range, mostly where things are assigned"""
        t = rng.random()
        a = int(rng.choice(single)[0], 16) if t < 0.7 else rng.randrange(0, 0x30000) if t < 0.95 else rng.randrange(NCP)
        return range(a, min(NCP - 1, a + (rng.randint(0, n) if rng.random() < 0.5 else 0)) + 1)

    emo = PropFile(p("emoji-data"), {"Extended_Pictographic"})
    em = emo.to_map()
    maps = {n: PropFile(p(n)) for n in ("GraphemeBreakProperty", "WordBreakProperty", "SentenceBreakProperty", "LineBreak",
                                        "DerivedBidiClass", "EastAsianWidth")}
    ms = {n: f.to_map() for n, f in maps.items()}
    vals = {n: f.values() for n, f in maps.items()}
    lb0 = ms["LineBreak"]

    def ok(n, c, v):
        if c == 0x3A3 or 0xD800 <= c <= 0xDFFF:
            return False
        if n == "GraphemeBreakProperty":
            return c not in em
        if n == "WordBreakProperty":
            return c not in em or v == "ALetter"
        if n == "LineBreak":
            # categories are only stated for listed code points; unassigned pictographs stay ID
            return c in lb0 and not (gc[c] == "Cn" and c in em)
        return True

    def assign(n, c, v):
        if v is None:
            if n != "LineBreak" and c != 0x3A3:
                ms[n].pop(c, None)
                changed.add(c)
        elif ok(n, c, v):
            ms[n][c] = v
            changed.add(c)

    if style in ("light", "heavy"):
        # pictographs first
        for _ in range(40 if style == "light" else 400):
            on = rng.random() < 0.5
            for c in region(20):
                if c == 0x3A3 or gc[c] == "Cn":
                    continue
                if on and c not in ms["GraphemeBreakProperty"] and ms["WordBreakProperty"].get(c, "ALetter") == "ALetter":
                    em[c] = "Extended_Pictographic"
                    changed.add(c)
                elif not on and c in em:
                    del em[c]
                    changed.add(c)
        for n in ms:
            for _ in range(160 if style == "light" else 600):
                v = rng.choice(vals[n] + ([None] if rng.random() < 0.5 else []))
                for c in region(40):
                    assign(n, c, v)
    if style == "light":
        # ranges across the places where the number of digits or the plane changes
        for n in ms:
            if n != "LineBreak":
                for e in (0x10000, 0x100000, 0x20000, 0xE0000):
                    v = rng.choice(vals[n])
                    for c in range(e - rng.randint(1, 40), e + rng.randint(1, 300)):
                        assign(n, c, v)
                v = rng.choice(vals[n])
                for c in range(NCP - rng.randint(1, 300), NCP):
                    assign(n, c, v)
    if style == "heavy":
        for n in ms:
            base = rng.choice([0x20000, 0x30000, 0x40000, 0x90000])
            size = rng.choice([0x8000, 0x13000])  # up to 0x130 distinct blocks more
            for c in range(base, base + size):
                if n == "LineBreak":
                    continue
                if rng.random() < 0.8:
                    assign(n, c, rng.choice(vals[n]))
            if n == "LineBreak":
                cand = [c for c in lb0 if 0x3400 <= c < 0xD000 or 0x20000 <= c < 0x2B000]
                for c in cand:
                    if rng.random() < 0.5:
                        assign(n, c, rng.choice(vals[n]))
    if style == "sparse":
        for n in ms:
            if n == "LineBreak":
                continue
            rs = ranges(ms[n], gc)
            keep, have = [], set()
            rng.shuffle(rs)
            for r in rs:
                if r[2] not in have or rng.random() < 0.03 or r[0] <= 0x7F:
                    have.add(r[2])
                    keep.append(r)
            for a, b, _, _ in rs:
                changed.update((a, b))
            m = {}
            for a, b, v, _ in keep:
                for c in range(a, b + 1):
                    m[c] = v
            ms[n] = m
    if style == "edge":
        changed.update(c for c in em if c > 0xFF)
        for c in [c for c in em if c > 0xFF]:
            del em[c]
        for k, n in enumerate(("GraphemeBreakProperty", "WordBreakProperty", "SentenceBreakProperty")):
            two = n == "GraphemeBreakProperty" and seed % 2  # two blocks are the other edge
            changed.update(x for r in ranges(ms[n], gc) for x in r[:2] if x != 0x3A3)
            m = {c: v for c, v in ms[n].items() if c <= 0x7F or c == 0x3A3}
            free = [c for c in range(0x80, 0x100) if c not in em]
            for v in vals[n]:
                if v not in m.values():
                    c = free.pop(rng.randrange(len(free)))
                    m[c] = v
                    changed.add(c)
            target = 0x100 if two else 0x10000
            at = rng.choice([0x1000, 0x20000, 0xF0000])
            while True:
                top = blocks(m, em)
                if top == target:
                    break
                for b in range((target - top) // 0x100):
                    some = rng.choices(vals[n] + [None] * 3, k=0x100)
                    for c, v in enumerate(some, at):
                        if v is not None and ok(n, c, v):
                            m[c] = v
                            changed.add(c)
                    at += 0x100
            ms[n] = m
    for n in ms:
        # explicit default values carry no information, drop some
        write_prop(q(n), maps[n].head, ranges(ms[n], gc, n == "LineBreak"), rng, wild, " ; " if n != "EastAsianWidth" else ";")
    write_prop(q("emoji-data"), emo.head, [[e[0], e[1], e[2], gc[e[0]]] for e in emo.other] + ranges(em, gc, False), rng, wild, "    ; ")

    # cased and case-ignorable
    dcp = {}
    text = PropFile(p("DerivedCoreProperties"))
    for prop in ("Cased", "Case_Ignorable"):
        m = PropFile(p("DerivedCoreProperties"), {prop}).to_map()
        if style in ("light", "heavy"):
            for _ in range(120):
                on = rng.random() < 0.5
                for c in region(10):
                    if c == 0x3A3:
                        continue
                    changed.add(c)
                    if on:
                        m[c] = prop
                    else:
                        m.pop(c, None)
        dcp[prop] = ranges(m, gc, False)
    rest = [[e[0], e[1], e[2], gc[e[0]]] for e in text.lines if e[2] not in dcp]
    write_prop(q("DerivedCoreProperties"), text.head, rest + dcp["Cased"] + dcp["Case_Ignorable"], rng, wild, " ; ")

    # case mappings, decompositions, brackets, mirrors
    brackets = []
    bhead = []
    for l in open(p("BidiBrackets"), encoding="utf-8"):
        b = l.partition("#")[0]
        f = [x.strip() for x in b.split(";")]
        if len(f) < 3:
            bhead.append(l.rstrip("\n"))
        else:
            brackets.append((int(f[0], 16), int(f[1], 16), f[2]))
    mirror = {}
    mhead = []
    for l in open(p("BidiMirroring"), encoding="utf-8"):
        b = l.partition("#")[0]
        f = [x.strip() for x in b.split(";")]
        if len(f) < 2:
            mhead.append(l.rstrip("\n"))
        else:
            mirror[int(f[0], 16)] = int(f[1], 16)
    by = {int(f[0], 16): f for f in ud}
    if style in ("light", "heavy"):
        pool = [int(f[0], 16) for f in single if int(f[0], 16) < 0x600] + [int(f[0], 16) for f in single if 0x10400 <= int(f[0], 16) < 0x10600]
        for _ in range(60 if style == "light" else 900):
            c = rng.choice(pool)
            if len(by[c]) < 15:
                continue
            k = rng.choice([12, 13, 14])
            t = rng.random()
            by[c][k] = "" if t < 0.25 else "%04X" % c if t < 0.35 else "%04X" % int(rng.choice(single)[0], 16) if t < 0.8 else \
                rng.choice(["10FFFF", "10FFFD", "0000", "0001", "E0001", "%04X" % rng.randrange(0xE000, NCP)])
            changed.add(c)
        # brackets: drop pairs, add pairs, add canonical aliases of existing ones
        used = {x for b in brackets for x in b[:2]}
        canon_used = set()
        for o, c, t in brackets:
            canon_used.update(int(x, 16) for x in by[o][5].split() if not by[o][5].startswith("<"))
        pairs = [b for b in brackets if b[2] == "o"]
        for b in rng.sample(pairs, 6):
            if b[0] < 0x80 or b[0] in (0x3008, 0x2329) or b[0] in canon_used or not set(b[:2]) <= set(by):
                continue
            brackets = [x for x in brackets if x[0] not in b[:2]]
            changed.update(b[:2])
        # candidates keep class ON and carry no decomposition
        on = [c for c in by if ms["DerivedBidiClass"].get(c) == "ON" and c not in used and not by[c][5] and c > 0x2000 and not by[c][1].startswith("<")]
        rng.shuffle(on)
        n = rng.randint(3, 20 if style == "light" else 60)
        for i in range(n):
            o, c = on.pop(), on.pop()
            brackets += [(o, c, "o"), (c, o, "c")]
            changed.update((o, c))
        pairs = [b for b in brackets if b[2] == "o" and not by[b[0]][5] and not by[b[1]][5]]
        many = rng.choice(pairs)  # one pair gets many aliases (20 is the capacity)
        for i in range(rng.randint(1, 6) + (10 if style == "light" else 0)):
            o, c = on.pop(), on.pop()
            t = rng.choice(pairs) if i < 4 else many
            by[o][5], by[c][5] = "%04X" % t[0], "%04X" % t[1]
            brackets += [(o, c, "o"), (c, o, "c")]
            changed.update((o, c))
        rng.shuffle(brackets)
        # mirrors
        for c in rng.sample(sorted(mirror), 30):
            if rng.random() < 0.5:
                changed.add(c)
                del mirror[c]
        for _ in range(40):
            a = int(rng.choice(single)[0], 16)
            b = max(1, min(NCP - 1, a + rng.choice([1, -1, 127, 128, -128, -129, 255, 256, 300, -300, 32767, -32768, 32768, -32769, 65536, 0x1E000, 0x10F000 - a, -a + 0x100])))
            if 0xD800 <= b <= 0xDFFF:
                continue
            mirror[a] = b
            changed.update((a, b))
    if style == "far":
        lo, hi = DISTANCES[seed % len(DISTANCES)]
        changed.update(mirror)
        open(os.path.join(dst, "changed-only"), "w").close()
        mirror = {a: b for a, b in mirror.items() if lo < b - a < hi and rng.random() < 0.8}
        cand = [int(f[0], 16) for f in single]
        for d in (lo, hi) * 3:
            a = rng.choice([x for x in cand if 0 < x + d < NCP and not 0xD800 <= x + d <= 0xDFFF])
            if d:
                mirror[a] = a + d
                changed.add(a)
    # a bracket is an ordinary neutral in well-formed data
    with open(q("UnicodeData"), "w", encoding="utf-8") as f:
        for r in ud:
            f.write(";".join(r) + "\n")
    sp = lambda n=3: " " * rng.randint(0, n) if wild else " "
    with open(q("BidiBrackets"), "w", encoding="utf-8") as f:
        f.write("\n".join(bhead) + "\n")
        for o, c, t in brackets:
            f.write("%04X%s;%s%04X%s;%s%s%s# %s\n" % (o, sp(), sp(), c, sp(), sp(), t, sp(), "x"))
    items = sorted(mirror.items())
    if wild:
        rng.shuffle(items)
    with open(q("BidiMirroring"), "w", encoding="utf-8") as f:
        f.write("\n".join(mhead) + "\n")
        for a, b in items:
            if wild and rng.random() < 0.02:
                f.write(rng.choice(["   # x; y\n", "  \n", "\n", "# 0028; 0028\n"]))
            f.write("%04X%s;%s%04X%s# x\n" % (a, sp(), sp(), b, sp()))
    with open(p("SpecialCasing"), encoding="utf-8") as f:
        sc = f.read().split("\n")
    if style in ("light", "heavy"):
        have = {l.split(";")[0] for l in sc if l and l[0] != "#"}
        out = []
        for l in sc:
            if l and l[0] != "#" and rng.random() < 0.1 and not l.startswith("03A3"):
                changed.add(int(l.split(";")[0], 16))
                continue
            out.append(l)
        pool2 = [c for c in pool if "%04X" % c not in have and c != 0x3A3]
        for c in rng.sample(pool2, 12 if style == "light" else 60):
            m = lambda: " ".join("%04X" % rng.choice([int(rng.choice(single)[0], 16), 0x10FFFF, 0x41, 0x300]) for _ in range(rng.randint(1, 5)))
            own = "%04X" % c
            e = [m() if rng.random() < 0.7 else own for _ in range(3)]
            out.insert(rng.randint(0, len(out)), "%s; %s; %s; %s; # x" % (own, *e))
            changed.add(c)
            # a conditional entry, which must not count
            if rng.random() < 0.5:
                out.insert(rng.randint(0, len(out)), "%s; %s; %s; %s; %s; # x" % (own, m(), m(), m(), rng.choice(["lt", "tr Not_Before_Dot", "Final_Sigma"])))
        sc = out
    with open(q("SpecialCasing"), "w", encoding="utf-8") as f:
        f.write("\n".join(sc))
    if style == "far":
        for n in FILES:
            if n != "BidiMirroring":
                shutil.copyfile(p(n), q(n))
    with open(os.path.join(dst, "changed.txt"), "w") as f:
        for c in sorted(changed):
            f.write("%X\n" % c)
    return sorted(changed)


if __name__ == "__main__":
    import sys
    print(len(make(sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]))))
