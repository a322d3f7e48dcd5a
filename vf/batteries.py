"""Which cases decide which property."""
import struct
import zlib

from . import gen, hgen, tgen
from .fitsfile import BLK, END, NB, File, bintable_cards, card, header, image_cards, pad80, prod, scard

EMPTY = lambda: gen.Hdu("image", image_cards(8, []), [], 0, bitpix=8, naxis=[])


def rd_any(r, f):
    return gen.reader(r, f)


def rd_mem(r, f):
    if not f.small():
        return gen.reader(r, f)
    return {"rd": "cursor"}


# ------------------------------------------------------------- the walk (C01)
def walk(r, n):
    pool = gen.extra_pool(r)
    for _ in range(n):
        hs = gen.gen_hdus(r, pool, huge=r.random() < .15, nmax=7, mix=("image", "bintable", "ascii"))
        for h in hs:
            if h.kind == "bintable" and r.random() < .12:      # the heap's place does not change the data unit
                h.cards = [c for c in h.cards if not c.startswith(b"THEAP")]
                h.cards.append(card("THEAP", r.choice([0, 1, h.size, h.size + 1, h.size + 2880, 10 ** 6, 2 ** 32])))
        f, m = gen.render(r, hs)
        if r.random() < .1:                       # no padding after the last data unit
            f = gen.cut(f, m[-1][2])
        yield gen.case(f, gen.history(r, hs, touch=0, clone=0), gen.reader(r, f))


# ------------------------------------------- histories of data accesses (C02)
def touch(r, n):
    pool = gen.extra_pool(r)
    for _ in range(n):
        hs = gen.gen_hdus(r, pool, huge=r.random() < .08, vla=.35, tiled=.35)
        f, m = gen.render(r, hs)
        ops = []
        for h in hs:
            ops.append({"op": "next"})
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                ops.append(gen.data_op(r, h))
            if r.random() < .2:
                ops.append({"op": "pos"})
        ops += [{"op": "next"}] * r.choice([1, 2, 3])
        yield gen.case(f, ops, gen.reader(r, f), hs, m)


# ---------------------------------------------------------- damaged files (C03)
BADVAL = ["-1", "0", "1", "2", "3", "7", "9", "12", "255", "999", "1000", "65536", "4294967296", "9223372036854775807",
          "9223372036854775808", "18446744073709551615", "18446744073709551616", "1E3", "1.0", "T", "F", "'8'", "''", "",
          "-32", "-64", "64", "16", "NaN", "/", "+5", "-0", "0005", "2147483648", "1 2", "'IMAGE'", "(1,2)"]
KEYS = ["SIMPLE", "XTENSION", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "PCOUNT", "GCOUNT", "TFIELDS",
        "TFORM1", "TFORM2", "TTYPE1", "TBCOL1", "THEAP", "ZIMAGE", "ZCMPTYPE", "ZBITPIX", "ZNAXIS", "ZNAXIS1",
        "ZTILE1", "ZQUANTIZ", "ZDITHER0", "ZVAL1", "ZBLANK"]
BADFORM = ["0A", "A", "1Z", "", "P", "1P", "1PZ", "2PJ", "0PJ(3)", "QD", "99999999999999999999J", "18446744073709551615X",
           "4611686018427387904M", "1J(3)", "j", "F5.2", "I3", "3X", "9X", "0X", "PX", "E8.", "A0", "F.3", "D25.17", "1QK(2)"]


def mutate_cards(r, cards):
    cs = list(cards)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(7)
        if k <= 2:
            kw = r.choice(KEYS)
            if kw.startswith("TFORM"):
                new = scard(kw, r.choice(BADFORM))
            elif kw == "XTENSION":
                new = pad80(f"{kw:<8}= {r.choice(['IMAGE', 'BINTABLE', 'TABLE', 'IUEIMAGE', 'FOO', 'A3DTABLE', 'image', '']):}".encode())
                if r.random() < .8:
                    new = scard(kw, r.choice(["IMAGE", "BINTABLE", "TABLE", "IUEIMAGE", "FOO", "A3DTABLE", "image", ""]))
            else:
                new = card(kw, r.choice(BADVAL))
            at = [i for i, c in enumerate(cs) if c[:8].strip() == kw.encode()]
            if at and r.random() < .85:
                cs[r.choice(at)] = new
            else:
                cs.insert(r.randrange(len(cs) + 1), new)
        elif k == 3 and cs:
            del cs[r.randrange(len(cs))]
        elif k == 4 and cs:
            cs.insert(r.randrange(len(cs) + 1), r.choice(cs))
        elif k == 5 and cs:
            i = r.randrange(len(cs))
            b = bytearray(cs[i])
            for _ in range(r.choice([1, 1, 2, 5])):
                b[r.randrange(80)] = r.choice([0, 32, 39, 47, 61, 255, 9, 10, 200, r.randrange(256)])
            cs[i] = bytes(b)
        elif len(cs) > 1:
            i, j = r.randrange(len(cs)), r.randrange(len(cs))
            cs[i], cs[j] = cs[j], cs[i]
    return cs


def damaged(r, n):
    pool = gen.extra_pool(r)
    for _ in range(n):
        k = r.random()
        hs = gen.gen_hdus(r, pool, nmax=3, wild=.1 if r.random() < .3 else 0, vla=.3, tiled=.4)
        for h in hs:
            gen.trim(h, 60)
        if k < .45:
            h = r.choice(hs)
            h.cards = mutate_cards(r, h.cards)
        f, m = gen.render(r, hs)
        if .35 < k < .75:
            f = gen.truncate(r, f, m)
        elif k >= .75 and f.small():
            b = bytearray(f.flat())
            for _ in range(r.choice([1, 1, 3, 20])):
                if b:
                    i = r.randrange(len(b))
                    if r.random() < .2:
                        j = min(len(b), i + r.choice([1, 80, 2880]))
                        b[i:j] = r.choice([b"", r.randbytes(j - i), b" " * (j - i), b"\0" * (j - i)])
                    else:
                        b[i] = r.randrange(256)
            f = File.of(bytes(b))
        # where bytes of a gzip member may have changed nothing is said about it
        yield gen.case(f, gen.history(r, hs, touch=.5, more=3), gen.reader(r, f), *((hs, m) if k < .75 else ()))


def junk(r, n):
    """byte sequences that are hardly FITS at all"""
    for _ in range(n):
        k = r.randrange(5)
        if k == 0:
            b = r.randbytes(r.choice([0, 1, 79, 80, 81, 2879, 2880, 2881, 4000]))
        elif k == 1:
            b = b"".join(r.choice([END, pad80(b""), card("SIMPLE", "T"), card("BITPIX", "8"), card("NAXIS", "0"),
                                   scard("XTENSION", "IMAGE"), card("NAXIS1", "3"), b"\0" * 80, b"\x1f\x8b" + b"\0" * 78])
                         for _ in range(r.randrange(0, 80)))
        elif k == 2:
            b = header([card("SIMPLE", r.choice("TF")), card("BITPIX", 8), card("NAXIS", 0)]) + r.randbytes(r.choice([1, 80, 2880, 3000]))
        elif k == 3:
            b = header([card("SIMPLE", "T"), card("BITPIX", 8), card("NAXIS", 0)])[:r.randrange(2881)]
        else:
            b = header(image_cards(8, [5])) + b"12345" + bytes([r.choice([0, 32])]) * r.choice([0, 10, 2875, 2880 * 2 - 5, 2955])
        ops = [{"op": "next"}] * 2 + [{"op": "read", "n": 10}, {"op": "next"}, {"op": "img", "sub": [{"k": "it", "n": 9}]}, {"op": "next"}]
        if r.random() < .2:
            ops = ops[:1] + r.sample(ops[1:], len(ops) - 1)
        yield gen.case(File.of(b), ops, gen.reader(r, File.of(b)))


def every_cut(r, n):
    """one small file of each kind, cut at every record and around every boundary"""
    pool = gen.extra_pool(r)
    done = 0
    while done < n:
        hs = gen.gen_hdus(r, pool, nmax=2, vla=.5, tiled=.4)
        for h in hs:
            gen.trim(h, 40)
        f, m = gen.render(r, hs)
        if not f.small() or len(f) > 40000:
            continue
        pts = set()
        for a, b, c, d in m:
            for x in (a, b, c, d):
                pts |= {x - 1, x, x + 1}
            pts |= set(range(a, b, 80)) if r.random() < .3 else set()
            pts |= {r.randrange(b, c + 1) for _ in range(8)}
        pts = sorted(p for p in pts if 0 <= p <= len(f))
        if len(pts) > n - done:
            pts = sorted(r.sample(pts, n - done))
        ops = gen.history(r, hs, touch=.7, more=2)
        rd = gen.reader(r, f)
        for p in pts:
            done += 1
            yield gen.case(gen.cut(f, p), ops, rd, hs, m)


# -------------------------------------------------------------- images (C04)
def pixels(r, n):
    pool = gen.extra_pool(r, 20)
    for i in range(n):
        hs = [gen.gen_image(r, pool, ext=e) for e in ([False] if r.random() < .5 else [False, True])]
        for h in hs:
            gen.trim(h, 40)
        f, m = gen.render(r, hs)
        if r.random() < .35:
            a, b, c, d = r.choice(m)
            f = gen.cut(f, r.choice([c, r.randrange(b, c + 1), r.randrange(b, c + 1)]))
        ops = []
        for h in hs:
            t = gen.prod(h.naxis) if h.naxis else 0
            ops.append({"op": "next"})
            if r.random() < .25:
                ops.append({"op": "imgraw"})
            if r.random() < .85:
                parts = r.choice([[t + 1], [t, 1], [t // 2, t - t // 2 + 1], [1, 1, t]])
                ops.append({"op": "img", "sub": [{"k": "it", "n": k} for k in parts]})
        ops.append({"op": "next"})
        yield gen.case(f, ops, gen.reader(r, f))


# -------------------------------------------------------- random access (C05)
def big_pixels(r, n):
    """images of many pixels, read through with most of them unseen"""
    for i in range(n):
        bp = r.choice(gen.BITPIX)
        nb = NB[bp]
        total = r.choice([300, 1025, 4097, 33000, 65536, 65537, 70001, 140000])
        nx = r.choice([[total], [total, 1], [1, total], [total // 2 + 1, 2], [2, total // 2 + 1], [7, total // 7 + 1], [3, 5, total // 15 + 1]])
        data, spots = gen.spotted(r, prod(nx) * nb, nb)
        h = gen.Hdu("image", image_cards(bp, nx), data, prod(nx) * nb, bitpix=bp, naxis=nx, spots=spots)
        tail = EMPTY()
        tail.cards = image_cards(8, [], ext=True)
        f, m = gen.render(r, [h, tail])
        t = prod(nx)
        sub, at = [], 0
        for a in sorted({r.choice(spots) for _ in range(3)} | {t - 2}):
            if a < at:
                continue
            sub.append({"k": "skip", "n": a - at})
            k = r.choice([1, 3, 8])
            sub.append({"k": "it", "n": k})
            at = a + k
        if r.random() < .3:
            sub.insert(r.randrange(len(sub)), {"k": "rv", "n": r.choice(spots)})
        yield gen.case(f, [{"op": "next"}, {"op": "img", "sub": sub}, {"op": "next"}, {"op": "next"}], gen.reader(r, f))


def randaccess(r, n):
    pool = gen.extra_pool(r, 20)
    for i in range(n):
        huge = r.random() < .1
        h0 = gen.gen_image(r, pool, ext=False, huge=huge) if r.random() < .6 else EMPTY()
        hs = [h0] + ([gen.gen_image(r, pool, ext=True, huge=huge)] if r.random() < .6 else [])
        for h in hs:
            gen.trim(h, 40)
        f, m = gen.render(r, hs)
        if r.random() < .1:
            f = gen.truncate(r, f, m[-1:])
        ops = []
        for h in hs:
            ops += [{"op": "next"}, {"op": "img", "sub": gen.img_sub(r, h, r.randrange(2, 12))}]
        ops.append({"op": "next"})
        yield gen.case(f, ops, gen.reader(r, f))


# -------------------------------------------------------------- tables (C09-11)
def table_file(r, hs):
    for h in hs:
        gen.trim(h, 60)
    f, m = gen.render(r, hs)
    return f, m


def cells(r, n):
    pool = gen.extra_pool(r, 20)
    for _ in range(n):
        hs = [EMPTY()] + [gen.gen_table(r, pool, vla=.1, zero=.15) for _ in range(r.choice([1, 1, 2]))]
        f, m = table_file(r, hs)
        if r.random() < .2:
            a, b, c, d = r.choice(m[1:])
            f = gen.cut(f, r.randrange(b, c + 1))
        ops = [{"op": "next"}]
        for h in hs[1:]:
            sub = r.choice([[{"k": "it", "n": 2000}], [{"k": "it", "n": 2000}], [{"k": "rows", "n": h.rows + 1}],
                            [{"k": "rows", "n": r.randrange(h.rows + 1)}, {"k": "it", "n": r.randrange(9)}, {"k": "rows", "n": h.rows}],
                            [{"k": "rows0", "n": h.rows + 1}], [{"k": "raw"}, {"k": "it", "n": 3}, {"k": "rows", "n": h.rows + 1}],
                            [{"k": "it", "n": r.randrange(9)}, {"k": "it", "n": 2000}], [{"k": "bytes", "n": 4000}]])
            ops += [{"op": "next"}, {"op": "tab", "sub": sub}]
        ops.append({"op": "next"})
        yield gen.case(f, ops, gen.reader(r, f))


def vla(r, n):
    pool = gen.extra_pool(r, 20)
    for _ in range(n):
        hs = [EMPTY()]
        for _ in range(r.choice([1, 1, 2])):
            cols = gen.gen_cols(r, vla=.7, zero=.05)
            hs.append(gen.gen_table(r, pool, cols=cols, rows=r.choice([1, 2, 3, 5]), wild=.05 if r.random() < .15 else 0))
        f, m = table_file(r, hs)
        if r.random() < .15:
            a, b, c, d = r.choice(m[1:])
            f = gen.cut(f, r.randrange(b, c + 1))
        ops = [{"op": "next"}]
        for h in hs[1:]:
            sub = r.choice([[{"k": "it", "n": 3000}], [{"k": "rows", "n": h.rows + 1}], [{"k": "rows0", "n": h.rows + 1}],
                            [{"k": "it", "n": r.randrange(1, 12)}, {"k": "rows", "n": h.rows + 1}],
                            [{"k": "rows0", "n": 1}, {"k": "it", "n": r.randrange(1, 12)}, {"k": "rows", "n": 1}, {"k": "it", "n": 3000}],
                            [{"k": "it", "n": r.randrange(1, 12)}, {"k": "seek", "n": r.randrange(h.rows)}, {"k": "it", "n": 3000}],
                            [{"k": "sel", "c": gen.col_ids(r, h)}, {"k": "it", "n": 3000}]])
            ops += [{"op": "next"}, {"op": "tab", "sub": sub}]
        ops.append({"op": "next"})
        yield gen.case(f, ops, gen.reader(r, f))


def selseek(r, n):
    pool = gen.extra_pool(r, 20)
    for _ in range(n):
        hs = [EMPTY()] + [gen.gen_table(r, pool, vla=.2, rows=r.choice([0, 1, 2, 3, 4, 5]))]
        f, m = table_file(r, hs)
        if r.random() < .08:
            f = gen.truncate(r, f, m[-1:])
        h = hs[1]
        sub = []
        for _ in range(r.randrange(1, 8)):
            k = r.random()
            if k < .33:
                sub.append({"k": "sel", "c": gen.col_ids(r, h)})
            elif k < .62:
                sub.append({"k": "seek", "n": r.choice([0, max(0, h.rows - 1), h.rows, h.rows + 5, r.randrange(h.rows + 1), 2 ** 40])})
            elif k < .8:
                sub.append({"k": "it", "n": r.choice([1, 1, 2, 3, 5, 9, 300])})
            else:
                sub.append({"k": "rows", "n": r.choice([0, 1, 1, 2, h.rows, h.rows + 1])})
        if r.random() < .15:
            sub.insert(0, {"k": "rows0", "n": r.choice([0, 1, 2, h.rows + 1])})
        if r.random() < .4:
            sub.append({"k": "rows", "n": h.rows + 1})
        yield gen.case(f, [{"op": "next"}, {"op": "next"}, {"op": "tab", "sub": sub}, {"op": "next"}], gen.reader(r, f))


def big_hdu(r, kind):
    """tables with large numbers in them: rows, repeat counts, columns, array lengths, heap offsets"""
    theap, pcount, spots = None, 0, [0]
    if kind == "rows":
        cols = [{"ty": r.choice("BIJKAED"), "n": r.choice([1, 1, 2, 3]), "name": f"C{i}"} for i in range(r.choice([1, 2, 3]))]
        w = sum(gen.col_width(c) for c in cols)
        rows = r.choice([256, 257, 300, 65536, 65537, 70000, 2 ** 31 // w + 7, 2 ** 32 // w + 9, 2 ** 33 // w])
        rows = min(rows, 2 ** 29)
        data, spots = gen.spotted(r, w * rows, w, 4 * w)
    elif kind == "repeat":
        n = r.choice([127, 128, 255, 256, 257, 300, 1000]) if r.random() < .96 else r.choice([65535, 65537])
        ty = r.choice("BIJKAEDLXCM") if n <= 1000 else r.choice("BAX")
        cols = [{"ty": "B", "n": 1, "name": "C0"}, {"ty": ty, "n": n, "name": "C1"}, {"ty": "I", "n": 1, "name": "C2"}]
        if r.random() < .3:
            r.shuffle(cols)
        rows = r.choice([1, 2])
        data = [r.randbytes(rows * sum(gen.col_width(c) for c in cols))]
        spots = list(range(rows))
    elif kind == "columns":
        n = r.choice([99, 100, 101, 255, 256, 257, 300, 999]) if r.random() < .5 else r.choice([10, 11, 40])
        cols = [{"ty": r.choice("BIJAL"), "n": 1, "name": f"C{i}"} for i in range(n)]
        rows = 2
        data = [r.randbytes(rows * sum(gen.col_width(c) for c in cols))]
        spots = [0, 1]
    else:
        # arrays far away in the heap, or long ones
        ty = r.choice("QQP")
        h = 4 if ty == "P" else 8
        el = r.choice("BIJKAEDLXCM")
        cols = [{"ty": "B", "n": 1, "name": "C0"}, {"ty": ty, "n": 1, "elem": el, "name": "C1"}, {"ty": "I", "n": 1, "name": "C2"}]
        eb = gen.EB[el]
        if r.random() < .5:
            size = r.choice([2 ** 31 + 1000, 2 ** 32 + 5000, 2 ** 33] if ty == "Q" else [2 ** 31 + 100, 2 ** 32 - 1])
            heap, isl = gen.spotted(r, size, 1, 64)
            at = [(r.randrange(1, 64 // eb + 1), r.choice(isl[::64]) + r.choice([0, 0, 1])) for _ in range(3)]
            at = [(c if o + c * eb <= size else 1, o) for c, o in at]
            at = [(c, o) if o + c * eb <= size else (0, 0) for c, o in at]
        else:
            c = r.choice([255, 256, 257, 300, 1000]) if r.random() < .93 else r.choice([65535, 65536, 65537])
            u = (c + 7) // 8 if el == "X" else c
            size = u * eb + r.choice([0, 9])
            heap, at = [r.randbytes(size)], [(c, r.randrange(size - u * eb + 1)), (2, 1), (0, 0)]
            if 2 * eb + 1 > size:
                at[1] = (0, 5)
        r.shuffle(at)
        rows = len(at)
        main = b"".join(r.randbytes(1) + c.to_bytes(h, "big") + o.to_bytes(h, "big") + r.randbytes(2) for c, o in at)
        gap = r.choice([0, 0, 11])
        data = [main + r.randbytes(gap)] + heap
        pcount = gap + size
        theap = len(main) + gap if gap or r.random() < .3 else None
        spots = list(range(rows))
    base = bintable_cards(cols, rows, pcount, theap=theap)
    w = sum(gen.col_width(c) for c in cols)
    return gen.Hdu("bintable", base, data, w * rows + pcount, cols=cols, rows=rows, width=w, must=len(base), spots=spots)


def big_tables(kinds):
    def battery(r, n):
        for i in range(n):
            h = big_hdu(r, r.choice(kinds))
            hs = [EMPTY(), h, EMPTY()]
            hs[2].cards = image_cards(8, [], ext=True)
            f, m = gen.render(r, hs)
            per = sum(c["n"] for c in h.cols)
            sub = []
            for _ in range(r.randrange(1, 5)):
                k = r.random()
                if k < .3:
                    ids = [r.choice([len(h.cols) - 1, r.randrange(len(h.cols)), f"C{r.randrange(len(h.cols))}", len(h.cols), f"C{len(h.cols) - 1}"]) for _ in range(r.choice([1, 2, 3]))]
                    sub.append({"k": "sel", "c": ids})
                elif k < .7:
                    sub.append({"k": "seek", "n": r.choice([h.rows - 1, h.rows, r.choice(h.spots), r.choice(h.spots)])})
                else:
                    sub.append({"k": "it", "n": r.choice([1, 3, 9, per + 1 if per < 1200 else 40])})
            if h.rows < 10 and r.random() < .6:
                sub.append(r.choice([{"k": "it", "n": 70000 if r.random() < .3 else 1500}, {"k": "rows", "n": h.rows + 1}]))
            elif r.random() < .5:
                sub.append({"k": "rows", "n": r.choice([1, 2])})
            if r.random() < .1:
                sub = [{"k": "rows0", "n": r.choice([1, min(h.rows + 1, 300)])}]
            yield gen.case(f, [{"op": "next"}, {"op": "next"}, {"op": "tab", "sub": sub}, {"op": "next"}, {"op": "next"}], gen.reader(r, f))
    return battery


# ---------------------------------------------------- acceptance of headers (C19)
def accept(r, n):
    pool = gen.extra_pool(r, 20)
    for _ in range(n):
        k = r.random()
        if k < .3:
            h = gen.gen_image(r, pool, ext=False)
            hs = [h]
        else:
            h = gen.gen_image(r, pool, True) if k < .45 else gen.gen_table(r, pool) if k < .8 else gen.gen_ascii(r, pool)
            hs = [EMPTY(), h]
        gen.trim(h, 45)
        k = r.random()
        base = h.cards
        if k < .55:                               # one mandatory value replaced
            kws = [c[:8].strip().decode("latin-1") for c in base]
            must = [i for i, w in enumerate(kws) if w in KEYS]
            i = r.choice(must)
            kw = kws[i]
            if kw.startswith("TFORM"):
                new = scard(kw, r.choice(BADFORM))
            elif kw == "XTENSION":
                new = scard(kw, r.choice(["IMAGE", "BINTABLE", "TABLE", "IUEIMAGE", "FOO", "image", "IMAGE2", "A3DTABLE"]))
            else:
                new = card(kw, r.choice(BADVAL))
            h.cards = base[:i] + [new] + base[i + 1:]
        elif k < .7:
            i = r.randrange(min(len(base), 12))
            h.cards = base[:i] + base[i + 1:]
        elif k < .85:
            h.cards = mutate_cards(r, base)
        hs.append(gen.gen_image(r, pool, True))
        gen.trim(hs[-1], 30)
        f, m = gen.render(r, hs)
        yield gen.case(f, gen.history(r, hs, touch=.1, more=2), rd_mem(r, f))


# --------------------------------------------------------------- readers (C20)
def all_readers(r, n):
    """the same file and history through every kind of reader"""
    pool = gen.extra_pool(r, 30)
    done = 0
    while done < n:
        hs = gen.gen_hdus(r, pool, nmax=3, vla=.35, tiled=.3)
        for h in hs:
            gen.trim(h, 50)
        f, m = gen.render(r, hs)
        if not f.small():
            continue
        if r.random() < .15:
            f = gen.truncate(r, f, m)
        ops = gen.history(r, hs, touch=.8, clone=.2)
        rds = [{"rd": "cursor"}, {"rd": "file"}, {"rd": "buffile"}, {"rd": "open"}]
        for _ in range(4):
            ch = [r.choice([1, 1, 2, 3, 5, 7, 79, 81, 1000, 2879, 2881]) for _ in range(r.randrange(1, 6))]
            if r.random() < .4:
                ch.insert(r.randrange(len(ch) + 1), 0)
            rds.append({"rd": "sparse", "chunks": ch} if r.random() < .5 else
                       {"rd": "bufsparse", "chunks": ch, "cap": r.choice([1, 2, 3, 16, 79, 80, 81, 2879, 2880, 2881, 8192])})
        for rd in rds:
            done += 1
            yield gen.case(f, ops, rd, hs, m)


# -------------------------------------------------------------- headers (C06-08)
def hdr_case(r, recs, q, small=True):
    """a file whose first or second header holds these records among the mandatory cards"""
    ext = r.random() < .4
    if not ext:
        base = image_cards(8, [])
        hs = [gen.Hdu("image", base, [], 0, bitpix=8, naxis=[])]
    else:
        k = r.random()
        if k < .5:
            h = gen.Hdu("image", image_cards(8, [3], ext=True), [b"abc"], 3, bitpix=8, naxis=[3])
        elif k < .8:
            h = gen.gen_table(r, [], rows=1, vla=0)
        else:
            h = gen.gen_ascii(r, [])
        hs = [EMPTY(), h]
    h = hs[-1]
    if r.random() < .8:
        h.cards = h.cards + recs
    else:                                     # anywhere but first
        for c in recs:
            h.cards.insert(r.randrange(1, len(h.cards) + 1), c)
    f, m = gen.render(r, hs)
    ops = [{"op": "next"}] * len(hs) + [{"op": "hdr", "q": q}, {"op": "next"}]
    return gen.case(f, ops, gen.reader(r, f))


def records(r, n):
    for _ in range(n):
        recs = [c for c in (hgen.record(r) for _ in range(r.choice([1, 2, 3, 5, 9, 20, 34]))) if hgen.harmless(c)]
        yield hdr_case(r, recs, [])


def chains(r, n):
    for _ in range(n):
        recs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            recs += hgen.chain(r)
            if r.random() < .3:
                recs += [hgen.record(r) for _ in range(r.randrange(1, 3))]
        yield hdr_case(r, [c for c in recs if hgen.harmless(c)], hgen.queries(r, 3))


def lookups(r, n):
    for _ in range(n):
        kws = r.sample(hgen.KW, r.randrange(1, 5))
        recs = [hgen.value_card(r, r.choice(kws)) if r.random() < .7 else hgen.record(r) for _ in range(r.choice([1, 3, 6, 12, 20]))]
        yield hdr_case(r, [c for c in recs if hgen.harmless(c)], hgen.queries(r, 25))


# ------------------------------------------------- tile-compressed images (C12-14)
def tiled_case(r, hs, ops=None, cutp=.08):
    for h in hs:
        gen.trim(h, 70)
    f, m = gen.render(r, hs)
    inf = tgen.inflations(hs, m)
    if r.random() < cutp:
        f = gen.truncate(r, f, m[-1:])
    if ops is None:
        ops = [{"op": "next"}]
        for h in hs[1:]:
            ops.append({"op": "next"})
            if getattr(h, "tiled", False):
                ops.append({"op": "tab", "sub": [tgen.pix(r, h)]})
        ops.append({"op": "next"})
    return gen.case(f, ops, gen.reader(r, f), inf=inf)


def tiles_geometry(r, n):
    """every algorithm and shape, integers"""
    for _ in range(n):
        hs = [EMPTY()] + [tgen.gen_tiled(r, bitpix=r.choice([8, 16, 32]))]
        if r.random() < .4:
            hs.append(tgen.gen_tiled(r) if r.random() < .5 else gen.gen_image(r, [], True))
        yield tiled_case(r, hs)


def tiles_gzip(r, n):
    for _ in range(n):
        hs = [EMPTY()] + [tgen.gen_tiled(r, bitpix=r.choice([8, 16, 32, 32]), algo=r.choice(["GZIP_1", "GZIP_2"]))]
        if r.random() < .3:
            hs.append(gen.gen_image(r, [], True))
        yield tiled_case(r, hs)


def tiles_rice(r, n):
    for _ in range(n):
        hs = [EMPTY()] + [tgen.gen_tiled(r, bitpix=r.choice([8, 16, 32, 32, 32]), algo=r.choice(["RICE_1", "RICE_1", "RICE_ONE"]))]
        if r.random() < .3:
            hs.append(gen.gen_image(r, [], True))
        yield tiled_case(r, hs)


def tiles_float(r, n):
    for _ in range(n):
        hs = [EMPTY()] + [tgen.gen_tiled(r, bitpix=r.choice([-32, -32, -64]))]
        yield tiled_case(r, hs)


def tiles_big(r, n):
    """large tiles and many tiles: a few windows are looked at"""
    for _ in range(n):
        h = tgen.gen_tiled(r, bitpix=r.choice([8, 16, 32]), algo=r.choice(["GZIP_1", "GZIP_2", "RICE_1", "GZIP_1"]), broken=0, calm=True,
                           fixed=r.choice([([40000], [40000]), ([70000], [70000]), ([300, 300], [300, 300]), ([33000, 2], None), ([2, 300], [2, 1]),
                                           ([601], [2]), ([521, 3], [2, 2]), ([3, 260], None), ([16, 17, 2], [1, 1, 1]), ([401, 3, 2], [4, 2, 2]), ([70000, 1], [65536, 1])]))
        t = h.npix
        a = min(t - 1, r.choice([250, 255, 500, 510, 590, 32760, 32767, 65530, 65535, t - 20, r.randrange(t)]))
        yield tiled_case(r, [EMPTY(), h], [{"op": "next"}, {"op": "next"},
                                           {"op": "tab", "sub": [{"k": "pix", "from": a, "n": 30}]}, {"op": "next"}], cutp=0)


def tiles_long(r, n):
    """long RICE tiles"""
    for _ in range(n):
        t = r.choice([4097, 33000, 66000])
        h = tgen.gen_tiled(r, bitpix=r.choice([8, 16, 32]), algo=r.choice(["RICE_1", "RICE_ONE"]), broken=0, calm=True, fixed=([t], [t]))
        a = min(t - 1, r.choice([250, 32760, 65530, t - 20, r.randrange(t)]))
        yield tiled_case(r, [EMPTY(), h], [{"op": "next"}, {"op": "next"},
                                           {"op": "tab", "sub": [{"k": "pix", "from": a, "n": 30}]}, {"op": "next"}], cutp=0)


def tiles_wrap(r, n):
    """tiles longer than the random sequence: only the part around its end is looked at"""
    for _ in range(n):
        h = tgen.gen_tiled(r, bitpix=r.choice([-32, -64]), big=True, method=r.choice([1, 2]), algo=r.choice(["GZIP_1", "GZIP_2"]), broken=0)
        a = r.choice([9495, 9800, 9990, 10000])
        yield tiled_case(r, [EMPTY(), h], [{"op": "next"}, {"op": "next"},
                                           {"op": "tab", "sub": [{"k": "pix", "from": a, "n": 600}]}, {"op": "next"}], cutp=0)


# ------------------------------------------------------ column descriptions (C21)
AFORM = ["A5", "I12", "F7.3", "E15.7", "D25.17", "A", "I", "F7", "F.3", "F7.", "a5", "A+5", "I-3", "A 5", "A5 ", " A5", "Z3", "",
         "E15.7E3", "A0", "I007", "F1.2.3", "A99999999999999999999", "D18446744073709551615.0", "5A", "+A5", "B8", "A5.2", "G7.2"]
NAMEQ = gen.NAMES + ["", "nope", "ra", "RA ", " RA", "ZSCALE", "FLUX2", "T''"]


def columns(r, n):
    pool = gen.extra_pool(r, 15)
    for _ in range(n):
        k = r.random()
        inf = None
        if k < .4:
            h = gen.gen_table(r, pool, vla=.25, rows=r.choice([0, 1, 2, 3]))
        elif k < .55:
            h = tgen.gen_tiled(r)
            if r.random() < .6:
                h.cards = mutate_cards(r, h.cards)
        else:
            h = gen.gen_ascii(r, pool)
            if r.random() < .6:
                for _ in range(r.choice([1, 1, 2, 4])):
                    at = [i for i, c in enumerate(h.cards) if c[:5] in (b"TFORM", b"TBCOL")]
                    if not at:
                        break
                    i = r.choice(at)
                    kw = h.cards[i][:8].strip().decode()
                    z = r.random()
                    if z < .15:
                        del h.cards[i]
                    elif kw.startswith("TFORM"):
                        h.cards[i] = scard(kw, r.choice(AFORM)) if z < .9 else card(kw, r.choice(BADVAL))
                    else:
                        h.cards[i] = card(kw, r.choice(BADVAL))
        if h.kind == "bintable" and not getattr(h, "tiled", False) and r.random() < .4:
            # formats and names that must or must not matter; the width stays what it was
            for i, c in enumerate(h.cards):
                if c[:5] == b"TTYPE" and r.random() < .5:
                    h.cards[i] = r.choice([scard(c[:8].strip().decode(), r.choice(NAMEQ)), card(c[:8].strip().decode(), r.choice(BADVAL))])
        gen.trim(h, 70)
        hs = [EMPTY(), h]
        f, m = gen.render(r, hs)
        ops = [{"op": "next"}, {"op": "next"}, {"op": "meta", "names": r.sample(NAMEQ, 6)}]
        if h.kind == "bintable":
            ops.append({"op": "tab", "sub": [{"k": "sel", "c": r.sample(NAMEQ, r.randrange(1, 4))}, {"k": "it", "n": 400}] if r.random() < .5
                        else [{"k": "rows", "n": 5}]})
        ops.append({"op": "next"})
        yield gen.case(f, ops, gen.reader(r, f), hs, m)


# --------------------------------------------------- asynchronous reading (C15)
def arrival_plan(r):
    """a cycled schedule: 0 not ready, n a read of at most n bytes"""
    k = r.random()
    if k < .08:
        return []
    sizes = r.choice([[1], [1, 2, 3], [1, 7, 79, 80, 81], [79, 80, 81, 2879, 2880, 2881], [1, 3, 5, 1000], [10 ** 6], [2880], [40], [4], [3]])
    p = []
    for _ in range(r.randrange(1, 9)):
        p += [0] * r.choice([0, 0, 0, 1, 1, 2, 3])
        p.append(r.choice(sizes))
    if r.random() < .3:
        p = [0] + p
    return p


def async_case(r, f, ops):
    plan = arrival_plan(r)
    big = not f.small()
    return {"dom": "async", "file": f.json(), "ops": ops, "_f": f, "plan": [max(x, 5000) if x and big else x for x in plan],
            "cap": r.choice([1, 2, 3, 8, 79, 80, 100, 2880, 4096, 8192]) if not big else 65536}


def async_ops(r, hs, more=2, look=.3):
    ops = []
    for h in hs:
        ops.append({"op": "anext", "poke": r.choice([0, 0, 1, 3])})
        if r.random() < look:
            ops.append({"op": "hdr", "q": []})
        if r.random() < .65:
            isz = abs(h.bitpix) // 8 if h.kind == "image" else 1
            n = h.dlen() // isz
            c = [0, 1, 2, 3, n // 2, n - 1, n, n + 1, r.randrange(0, n + 2)]
            ops.append({"op": "avals", "n": min(1200, max(0, r.choice(c))), "poke": r.random() < .4})
            if n > 5 and r.random() < .25:
                ops[-1].update(skip=r.choice([1, n // 2, n - 2, n, n + 1, r.randrange(n)]), n=r.choice([0, 1, 3, 20]))
            if r.random() < .1:                       # data asked for again: only the walk is judged
                ops.append({"op": "avals", "n": r.choice([0, 1, 5]), "poke": r.random() < .4})
    for _ in range(r.randrange(1, more + 1)):
        ops.append({"op": "anext", "poke": r.choice([0, 0, 1])})
    return ops


def arrivals(r, n):
    pool = gen.extra_pool(r)
    for _ in range(n):
        hs = gen.gen_hdus(r, pool, nmax=4, vla=.2, tiled=.15)
        f, m = gen.render(r, hs)
        if r.random() < .15:
            f = gen.cut(f, m[-1][2])
        yield async_case(r, f, async_ops(r, hs))


def arrivals_big(r, n):
    """data units of many values, most of them unseen"""
    for _ in range(n):
        bp = r.choice(gen.BITPIX)
        nb = NB[bp]
        t = r.choice([300, 4097, 33000, 65537, 70001])
        data, spots = gen.spotted(r, t * nb, nb)
        k = r.random()
        if k < .8:
            h = gen.Hdu("image", image_cards(bp, [t]), data, t * nb, bitpix=bp, naxis=[t])
            hs = [h]
        else:
            h = gen.Hdu("bintable", bintable_cards([{"ty": "B", "n": nb}], t, 0), data, t * nb)
            hs, spots = [EMPTY(), h], [x * nb for x in spots]
        tail = EMPTY()
        tail.cards = image_cards(8, [], ext=True)
        f, m = gen.render(r, hs + [tail])
        ops = [{"op": "anext", "poke": 0}] * len(hs) + [{"op": "avals", "skip": r.choice(spots), "n": r.choice([1, 5]), "poke": r.random() < .4},
                                                        {"op": "anext", "poke": 1}, {"op": "anext", "poke": 0}]
        c = async_case(r, f, ops)
        c["plan"] = [max(x, 7) if x else x for x in c["plan"]]
        yield c


def arrivals_damaged(r, n):
    pool = gen.extra_pool(r)
    for _ in range(n):
        k = r.random()
        hs = gen.gen_hdus(r, pool, nmax=3, wild=.1 if r.random() < .3 else 0, vla=.2, tiled=.1)
        for h in hs:
            gen.trim(h, 60)
        if k < .4:
            h = r.choice(hs)
            h.cards = mutate_cards(r, h.cards)
        f, m = gen.render(r, hs)
        if .3 < k < .9:
            f = gen.truncate(r, f, m)
        elif k >= .9 and f.small():
            b = bytearray(f.flat())
            for _ in range(r.choice([1, 1, 3, 20])):
                if b:
                    b[r.randrange(len(b))] = r.randrange(256)
            f = File.of(bytes(b))
        yield async_case(r, f, async_ops(r, hs, more=3, look=.1))


# ------------------------------------------------------ the image crate (C17)
SCALES = [("1", "0"), ("1.0", "0.0"), ("1", "32768"), ("1", "-128"), ("0.5", "0"), ("2", "1"), ("-1", "255"), ("0.25", "10.5"),
          ("1.5", "-20"), ("0.001", "0"), ("1E-2", "3.3E1"), ("0", "7"), ("100", "0"), ("-0.75", "1000"), ("1.0D0", "2.5")]


def scale_cards(r):
    if r.random() < .4:
        return []
    a, b = r.choice(SCALES)
    cs = [card("BSCALE", a)] if r.random() < .8 else []
    return cs + ([card("BZERO", b)] if r.random() < .8 else [])


def shown_shape(r):
    w, h = r.choice([1, 2, 3, 5, 8, 10, 17]), r.choice([1, 2, 3, 4, 7, 11])
    if r.random() < .012:
        return r.choice([[300, 1], [257, 1], [1, 260], [90, 1, 3], [1, 88, 3], [20, 17]])
    k = r.random()
    return [w, h] if k < .5 else [w, h, 3] if k < .75 else [w, h, 1] if k < .85 else r.choice(
        [[w], [w, h, 2], [w, h, 4], [w, h, 3, 1], [w, h, 1, 1], [w, h, 0], [0, h], [w, 1, 3]])


def shown_image(r, ext):
    bp = r.choice(gen.BITPIX)
    nx = shown_shape(r)
    n = prod(nx) if nx else 0
    if bp == -64 and r.random() < .7:
        data = b"".join(struct.pack(">d", r.choice([0.0, 1.0, -1.5, r.uniform(-1, 1), r.uniform(0, 1e9), 1e-12, float("nan"), 0.1])) for _ in range(n))
    elif bp == -32 and r.random() < .6:
        data = b"".join(struct.pack(">f", r.choice([0.0, -0.0, 1.0, r.uniform(-1, 1), r.uniform(0, 1e9), float("nan"), float("inf")])) for _ in range(n))
    elif r.random() < .4:
        m = abs(bp) // 8
        data = b"".join(r.choice([b"\0" * m, b"\xff" * m, b"\x7f" + b"\xff" * (m - 1), b"\x80" + b"\0" * (m - 1), b"\0" * (m - 1) + r.randbytes(1), r.randbytes(m)]) for _ in range(n))
    else:
        data = gen.rand_bytes(r, n * abs(bp) // 8)
    return gen.Hdu("image", image_cards(bp, nx, ext, scale_cards(r)), [data], len(data), bitpix=bp, naxis=nx)


def shown(r, n):
    for _ in range(n):
        hs = [] if r.random() < .4 else [EMPTY()]
        while r.random() < .25:
            hs = hs or [EMPTY()]
            hs.append(r.choice([lambda: gen.gen_table(r, []), lambda: gen.gen_ascii(r, []),
                                lambda: gen.Hdu("image", image_cards(8, [3, 0], True), [], 0, bitpix=8, naxis=[3, 0])])())
        if hs and r.random() < .55:
            sh = shown_shape(r)
            while 0 in sh:
                sh = shown_shape(r)
            hs.append(tgen.gen_tiled(r, shape=sh, broken=.02, more=scale_cards(r)))
        elif r.random() < .95 or not hs:
            hs.append(shown_image(r, bool(hs)))
        while r.random() < .2:
            hs.append(shown_image(r, True))
        k = r.random()
        if k < .08:
            h = r.choice(hs)
            h.cards = mutate_cards(r, h.cards)
        f, m = gen.render(r, hs)
        if .08 < k < .25:
            f = gen.truncate(r, f, m)
        elif k > .95 and f.small() and len(f):
            b = bytearray(f.flat())
            for _ in range(r.choice([1, 3, 20])):
                b[r.randrange(len(b))] = r.randrange(256)
            f = File.of(bytes(b))
        c = {"dom": "hook", "file": f.json(), "ops": [{"op": "hook"}], "_f": f}
        if k <= .95:
            c["inf"] = tgen.inflations(hs, m)
        if r.random() < .3:
            c["ext"] = r.choice(["fits", "fit", "fts", "fz"])
        yield c


# -------------------------------------------------- the command-line tool (C18)
def reports(r, n):
    pool = gen.extra_pool(r)
    for _ in range(n):
        k = r.random()
        hs = gen.gen_hdus(r, pool, nmax=6, vla=.3, tiled=.2, mix=("image", "bintable", "ascii"))
        if k < .15:
            h = r.choice(hs)
            h.cards = mutate_cards(r, h.cards[:60])
        f, m = gen.render(r, hs)
        if .1 < k < .35:
            f = gen.truncate(r, f, m)
        elif k > .97:
            f = File.of(r.randbytes(r.randrange(0, 6000)))
        yield {"dom": "cli", "file": f.json(), "ops": [{"op": "cli", "absent": r.random() < .01}], "_f": f}
        # the operation as the executor sees it


# --------------------------------------------------------- gzipped files (C16)
def gzip_member(r, data):
    """one gzip member: header with any of the optional fields, any deflate structure"""
    flg = 0
    body = b""
    if r.random() < .2:
        flg |= 4
        x = r.randbytes(r.choice([0, 1, 8, 300]))
        body += struct.pack("<H", len(x)) + x
    if r.random() < .4:
        flg |= 8
        body += r.choice([b"a.fits", b"x", b"", bytes([65] * 500)]) + b"\0"
    if r.random() < .2:
        flg |= 16
        body += r.choice([b"comment", b""]) + b"\0"
    if r.random() < .1:
        flg |= 1
    h = b"\x1f\x8b\x08"
    if r.random() < .15:
        flg |= 2
    h += bytes([flg]) + struct.pack("<I", r.choice([0, 1, 0x6543210f])) + bytes([r.choice([0, 2, 4]), r.choice([0, 3, 11, 255])]) + body
    if flg & 2:
        h += struct.pack("<H", zlib.crc32(h) & 0xffff)
    c = zlib.compressobj(r.choice([0, 1, 5, 6, 9]), zlib.DEFLATED, -r.choice([9, 12, 15]), r.choice([1, 8, 9]),
                         r.choice([zlib.Z_DEFAULT_STRATEGY, zlib.Z_FILTERED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FIXED]))
    out, i = b"", 0
    while r.random() < .3 and i < len(data):
        k = r.randrange(i, len(data) + 1)
        out += c.compress(data[i:k]) + c.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH]))
        i = k
    out += c.compress(data[i:]) + c.flush()
    return h + out + struct.pack("<II", zlib.crc32(data), len(data) & 0xffffffff)


def gzip_bytes(r, data, members=.15):
    out = b""
    while r.random() < members and len(data) > 1:
        k = r.randrange(0, len(data))
        out += gzip_member(r, data[:k])
        data = data[k:]
    return out + gzip_member(r, data)


def gz_case(r, f, disk, ops, intact, mayread, hs=None, m=None):
    ops = [{"op": "open", "intact": intact}] + [dict(o, op="gznext", mayread=mayread) if o["op"] == "next" and not intact else o for o in ops]
    return gen.case(f, ops, {"rd": "open"}, hs, m, disk=disk.hex())


def gzipped(r, n):
    pool = gen.extra_pool(r)
    for _ in range(n):
        hs = gen.gen_hdus(r, pool, nmax=4, vla=.3, tiled=.3)
        f, m = gen.render(r, hs)
        if r.random() < .25:
            f = gen.truncate(r, f, m)
        elif r.random() < .1:
            f = gen.cut(f, m[-1][2])
        yield gz_case(r, f, gzip_bytes(r, f.flat()), gen.history(r, hs, touch=.7, clone=0, more=3), True, True, hs, m)


def gz_big(r, n):
    """gzipped files of some megabytes, most of it unseen"""
    for _ in range(n):
        nb = r.choice([1, 2, 4, 8])
        bp = {1: 8, 2: 16, 4: 32, 8: 64}[nb]
        total = r.choice([70000, 140000, 1 << 20, 1200000, 2500000]) // nb * nb
        data, spots = gen.spotted(r, total, nb)
        h = gen.Hdu("image", image_cards(bp, [total // nb]), data, total, bitpix=bp, naxis=[total // nb], spots=spots)
        tail = EMPTY()
        tail.cards = image_cards(8, [], ext=True)
        hs = [h, tail]
        f, m = gen.render(r, hs)
        sub = []
        for _ in range(r.randrange(1, 4)):
            sub.append({"k": "rv", "n": r.choice(spots)})
            sub.append({"k": "it", "n": r.choice([1, 4])})
        yield gz_case(r, f, gzip_bytes(r, f.flat()), [{"op": "next"}] + ([{"op": "img", "sub": sub}] if r.random() < .7 else []) + [{"op": "next"}, {"op": "next"}], True, True, hs, m)


def gz_damaged(r, n):
    pool = gen.extra_pool(r)
    for _ in range(n):
        hs = gen.gen_hdus(r, pool, nmax=2)
        f, m = gen.render(r, hs)
        z = bytearray(gzip_bytes(r, f.flat(), members=0))
        cutting = r.random() < .6
        if cutting:
            z = z[:r.choice([r.randrange(0, len(z)), len(z) - r.randrange(1, min(len(z), 20)), r.randrange(0, min(40, len(z)))])]
        else:
            for _ in range(r.choice([1, 1, 2, 8])):
                i = r.choice([r.randrange(len(z)), len(z) - 1 - r.randrange(8)])
                z[i] ^= 1 << r.randrange(8)
        yield gz_case(r, f, bytes(z), gen.history(r, hs, touch=.5, clone=0, more=2), False, not cutting)
