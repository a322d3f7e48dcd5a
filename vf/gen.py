"""Random files and call histories.  Everything here only generates: what the
real code does with the cases is judged by the specification alone."""
import random

from .fitsfile import (BLK, EB, END, NB, File, ascii_cards, bintable_cards, card, col_width, data_pad,
                       header, image_cards, image_size, pad80, prod, scard)

KINDS = ("image", "bintable", "ascii")
BITPIX = (8, 16, 32, 64, -32, -64)


def rint(r, *choices):
    return r.choice(choices)


# ------------------------------------------------------------------- cards
WORDS = ["EXPTIME", "OBJECT", "FILTER", "GAIN", "RA", "DEC", "A", "DATE-OBS", "X_Y", "KEY12345"]


def extra_pool(r, n=60):
    """cards that must not matter for the layout"""
    p = []
    for i in range(n):
        k = r.randrange(12)
        w = r.choice(WORDS)
        if k == 0:
            p.append(card(w, r.randrange(-10 ** 6, 10 ** 9), "some int" if r.random() < .5 else None))
        elif k == 1:
            p.append(card(w, f"{r.uniform(-1e3, 1e3):.5E}"))
        elif k == 2:
            p.append(card(w, r.choice("TF"), "logical"))
        elif k == 3:
            p.append(scard(w, r.choice(["it's", "a / b", "END", "", "x" * 60, "NAXIS1  = 77", "&"])))
        elif k == 4:
            p.append(pad80(b"COMMENT " + r.choice([b"END", b"NAXIS1  =  9", b"text", b"XTENSION= 'IMAGE   '"])))
        elif k == 5:
            p.append(pad80(b"HISTORY " + r.choice([b"END     ", b"made by hand", b"'quote"])))
        elif k == 6:
            p.append(pad80(b""))
        elif k == 7:
            p.append(pad80(b"HIERARCH ESO DET NAXIS1 = 12 / no axis"))
        elif k == 8:
            p.append(pad80(b"CONTINUE  'orphan'"))
        elif k == 9:
            p.append(card(r.choice(["NAXIS9", "TFORM99", "BSCALE", "BZERO", "EXTEND", "INHERIT", "EXTVER"]),
                          r.randrange(0, 50)))
        elif k == 10:
            p.append(pad80(r.choice([b"ENDX    = 3", b"END.", b" END", b"garbage record", b"\xff\xfe bytes", b"end"])))
        else:
            p.append(pad80(r.choice([b"FOO     =", b"BAR     = / only comment", b"BAZ     = (1,2)", b"QUX =  1"])))
    # a record that is exactly END (with blanks before or after) would end the header
    return [c for c in p if c[:8].strip() != b"END"]


def with_extras(r, cards, pool, safe=0):
    """insert extra cards after the mandatory ones; sometimes aim at block boundaries"""
    k = r.random()
    if k < .45:
        n = r.randrange(0, 4)
    elif k < .48:
        # long headers
        t = 36 * r.choice([4, 5, 6, 7, 8, 9, 12, 16, 30]) + r.choice([-1, 0, 0, 0, 1, 7])
        n = max(0, t - 1 - len(cards))
    elif k < .75:
        # total number of records, END included, near a multiple of 36
        t = 36 * r.choice([1, 1, 1, 2, 3]) + r.choice([-1, 0, 0, 1])
        n = max(0, t - 1 - len(cards))
    else:
        n = r.randrange(0, 60)
    out = list(cards)
    n = n if pool else 0
    for _ in range(n):
        c = r.choice(pool)
        if r.random() < .3 and safe:
            out.insert(r.randrange(safe, len(out) + 1), c)
        else:
            out.append(c)
    return out


# --------------------------------------------------------------------- data
def lure(r):
    """a block that looks like an HDU"""
    return header(image_cards(8, [3], ext=True))[:BLK]


def rand_bytes(r, n):
    k = r.random()
    if n == 0:
        return b""
    if k < .5:
        return r.randbytes(n)
    if k < .7:
        return bytes((i * 7 + 3) % 251 for i in range(n))
    if k < .8:
        return (lure(r) * (n // BLK + 1))[:n]
    if k < .9:
        return bytes(r.choice((0, 255, 127, 128, 1, 84, 70)) for _ in range(n))
    return (END * (n // 80 + 1))[:n]


def extremes(r, n, size):
    """n bytes made of items of a size, most of them values at the ends of a range"""
    out = b""
    while len(out) < n:
        z, f = bytes(size - 1), b"\xff" * (size - 1)
        out += r.choice([b"\x80" + z, b"\x7f" + f, b"\xff" + f, b"\0" + z, z + b"\x01", b"\x80" + z[:-1] + b"\x01" if size > 1 else b"\x81",
                         f + b"\xfe", b"\x7f\xf0" + bytes(6), b"\xff\xf0" + bytes(6), b"\x7f\xc0\0\0", b"\x7f\x80\0\0", b"\x7f\xa0\0\1",
                         b"\x7f\xf8" + bytes(6), b"\x7f\xf4" + bytes(5) + b"\1", b"\xff\x80\0\0", b"\0\x80\0\0", r.randbytes(size)])[:size].ljust(size, b"\0")
    return out[:n]


def trim(h, n):
    """fewer of the cards that do not matter"""
    h.cards = h.cards[:max(n, h.must)]


def shape_near(r, nb):
    """axis lengths whose total size is near a block boundary"""
    total = max(0, 2880 * r.choice([1, 1, 2]) + r.choice([-8, -1, 0, 0, 1, 8])) // nb
    k = r.randrange(3)
    if k == 0:
        return [total]
    if k == 1:
        return [1, total] if r.random() < .5 else [total, 1]
    for a in (7, 5, 3, 2):
        if total % a == 0:
            return [a, total // a]
    return [total]


def small_shape(r):
    while True:
        x = small_shape1(r)
        if prod(x) <= 1200:
            return x


def small_shape1(r):
    if r.random() < .04:                      # two-digit axis numbers
        d = r.choice([9, 10, 11, 12, 20, 33])
        x = [1] * d
        for i in (r.randrange(d), r.randrange(d), d - 1):
            x[i] = r.choice([0, 1, 2, 3, 5])
        return x
    d = r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5])
    return [r.choice([0, 1, 1, 2, 3, 4, 5, 7, 9]) if r.random() < .9 else r.randrange(1, 40) for _ in range(d)]


class Hdu:
    """kind, header bytes, data segments (list of bytes/(n,fill)), size of the data unit"""

    def __init__(self, kind, cards, data, size, **kw):
        self.kind, self.cards, self.data, self.size = kind, cards, data, size
        self.hpad = b" "
        self.must = 0
        self.__dict__.update(kw)

    def dlen(self):
        return sum(len(d) if isinstance(d, bytes) else d[0] for d in self.data)


def spotted(r, n, item, width=48):
    """n bytes of fill with islands of random bytes at telling places -> segments, indexes of items there"""
    at = sorted({x // item * item for x in (0, 255 * item, 65535 * item, 2 ** 31 - 8 * item, 2 ** 31, 2 ** 32 - 8 * item, 2 ** 32, 2 ** 33, n // 2, n - width)
                 if 0 <= x <= n - width})
    fill = r.choice([0, 65, 255])
    segs, spots, pos = [], [], 0
    for a in at:
        if a < pos:
            continue
        if a > pos:
            segs.append((a - pos, fill))
        segs.append(r.randbytes(width))
        spots += [a // item + i for i in range(width // item)]
        pos = a + width
    if pos < n:
        segs.append((n - pos, fill))
    return segs, spots


def gen_image(r, pool, ext, huge=False):
    bp = r.choice(BITPIX)
    nb = NB[bp]
    if huge:
        nx = r.choice([[r.randrange(2 ** 32 // nb, 2 ** 33 // nb)], [70000, 65537], [3, 1 << 31], [1 << 16, 1 << 16, 2]])
        while prod(nx) * nb > 40 * 2 ** 30:
            nx = [n // 2 for n in nx]
    elif r.random() < .3:
        nx = shape_near(r, nb)
    else:
        nx = small_shape(r)
    n = image_size(bp, nx)
    data, spots = spotted(r, n, nb) if huge else ([extremes(r, n, nb) if r.random() < .2 else rand_bytes(r, n)], [])
    xname = r.choice(["IMAGE", "IMAGE", "IMAGE", "IUEIMAGE"])
    base = image_cards(bp, nx, ext, xname=xname)
    return Hdu("image", with_extras(r, base, pool, safe=len(base)), data, n, bitpix=bp, naxis=nx, must=len(base), spots=spots)


TYPES = "LXBIJKAEDCM"
NAMES = ["RA", "DEC", "FLUX", "flux", "ID", "x", "COMPRESSED_DATA", "NAME", "A B", "T'"]


def gen_cols(r, vla=.25, maxcols=6, zero=.12):
    cols = []
    n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, maxcols, maxcols]) if zero else r.randrange(1, maxcols + 1)
    if r.random() < .04:
        n = r.choice([9, 10, 11, 12, 25, 101])
    for _ in range(n):
        c = {}
        if r.random() < vla:
            c = {"ty": r.choice("PPQ"), "n": 1, "elem": r.choice(TYPES),
                 "max": r.choice(["", f"({r.randrange(0, 9)})"]), "rep": r.choice(["1", "1", ""])}
        else:
            ty = r.choice(TYPES)
            rep = 0 if r.random() < zero else r.choice([1, 1, 1, 2, 3, 5, 8, 9, 17] if ty in "AXLB" else [1, 1, 1, 2, 3])
            c = {"ty": ty, "n": rep, "implicit": rep == 1 and r.random() < .4,
                 "suffix": r.choice(["", "", "", "3", " "]) if ty == "A" else ""}
        if r.random() < .7:
            c["name"] = r.choice(NAMES)
        cols.append(c)
    return cols


def gen_table(r, pool, vla=.25, zero=.12, maxrows=6, wild=0.0, rows=None, cols=None):
    cols = gen_cols(r, vla, zero=zero) if cols is None else cols
    rows = r.choice([0, 1, 1, 2, 3, 4, maxrows]) if rows is None else rows
    w = sum(col_width(c) for c in cols)
    has = any(c["ty"] in "PQ" for c in cols)
    heap = bytearray()
    gap = r.choice([0, 0, 1, 8, 37, 2880, 3001, 6000]) if has and r.random() < .4 else 0
    hn = r.choice([0, 16, 64, 200, 800]) if has else (r.choice([0, 0, 5]) if r.random() < .2 else 0)
    heap = r.randbytes(hn) if r.random() < .7 else extremes(r, hn, r.choice([2, 4, 8])) if r.random() < .5 else bytes(r.choice(b"TF\0 ") for _ in range(hn))
    ends = r.random() < .2
    main = bytearray()
    for _ in range(rows):
        for c in cols:
            if c["ty"] in "PQ":
                eb = EB[c["elem"]]
                k = r.random()
                cnt = 0 if k < .25 else r.randrange(0, 12)
                per = cnt if c["elem"] != "X" else (cnt + 7) // 8
                if per * eb > hn:
                    cnt = per = 0
                off = r.randrange(0, hn - per * eb + 1)
                if cnt and r.random() < .15:
                    off = hn - per * eb
                if r.random() < wild:
                    cnt, off = r.choice([(3, hn), (1, 2 ** 31), (2 ** 31, 0), (2 ** 32 - 1, 2 ** 32 - 1), (5, 2 ** 32 - 8)])
                    if c["ty"] == "Q" and r.random() < .5:
                        cnt, off = r.choice([(2 ** 63, 8), (1, 2 ** 64 - 1), (2 ** 61, 2 ** 63), (2 ** 40, 1)])
                main += cnt.to_bytes(4 if c["ty"] == "P" else 8, "big") + off.to_bytes(4 if c["ty"] == "P" else 8, "big")
            else:
                n = col_width(c)
                if c["ty"] == "L":
                    main += bytes(r.choice(b"TTFF\0tX1") for _ in range(n))
                elif ends and c["ty"] in "IJKEDCM":
                    main += extremes(r, n, min(8, EB[c["ty"]]) if c["ty"] != "C" else 4)
                else:
                    main += rand_bytes(r, n) if n < 40 else r.randbytes(n)
    pcount = gap + hn
    theap = None
    if gap or (has and r.random() < .2):
        theap = w * rows + gap
    base = bintable_cards(cols, rows, pcount, theap=theap)
    safe = [c for c in pool if not c.startswith((b"TFORM", b"TTYPE"))]
    data = bytes(main) + r.randbytes(gap) + heap
    return Hdu("bintable", with_extras(r, base, safe), [data], len(data), cols=cols, rows=rows, width=w, must=len(base))


def gen_ascii(r, pool):
    nf = r.randrange(0, 5)
    fields = []
    at = 1
    for _ in range(nf):
        w = r.randrange(1, 12)
        fields.append((at, r.choice([f"A{w}", f"I{w}", f"F{w}.{min(2, w)}", f"E{w}.{min(3, w)}", f"D{w}.{min(3, w)}"])))
        at += w + r.randrange(0, 3)
    w = at - 1 + r.randrange(0, 3)
    rows = r.choice([0, 1, 2, 5, 40, 2880 // max(1, w)])
    n = w * rows
    d = bytes(r.choice(b" 0123456789.EeD+-abc") for _ in range(min(n, 6000)))
    d = (d * (n // max(1, len(d)) + 1))[:n]
    base = ascii_cards(fields, w, rows)
    return Hdu("ascii", with_extras(r, base, [c for c in pool if not c.startswith((b"TFORM",))]), [d], n,
               fields=fields, width=w, rows=rows, must=len(base))


def gen_hdus(r, pool, mix=None, nmax=5, huge=False, first=None, vla=.25, wild=0.0, tiled=0):
    mix = mix or ("image", "image", "bintable", "ascii")
    n = r.choice([0, 1, 1, 2, 2, 3, 4, nmax])
    if not huge and nmax >= 4 and r.random() < .02:           # many HDUs
        n = r.choice([9, 17, 33, 70])
        pool, mix = pool[:2], ("image", "image", "ascii", "bintable")
    if huge:
        vla = 0        # a stray descriptor would make a row of gigabytes
    hs = [first or gen_image(r, pool, ext=False, huge=huge and r.random() < .4)]
    for _ in range(n):
        k = r.choice(mix)
        if k == "image":
            hs.append(gen_image(r, pool, ext=True, huge=huge and r.random() < .4))
        elif k == "bintable" and tiled and r.random() < tiled:
            from . import tgen
            hs.append(tgen.gen_tiled(r, pool))
        elif k == "bintable":
            hs.append(gen_table(r, pool, vla=vla, wild=wild))
        else:
            hs.append(gen_ascii(r, pool))
    return hs


def render(r, hs, pads=True):
    f = File()
    marks = []                       # (start of header, start of data, end of data, end of padding)
    for i, h in enumerate(hs):
        a = len(f)
        f.add(header(h.cards, h.hpad))
        b = len(f)
        for d in h.data:
            f.add(d) if isinstance(d, bytes) else f.fill(*d)
        c = len(f)
        f.add((b" " if h.kind == "ascii" else b"\0" if r.random() < .9 else b"\x45") * data_pad(h.dlen()))
        marks.append((a, b, c, len(f)))
    return f, marks


def cut(f, n):
    g = File()
    for s in f.segs:
        if n <= 0:
            break
        if isinstance(s, bytes):
            g.add(s[:n])
            n -= len(s)
        else:
            g.fill(min(n, s[0]), s[1])
            n -= s[0]
    return g


def truncate(r, f, marks):
    """cut the file somewhere interesting"""
    n = len(f)
    a, b, c, d = r.choice(marks)
    k = r.randrange(8)
    at = (c if k == 0 else r.randrange(b, c + 1) if k in (1, 2) else r.randrange(a, b + 1) if k in (3, 4)
          else b if k == 5 else r.choice([d - 1, d, c + 1]) if k == 6 else r.randrange(0, n + 1))
    at = max(0, min(n, at + r.choice([0, 0, 0, -1, 1])))
    return cut(f, at)


# ---------------------------------------------------------------------- ops
def skips(r, total):
    """how many pixels to pass over unseen"""
    return min(total + 1, r.choice([1, 2, 255, 256, 1000, 65530, 65536, 70000, total // 2, max(0, total - 3), total])) if total < 3 * 10 ** 5 \
        else r.choice([1, 250, 4090, 65530, 65536, 140000])


def img_sub(r, h, n=None):
    total = prod(h.naxis) if h.naxis else 0
    s = []
    for _ in range(n or r.randrange(1, 5)):
        k = r.random()
        if k < .45:
            s.append({"k": "it", "n": r.choice([0, 1, 1, 2, 3, min(total, 400), min(total + 1, 401)])})
        elif k < .55:
            s.append({"k": "skip", "n": skips(r, total)})
        else:
            i = r.choice([0, max(0, total - 1), total, total + 1, r.randrange(0, total + 2)]) if k < .8 else r.randrange(0, max(1, total))
            if getattr(h, "spots", None) and r.random() < .8:
                i = r.choice(h.spots)
            if r.random() < .04:
                i = r.choice([2 ** 63 - 1, 2 ** 64 - 1, 2 ** 62, (total * 2 ** 32) % 2 ** 64])
            s.append({"k": "rv", "n": i})
    return s


def col_ids(r, h):
    n = len(h.cols)
    ids = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
        k = r.random()
        if k < .6 and n:
            ids.append(r.randrange(n))
        elif k < .9:
            ids.append(r.choice(NAMES))
        else:
            ids.append(r.choice([n, n + 1, 999, 10 ** 9]))
    return ids


def tab_sub(r, h, sel=.3, seek=.25):
    s = []
    if r.random() < .12:
        return [{"k": "rows0", "n": h.rows + 1}]
    if r.random() < .08:
        return [{"k": "bytes", "n": r.choice([0, 3, h.width * h.rows, h.width * h.rows + 9])}]
    per = max(1, sum(c["n"] for c in h.cols))
    for _ in range(r.randrange(1, 6)):
        k = r.random()
        if k < sel:
            s.append({"k": "sel", "c": col_ids(r, h)})
        elif k < sel + seek:
            s.append({"k": "seek", "n": r.choice([0, max(0, h.rows - 1), h.rows, r.randrange(h.rows + 1), r.randrange(h.rows + 1)])})
        elif k < .88:
            s.append({"k": "it", "n": r.choice([0, 1, 1, 2, 3, per, per + 1, 500])})
        elif k < .95:
            s.append({"k": "rows", "n": r.choice([1, 1, 2])})
        else:
            s.append({"k": "raw"})
    if r.random() < .35:
        s.append({"k": "rows", "n": r.choice([1, 2, h.rows, h.rows + 1, h.rows + 2])})
    return s


def data_op(r, h):
    n = h.dlen()
    if r.random() < .12:
        return {"op": "read", "n": r.choice([0, 1, 80, 100, min(n, 3000), 2880])}
    if h.kind == "image":
        return {"op": "imgraw"} if r.random() < .1 and n < 6000 else {"op": "img", "sub": img_sub(r, h)}
    if h.kind == "bintable":
        if getattr(h, "tiled", False) and r.random() < .7:
            from . import tgen
            return {"op": "tab", "sub": [tgen.pix(r, h)]}
        return {"op": "tab", "sub": tab_sub(r, h)}
    return {"op": "asc", "n": r.choice([0, 1, 7, min(n, 3000), min(n, 3000) + 1])}


def history(r, hs, touch=.6, clone=.05, full=True, more=2):
    ops = []
    for h in hs:
        ops.append({"op": "next"})
        if r.random() < .2:
            ops.append({"op": "pos"})
        while r.random() < touch:
            ops.append(data_op(r, h))
            if r.random() < .6:
                break
        if r.random() < clone:
            ops.append({"op": "clone", "burn": r.randrange(0, 3)})
        if not full and r.random() < .1:
            break
    for _ in range(r.randrange(1, more + 1)):
        ops.append({"op": "next"})
    return ops


def reader(r, f, hs=None, only=None):
    """how the bytes are presented"""
    if not f.small() or r.random() < .25:
        ch = [] if r.random() < .3 else [r.choice([1, 2, 3, 7, 79, 80, 81, 2879, 2880, 2881, 10 ** 6]) for _ in range(r.randrange(1, 5))]
        if ch and r.random() < .3:
            ch.insert(r.randrange(len(ch) + 1), 0)          # an interrupted read
        if not f.small():
            ch = [max(64, c) for c in ch]
        if r.random() < .5:
            return {"rd": "sparse", "chunks": ch}
        return {"rd": "bufsparse", "chunks": ch, "cap": r.choice([1, 2, 79, 80, 81, 1000, 2880, 8192, 65536])}
    k = r.random()
    return {"rd": "cursor" if k < .7 else "file" if k < .8 else "buffile" if k < .9 else "open"}


def case(f, ops, rd, hs=None, marks=None, **kw):
    if hs is not None:
        from . import tgen
        kw["inf"] = tgen.inflations(hs, marks)
    c = {"dom": "sync", "file": f.json(), "ops": ops, "_f": f}
    c.update(rd)
    c.update(kw)
    return c
