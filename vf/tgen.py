"""Random tile-compressed images (generation only)."""
import struct
import zlib

from . import gen
from .fitsfile import bintable_cards, card, col_width, prod, scard

M32 = 0xffffffff


def zig(a, b):
    """difference b - a as RICE stores it"""
    d = (b - a) & M32
    return ((d << 1) & M32) ^ (M32 if d >> 31 else 0)


def rice(words, nb, r, waste=.15):
    """RICE_1 stream; any code that can express a block may be chosen"""
    bits = []

    def put(v, n):
        bits.extend((v >> (n - 1 - i)) & 1 for i in range(n))

    put(words[0], 32)
    prev = words[0]
    for i in range(0, len(words), nb):
        blk = words[i:i + nb]
        ms = []
        for x in blk:
            ms.append(zig(prev, x))
            prev = x
        ok = [26] + ([0] if not any(ms) else [])
        best = max(m.bit_length() for m in ms)
        top = 48 if r.random() < .97 else 700
        for c in range(1, 26):
            if all((m >> (c - 1)) < top for m in ms):
                ok.append(c)
        if top > 48:
            c = min((c for c in ok if c), default=26)
        elif r.random() < waste:
            c = r.choice(ok)
        else:
            c = 0 if 0 in ok else min((c for c in ok if c), key=lambda c: 32 * len(ms) if c == 26 else sum((m >> (c - 1)) + c for m in ms))
        put(c, 5)
        for m in ms:
            if c == 26:
                put(m, 32)
            elif c:
                put(0, m >> (c - 1))
                put(1, 1)
                put(m & ((1 << (c - 1)) - 1), c - 1)
    while len(bits) % 8:
        bits.append(0)
    return bytes(sum(b << (7 - j) for j, b in enumerate(bits[i:i + 8])) for i in range(0, len(bits), 8))


def gz(raw, r):
    lvl = r.choice([0, 1, 6, 9])
    c = zlib.compressobj(lvl, zlib.DEFLATED, 31)
    out = b""
    if r.random() < .3 and len(raw) > 4:
        k = r.randrange(len(raw))
        out = c.compress(raw[:k]) + c.flush(zlib.Z_FULL_FLUSH)
        raw = raw[k:]
    return out + c.compress(raw) + c.flush()


def pattern(r, n, bitpix, special=()):
    """n words"""
    lo, hi = {8: (0, 255), 16: (-2 ** 15, 2 ** 15 - 1)}.get(bitpix, (-2 ** 31, 2 ** 31 - 1))
    k = r.random()
    if bitpix < 0 and k < .6:
        w = [r.randrange(-200, 200) for _ in range(n)]
    elif k < .35:
        v = r.randrange(lo, hi + 1) if r.random() < .5 else 0
        s = r.choice([1, 3, 40, 3000])
        w = []
        for _ in range(n):
            v += r.randrange(-s, s + 1)
            w.append(v)
    elif k < .5:
        w = [r.randrange(lo, hi + 1) for _ in range(n)]
    elif k < .6:
        w = [r.choice([lo, hi, 0, -1, 1, lo + 1]) for _ in range(n)]
    elif k < .8:
        w = []
        while len(w) < n:
            w += [r.randrange(-5, 6) if r.random() < .5 else r.randrange(lo, hi + 1)] * r.choice([1, 2, 8, 32, 40])
        w = w[:n]
    else:
        w = [i * r.choice([1, 1, 2]) for i in range(n)]
    for s in special:
        for _ in range(r.choice([0, 1, 1, 3])):
            w[r.randrange(n)] = s
    if bitpix in (8, 16) and r.random() < .7:
        w = [max(lo, min(hi, x)) for x in w]
    return [x & M32 for x in w]


def calm_pattern(r, n, bitpix):
    """mostly constant, some restless stretches"""
    w = []
    while len(w) < n:
        w += [r.randrange(256)] * r.choice([500, 2000, 9000])
        w += [r.randrange(256) for _ in range(60)]
    return w[:n]


def tile_sizes(naxis, tile):
    # first axis varies fastest
    sizes = [[]]
    for a, t in zip(naxis, tile):
        sizes = [s + [min(t, a - p)] for p in range(0, a, t) for s in sizes]
    # above the later axes are the outer loop already
    return [prod(s) for s in sizes]


def f32(x):
    return struct.pack(">f", x)


def gen_tiled(r, pool=(), bitpix=None, algo=None, big=False, broken=.06, method=None, shape=None, more=(), fixed=None, calm=False):
    bp = bitpix or r.choice([8, 16, 32, 32, -32, -32, -64])
    algo = algo or r.choice(["GZIP_1", "GZIP_2", "RICE_1", "RICE_1", "RICE_ONE"])
    if fixed:
        naxis, tile = fixed
    elif big:
        naxis, tile = r.choice([([10600], [10600]), ([5300, 2], [5300, 2]), ([10300, 2], None)])
    else:
        d = len(shape) if shape else r.choice([1, 2, 2, 2, 3])
        while True:
            naxis = list(shape) if shape else [r.choice([1, 2, 3, 5, 7, 8, 10, 13, 33]) for _ in range(d)]
            tile = [r.choice([1, 2, 3, 4, 5, 8, 16, 40, a, a]) for a in naxis]
            if r.random() < .3:
                tile = None
            if prod(naxis) <= (1000 if shape else 400) and len(tile_sizes(naxis, tile or [naxis[0]] + [1] * (d - 1))) <= 40:
                break
    eff = tile or [naxis[0]] + [1] * (len(naxis) - 1)
    sizes = tile_sizes(naxis, eff)
    fl = bp < 0
    method = (r.choice([0, 0, 1, 1, 2]) if method is None else method) if fl else 0
    cols = [{"ty": r.choice("PPQ"), "n": 1, "elem": "B", "max": r.choice(["", "(77)"]), "rep": r.choice(["1", "1", ""]),
             "name": "COMPRESSED_DATA" if r.random() < .8 else "GZIP_COMPRESSED_DATA", "role": "data"}]
    blank = None
    if fl:
        cols += [{"ty": r.choice("DDE"), "n": r.choice([1, 1, 1, 2]), "name": "ZSCALE", "role": "scale"},
                 {"ty": r.choice("DDE"), "n": r.choice([1, 1, 1, 2]), "name": "ZZERO", "role": "zero"}]
        k = r.random()
        if k < .3:
            cols.append({"ty": r.choice("JJIBK"), "n": r.choice([1, 1, 2]), "name": "ZBLANK", "role": "blank"})
            blank = "col"
        elif k < .55:
            blank = r.choice([-2147483648, 0, 7, 200])
    elif r.random() < .15:
        cols.append({"ty": "J", "n": 1, "name": "ZBLANK", "role": "extra"})
    for _ in range(r.choice([0, 0, 1, 2])):
        if r.random() < .3:
            cols.append({"ty": "P", "n": 1, "elem": r.choice("BJ"), "name": r.choice(["UNCOMPRESSED_DATA", "GZIP_COMPRESSED_DATA", "X"]), "role": "extra"})
        else:
            cols.append({"ty": r.choice("LXBIJKAEDCM"), "n": r.choice([0, 1, 2, 3, 9]), "name": r.choice([None, "EXTRA", "ID"]), "role": "extra"})
    r.shuffle(cols)
    # a second COMPRESSED_DATA-like column must not take the place of the data column
    if any(c["name"] == "GZIP_COMPRESSED_DATA" and c["role"] == "extra" for c in cols):
        for c in cols:
            if c["role"] == "data":
                c["name"] = "COMPRESSED_DATA"
    cols = [{k: v for k, v in c.items() if v is not None} for c in cols]
    nb = r.choice([32, 32, 64, 255] if calm else [32, 32, 16, 8, 1, 2, 5, 64, 255])
    rows = len(sizes)
    if r.random() < .12:
        rows = max(0, rows + r.choice([-1, 1, 2]))
    heap = bytearray()
    inf = []                                   # position in the heap, length, decompressed
    recs = []
    for t in range(rows):
        n = sizes[t] if t < len(sizes) else 3
        rec = {}
        bl = blank
        if blank == "col":
            ty = next(c["ty"] for c in cols if c.get("role") == "blank")
            bl = r.choice({"B": [0, 255, 7], "I": [-32768, 5, -1], "J": [-2147483648, 0, 99], "K": [-2147483648, 3, 2 ** 40, -1]}[ty])
        rec["blank"] = bl
        sp = ([bl] if isinstance(bl, int) else []) + ([-2147483647] + r.choice([[], [-2147483648], [-2147483646], [2147483647, -2147483645]]) if fl else [])
        w = calm_pattern(r, n, bp) if calm and n > 2000 else pattern(r, n, bp, sp)
        bad = r.random() < broken
        cut = 0
        if algo.startswith("RICE"):
            blob = rice(w, nb, r)
            if bad:
                cut = r.randrange(1, len(blob) + 1)
            raw = None
        else:
            raw = b"".join(x.to_bytes(4, "big") for x in w)
            if bad and r.random() < .4:
                raw = raw[:r.randrange(0, len(raw))]
                bad = False
            if algo == "GZIP_2":
                q = len(raw) // 4
                raw = bytes(raw[4 * i + j] for j in range(4) for i in range(q)) + raw[4 * q:]
            if r.random() < .1:
                raw += r.randbytes(r.randrange(1, 9)) if algo == "GZIP_1" else b""
            blob = gz(raw, r)
            if bad:
                cut = r.randrange(1, len(blob) + 1)
        rec.update(blob=blob, raw=raw, cut=cut)
        recs.append(rec)
    order = list(range(rows))
    if r.random() < .4:
        r.shuffle(order)
    for t in order:
        if r.random() < .3:
            heap += r.randbytes(r.randrange(1, 9))
        recs[t]["off"] = len(heap)
        heap += recs[t]["blob"]
        if recs[t]["raw"] is not None:
            inf.append((len(heap) - len(recs[t]["blob"]), len(recs[t]["blob"]), recs[t]["raw"]))
    heap += r.randbytes(r.choice([0, 0, 5, 50]))
    main = bytearray()
    for rec in recs:
        for c in cols:
            role = c.get("role")
            if role == "data":
                h = 4 if c["ty"] == "P" else 8
                cnt = len(rec["blob"]) - rec["cut"]
                if not rec["cut"] and r.random() < .1:
                    cnt = min(cnt + r.randrange(1, 9), len(heap) - rec["off"])
                main += cnt.to_bytes(h, "big") + rec["off"].to_bytes(h, "big")
            elif role in ("scale", "zero"):
                for _ in range(c["n"]):
                    if role == "scale":
                        x = r.choice([1.0, 0.5, -2.0, r.uniform(1e-3, 10), r.uniform(-3, 3), 3.7e-9])
                    else:
                        x = r.choice([0.0, 1.0, -1000.5, r.uniform(-50, 50), r.uniform(-1e6, 1e6)])
                    main += f32(x) if c["ty"] == "E" else struct.pack(">d", x)
            elif role == "blank":
                n = {"B": 1, "I": 2, "J": 4, "K": 8}[c["ty"]]
                main += rec["blank"].to_bytes(n, "big", signed=c["ty"] != "B") + r.randbytes(n * (c["n"] - 1))
            elif c["ty"] == "P":
                main += (0).to_bytes(4, "big") + r.randrange(0, 9).to_bytes(4, "big")
            else:
                main += r.randbytes(col_width(c))
    gap = r.choice([0, 0, 0, 3, 100, 3100])
    theap = len(main) + gap if gap or r.random() < .2 else None
    ex = [card("ZIMAGE", "T")] if r.random() < .9 else []
    ex += [scard("ZCMPTYPE", algo), card("ZBITPIX", bp), card("ZNAXIS", len(naxis))]
    ex += [card(f"ZNAXIS{i + 1}", a) for i, a in enumerate(naxis)]
    if tile:
        for i, t in enumerate(tile):
            # a default may be left out
            if t == (naxis[0] if i == 0 else 1) and r.random() < .4:
                continue
            ex.append(card(f"ZTILE{i + 1}", t))
    if algo.startswith("RICE"):
        nm = [("BLOCKSIZE", nb)] if nb != 32 or r.random() < .7 else []
        if r.random() < .6:
            nm.append(("BYTEPIX", 4))
        r.shuffle(nm)
        for i, (a, b) in enumerate(nm):
            ex += [scard(f"ZNAME{i + 1}", a), card(f"ZVAL{i + 1}", b)]
    if fl:
        if method:
            ex += [scard("ZQUANTIZ", f"SUBTRACTIVE_DITHER_{method}")]
            if r.random() < .95:
                ex += [card("ZDITHER0", r.choice([1, 2, 10000, 9999, r.randrange(1, 10001), r.randrange(1, 10001)]))]
        elif r.random() < .5:
            ex += [scard("ZQUANTIZ", "NO_DITHER")]
            if r.random() < .3:
                ex += [card("ZDITHER0", 17)]
    if isinstance(blank, int):
        ex.append(card("ZBLANK", blank))
    ex += list(more)
    if r.random() < .5:
        r.shuffle(ex)
    base = bintable_cards(cols, rows, gap + len(heap), extra=ex, theap=theap)
    data = bytes(main) + r.randbytes(gap) + bytes(heap)
    hoff = len(main) + gap
    safe = [c for c in pool if not c.startswith((b"TFORM", b"TTYPE", b"Z"))]
    return gen.Hdu("bintable", gen.with_extras(r, base, safe) if pool else base, [data], len(data), cols=cols, rows=rows,
                   width=len(main) // rows if rows else sum(col_width(c) for c in cols),
                   inf=[(hoff + a, n, raw) for a, n, raw in inf], npix=prod(naxis), tiled=True, must=len(base), naxis=naxis, bitpix=bp)


def inflations(hs, marks):
    """what the description of the file says about its gzip members"""
    return [(m[1] + a, n, raw.hex()) for h, m in zip(hs, marks) for a, n, raw in getattr(h, "inf", [])]


def pix(r, h):
    n = h.npix
    k = r.random()
    if k < .6:
        return {"k": "pix", "from": 0, "n": n + 1}
    if k < .8:
        return {"k": "pix", "from": 0, "n": r.randrange(0, n + 1)}
    f = r.randrange(0, n + 2)
    return {"k": "pix", "from": f, "n": r.choice([1, 5, n])}
