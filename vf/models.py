"""The bounded models of the specification (spec/MC_*.tla): run TLC over all their states, and turn each
behaviour they print into a case for the real code.  Nothing here judges: Trace_Sync.tla does."""
import json
import os
import random
import re
import shutil
import struct
import tempfile
import zlib

from . import batteries as B
from . import gen, hgen, runner
from .fitsfile import BLK, File, ascii_cards, bintable_cards, card, header, image_cards, pad80, scard

IMG0 = header(image_cards(8, []))


def run_tlc(module, deep):
    tmp = tempfile.mkdtemp(prefix="fvm-")
    try:
        cfg = module + ("_deep" if deep else "") + ".cfg"
        rc, out = runner.java(["-config", cfg, "-metadir", os.path.join(tmp, "m"), "-workers", "4", "-noGenerateSpecTE", module + ".tla"],
                              timeout=3000, mem="8g", tmpdir=tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if "No error has been found" not in out:
        raise runner.ToolError(f"{module}: " + re.sub(r'"CASE.*', "", out)[-3000:])
    cases = sorted(set(m.group(1).replace('\\"', '"') for m in re.finditer(r'"CASE (\{.*\})"', out)))
    g, d = runner.tlc_counts(out)
    return [json.loads(c) for c in cases], d, g


def readers(r):
    """a reader for a small file"""
    k = r.randrange(8)
    if k < 3:
        return {"rd": "cursor"}
    if k < 5:
        return {"rd": "sparse", "chunks": r.choice([[1], [7, 80], [79], [2880], [0, 81], [5, 0, 1, 4000]])}
    if k < 7:
        return {"rd": "bufsparse", "chunks": r.choice([[], [3], [80], [2881, 0]]), "cap": r.choice([1, 80, 100, 2880, 8192])}
    return {"rd": "open"}


# ------------------------------------------------------------------ MC_Walk
SIZE = {0: [0], 1: [17, 1, 720, 79], 4: [BLK, BLK - 1, 2161], 5: [BLK + 1, BLK + 80, BLK + 719]}


def walk_file(rec, r):
    f = File()
    hs = []
    for i, h in enumerate(rec["file"]):
        n = r.choice(SIZE[h["size"]])
        data = gen.rand_bytes(r, n)
        if h["kind"] == "image":
            f.add(header(image_cards(8, [n] if n or r.random() < .5 else [], ext=i > 0)))
        else:
            rows = r.choice([q for q in (1, 1, 2, 3, 4, 5) if n % q == 0])
            w = n // rows
            if h["kind"] == "bintable":
                f.add(header(bintable_cards([{"ty": "B", "n": w}], rows)))
            else:
                f.add(header(ascii_cards([], w, rows)))
        f.add(data).add(b"\0" * (-n % BLK))
        hs.append((h["kind"], n))
    if rec["cut"] * 720 < len(f):
        f = gen.cut(f, rec["cut"] * 720 + r.choice([0, 0, 0, 1, 79, 80, 719]))
    return f, hs


def walk_ops(rec, hs, r):
    ops, i = [], -1
    for a in rec["log"]:
        if a == "next":
            i += 1
            ops.append({"op": "next"})
            continue
        kind, n = hs[i]
        if a == "past":
            ops.append({"op": "read", "n": n + r.choice([1, 2880, 2881, 5000])})
        else:
            m = n + 1 if a == "all" else r.choice([0, 1, n // 2, max(0, n - 1)])
            ops.append({"image": {"op": "img", "sub": [{"k": "it", "n": m}] + ([{"k": "rv", "n": r.randrange(n)}] if n and r.random() < .4 else [])},
                        "bintable": {"op": "tab", "sub": [{"k": "it", "n": m}] if r.random() < .7 else [{"k": "rows0", "n": 1}]},
                        "ascii": {"op": "asc", "n": m}}[kind])
    return ops + [{"op": "next"}] * 2


def walk(rec, r):
    f, hs = walk_file(rec, r)
    yield gen.case(f, walk_ops(rec, hs, r), readers(r))


def walk_gz(rec, r):
    f, hs = walk_file(rec, r)
    yield B.gz_case(r, f, B.gzip_bytes(r, f.flat()), walk_ops(rec, hs, r), True, True)


def walk_cli(rec, r):
    if all(a == "next" for a in rec["log"]):
        f, hs = walk_file(rec, r)
        yield {"dom": "cli", "file": f.json(), "ops": [{"op": "cli", "absent": False}], "_f": f}


# --------------------------------------------------------- headers (MC_Text ...)
def batched(fields):
    """value fields, some to a header; every one looked up as several types"""
    def make(recs, r):
        cards = []
        for t in recs:
            for v in fields(bytes(t["txt"]), r):
                cards.append(v)
        for i in range(0, len(cards), 20):
            part = [pad80(b"K%-7d= " % j + v) for j, v in enumerate(cards[i:i + 20])]
            q = [{"key": f"K{j}", "ty": r.choice(hgen.TYS)} for j in range(len(part)) for _ in range(2)]
            f = File.of(header(image_cards(8, [], extra=part)))
            yield gen.case(f, [{"op": "next"}, {"op": "hdr", "q": q}], {"rd": "cursor"})
    make.batch = True
    return make


def text_fields(t, r):
    q = b"'" + t.replace(b"'", b"''") + b"'"
    yield r.choice([q, q + b" / it's / x", b"  " + q + b"/c", b"'" + t.replace(b"'", b"''") + b"   '"])
    yield t if r.random() < .7 else b"   " + t


def number_fields(t, r):
    yield r.choice([t, t.rjust(20), t + b" / c", t + b"/", b" " + t + b"   "])


def structural(rec, r):
    """the text as the value field of a keyword the structure of the file hangs on"""
    t = bytes(rec["txt"])
    for i in range(8 if len(t) < 3 else 1):
        yield structural1(t, r, i)


def structural1(t, r, turn):
    word = any(c in b"'&/a" for c in t)
    k = r.randrange(4)
    if k == 0:
        cs, n = image_cards(r.choice([8, 16, -32]), r.choice([[], [1], [3, 2]]), ext=r.random() < .8 or turn == 1), 24
    elif k == 1:
        cs, n = bintable_cards([{"ty": "B", "n": 1, "name": "a"}, {"ty": "I", "n": 2, "name": "b"}], 2), 10
    elif k == 2:
        cs, n = ascii_cards([(1, "A3"), (4, "I2")], 5, 2), 10
    else:
        cs, n = bintable_cards([{"ty": "P", "n": 1, "elem": "B", "name": "COMPRESSED_DATA"}], 1, 4, extra=[
            card("ZIMAGE", "T"), scard("ZCMPTYPE", "GZIP_1"), card("ZBITPIX", 8), card("ZNAXIS", 1), card("ZNAXIS1", 3), card("ZTILE1", 3)]), 12
    at = list(range(len(cs)))
    if word and (r.random() < .6 or turn == 1):
        at = [0]
    i = r.choice(at)
    kw = cs[i][:8]
    if word:
        t = t.replace(b"a", {b"XTENSION": r.choice([b"IMAGE", b"TABLE", b"BINTABLE"]), b"SIMPLE  ": b"T", b"ZCMPTYPE": b"RICE_1",
                             b"TTYPE1  ": b"COMPRESSED_DATA"}.get(kw, b"1J" if kw[:5] == b"TFORM" else b"a"))
    cs[i] = pad80((kw + b"= " + t)[:80])
    prim = cs[0][:6] == b"SIMPLE"
    f = File()
    if not prim:
        f.add(IMG0)
    f.add(header(cs)).add(r.randbytes(n) + b"\0" * (BLK - n)).add(header(image_cards(8, [3], ext=True)) + b"abc" + b"\0" * (BLK - 3))
    ops = [{"op": "next"}] * 5
    if r.random() < .2:
        ops.insert(1 if prim else 2, {"op": "hdr", "q": [{"key": kw.decode().strip(), "ty": r.choice(hgen.TYS)}]})
    return gen.case(f, ops, {"rd": "cursor"})


DECK = [b"K       = 'ab&'", b"K       = 'ab'", b"LL      = 'c &'  / one", b"K       = 12", b"CONTINUE  'x&'", b"CONTINUE  'y'   / two",
        b"CONTINUE  ''", b"CONTINUE  '&'  / three", b"CONTINUE  5", b"COMMENT   'z&'", b"CONTINUE= 'u'", b"HIERARCH K M = 'h&' / four"]


def chain(rec, r):
    cs = [pad80(DECK[i - 1]) for i in rec["seq"]]
    f = File.of(header(image_cards(8, [], extra=cs)))
    q = [{"key": k, "ty": t} for k in ("K", "LL", "K.M") for t in ("str", "value")[:1]]
    yield gen.case(f, [{"op": "next"}, {"op": "hdr", "q": q}], {"rd": "cursor"})


# ------------------------------------------------------------------ MC_Accept
def accept(rec, r):
    cs = []
    for kw, v in zip(rec["kw"], rec["val"]):
        if v:
            cs.append(card(kw, v) if r.random() < .5 else pad80(f"{kw:<8}= {v}".encode()))
    prim = rec["kind"] == "image" and r.random() < .5
    x = {"image": "IMAGE", "bintable": "BINTABLE", "ascii": "TABLE"}[rec["kind"]]
    if rec["kind"] == "ascii":
        cs += [card("TBCOL1", 1), scard("TFORM1", "A6")]
    if rec["kind"] == "image" and not prim:
        cs += [card("PCOUNT", 0), card("GCOUNT", 1)]
    f = File()
    if prim:
        f.add(header([card("SIMPLE", "T")] + cs))
    else:
        f.add(IMG0).add(header([scard("XTENSION", x)] + cs))
    f.add(r.randbytes(BLK)).add(header(image_cards(8, [3], ext=True)) + b"abc" + b"\0" * (BLK - 3))
    yield gen.case(f, [{"op": "next"}] * 5, {"rd": "cursor"})


# ----------------------------------------------------------------- MC_Columns
def columns(recs, r):
    def form(i, b):
        return pad80(b"TFORM%-3d= '" % i + b + b"'")
    asc = [bytes(x["form"]) for x in recs if x["tab"] == "asc"]
    for i in range(0, len(asc), 12):
        part = asc[i:i + 12]
        cs = [scard("XTENSION", "TABLE"), card("BITPIX", 8), card("NAXIS", 2), card("NAXIS1", 40), card("NAXIS2", 1), card("PCOUNT", 0),
              card("GCOUNT", 1), card("TFIELDS", len(part))]
        for j, b in enumerate(part):
            cs += [card(f"TBCOL{j + 1}", 3 * j + 1), form(j + 1, b)]
        f = File.of(IMG0 + header(cs) + b" " * BLK)
        yield gen.case(f, [{"op": "next"}, {"op": "next"}, {"op": "meta", "names": []}, {"op": "next"}], {"rd": "cursor"})
    for x in recs:
        if x["tab"] != "bin":
            continue
        w, b = x["width"], bytes(x["form"])
        rows = 2 if w < 200 else 1
        vla = b"P" in b or b"Q" in b
        cs = [scard("XTENSION", "BINTABLE"), card("BITPIX", 8), card("NAXIS", 2), card("NAXIS1", w + 3), card("NAXIS2", rows), card("PCOUNT", 8 if vla else 0),
              card("GCOUNT", 1), card("TFIELDS", 3), form(1, b"1B"), scard("TTYPE1", "L"), form(2, b), scard("TTYPE2", "M"), form(3, b"I"), scard("TTYPE3", "R")]
        data = b""
        for _ in range(rows):
            cell = r.randbytes(w)
            if vla and w in (8, 16):
                cell = (1).to_bytes(w // 2, "big") + r.randrange(5).to_bytes(w // 2, "big")
            data += r.randbytes(1) + cell + r.randbytes(2)
        if vla:
            data += r.randbytes(8)
        f = File.of(IMG0 + header(cs) + data + b"\0" * (-len(data) % BLK))
        sub = r.choice([[{"k": "it", "n": 60}], [{"k": "sel", "c": ["R"]}, {"k": "it", "n": 9}], [{"k": "sel", "c": [1, "L"]}, {"k": "it", "n": 60}]])
        if w < 200 and r.random() < .3:
            sub = [{"k": "rows", "n": 3}]
        yield gen.case(f, [{"op": "next"}, {"op": "next"}, {"op": "meta", "names": ["L", "M", "R", "l"]}, {"op": "tab", "sub": sub}, {"op": "next"}], {"rd": "cursor"})


columns.batch = True


# ------------------------------------------------------------------ MC_Cursor
def cursor(rec, r):
    ty = r.choice(["BIJ", "JBE", "AIK", "DLB", "CMI", "EAJ", "LDB"])
    cols = [{"ty": ty[i], "n": n, "name": f"C{i}"} for i, n in enumerate(rec["cols"])]
    data = r.randbytes(rec["rows"] * sum(n * gen.EB[ty[i]] for i, n in enumerate(rec["cols"])))
    f = File.of(IMG0 + header(bintable_cards(cols, rec["rows"])) + data + b"\0" * (-len(data) % BLK))
    sub = []
    for o in rec["log"]:
        if o["k"] == "sel":
            ids = [c - 1 if r.random() < .6 else f"C{c - 1}" for c in o["c"]]
            r.shuffle(ids)
            sub.append({"k": "sel", "c": ids})
        else:
            sub.append({"k": o["k"], "n": o["n"]})
    if r.random() < .3:
        sub.append({"k": "rows", "n": rec["rows"] + 1})
    yield gen.case(f, [{"op": "next"}, {"op": "next"}, {"op": "tab", "sub": sub}, {"op": "next"}], readers(r))


# ------------------------------------------------------------------- MC_Image
def image(rec, r):
    bp = r.choice(gen.BITPIX)
    nb = abs(bp) // 8
    n = rec["len"]
    data = r.randbytes(n * nb)
    pad = -len(data) % BLK
    ext = r.random() < .4
    f = File.of((IMG0 if ext else b"") + header(image_cards(bp, r.choice([[n], [n, 1], [1, n]]), ext=ext)) + data)
    if rec["have"] < n:
        f = gen.cut(f, len(f) - (n - rec["have"]) * nb + r.randrange(nb))
    else:
        f.add(b"\0" * (pad if r.random() < .8 else 0))
    yield gen.case(f, [{"op": "next"}] * (1 + ext) + [{"op": "img", "sub": rec["log"]}, {"op": "next"}], readers(r))


# --------------------------------------------------------------------- MC_Vla
def vla(rec, r):
    el = r.choice("JE")
    ty = r.choice("PQ")
    h = 4 if ty == "P" else 8
    cols = [{"ty": "B", "n": 1}, {"ty": ty, "n": 1, "elem": el, "rep": "1"}, {"ty": "I", "n": 1}]
    heap = r.randbytes(20)
    main = b""
    for c, o in rec["desc"]:
        main += r.randbytes(1) + c.to_bytes(h, "big") + o.to_bytes(h, "big") + r.randbytes(2)
    gap = rec["gap"]
    theap = len(main) + gap if gap or r.random() < .3 else None
    data = main + r.randbytes(gap) + heap
    f = File.of(IMG0 + header(bintable_cards(cols, 2, gap + len(heap), theap=theap)) + data + b"\0" * (-len(data) % BLK))
    sub = []
    k = r.randrange(3)
    if k == 1:
        sub.append({"k": "sel", "c": [1]})
    for v in rec["visit"]:
        sub += [{"k": "seek", "n": v - 1}, {"k": "it", "n": rec["desc"][v - 1][0] + (0 if k == 1 else 2)}]
    if r.random() < .3:
        sub.append({"k": "it", "n": 50})
    yield gen.case(f, [{"op": "next"}, {"op": "next"}, {"op": "tab", "sub": sub}, {"op": "next"}], readers(r))


# ------------------------------------------------- tile-compressed images
def tiled(naxis, tile, bp, algo, blobs, nb=32, extra=(), cols=(), vals=None):
    """a table of tiles; blobs are (compressed, what gzip inflates to or None)"""
    cs = [{"ty": "P", "n": 1, "elem": "B", "name": "COMPRESSED_DATA", "rep": "1"}] + list(cols)
    heap, main, inf = b"", b"", []
    for i, (b, raw) in enumerate(blobs):
        main += len(b).to_bytes(4, "big") + len(heap).to_bytes(4, "big") + (vals[i] if vals else b"")
        if raw is not None:
            inf.append((len(heap), len(b), raw))
        heap += b
    ex = [card("ZIMAGE", "T"), scard("ZCMPTYPE", algo), card("ZBITPIX", bp), card("ZNAXIS", len(naxis))]
    ex += [card(f"ZNAXIS{i + 1}", a) for i, a in enumerate(naxis)] + [card(f"ZTILE{i + 1}", a) for i, a in enumerate(tile)]
    if algo.startswith("RICE"):
        ex += [scard("ZNAME1", "BLOCKSIZE"), card("ZVAL1", nb), scard("ZNAME2", "BYTEPIX"), card("ZVAL2", 4)]
    data = main + heap
    f = File.of(IMG0 + header(bintable_cards(cs, len(blobs), len(heap), extra=ex + list(extra))))
    at = len(f)
    f.add(data + b"\0" * (-len(data) % BLK))
    return f, [(at + len(main) + a, n, raw.hex()) for a, n, raw in inf]


def stored(words, algo, r, nb=32):
    from . import tgen
    if algo == "RICE_1":
        return tgen.rice(words, nb, r), None
    raw = b"".join(w.to_bytes(4, "big") for w in words)
    if algo == "GZIP_2":
        raw = bytes(raw[4 * i + j] for j in range(4) for i in range(len(words)))
    c = zlib.compressobj(6, zlib.DEFLATED, 31)
    return c.compress(raw) + c.flush(), raw


def tiling_file(rec, r):
    from . import tgen
    d = 3 if rec["shape"][2] > 1 or r.random() < .3 else 2
    naxis, tile = rec["shape"][:d], rec["tshape"][:d]
    bp, algo = r.choice([8, 16, 32]), r.choice(["GZIP_1", "GZIP_2", "RICE_1"])
    hi = {8: 256, 16: 32768, 32: 2 ** 31}[bp]
    blobs = [stored([r.randrange(hi) for _ in range(n)], algo, r) for n in tgen.tile_sizes(naxis, tile)]
    return tiled(naxis, tile, bp, algo, blobs)


def tiling(rec, r):
    f, inf = tiling_file(rec, r)
    n = rec["shape"][0] * rec["shape"][1] * rec["shape"][2]
    yield gen.case(f, [{"op": "next"}, {"op": "next"}, {"op": "tab", "sub": [{"k": "pix", "from": 0, "n": n + 1}]}, {"op": "next"}], readers(r), inf=inf)


def tiling_shown(rec, r):
    f, inf = tiling_file(rec, r)
    yield {"dom": "hook", "file": f.json(), "ops": [{"op": "hook"}], "_f": f, "inf": inf}


def rice(rec, r):
    f, inf = tiled([rec["n"]], [rec["n"]], r.choice([8, 16, 32, 32]), "RICE_1", [(bytes(rec["b"]), None)], rec["nb"])
    yield gen.case(f, [{"op": "next"}, {"op": "next"}, {"op": "tab", "sub": [{"k": "pix", "from": 0, "n": rec["n"] + 1}]}, {"op": "next"}], {"rd": "cursor"})


def dither(rec, r):
    t = rec["tile"]
    words = [[r.randrange(-9, 9) & 0xffffffff for _ in range(2)] for _ in range(t)] + [[w & 0xffffffff for w in rec["w"]]]
    algo = r.choice(["GZIP_1", "GZIP_2", "RICE_1"])
    s, z = [(1.0, 0.0), (0.5, 10.0), (-3.25, 1e-3)][rec["sc"] - 1]
    ex = [[scard("ZQUANTIZ", "NO_DITHER")], [scard("ZQUANTIZ", "SUBTRACTIVE_DITHER_1"), card("ZDITHER0", rec["zd"])],
          [scard("ZQUANTIZ", "SUBTRACTIVE_DITHER_2"), card("ZDITHER0", rec["zd"])]][rec["method"]]
    if rec["blank"]:
        ex = ex + [card("ZBLANK", rec["blank"])]
    f, inf = tiled([2, t + 1], [2, 1], r.choice([-32, -32, -64]), algo, [stored(w, algo, r) for w in words], extra=ex,
                   cols=[{"ty": "D", "n": 1, "name": "ZSCALE"}, {"ty": "D", "n": 1, "name": "ZZERO"}], vals=[struct.pack(">dd", s, z)] * (t + 1))
    yield gen.case(f, [{"op": "next"}, {"op": "next"}, {"op": "tab", "sub": [{"k": "pix", "from": 0, "n": 2 * t + 3}]}, {"op": "next"}], {"rd": "cursor"}, inf=inf)


# ------------------------------------------------------------------- MC_Async
STEP = {0: [0], 1: [1, 1, 2, 7], 2: [3, 40], 4: [79, 80, 81, 2880, 3000]}
DU = {0: [0], 2: [1], 5: [4, 20]}


def arrival(rec, r):
    hs, f, starts = [], File(), []
    for i, s in enumerate(rec["file"]):
        n = r.choice(DU[s])
        starts.append(len(f))
        bp = r.choice([16, 16, -32, 8, 64])
        d = r.randbytes(n * abs(bp) // 8)
        f.add(header(image_cards(bp, [n], ext=i > 0))).add(d + b"\0" * (-len(d) % BLK))
        hs.append(n)
    k = rec["total"] - rec["cut"]
    # which of the places of the model it is, from the end of the file
    B_, last = 6, starts[-1]
    start_last = rec["total"] - 6 - (rec["file"][-1] + 5) // 6 * 6
    if rec["cut"] == rec["total"]:
        pass
    elif rec["cut"] == start_last + 1:
        f = gen.cut(f, last + r.choice([1, 79]))
    elif rec["cut"] == start_last + 3:
        f = gen.cut(f, last + 80 * r.randrange(1, 6))
    elif rec["cut"] == start_last + 7:
        f = gen.cut(f, last + BLK + 1)
    else:
        f = gen.cut(f, len(f) - 1)
    ops = []
    for n in hs:
        ops += [{"op": "anext", "poke": r.choice([0, 0, 1])}, {"op": "avals", "n": min(rec["take"], 1) if rec["take"] < 9 else n + 1, "poke": r.random() < .3}]
    ops += [{"op": "anext", "poke": 0}] * 2
    yield {"dom": "async", "file": f.json(), "ops": ops, "_f": f, "plan": [r.choice(STEP[p]) for p in rec["plan"]],
           "cap": r.choice([1, 2, 79, 80, 100, 2880, 8192])}


# ------------------------------------------------------------------------ all
def behaviours(module, render, deep, most, seed):
    """-> the cases, TLC's states and transitions, number of behaviours"""
    recs, states, trans = run_tlc(module, deep)
    r = random.Random(f"{module}/{seed}")
    n = len(recs)
    if len(recs) > most:
        short = [x for x in recs if len(x.get("txt", "....")) < 4]          # short texts are all taken
        recs = short + r.sample([x for x in recs if len(x.get("txt", "....")) >= 4], max(0, most - len(short)))
    if getattr(render, "batch", False):
        cases = list(render(recs, r))
    else:
        cases = [c for x in recs for c in render(x, r)]
    return cases, states, trans, n
