"""Rendering of FITS files from descriptions (generation only: nothing here judges)."""
BLK = 2880


def card(kw, val="", comment=None):
    """fixed-format card; val is already the text of the value field"""
    s = f"{kw:<8}= {val:>20}"
    if comment is not None:
        s += " / " + comment
    return pad80(s.encode("latin-1"))


def scard(kw, text, comment=None):
    q = "'" + text.replace("'", "''").ljust(8) + "'"
    s = f"{kw:<8}= {q:<20}"
    if comment is not None:
        s += " / " + comment
    return pad80(s.encode("latin-1"))


def pad80(b):
    return b[:80].ljust(80)


END = pad80(b"END")


def header(cards, pad=b" "):
    b = b"".join(cards) + END
    return b + pad * (-len(b) % BLK)


class File:
    """segments of bytes and fills"""

    def __init__(self):
        self.segs = []

    def add(self, b):
        if b:
            if self.segs and isinstance(self.segs[-1], bytes) and len(self.segs[-1]) < 1 << 20:
                self.segs[-1] += b
            else:
                self.segs.append(bytes(b))
        return self

    def fill(self, n, byte):
        if n:
            self.segs.append((n, byte))
        return self

    def __len__(self):
        return sum(len(s) if isinstance(s, bytes) else s[0] for s in self.segs)

    def flat(self):
        return b"".join(s if isinstance(s, bytes) else bytes([s[1]]) * s[0] for s in self.segs)

    def small(self):
        return len(self) < 1 << 22

    def json(self):
        return [["h", s.hex()] if isinstance(s, bytes) else ["f", s[0], s[1]] for s in self.segs]

    @staticmethod
    def of(b):
        return File().add(b)


class Dict80:
    """distinct 80-byte records shared by the files of one TLC run"""

    def __init__(self):
        self.ix = {}
        self.rows = []
        self.hint = []       # records worth parsing ahead (a matter of speed only)

    def id(self, b):
        i = self.ix.get(b)
        if i is None:
            self.rows.append(list(b))
            self.hint.append(1 if b.isascii() and b.decode().isprintable() else 0)
            i = self.ix[b] = len(self.rows)
        return i

    def encode(self, f):
        """file -> [runs, n, tail]"""
        runs = []
        at = 0
        buf = b""

        def put(n, d):
            nonlocal at
            if runs and runs[-1]["d"] == d:
                runs[-1]["n"] += n
            else:
                runs.append({"at": at, "n": n, "d": d})
            at += n

        for s in f.segs:
            if isinstance(s, bytes):
                b = buf + s
                k = len(b) // 80 * 80
                for i in range(0, k, 80):
                    put(1, self.id(b[i:i + 80]))
                buf = b[k:]
            else:
                n, byte = s
                if buf:
                    t = min(n, 80 - len(buf))
                    buf += bytes([byte]) * t
                    n -= t
                    if len(buf) == 80:
                        put(1, self.id(buf))
                        buf = b""
                if n >= 80:
                    put(n // 80, self.id(bytes([byte]) * 80))
                    n %= 80
                if n:
                    buf += bytes([byte]) * n
        return {"runs": runs, "n": at, "tail": list(buf)}


# ---------------------------------------------------------------- HDUs
NB = {8: 1, 16: 2, 32: 4, 64: 8, -32: 4, -64: 8}


def prod(xs):
    p = 1
    for x in xs:
        p *= x
    return p


def image_cards(bitpix, naxis, ext=False, extra=(), xname="IMAGE"):
    c = [scard("XTENSION", xname) if ext else card("SIMPLE", "T")]
    c += [card("BITPIX", bitpix), card("NAXIS", len(naxis))]
    c += [card(f"NAXIS{i + 1}", n) for i, n in enumerate(naxis)]
    if ext:
        c += [card("PCOUNT", 0), card("GCOUNT", 1)]
    return c + list(extra)


def image_size(bitpix, naxis):
    return NB[bitpix] * prod(naxis) if naxis else 0


def data_pad(n):
    return -n % BLK


EB = {"L": 1, "X": 1, "B": 1, "I": 2, "J": 4, "K": 8, "A": 1, "E": 4, "D": 8, "C": 8, "M": 16}


def col_width(c):
    ty, n = c["ty"], c["n"]
    if ty == "X":
        return (n + 7) // 8
    if ty in "PQ":
        return 8 if ty == "P" else 16
    return n * EB[ty]


def tform(c):
    ty = c["ty"]
    if ty in "PQ":
        return f"{c.get('rep', '1')}{ty}{c['elem']}{c.get('max', '')}"
    return f"{c['n'] if not c.get('implicit') else ''}{ty}{c.get('suffix', '')}"


def bintable_cards(cols, rows, pcount=0, extra=(), theap=None):
    w = sum(col_width(c) for c in cols)
    cs = [scard("XTENSION", "BINTABLE"), card("BITPIX", 8), card("NAXIS", 2), card("NAXIS1", w),
          card("NAXIS2", rows), card("PCOUNT", pcount), card("GCOUNT", 1), card("TFIELDS", len(cols))]
    for i, c in enumerate(cols):
        if c.get("name") is not None:
            cs.append(scard(f"TTYPE{i + 1}", c["name"]))
        cs.append(scard(f"TFORM{i + 1}", tform(c)))
    if theap is not None:
        cs.append(card("THEAP", theap))
    return cs + list(extra)


def ascii_cards(fields, w, rows, extra=()):
    cs = [scard("XTENSION", "TABLE"), card("BITPIX", 8), card("NAXIS", 2), card("NAXIS1", w),
          card("NAXIS2", rows), card("PCOUNT", 0), card("GCOUNT", 1), card("TFIELDS", len(fields))]
    for i, (tb, tf) in enumerate(fields):
        cs.append(card(f"TBCOL{i + 1}", tb))
        cs.append(scard(f"TFORM{i + 1}", tf))
    return cs + list(extra)
