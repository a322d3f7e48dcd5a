"""Random header records (generation only)."""
from .fitsfile import card, pad80, scard

KW = ["KEY", "A", "B", "LONGKEY8", "X_Y-Z9", "FOO", "lower", "OBJECT", "DATE", "N1", "  PAD", "K\u00e9"]
TXT = ["", " ", "  ", "x", "it's", "''", "a/b", "a / b", "&", "a&", "a &", "&&", "trail   ", "  lead", "T", "1.5", "'",
       "long text " * 6, "caf\u00e9", "tab\tin", "q'&", "=", "END", "\u00e9", "[m]", "a''b", "x'", "'x"]
NUM = ["0", "1", "-1", "+1", "007", "-0", "+0", "42", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769",
       "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
       "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
       "18446744073709551615", "99999999999999999999999", "1.0", "-1.5", ".5", "5.", "+.5E3", "1E5", "1e5", "1D5", "-2.5D-3",
       "1.25E+10", "1E-5", "0.0", "-0.0", "0E0", "00.100", "1E400", "1E-400", "1.5.2", "1E", "E5", "1E+", "--1", "+-1", "1-2",
       "1 2", "1_0", "0x10", "1d5", "1.D5", "1.DE5", "-inf", "+NaN", "-.", ".", "+", "-", "123456789.123456789", "3.4E38",
       "1.17549E-38", "16777217", "1e22", "123456", "1234567", "9.99999E9", "1DD5", "1D5D", "1E5.0", "-D5", "0D0"]
OTHER = ["T", "F", "TRUE", "F ", "T / yes", "true", "f", "(1,2)", "(1.0, -2)", "", "/", "/ only", "?", "NaN", "INF", "nan",
         "'open", "open'", "'", "''", "' '", "'   '", "'''", "''''", "'a'b", "'a' b", "'a''", "'a'''", "'a' 'b'", "'a'/c", "'a' /c'd'",
         "x'y'z", "12'a'", "a/b", "\u00e9", "1\u00e9", "'\u00e9'", "T\u00e9", "'a\tb'", "a\tb", "'&'", "'a&' / c", "'a/b&'"]
COMMENT = [None, None, None, "", " ", "text", "with ' quote", "[m/s] speed", "[unclosed", "a / b", "\u00e9t\u00e9", "tab\there", "[s]", "  [K] x", "]["]
HWORDS = ["ESO", "DET", "CHIP1", "x", "LONGERTHAN8", "NAXIS1", "a.b", "\u00e9", "INS'"]
ALPHA = ["'", "'", "''", "/", " ", " ", "&", "a", "T", "F", "1", "-", ".", "E", "D", "(", "=", "\t", "\u00e9", "\0", "[", "]", "\x7f", "\xff"]


def enc(r, s):
    """text to bytes, mostly UTF-8, sometimes not"""
    return s.encode("latin-1" if r.random() < .3 else "utf-8", "replace")


def value_text(r):
    k = r.random()
    if k < .3:
        t = r.choice(TXT)
        if r.random() < .3:
            t = "".join(r.choice(["'", "a", " ", "/", "&", "b"]) for _ in range(r.randrange(0, 9)))
        q = "'" + t.replace("'", "''")
        if r.random() < .5:
            q = q.ljust(9)
        return q + "'"
    if k < .6:
        return r.choice(NUM)
    if k < .8:
        return r.choice(OTHER)
    if k < .9:
        return "".join(r.choice(ALPHA) for _ in range(r.randrange(0, 14)))
    return wide_text(r)


def wide_text(r):
    """a value that fills most of the field, its interesting characters anywhere in it"""
    n = r.choice([20, 30, 40, 56, 60, 62, 64, 65, 66, 67, 68, 69, 70, 71, 72, 75])
    k = r.random()
    if k < .55:
        t = ["z"] * n
        for _ in range(r.randrange(1, 6)):
            t[r.randrange(n) if r.random() < .5 else r.randrange(max(0, n - 8), n)] = r.choice(["''", "''", "/", " ", "&", "'", " / ", "\u00e9", "T"])
        return "'" + "".join(t) + r.choice(["'", "'", "'", "", "''", "&'"])
    if k < .75:
        return r.choice(["", "-", "+"]) + "0" * r.randrange(n) + r.choice(["1", "12.5", "9223372036854775808", "1E5", "7D2"])
    if k < .9:
        return " " * r.randrange(n) + r.choice(["T", "F", "'x'", "12", "1.5", "'it''s' / c", "/ c", "'&'"])
    return "".join(r.choice(ALPHA) for _ in range(n))


def with_comment(r, v):
    c = r.choice(COMMENT)
    if r.random() < .06:
        c = "".join(r.choice(["z", "z", "z", "'", "/", " ", "\u00e9", "[", "]"]) for _ in range(r.randrange(20, 75)))
    if c is None:
        return v
    return v + r.choice([" / ", "/", " /", "/ "]) + c


def value_card(r, kw=None):
    kw = kw or r.choice(KW)
    v = with_comment(r, value_text(r))
    if r.random() < .3:
        v = v.rjust(20)
    sep = "= " if r.random() < .93 else r.choice(["=", " =", "  ", "=' ", "=\t", ": "])
    b = enc(r, kw)[:8].ljust(8) + sep.encode() + enc(r, v)
    return pad80(b)


def hier_card(r):
    k = r.random()
    ws = [r.choice(HWORDS) for _ in range(r.randrange(1, 4))]
    sep = r.choice([" ", " ", "  ", " ", " ", "  ", "\t", " \t", "\x0c", "\r", "\n", "\x0b", "\0", "\xa0"])
    if k < .85:
        s = "HIERARCH " + sep.join(ws) + r.choice([" = ", "=", " =", "= "]) + with_comment(r, value_text(r))
    else:
        s = r.choice(["HIERARCH", "HIERARCH = 3", "HIERARCH ESO DET", "HIERARCH  = 'x'", "HIERARCHESO X = 3", "HIERARCH=ESO X = 3",
                      "HIERARCH ESO / a = 3"])
    return pad80(enc(r, s))


def comm_card(r):
    t = r.choice(["", "text", "  indented", "trailing  ", "with 'quote", "\u00e9t\u00e9", "a\tb", "= 3", "x" * 72, "END", "\0\x01"])
    return pad80(enc(r, r.choice(["COMMENT ", "HISTORY ", "        ", "HISTORY ", "  COMMENT"[:8]]) + t))


def cont_card(r, more=None):
    k = r.random()
    t = r.choice(["", " ", "tail", " and more", "it's", "a/b", "  x  ", "\u00e9", "&", "y&", "z" * r.randrange(50, 68), "it's " * r.randrange(8, 12)])
    amp = "&" if (more if more is not None else r.random() < .5) else ""
    if k < .85:
        v = "'" + (t + amp).replace("'", "''") + "'"
    else:
        v = r.choice([t + amp, "'open" + amp, "open'" + amp, "", "'", "''", "'&'", "/", "/ c", "123&", "&"])
    v = with_comment(r, v)
    return pad80(enc(r, "CONTINUE" + r.choice(["  ", "  ", " ", "", "= "]) + v))


def chain(r, n=None):
    """a long string and its continuations, sometimes interrupted"""
    if r.random() < .75:
        head = pad80(enc(r, r.choice(KW))[:8].ljust(8) + b"= " + enc(r, with_comment(r, r.choice(["'start&'", "'it''s &'", "'&'", "'a&  '", "'x / y&'", "'&&'", "'no'", "12", "'" + "z" * 60 + "&'"]))))
    else:
        head = pad80(enc(r, "HIERARCH ESO " + r.choice(HWORDS) + " = " + with_comment(r, r.choice(["'start&'", "'h&'", "'&'"]))))
    out = [head]
    n = (r.randrange(0, 5) if r.random() < .96 else r.randrange(8, 40)) if n is None else n
    for i in range(n):
        out.append(cont_card(r, more=(i < n - 1) if r.random() < .8 else None))
        if r.random() < .08:
            out.insert(r.randrange(1, len(out) + 1), r.choice([comm_card(r), value_card(r), hier_card(r)]))
    return out


def raw_card(r):
    k = r.random()
    if k < .4:
        return r.randbytes(80)
    if k < .7:
        return pad80(enc(r, "".join(r.choice(ALPHA) for _ in range(60))))
    b = bytearray(value_card(r))
    for _ in range(r.randrange(1, 6)):
        b[r.randrange(80)] = r.choice([0, 9, 10, 32, 39, 47, 61, 127, 195, 255, r.randrange(256)])
    return bytes(b)


def record(r):
    k = r.random()
    if k < .5:
        return value_card(r)
    if k < .65:
        return hier_card(r)
    if k < .75:
        return comm_card(r)
    if k < .85:
        return cont_card(r)
    return raw_card(r)


MUST = (b"SIMPLE", b"XTENSION", b"BITPIX", b"NAXIS", b"PCOUNT", b"GCOUNT", b"TFIELDS", b"TFORM", b"THEAP", b"TTYPE", b"TBCOL", b"ZIMAGE")


def harmless(c):
    k = c[:8].strip()
    return k != b"END" and not k.startswith(MUST)


TYS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "char", "str", "bstr", "bool", "f64", "f32", "oi64", "ou8", "of64",
       "ostr", "obool"]


def queries(r, n):
    ks = [k.strip() for k in KW] + ["NAXIS", "BITPIX", "SIMPLE", "XTENSION", "NAXIS1", "ESO.DET.CHIP1", "ESO.DET", "ESO.x", "ABSENT", "", "COMMENT",
                                    "CONTINUE", "END", "HISTORY", "HIERARCH", "key", "KEY ", "ESO"]
    return [{"key": r.choice(ks), "ty": r.choice(TYS)} for _ in range(n)]
