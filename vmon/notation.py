"""Our own writers of Plutus data: every JSON and CBOR notation of a canonical value."""
import json


def head(major, n):
    if n < 24:
        return bytes([major << 5 | n])
    for k, size in ((24, 1), (25, 2), (26, 4), (27, 8)):
        if n < 1 << (8 * size):
            return bytes([major << 5 | k]) + n.to_bytes(size, "big")
    raise OverflowError


def cbor_bytes(b, rng, strict=True):
    """byte strings: at most 64 bytes in one piece"""
    if len(b) > 64 or (rng is not None and rng.random() < 0.1):
        out, i = b"\x5f", 0
        while i < len(b):
            n = 64 if rng is None else rng.randint(1, 64)
            out += head(2, len(b[i : i + n])) + b[i : i + n]
            i += n
        return out + b"\xff"
    return head(2, len(b)) + b


def cbor_int(n, rng):
    if -(2**64) <= n < 2**64:
        if n >= 0:
            if rng is not None and rng.random() < 0.05:
                return b"\xc2" + cbor_bytes(n.to_bytes((n.bit_length() + 7) // 8, "big"), None)
            return head(0, n)
        return head(1, -1 - n)
    m = n if n >= 0 else -1 - n
    return (b"\xc2" if n >= 0 else b"\xc3") + cbor_bytes(m.to_bytes((m.bit_length() + 7) // 8, "big"), None)


def cbor_seq(major, items, n, rng):
    if rng is not None and rng.random() < 0.5:
        return bytes([major << 5 | 31]) + b"".join(items) + b"\xff"
    return head(major, n) + b"".join(items)


def to_cbor(c, rng=None):
    """a CBOR notation of the value; without rng the plain one, with rng any valid one"""
    k = c[0]
    if k == "I":
        return cbor_int(c[1], rng)
    if k == "B":
        return cbor_bytes(bytes.fromhex(c[1]), rng)
    if k == "L":
        return cbor_seq(4, [to_cbor(x, rng) for x in c[1]], len(c[1]), rng)
    if k == "M":
        return cbor_seq(5, [to_cbor(a, rng) + to_cbor(b, rng) for a, b in c[1]], len(c[1]), rng)
    fields = cbor_seq(4, [to_cbor(x, rng) for x in c[2]], len(c[2]), rng)
    if c[1] < 7:
        return head(6, 121 + c[1]) + fields
    if c[1] < 128:
        return head(6, 1280 + c[1] - 7) + fields
    return head(6, 102) + head(4, 2) + head(0, c[1]) + fields


def to_obj(c, rng=None):
    k = c[0]
    if k == "I":
        return {"int": c[1]}
    if k == "B":
        return {"bytes": c[1].upper() if rng is not None and rng.random() < 0.2 else c[1]}
    if k == "L":
        return {"list": [to_obj(x, rng) for x in c[1]]}
    if k == "M":
        return {"map": [{"k": to_obj(a, rng), "v": to_obj(b, rng)} for a, b in c[1]]}
    d = {"constructor": c[1], "fields": [to_obj(x, rng) for x in c[2]]}
    if rng is not None and rng.random() < 0.3:
        d = dict(reversed(d.items()))
    return d


def to_json(c, rng=None):
    o = to_obj(c, rng)
    if rng is None:
        return json.dumps(o)
    return json.dumps(o, indent=rng.choice([None, None, 2]), separators=rng.choice([None, (",", ":"), (" , ", " : ")]))


def from_obj(o):
    """canonical value of an (exact) JSON notation"""
    if "int" in o:
        return ("I", o["int"])
    if "bytes" in o:
        return ("B", o["bytes"].lower())
    if "list" in o:
        return ("L", tuple(map(from_obj, o["list"])))
    if "map" in o:
        return ("M", tuple((from_obj(m["k"]), from_obj(m["v"])) for m in o["map"]))
    return ("C", o["constructor"], tuple(map(from_obj, o["fields"])))


def from_cbor(b):
    """canonical value of a CBOR notation: our own reader"""
    v, i = _read(b, 0)
    if i != len(b):
        raise ValueError("trailing bytes")
    return v


def _arg(b, i):
    x = b[i] & 31
    i += 1
    if x < 24:
        return x, i
    if x == 31:
        return None, i
    n = 1 << (x - 24)
    return int.from_bytes(b[i : i + n], "big"), i + n


def _items(b, i, n):
    out = []
    while (n is None and b[i] != 0xFF) or (n is not None and len(out) < n):
        v, i = _read(b, i)
        out.append(v)
    return out, i + (n is None)


def _rawbytes(b, i):
    n, i = _arg(b, i)
    if n is not None:
        return b[i : i + n], i + n
    out = b""
    while b[i] != 0xFF:
        m, i = _arg(b, i)
        out += b[i : i + m]
        i += m
    return out, i + 1


def _read(b, i):
    major = b[i] >> 5
    if major == 0:
        n, i = _arg(b, i)
        return ("I", n), i
    if major == 1:
        n, i = _arg(b, i)
        return ("I", -1 - n), i
    if major == 2:
        v, i = _rawbytes(b, i)
        return ("B", v.hex()), i
    if major == 4:
        n, i = _arg(b, i)
        v, i = _items(b, i, n)
        return ("L", tuple(v)), i
    if major == 5:
        n, i = _arg(b, i)
        v, i = _items(b, i, None if n is None else 2 * n)
        return ("M", tuple(zip(v[::2], v[1::2]))), i
    if major == 6:
        t, i = _arg(b, i)
        if t in (2, 3):
            v, i = _rawbytes(b, i)
            n = int.from_bytes(v, "big")
            return ("I", n if t == 2 else -1 - n), i
        v, i = _read(b, i)
        if t == 102:
            return ("C", v[1][0][1], v[1][1][1]), i
        if 121 <= t < 128:
            return ("C", t - 121, v[1]), i
        if 1280 <= t <= 1400:
            return ("C", t - 1280 + 7, v[1]), i
    raise ValueError(f"not plutus data: {b[i:i+4].hex()}")
