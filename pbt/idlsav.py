"""A writer of IDL save files (uncompressed), enough for the structures FHD saves.

Values: numpy numbers and arrays (axes are reversed by IDL, as by readsav), str, dict (a
structure), Ptr(value) (a pointer, Ptr(None) a null one) and object arrays (arrays of
pointers, elements may be None, arrays or again object arrays).
"""

import struct

import numpy as np

CODES = {"u1": 1, "i2": 2, "i4": 3, "f4": 4, "f8": 5, "c8": 6, "c16": 9, "u2": 12, "u4": 13, "i8": 14, "u8": 15}


class Ptr:
    def __init__(self, value):
        self.value = value


class _Out:
    def __init__(self):
        self.b = bytearray(b"SR\x00\x04")
        self.heap = []

    def long(self, *v):
        for x in v:
            self.b += struct.pack(">l", int(x))

    def align(self):
        self.b += b"\0" * (-len(self.b) % 4)

    def string(self, s):
        self.long(len(s))
        self.b += s.encode("latin1")
        self.align()

    def record(self, rectype, body):
        start = len(self.b)
        self.long(rectype, 0, 0, 0)
        body()
        self.align()
        end = len(self.b)
        self.b[start + 4 : start + 12] = struct.pack(">II", end & 0xFFFFFFFF, end >> 32)

    def pointer(self, v):
        if v is None:
            return 0
        self.heap.append(v)
        return len(self.heap)


def _norm(v):
    if isinstance(v, (dict, Ptr, str)):
        return v
    if isinstance(v, bool):
        v = np.uint8(v)
    if isinstance(v, int):
        v = np.int32(v)
    return np.asarray(v)


def _code(v):
    if isinstance(v, dict):
        return 8
    if isinstance(v, Ptr) or v.dtype == object if not isinstance(v, str) else False:
        return 10
    if isinstance(v, str) or v.dtype.kind == "U":
        return 7
    return CODES[v.dtype.str[1:] if v.dtype.kind != "b" else "u1"]


def _is_array(v):
    return isinstance(v, np.ndarray) and v.ndim > 0


def _size(v):
    c = _code(v)
    one = {10: 4, 7: 16, 8: 0}.get(c) or (0 if c == 8 else v.dtype.itemsize)
    return one * (v.size if _is_array(v) else 1)


def _arraydesc(o, v):
    dims = v.shape[::-1] if _is_array(v) else (1,)
    n = v.size if _is_array(v) else 1
    o.long(8, 0, _size(v), n, len(dims), 0, 0, 8, *(tuple(dims) + (1,) * (8 - len(dims))))


def _structdesc(o, s):
    s = {k: _norm(v) for k, v in s.items()}
    o.long(9)
    o.string("")
    o.long(0, len(s), sum(_size(v) for v in s.values()))
    off = 0
    for v in s.values():
        flags = 52 if isinstance(v, dict) else 4 if _is_array(v) else 0
        o.long(off, _code(v), flags)
        off += _size(v)
    for k in s:
        o.string(k.upper())
    for v in s.values():
        if _is_array(v) or isinstance(v, dict):
            _arraydesc(o, v)
    for v in s.values():
        if isinstance(v, dict):
            _structdesc(o, v)


def _typedesc(o, v):
    if isinstance(v, dict):
        o.long(8, 52)
        _arraydesc(o, v)
        _structdesc(o, v)
    else:
        o.long(_code(v), 4 if _is_array(v) else 0)
        if _is_array(v):
            _arraydesc(o, v)


def _strdata(o, s):
    o.long(len(s))
    if s:
        o.long(len(s))
        o.b += s.encode("latin1")
        o.align()


def _data(o, v):
    if isinstance(v, dict):
        for x in v.values():
            _data(o, _norm(x))
        return
    if isinstance(v, Ptr):
        o.long(o.pointer(v.value))
        return
    if isinstance(v, str):
        return _strdata(o, v)
    c = _code(v)
    if c == 10:
        o.long(*[o.pointer(x) for x in v.ravel()])
    elif c == 7:
        for x in v.ravel():
            _strdata(o, str(x))
    elif c in (2, 12):
        a = v.astype(">i4" if c == 2 else ">u4")
        o.b += a.tobytes()
    elif c == 1:
        o.long(v.size)
        o.b += v.astype("u1").tobytes()
    else:
        o.b += v.astype(v.dtype.newbyteorder(">")).tobytes()
    o.align()


def write(path, variables):
    o = _Out()

    def var(name, v):
        v = _norm(v)

        def body():
            o.string(name.upper())
            _typedesc(o, v)
            o.long(7)
            _data(o, v)

        return body

    for name, v in variables.items():
        o.record(2, var(name, v))
    done = 0
    while done < len(o.heap):
        done += 1
        v = _norm(o.heap[done - 1])

        def body(i=done, v=v):
            o.long(i, 0)
            _typedesc(o, v)
            o.long(7)
            _data(o, v)

        o.record(16, body)
    o.record(6, lambda: None)
    with open(path, "wb") as f:
        f.write(o.b)
