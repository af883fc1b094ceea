"""Wire format between the Hypothesis side (CPython 3.12, numpy 2) and the code under
test (PyPy 3.9, numpy 1.26): pickled plain structures in which every numpy array is a
tagged tuple of raw bytes, so neither side depends on the other's numpy pickles."""
import pickle
import struct

import numpy as np

ND, ENUM, REF, EXC, NPS = "\0nd", "\0enum", "\0ref", "\0exc", "\0nps"


class Arr:
    """An array argument with a memory layout, built on the receiving side."""

    def __init__(self, array, layout="C", readonly=False):
        self.array = array
        self.layout = layout
        self.readonly = readonly


class Enum_:
    """A named enumeration member of the library, e.g. compute.Periodicity.monthly."""

    def __init__(self, path):
        self.path = path


class Ref:
    """A value kept on the receiving side under a name."""

    def __init__(self, name):
        self.name = name


class RemoteError:
    """An exception raised by the code under test."""

    def __init__(self, kind, mro, message):
        self.kind, self.mro, self.message = kind, mro, message

    def __repr__(self):
        return "%s: %s" % (self.kind, self.message[:300])

    def isa(self, *names):
        return any(n in self.mro for n in names)


def _layout_apply(a, layout):
    if layout == "C":
        return a
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided":
        if a.ndim == 0:
            return a
        big = np.empty(a.shape[:-1] + (2 * a.shape[-1] + 1,), dtype=a.dtype)
        big[...] = 0 if a.dtype.kind != "f" else -7777.0
        view = big[..., 1::2]
        view[...] = a
        return view
    if layout == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    raise ValueError(layout)


def encode(x):
    if isinstance(x, Arr):
        t = list(encode(x.array))
        t[5], t[6] = x.layout, x.readonly
        return tuple(t)
    if isinstance(x, Enum_):
        return (ENUM, x.path)
    if isinstance(x, Ref):
        return (REF, x.name)
    if isinstance(x, RemoteError):
        return (EXC, x.kind, x.mro, x.message)
    if isinstance(x, np.ma.MaskedArray):
        m = np.ascontiguousarray(np.ma.getmaskarray(x))
        d = np.ascontiguousarray(x.data)
        return (ND, d.dtype.str, x.shape, d.tobytes(), m.tobytes(), "C", False)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "OMm":
            return encode(x.astype(str).tolist())
        d = np.ascontiguousarray(x)
        return (ND, d.dtype.str, x.shape, d.tobytes(), None, "C", False)
    if isinstance(x, np.generic):
        return (NPS, str(x.dtype), x.item())
    if isinstance(x, dict):
        return {k: encode(v) for k, v in x.items()}
    if isinstance(x, list):
        return [encode(v) for v in x]
    if isinstance(x, tuple):
        return tuple(encode(v) for v in x)
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return x
    return ("\0repr", type(x).__name__, repr(x)[:200])


def decode(x, enum=None, ref=None):
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0][:1] == "\0":
        tag = x[0]
        if tag == ND:
            _, dt, shape, data, mask, layout, readonly = x
            a = np.frombuffer(data, dtype=np.dtype(dt)).reshape(shape).copy()
            if mask is not None:
                m = np.frombuffer(mask, dtype=bool).reshape(shape).copy()
                a = np.ma.MaskedArray(a, mask=m)
            if layout != "C":
                a = _layout_apply(a, layout)
            if readonly:
                a.setflags(write=False)
            return a
        if tag == ENUM:
            return enum(x[1]) if enum else Enum_(x[1])
        if tag == REF:
            return ref(x[1]) if ref else Ref(x[1])
        if tag == EXC:
            return RemoteError(*x[1:])
        if tag == NPS:
            return x[2]
        return x
    if isinstance(x, dict):
        return {k: decode(v, enum, ref) for k, v in x.items()}
    if isinstance(x, list):
        return [decode(v, enum, ref) for v in x]
    if isinstance(x, tuple):
        return tuple(decode(v, enum, ref) for v in x)
    return x


def send(stream, obj):
    data = pickle.dumps(encode(obj), protocol=4)
    stream.write(struct.pack("<Q", len(data)) + data)
    stream.flush()


def _read_exact(stream, n):
    parts = []
    while n:
        chunk = stream.read(n)
        if not chunk:
            raise EOFError("peer closed the connection")
        parts.append(chunk)
        n -= len(chunk)
    return b"".join(parts)


def recv_raw(stream):
    (n,) = struct.unpack("<Q", _read_exact(stream, 8))
    return pickle.loads(_read_exact(stream, n))


def recv(stream):
    return decode(recv_raw(stream))
