"""A small stand-in for the protobuf runtime, which is not installed here.

It implements what generated proto3 code needs: descriptors are read from the
serialized file that comfo_pb2 registers, so the message layout that the
client uses is the one in comfo_pb2.
"""
import struct


class DecodeError(Exception):
    pass


def _varint(b, i):
    n = s = 0
    while True:
        if i >= len(b) or s > 63:
            raise DecodeError("varint")
        n |= (b[i] & 127) << s
        s += 7
        i += 1
        if not b[i - 1] & 128:
            return n, i


def _enc(n):
    o = bytearray()
    while n > 127:
        o.append(n & 127 | 128)
        n >>= 7
    o.append(n)
    return bytes(o)


def fields(b):
    i = 0
    while i < len(b):
        t, i = _varint(b, i)
        w = t & 7
        if w == 0:
            v, i = _varint(b, i)
        elif w == 1:
            v, i = b[i:i + 8], i + 8
        elif w == 5:
            v, i = b[i:i + 4], i + 4
        elif w == 2:
            n, i = _varint(b, i)
            v, i = b[i:i + n], i + n
        else:
            raise DecodeError("wire type")
        if i > len(b):
            raise DecodeError("truncated")
        yield t >> 3, w, v


DOUBLE, FLOAT, INT64, UINT64, INT32 = 1, 2, 3, 4, 5
BOOL, STRING, MESSAGE, BYTES, UINT32, ENUM, SINT32 = 8, 9, 11, 12, 13, 14, 17
RANGES = {INT64: (-2**63, 2**63 - 1), UINT64: (0, 2**64 - 1), INT32: (-2**31, 2**31 - 1), UINT32: (0, 2**32 - 1), ENUM: (-2**31, 2**31 - 1)}


class Message:
    _fields = ()  # (name, number, type)

    def __init__(self, **kw):
        object.__setattr__(self, "_v", {})
        for k, x in kw.items():
            if k not in self._by_name:
                raise ValueError(f'Protocol message {type(self).__name__} has no "{k}" field.')
            if x is not None:
                setattr(self, k, x)

    def __getattr__(self, k):
        f = self._by_name.get(k)
        if f is None:
            raise AttributeError(k)
        if k in self._v:
            return self._v[k]
        return {STRING: "", BYTES: b"", BOOL: False, FLOAT: 0.0, DOUBLE: 0.0}.get(f[2], 0)

    def __setattr__(self, k, x):
        f = self._by_name.get(k)
        if f is None:
            raise AttributeError(f'Assignment not allowed (no field "{k}" in protocol message object).')
        t = f[2]
        if t in RANGES or t == BOOL:
            if isinstance(x, (str, bytes, float)) or not hasattr(x, "__index__"):
                raise TypeError(f"{x!r} has type {type(x)}, but expected one of: (int,)")
            x = x.__index__()
            if t == BOOL:
                x = bool(x)
            elif not RANGES[t][0] <= x <= RANGES[t][1]:
                raise ValueError(f"Value out of range: {x}")
        elif t in (FLOAT, DOUBLE):
            x = float(x)
        elif t == STRING:
            if isinstance(x, bytes):
                x = x.decode("utf-8")
            elif not isinstance(x, str):
                raise TypeError(f"{x!r} has type {type(x)}, but expected str")
        self._v[k] = x

    def SerializeToString(self):
        o = b""
        for name, num, t in sorted(self._fields, key=lambda f: f[1]):
            x = getattr(self, name)
            if not x:
                continue
            if t in RANGES or t == BOOL:
                o += _enc(num << 3) + _enc(int(x) & 2**64 - 1)
            elif t == FLOAT:
                o += _enc(num << 3 | 5) + struct.pack("<f", x)
            elif t == DOUBLE:
                o += _enc(num << 3 | 1) + struct.pack("<d", x)
            else:
                s = x.encode("utf-8") if t == STRING else x
                o += _enc(num << 3 | 2) + _enc(len(s)) + s
        return o

    def ParseFromString(self, b):
        self._v.clear()
        return self.MergeFromString(b)

    def MergeFromString(self, b):
        nums = {f[1]: f for f in self._fields}
        for num, w, v in fields(b):
            f = nums.get(num)
            if f is None:
                continue
            name, _, t = f
            want = 5 if t == FLOAT else 1 if t == DOUBLE else 2 if t in (STRING, BYTES) else 0
            if w != want:
                continue  # an unknown field
            if t == FLOAT:
                v = struct.unpack("<f", v)[0]
            elif t == DOUBLE:
                v = struct.unpack("<d", v)[0]
            elif t == STRING:
                try:
                    v = v.decode("utf-8")
                except UnicodeDecodeError as e:
                    raise DecodeError(str(e))
            elif t == BOOL:
                v = v != 0
            elif t == UINT32:
                v &= 2**32 - 1
            elif t in (INT32, ENUM):
                v = (v & 2**32 - 1 ^ 2**31) - 2**31
            self._v[name] = v
        return len(b)

    @classmethod
    def FromString(cls, b):
        m = cls()
        m.ParseFromString(b)
        return m

    def HasField(self, k):
        return bool(getattr(self, k))

    def __eq__(self, o):
        return type(self) is type(o) and self.SerializeToString() == o.SerializeToString()

    def __repr__(self):
        return f"{type(self).__name__}({self._v})"


def message_class(name, fs):
    return type(name, (Message,), {"_fields": tuple(fs), "_by_name": {f[0]: f for f in fs}})


class Descriptor:
    def __init__(self, **kw):
        self.__dict__.update(kw)


SYMBOLS = {}


def load_file(b):
    """Parse a FileDescriptorProto and register its messages and enums."""
    pkg, msgs, enums, svcs, name = "", [], [], [], ""
    for num, _, v in fields(b):
        if num == 1:
            name = v.decode()
        elif num == 2:
            pkg = v.decode()
        elif num == 4:
            msgs.append(v)
        elif num == 5:
            enums.append(v)
        elif num == 6:
            svcs.append(v)
    fd = Descriptor(name=name, package=pkg, serialized_pb=b, messages={}, enums={}, services={}, _options=None, _serialized_options=None)

    def enum(v):
        n, vals = "", {}
        for num, _, x in fields(v):
            if num == 1:
                n = x.decode()
            elif num == 2:
                d = {k: y for k, _, y in fields(x)}
                vals[d[1].decode()] = d.get(2, 0)
        return n, vals

    for m in msgs:
        n, fs, nested = "", [], {}
        for num, _, v in fields(m):
            if num == 1:
                n = v.decode()
            elif num == 2:
                d = {k: x for k, _, x in fields(v)}
                fs.append((d[1].decode(), d[3], d[5]))
            elif num == 4:
                en, vals = enum(v)
                nested[en] = vals
        c = message_class(n, fs)
        for en, vals in nested.items():
            for k, x in vals.items():
                setattr(c, k, x)
        c.DESCRIPTOR = Descriptor(name=n, full_name=f"{pkg}.{n}", enums=nested, _options=None, _serialized_options=None)
        SYMBOLS[f"{pkg}.{n}"] = c
        fd.messages[n] = c
    for e in enums:
        en, vals = enum(e)
        fd.enums[en] = vals
    for s in svcs:
        d = {k: x for k, _, x in fields(s)}
        fd.services[d[1].decode()] = Descriptor(_options=None, _serialized_options=None)
    return fd
