"""Byte streams with symbolic lengths and symbolic fragmentation, and the sockets carrying them."""
import pickle
import struct
import types
import copy
from .syms import SymNum, SymBool, b_and
from .engine import Unsupported, ctx
from .npshim import issym


class Blob:
    """Source of bytes: an opaque pickled object of symbolic length, or the decimal text of a symbolic number."""
    def __init__(self, length, obj=None, num=None, digits=None, kind=None):
        self.length = length
        self.obj = obj
        self.num = num
        self.digits = digits
        self.kind = kind         # None: decimal text from the left; "text": decimal text padded on the left; else: binary form


class SymBytes:
    """Concatenation of parts (blob, start, end) and real bytes."""
    def __init__(self, parts):
        self.parts = [p for p in parts if not (isinstance(p, bytes) and not p)]

    def __symlen__(self):
        n = 0
        for p in self.parts:
            n = n + plen(p)
        return n

    def __len__(self):
        n = self.__symlen__()
        return n.__index__() if issym(n) else n

    def __bool__(self):
        return bool(self.__symlen__() > 0)

    def __add__(self, o):
        return SymBytes(merge(self.parts + parts_of(o)))

    def __radd__(self, o):
        return SymBytes(merge(parts_of(o) + self.parts))

    def __getitem__(self, k):
        if not isinstance(k, slice):
            raise Unsupported("byte indexing")
        if k.step not in (None, 1):
            raise Unsupported("strided slice")
        n = self.__symlen__()

        def norm(x, d):
            if x is None:
                return d
            if bool(x < 0):
                x = n + x
                return x if bool(x > 0) else 0
            return x if bool(x <= n) else n
        a, b = norm(k.start, 0), norm(k.stop, n)
        if bool(b <= a):
            return b""
        rest = drop(self.parts, a)
        return SymBytes(take(rest, b - a)[0])

    def __symint__(self):
        ps = self.parts
        if len(ps) == 1 and not isinstance(ps[0], bytes) and ps[0][0].num is not None:
            b, s, e = ps[0]
            if b.kind is not None:
                if b.kind != "text" or not (bool(s == 0) and bool(e == b.length)):
                    raise Unsupported("part of a padded number")
                return b.num
            d = b.digits
            if bool(s >= d):
                raise ValueError("invalid literal for int()")
            v = b.num
            if bool(e < d):
                e = e.__index__() if issym(e) else e
                v = v // 10 ** (d - e)
                d = e
            if bool(s > 0):
                s = s.__index__() if issym(s) else s
                v = v % 10 ** (d - s)
            return v
        if all(isinstance(p, bytes) for p in ps):
            return int(b"".join(ps))
        raise ValueError("invalid literal for int()")

    def frombinary(self, kind):
        """the number whose binary form this is"""
        ps = self.parts
        if all(isinstance(p, bytes) for p in ps):
            return None
        if len(ps) == 1 and ps[0][0].kind == kind and bool(ps[0][1] == 0) and bool(ps[0][2] == ps[0][0].length):
            return ps[0][0].num
        raise Unsupported("part of a binary number")

    def raw(self):
        if not all(isinstance(p, bytes) for p in self.parts):
            raise Unsupported("bytes of a symbolic stream")
        return b"".join(self.parts)

    def decode(self, *a, **k):
        return self

    def strip(self, *a):
        return self
    rstrip = lstrip = strip


def plen(p):
    return len(p) if isinstance(p, bytes) else p[2] - p[1]


def parts_of(o):
    if isinstance(o, SymBytes):
        return list(o.parts)
    if isinstance(o, (bytes, bytearray, memoryview)):
        return [bytes(o)] if len(o) else []
    if isinstance(o, SymView):
        return list(o.content().parts)
    raise TypeError("can't concat %s to bytes" % type(o).__name__)


def merge(ps):
    out = []
    for p in ps:
        if out and not isinstance(p, bytes) and not isinstance(out[-1], bytes) and out[-1][0] is p[0]:
            q = out[-1]
            c = q[2] == p[1]
            if c is True or (type(c) is SymBool and bool(c)):
                out[-1] = (p[0], q[1], p[2])
                continue
        out.append(p)
    return out


def take(ps, k):
    """first k bytes of ps, and the rest (forks on where k falls)"""
    got = []
    ps = list(ps)
    while ps:
        z = k <= 0
        if bool(z):
            break
        p = ps[0]
        n = plen(p)
        if bool(n <= k):
            got.append(p)
            ps.pop(0)
            k = k - n
        else:
            if isinstance(p, bytes):
                kk = k.__index__() if issym(k) else k
                got.append(p[:kk])
                ps[0] = p[kk:]
            else:
                b, s, e = p
                got.append((b, s, s + k))
                ps[0] = (b, s + k, e)
            break
    return merge(got), ps


def drop(ps, k):
    return take(ps, k)[1]


class NumStr(str):
    """decimal text of a symbolic number, padded to `width` (on the left if `left`)"""
    num = None
    width = None
    left = False

    def encode(self, *a, **k):
        return num_bytes(self)

    def ljust(self, w, fill=" "):
        if fill != " ":
            raise Unsupported("fill character")
        return numstr(self.num, w)

    def rjust(self, w, fill=" "):
        if fill not in " 0":
            raise Unsupported("fill character")
        return numstr(self.num, w, True)

    def zfill(self, w):
        return numstr(self.num, w, True)


def numstr(num, width, left=False):
    r = NumStr("<number>")
    r.num = num
    r.width = width
    r.left = left
    return r


def fmt_hook(num, spec):
    if spec in ("", "d"):
        return numstr(num, None)
    s = spec.rstrip("d").lstrip(" ")
    if s.startswith("<") and s[1:].isdigit() and s[1] != "0":
        return numstr(num, int(s[1:]))
    t = s[1:] if s[:1] == ">" else s[2:] if s[:2] == "0>" else s
    if t.isdigit():
        return numstr(num, int(t), True)
    raise Unsupported("format spec %r" % spec)


def num_bytes(s):
    c = ctx()
    d = 1
    while bool(s.num >= 10 ** d):
        d += 1
    w = max(d, s.width or 0)
    return SymBytes([(Blob(w, num=s.num, digits=d, kind="text" if s.left and w > d else None), 0, w)])


def bytes_proxy(*a, **k):
    if a and isinstance(a[0], NumStr):
        return num_bytes(a[0])
    if a and isinstance(a[0], SymView):
        return a[0].content()
    if a and isinstance(a[0], SymBytes):
        return SymBytes(a[0].parts)
    return bytes(*a, **k)


ORDERS = {">": "big", "!": "big", "<": "little"}
SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}


def binary(num, size, order, signed):
    lo, hi = (-256 ** size // 2, 256 ** size // 2) if signed else (0, 256 ** size)
    if bool(num < lo) or bool(num >= hi):
        raise OverflowError("int too big to convert")
    return SymBytes([(Blob(size, num=num, digits=0, kind=(size, order, signed)), 0, size)])


def from_bytes(data, byteorder="big", *, signed=False):
    if isinstance(data, SymView):
        data = data.content()
    if isinstance(data, SymBytes):
        n = len(data)
        v = data.frombinary((n, byteorder, signed))
        if v is not None:
            return v
        data = data.raw()
    return int.from_bytes(data, byteorder, signed=signed)


def struct_module():
    m = types.ModuleType("struct")
    m.error = struct.error
    m.calcsize = struct.calcsize

    def codes(fmt):
        if fmt[:1] not in ORDERS or not all(c in SIZES for c in fmt[1:]):
            return None
        return [(SIZES[c], ORDERS[fmt[0]], c.islower(), c) for c in fmt[1:]]

    def pack(fmt, *vals):
        if not any(issym(v) for v in vals):
            return struct.pack(fmt, *vals)
        cs = codes(fmt)
        if cs is None:
            raise Unsupported("struct format %r" % fmt)
        if len(cs) != len(vals):
            raise struct.error("wrong number of items")
        r = b""
        for v, (size, order, signed, c) in zip(vals, cs):
            try:
                r = r + (binary(v, size, order, signed) if issym(v) else struct.pack(fmt[0] + c, v))
            except OverflowError:
                raise struct.error("argument out of range")
        return r

    def unpack(fmt, data):
        if isinstance(data, SymView):
            data = data.content()
        if not isinstance(data, SymBytes):
            return struct.unpack(fmt, data)
        cs = codes(fmt)
        if cs is None:
            raise Unsupported("struct format %r" % fmt)
        if bool(data.__symlen__() != struct.calcsize(fmt)):
            raise struct.error("unpack requires a buffer of %d bytes" % struct.calcsize(fmt))
        out, ps = [], data.parts
        for size, order, signed, c in cs:
            got, ps = take(ps, size)
            piece = SymBytes(got)
            v = piece.frombinary((size, order, signed))
            out.append(struct.unpack(fmt[0] + c, piece.raw())[0] if v is None else v)
        return tuple(out)

    def unpack_from(fmt, data, offset=0):
        return unpack(fmt, data[offset:offset + struct.calcsize(fmt)])

    class Struct:
        def __init__(self, fmt):
            self.format = fmt
            self.size = struct.calcsize(fmt)

        def pack(self, *v):
            return pack(self.format, *v)

        def unpack(self, d):
            return unpack(self.format, d)

        def unpack_from(self, d, offset=0):
            return unpack_from(self.format, d, offset)
    m.pack, m.unpack, m.unpack_from, m.Struct = pack, unpack, unpack_from, Struct
    return m


class SymBuf(SymBytes):
    """stand-in for bytearray"""
    def put(self, at, data):
        head, rest = take(self.parts, at)
        self.parts = merge(head + parts_of(data) + drop(rest, data.__symlen__() if isinstance(data, SymBytes) else len(data)))

    def extend(self, o):
        self.parts = merge(self.parts + parts_of(o))

    def __iadd__(self, o):
        self.extend(o)
        return self


def bytearray_proxy(*a):
    if a and (isinstance(a[0], int) or issym(a[0])):
        return SymBuf([(Blob(a[0], kind="zero"), 0, a[0])])
    return SymBuf(parts_of(a[0]) if a else [])


class SymView:
    """stand-in for memoryview: a window of a buffer"""
    def __init__(self, buf, at, end):
        self.buf, self.at, self.end = buf, at, end

    def __symlen__(self):
        return self.end - self.at

    def __len__(self):
        n = self.__symlen__()
        return n.__index__() if issym(n) else n

    def content(self):
        return SymBytes(take(drop(self.buf.parts, self.at), self.end - self.at)[0])

    def tobytes(self):
        return self.content()

    def __getitem__(self, k):
        if not isinstance(k, slice) or k.step not in (None, 1):
            raise Unsupported("indexing of a view")
        n = self.__symlen__()

        def norm(x, d):
            if x is None:
                return d
            if bool(x < 0):
                raise Unsupported("negative index of a view")
            return x if bool(x <= n) else n
        a, b = norm(k.start, 0), norm(k.stop, n)
        return SymView(self.buf, self.at + a, self.at + (b if bool(b > a) else a))

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def memoryview_proxy(o):
    if isinstance(o, SymView):
        return o
    if isinstance(o, SymBytes):
        return SymView(o, 0, o.__symlen__())
    return memoryview(o)


class Closed(Exception):
    pass


class Blocked(Exception):
    """a receive that would wait for ever: everything sent was already consumed"""


class Spin(Exception):
    """repeated reads on a closed connection"""


class FakeSock:
    """One direction pair of byte streams with symbolic fragmentation."""
    MSG_WAITALL = 256

    def __init__(self, net, name):
        self.net = net
        self.name = name
        self.inbox = []          # parts not yet read
        self.peer = None
        self.sent = []           # everything ever written
        self.cut = None          # number of bytes after which the incoming stream ends
        self.closed_reads = 0
        self.reads = 0

    # ---- writing
    def sendall(self, data, *a):
        ps = parts_of(data)
        self.sent = self.sent + ps
        if self.peer is not None:
            self.peer.inbox = self.peer.inbox + ps

    def send(self, data, *a):
        h = self.net.h
        n = data.__symlen__() if isinstance(data, SymBytes) else len(data)
        if isinstance(n, int) and n <= 0:
            return 0
        self.net.nsend += 1
        k = h.int("%s_send%d" % (self.name, self.net.nsend), 1, 20000)
        if self.net.short > 0 and h.branch(k < n):
            self.net.short -= 1
        else:
            k = n
        ps = take(parts_of(data), k)[0]
        self.sendall(SymBytes(ps) if h.symbolic else b"".join(ps))
        return k

    # ---- reading
    def recv(self, n, flags=0):
        h = self.net.h
        self.reads += 1
        if self.reads > 400:
            raise Spin()
        ps = self.inbox
        avail = 0
        for p in ps:
            avail = avail + plen(p)
        if self.cut is not None:
            left = self.cut
            if h.branch(left <= 0):
                self.closed_reads += 1
                if self.closed_reads > 3:
                    raise Spin()
                return b""
            if h.branch(left < avail):
                avail = left
        if isinstance(n, int) and n <= 0 or h.branch(n <= 0):
            return b""
        if h.branch(avail <= 0):
            raise Blocked()
        m = n if h.branch(n <= avail) else avail
        k = m
        if self.net.short > 0 and not (flags & 256):
            self.net.nrecv += 1
            k = h.int("%s_chunk%d" % (self.name, self.net.nrecv), 1, 20000)
            if h.branch(k < m):
                self.net.short -= 1
            else:
                k = m
        got, self.inbox = take(ps, k)
        if self.cut is not None:
            self.cut = self.cut - k
        return SymBytes(got) if h.symbolic else b"".join(got)

    def recv_into(self, buf, nbytes=0, flags=0):
        if isinstance(buf, SymBuf):
            buf = SymView(buf, 0, buf.__symlen__())
        n = nbytes if issym(nbytes) or nbytes else (buf.__symlen__() if isinstance(buf, SymView) else len(buf))
        got = self.recv(n, flags)
        k = got.__symlen__() if isinstance(got, SymBytes) else len(got)
        if isinstance(buf, SymView):
            buf.buf.put(buf.at, got)
        elif k:
            memoryview(buf)[:k] = got
        return k

    def makefile(self, *a, **k):
        return FakeFile(self)

    # ---- the rest of the socket interface
    def bind(self, a): self.net.log.append(("bind", a))
    def listen(self, *a): pass
    def connect(self, a): self.net.log.append(("connect", a))
    def setsockopt(self, *a): pass
    def settimeout(self, *a): pass
    def setblocking(self, *a): pass
    def close(self): pass
    def shutdown(self, *a): pass
    def detach(self): pass
    def fileno(self): return 7
    def getsockname(self): return ("127.0.0.1", 1000)
    def getpeername(self): return ("127.0.0.1", 1000)
    def gettimeout(self): return None
    def getsockopt(self, *a): return 0
    def __enter__(self): return self
    def __exit__(self, *a): pass

    def accept(self):
        s = self.net.accepts.pop(0)
        return s, ("127.0.0.1", 1000)


class FakeFile:
    """what socket.makefile gives: reads until the size or the end, writes all"""
    def __init__(self, sock):
        self.sock = sock

    def read(self, n):
        got, have = b"", 0
        while bool(have < n):
            more = self.sock.recv(n - have)
            k = more.__symlen__() if isinstance(more, SymBytes) else len(more)
            if bool(k == 0):
                break
            got, have = got + more, have + k
        return got

    def write(self, data):
        self.sock.sendall(data)
        return data.__symlen__() if isinstance(data, SymBytes) else len(data)

    def flush(self): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass


class Net:
    def __init__(self, h, short):
        self.h = h
        self.short = short       # short reads the network may still do
        self.nrecv = 0
        self.nsend = 0
        self.log = []
        self.accepts = []
        self.made = []

    def pair(self, a, b):
        x, y = FakeSock(self, a), FakeSock(self, b)
        x.peer, y.peer = y, x
        return x, y

    def socket_module(self):
        m = types.ModuleType("socket")
        m.AF_INET, m.SOCK_STREAM, m.SOL_SOCKET, m.SO_REUSEADDR, m.MSG_WAITALL = 2, 1, 1, 2, 256
        m.IPPROTO_TCP, m.TCP_NODELAY = 6, 1
        m.error = OSError
        m.timeout = TimeoutError

        def make(*a, **k):
            s = self.made.pop(0) if self.made else FakeSock(self, "srv")
            return s
        m.socket = make
        m.SHUT_RDWR, m.SHUT_WR, m.SHUT_RD, m.SO_KEEPALIVE, m.SO_SNDBUF, m.SO_RCVBUF, m.SOMAXCONN = 2, 1, 0, 9, 7, 8, 4096

        def create_connection(address, *a, **k):
            s = make()
            s.connect(address)
            return s

        def create_server(address, *a, **k):
            s = make()
            s.bind(address)
            return s
        m.create_connection, m.create_server = create_connection, create_server
        return m

    def pickle_module(self):
        m = types.ModuleType("pickle")
        m.UnpicklingError = pickle.UnpicklingError
        m.HIGHEST_PROTOCOL = pickle.HIGHEST_PROTOCOL
        m.DEFAULT_PROTOCOL = pickle.DEFAULT_PROTOCOL
        m.PickleError = pickle.PickleError

        def dumps(o, *a, **k):
            if isinstance(o, Msg):
                ln, o = o.length, Msg(o.ident, o.length, o.version)
            else:
                real = pickle.dumps(o, *a, **k)
                ln, o = len(real), pickle.loads(real)
            return SymBytes([(Blob(ln, obj=o), 0, ln)])

        def loads(b, *a, **k):
            if isinstance(b, SymView):
                b = b.content()
            if not isinstance(b, SymBytes):
                raise EOFError("Ran out of input")
            ps = b.parts
            if not ps or isinstance(ps[0], bytes) or ps[0][0].num is not None or ps[0][0].kind is not None:
                raise pickle.UnpicklingError("invalid load key")
            bl, s, e = ps[0]
            if bool(s == 0) and bool(e == bl.length):
                o = bl.obj
                return Msg(o.ident, o.length, o.version) if isinstance(o, Msg) else o
            raise pickle.UnpicklingError("pickle data was truncated")
        m.dumps, m.loads = dumps, loads
        return m


class Msg:
    """a mutable object whose pickle has a symbolic length"""
    def __init__(self, ident, length, version=0):
        self.ident = ident
        self.length = length
        self.version = version

    def __eq__(self, o):
        return isinstance(o, Msg) and (self.ident, self.version) == (o.ident, o.version)

    def __hash__(self):
        return hash(self.ident)


def message(h, ident, lo=40, hi=9999):
    n = h.int("len_%s" % ident, lo, hi)
    if h.symbolic:
        return Msg(ident, n)
    from .harness import AssumeFailed
    for m in range(max(0, n - 60), n + 1):
        for extra in (0, 1, 2, 3, 4, 5):
            o = [ident, b"x" * m, "y" * extra, 0]
            if len(pickle.dumps(o)) == n:
                return o
    raise AssumeFailed()


def content(h, m):
    """what a receiver of m, sent now, has to get"""
    return Msg(m.ident, m.length, m.version) if h.symbolic else list(m)


def change(h, m, ident, lo=40, hi=9999):
    """modify the object in place"""
    new = message(h, ident, lo, hi)
    if h.symbolic:
        m.version, m.length = m.version + 1, new.length
    else:
        m[1:] = new[1:3] + [m[3] + 1]


def world(h, net):
    if h.symbolic:
        h.hooks["format"] = fmt_hook
        h.hooks["str"] = lambda n: numstr(n, None)
        return h.world(extra={"socket": net.socket_module(), "pickle": net.pickle_module(), "struct": struct_module()},
                       builtin_extra={"bytes": bytes_proxy, "bytearray": bytearray_proxy, "memoryview": memoryview_proxy})
    return h.world(extra={"socket": net.socket_module()})
