"""C23: the Python implementation against the C library (loaded with ctypes)"""
import ctypes as ct, itertools, logging, math, os, socket, struct, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "python"))
import pyexplore as mc
from pyexplore import pick, choose, check, note, case, state
import pomp
import pomp.protocol as protocol
import pomp.connection as connection
from pomp.message import Message
from pomp.encoder import Encoder, EncodeException
from pomp.decoder import Decoder, DecodeException
logging.disable(logging.CRITICAL)

# ---------------------------------------------------------------- C library
L = ct.CDLL(os.environ["MC_SO"])
P = ct.c_void_p
for n, r, a in [
    ("pomp_msg_new", P, []), ("pomp_msg_destroy", ct.c_int, [P]), ("pomp_msg_init", ct.c_int, [P, ct.c_uint32]),
    ("pomp_msg_clear", ct.c_int, [P]), ("pomp_msg_finish", ct.c_int, [P]), ("pomp_msg_get_id", ct.c_uint32, [P]),
    ("pomp_msg_get_buffer", P, [P]), ("pomp_msg_new_with_buffer", P, [P]),
    ("pomp_buffer_new_with_data", P, [ct.c_char_p, ct.c_size_t]), ("pomp_buffer_unref", None, [P]),
    ("pomp_buffer_get_cdata", ct.c_int, [P, P, P, P]),
    ("pomp_encoder_new", P, []), ("pomp_encoder_init", ct.c_int, [P, P]), ("pomp_encoder_clear", ct.c_int, [P]),
    ("pomp_decoder_new", P, []), ("pomp_decoder_init", ct.c_int, [P, P]), ("pomp_decoder_clear", ct.c_int, [P]),
    ("pomp_prot_new", P, []), ("pomp_prot_destroy", ct.c_int, [P]), ("pomp_prot_decode_msg", ct.c_int, [P, P, ct.c_size_t, P]),
    ("pomp_addr_parse", ct.c_int, [ct.c_char_p, P, P]),
]:
    f = getattr(L, n); f.restype = r; f.argtypes = a
T = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "str", "buf", "f32", "f64"]
CT = {"i8": ct.c_int8, "u8": ct.c_uint8, "i16": ct.c_int16, "u16": ct.c_uint16, "i32": ct.c_int32, "u32": ct.c_uint32,
      "i64": ct.c_int64, "u64": ct.c_uint64, "f32": ct.c_float, "f64": ct.c_double}
FMT = {"i8": "%hhd", "u8": "%hhu", "i16": "%hd", "u16": "%hu", "i32": "%d", "u32": "%u", "i64": "%lld", "u64": "%llu",
       "str": "%s", "buf": "%p", "f32": "%f", "f64": "%lf"}
# other spellings of the same formats
FMT2 = {"i8": "%hhi", "i16": "%hi", "i32": "%i", "i64": "%lli", "f32": "%g", "f64": "%lE"}
CFMT = dict(FMT, buf="%p%u")
for t in T:
    w = getattr(L, "pomp_encoder_write_" + t); w.restype = ct.c_int
    w.argtypes = [P, CT[t]] if t in CT else [P, ct.c_char_p] if t == "str" else [P, ct.c_char_p, ct.c_uint32]
    rd = getattr(L, "pomp_decoder_read_" + ("cstr" if t == "str" else "cbuf" if t == "buf" else t)); rd.restype = ct.c_int
    rd.argtypes = [P, P] if t != "buf" else [P, P, P]
ENC, DEC = L.pomp_encoder_new(), L.pomp_decoder_new()


def cbytes(msg):
    d, l = ct.c_void_p(), ct.c_size_t()
    r = L.pomp_buffer_get_cdata(L.pomp_msg_get_buffer(msg), ct.byref(d), ct.byref(l), None)
    assert r == 0
    return ct.string_at(d, l.value)


def cencode(msgid, args):
    """the bytes of the C library for a list of (type, value), None when it refuses"""
    m = L.pomp_msg_new()
    try:
        assert L.pomp_msg_init(m, msgid) == 0 and L.pomp_encoder_init(ENC, m) == 0
        for t, v in args:
            f = getattr(L, "pomp_encoder_write_" + t)
            if t == "str":
                r = f(ENC, v.encode("utf-8"))
            elif t == "buf":
                r = f(ENC, bytes(v) if v else b"\0", len(v))
            else:
                r = f(ENC, v)
            if r != 0:
                return None
        L.pomp_encoder_clear(ENC)
        assert L.pomp_msg_finish(m) == 0
        return cbytes(m)
    finally:
        L.pomp_encoder_clear(ENC)
        L.pomp_msg_destroy(m)


def cencodef(msgid, args):
    """the same through the format interface"""
    m = L.pomp_msg_new()
    f = L.pomp_msg_write
    try:
        va = []
        for t, v in args:
            if t == "str": va.append(ct.c_char_p(v.encode("utf-8")))
            elif t == "buf": va += [ct.c_char_p(bytes(v)), ct.c_uint(len(v))]
            elif t in ("f32", "f64"): va.append(ct.c_double(v))
            elif t == "i64": va.append(ct.c_longlong(v))
            elif t == "u64": va.append(ct.c_ulonglong(v))
            elif t[0] == "i": va.append(ct.c_int(v))
            else: va.append(ct.c_uint(v))
        f.argtypes = [P, ct.c_uint32, ct.c_char_p] + [type(x) for x in va]
        r = f(m, msgid, "".join(CFMT[t] for t, _ in args).encode() if args else None, *va)
        return cbytes(m) if r == 0 else None
    finally:
        L.pomp_msg_destroy(m)


class CMsg:
    """a C message made from received bytes, None when the header is not acceptable"""
    def __init__(self, data):
        self.b = L.pomp_buffer_new_with_data(data, len(data))
        self.m = L.pomp_msg_new_with_buffer(self.b)
    def __enter__(self): return self
    def __exit__(self, *a):
        if self.m: L.pomp_msg_destroy(self.m)
        L.pomp_buffer_unref(self.b)
    def read(self, types):
        """values and whether all could be read"""
        vals = []
        L.pomp_decoder_init(DEC, self.m)
        for t in types:
            if t == "str":
                p = ct.c_void_p()
                r = L.pomp_decoder_read_cstr(DEC, ct.byref(p))
                v = ct.string_at(p) if r == 0 else None
            elif t == "buf":
                p, l = ct.c_void_p(), ct.c_uint32()
                r = L.pomp_decoder_read_cbuf(DEC, ct.byref(p), ct.byref(l))
                v = (ct.string_at(p, l.value) if l.value else b"") if r == 0 else None
            else:
                x = CT[t]()
                r = getattr(L, "pomp_decoder_read_" + t)(DEC, ct.byref(x))
                v = x.value
            if r != 0:
                L.pomp_decoder_clear(DEC)
                return vals, False
            vals.append(v)
        L.pomp_decoder_clear(DEC)
        return vals, True


# ---------------------------------------------------------------- Python side
def pymsg(data):
    """a Python message as its stream decoder makes it"""
    m = Message()
    m.init(struct.unpack("<I", data[4:8])[0])
    m.buf.write(data)
    m.setFinished()
    return m


def same(t, c, p):
    if t == "str":
        return p.encode("utf-8").split(b"\0")[0] == c
    if t == "buf":
        return bytes(p) == c
    if t in ("f32", "f64"):
        return struct.pack("<d", p) == struct.pack("<d", c) or (math.isnan(p) and math.isnan(c))
    return type(p) is int and p == c


def pyread(data, types, how=0):
    """values that could be read one after the other, and whether all could"""
    m = pymsg(data)
    if how == 0:
        try:
            return list(m.read("".join(FMT[t] for t in types) if types else None)), True
        except DecodeException:
            return None, False
    d = Decoder(); d.init(m)
    vals = []
    for t in types:
        try:
            vals.append(getattr(d, "read" + t.capitalize())())
        except DecodeException:
            return vals, False
    return vals, True


def dump(data):
    m = pymsg(data)
    try:
        s = m.dump()
    except DecodeException:
        return None
    check(s.startswith("{ID:%u" % m.msgid) and s.endswith("}"), "the dump is %r", s)
    return s


def notutf8(cv):
    for v in cv:
        if isinstance(v, bytes):
            try: v.decode("utf-8")
            except UnicodeDecodeError: return True
    return False


def compare(data, types):
    """both sides read the message with these types"""
    case()
    with CMsg(data) as cm:
        check(cm.m, "the C library refuses %r", data)
        cv, cok = cm.read(types)
    pv, pok = pyread(data, types, 1)
    fv, fok = pyread(data, types, 0)
    check(fok == pok and (not fok or repr(fv) == repr(pv)), "the formatted read gives %r, the single reads %r (message %r)", fv, pv, data)
    if cok != pok or len(cv) != len(pv):
        # a text of bytes that are no text at all has no value in Python, and one with a null inside has a shorter one in C
        k = len(pv)
        if k < len(cv) and types[k] == "str" and strbytes(data, types, k):
            cv = cv[:k]
        else:
            check(False, "message %r read as %s: C gives %r (%s), Python %r (%s)", data, types, cv, "complete" if cok else "error", pv, "complete" if pok else "error")
    for t, c, p in zip(types, cv, pv):
        check(same(t, c, p), "message %r read as %s: C gives %r, Python %r", data, types, c, p)
    return cok


def strbytes(data, types, k):
    """whether the k-th value is a string that is not valid text"""
    with CMsg(data) as cm:
        v, ok = cm.read(types[:k + 1])
        if not ok:
            return False
        # the complete bytes, also those after a null
        L.pomp_decoder_init(DEC, cm.m)
        _ = [cread1(t) for t in types[:k]]
        raw = cstrraw(data, types, k)
    try:
        raw.decode("utf-8")
        return False
    except UnicodeDecodeError:
        return True


def cread1(t): return None


def cstrraw(data, types, k):
    """walks the payload up to the k-th value (reference of its own)"""
    o = 12
    def varint():
        nonlocal o
        v = s = 0
        while True:
            b = data[o]; o += 1
            v |= (b & 0x7f) << s; s += 7
            if not b & 0x80: return v
    for i, t in enumerate(types[:k + 1]):
        o += 1
        if t in ("i8", "u8"): o += 1
        elif t in ("i16", "u16"): o += 2
        elif t in ("i32", "u32", "i64", "u64"): varint()
        elif t == "f32": o += 4
        elif t == "f64": o += 8
        else:
            n = varint()
            if i == k: return data[o:o + n - 1]
            o += n
    return b""


def hdr(msgid, size): return b"POMP" + struct.pack("<II", msgid, size)
def wrap(payload, msgid=1): return hdr(msgid, 12 + len(payload)) + payload


# ---------------------------------------------------------------- values
def ints(t):
    bits, signed = int(t[1:]), t[0] == "i"
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    s = set()
    for k in range(bits + 1):
        for d in (-2, -1, 0, 1, 2):
            for sg in (1, -1):
                v = sg * (1 << k) + d
                if lo <= v <= hi: s.add(v)
    return sorted(s | {lo, hi})


STRS = ["", "a", "abc", "\u00e9", "\u20ac", "\U0001f600x", "\x7f\x01", "x" * 126, "x" * 127, "x" * 128, "\u00e9" * 64]
BUFS = [b"", b"\0", b"\xff\x00\x80", bytes(range(256)), b"b" * 127, b"b" * 128, b"b" * 16384]
FLT = [0.0, -0.0, 1.0, -1.5, 0.1, 3.25e10, float("inf"), float("-inf"), float("nan")]
SMALL = {"i8": [-128, -1, 127], "u8": [0, 128, 255], "i16": [-32768, -1, 258], "u16": [0, 513, 65535],
         "i32": [-(1 << 31), -1, (1 << 31) - 1, 64], "u32": [0, 127, 128, (1 << 32) - 1], "i64": [-(1 << 63), -1, (1 << 63) - 1, 1 << 40],
         "u64": [0, 1 << 35, (1 << 64) - 1], "str": ["", "ab", "\u00e9", "x" * 127], "buf": [b"", b"\x01\0\xff", b"c" * 128],
         "f32": [-0.0, 1.5, float("inf")], "f64": [0.1, -2.0, float("nan")]}
IDS = [0, 1, 0x7f, 0x80, 0x1234, 0x504d4f50, 0x7fffffff, 0x80000000, 0xffffffff]


def agree(msgid, args, fmt=FMT):
    """one message written by both and read by both"""
    case()
    c = cencode(msgid, args)
    check(c is not None, "the C library refuses %r", args)
    m = Message()
    m.write(msgid, "".join(fmt.get(t, FMT[t]) for t, _ in args) if args else None, *[v for _, v in args])
    p = m.buf.getData()
    check(p == c, "message %d %r: C encodes %r, Python %r", msgid, args, c, p)
    cf = cencodef(msgid, args)
    check(cf == c, "message %d %r: C encodes %r, with a format %r", msgid, args, c, cf)
    # typed writers
    m2 = Message(); m2.init(msgid)
    e = Encoder(); e.init(m2)
    for t, v in args: getattr(e, "write" + t.capitalize())(v)
    e.clear(); m2.finish()
    check(m2.buf.getData() == c, "typed writers: %r instead of %r", m2.buf.getData(), c)
    types = [t for t, _ in args]
    v = m.read("".join(fmt.get(t, FMT[t]) for t in types) if types else None)
    check(len(v) == len(args) and all(samepy(t, a, b) for (t, a), b in zip(args, v)), "written %r, read back %r", args, v)
    check(m.dump() == dump(c) and dump(c) is not None, "the dump fails")
    check(m.msgid == msgid and m.buf.getData() == c, "reading changes the message")
    check(compare(c, types), "not readable")
    return c


def samepy(t, a, b):
    if t == "f32" and not math.isnan(a): a = ct.c_float(a).value
    if t in ("f32", "f64"): return struct.pack("<d", a) == struct.pack("<d", b) or (math.isnan(a) and math.isnan(b))
    if t == "buf": return bytes(a) == bytes(b)
    return a == b


# ---------------------------------------------------------------- scenarios
def s_sequences():
    """sequences of values of every type"""
    n = 5 if mc.THOROUGH else 4
    seqs = [s for k in range(3) for s in itertools.product(T, repeat=k)]
    lead = choose(seqs, "leading types")
    msgid = IDS[pick(len(IDS), "id")] if len(lead) < 2 else 77
    if len(lead) < 2:
        for vals in itertools.product(*[SMALL[t] + (STRS if t == "str" else BUFS if t == "buf" else FLT if t[0] == "f" else []) for t in lead]):
            agree(msgid, list(zip(lead, vals)))
            agree(msgid, list(zip(lead, vals)), FMT2)
        return
    for vals in itertools.product(*[SMALL[t] for t in lead]):
        agree(msgid, list(zip(lead, vals)))
    for k in range(1, n - 1):
        for tail in itertools.product(T, repeat=k):
            ts = list(lead) + list(tail)
            for j in range(3):
                agree(msgid, [(t, SMALL[t][(j + i) % len(SMALL[t])]) for i, t in enumerate(ts)])


def s_ints():
    """every 8 and 16-bit integer, the neighbourhood of every power of two of the others"""
    t, part = choose([(t, p) for t in T[:8] for p in range(8)], "type and part")
    vals = range(-(1 << 15), 1 << 15) if t == "i16" else range(1 << 16) if t == "u16" else ints(t) if int(t[1:]) > 8 else range(-128, 128) if t == "i8" else range(256)
    for i, v in enumerate(vals):
        if i % 8 == part:
            agree(v & 0xffffffff, [(t, v)])


def s_floats():
    t, part = choose([(t, p) for t in ("f32", "f64") for p in range(8)], "type and part")
    eb, mb = (8, 23) if t == "f32" else (11, 52)
    for e in range(1 << eb):
        if e % 8 != part: continue
        for s in (0, 1):
            for man in (0, 1, 1 << (mb - 1), (1 << mb) - 1):
                bits = (s << (eb + mb)) | (e << mb) | man
                v = struct.unpack("<f" if t == "f32" else "<d", struct.pack("<I" if t == "f32" else "<Q", bits))[0]
                if math.isnan(v) and not man >> (mb - 1): continue   # signalling ones do not survive being copied
                agree(1, [(t, v)])


def s_texts():
    """lengths around all limits, and every character"""
    kind = pick(4, "kind")
    if kind == 0:
        lens = [*range(0, 300), *range(16380, 16388), *range(65530, 65540)]
        part = pick(8, "part")
        for i, n in enumerate(lens):
            if i % 8 != part: continue
            for ch in ("a", "\u00e9"):
                s = (ch * n).encode("utf-8")[:n].decode("utf-8", "ignore")
                ok = len(s.encode("utf-8")) + 1 <= 0xffff
                if ok:
                    agree(2, [("str", s), ("u8", 7)])
                else:
                    case()
                    check(cencode(2, [("str", s)]) is None, "C accepts a string that is too long")
                    try:
                        Message().write(2, "%s", s)
                        check(False, "Python accepts a string of %d bytes", len(s))
                    except EncodeException:
                        pass
    elif kind == 1:
        part = pick(8, "part")
        for n in [*range(0, 300), *range(16380, 16388), *range(65530, 65540), *range(2097150, 2097154)]:
            if n % 8 == part:
                agree(2, [("buf", bytes((i * 7 + n) & 0xff for i in range(min(n, 300))) + b"z" * max(0, n - 300)), ("u8", 7)])
    elif kind == 2:
        part = pick(8, "part")
        step = 1 if mc.THOROUGH else 37
        for c in [*range(1, 0x900), *range(0x900, 0xd800, step), *range(0xe000, 0x10000, step), *range(0x10000, 0x110000, step * 41), 0x10ffff, 0xffff, 0xd7ff, 0xe000]:
            if c % 8 == part:
                agree(2, [("str", "<" + chr(c))])
    else:
        for b in range(256):
            agree(2, [("buf", bytes([b, 0, b]))])


def s_types():
    """reading with other types than those written, and beyond the end"""
    n = 3 if mc.THOROUGH else 2
    w = choose([s for k in range(3) for s in itertools.product(T, repeat=k)], "written")
    j = pick(2, "values")
    data = cencode(3, [(t, SMALL[t][(j + i) % len(SMALL[t])]) for i, t in enumerate(w)])
    reads = [s for k in range(n + 1) for s in itertools.product(T, repeat=k)] if len(w) < 2 or mc.THOROUGH else \
        [w[:i] + (t,) + w[i + 1:] for i in range(2) for t in T] + [w + (t,) for t in T] + [w[:1] + (t, u) for t in T for u in T]
    if len(w) == 2 and mc.THOROUGH:
        reads = [s for k in range(n) for s in itertools.product(T, repeat=k)] + [w + (t,) for t in T]
    for r in reads:
        compare(data, r)


def s_payloads():
    """all short payloads over an alphabet that matters"""
    ty = pick(18, "type byte")
    if ty == 16: ty = 0x80
    if ty == 17: ty = 0xff
    A = [0x00, 0x01, 0x02, 0x03, 0x09, 0x41, 0x7f, 0x80, 0x81, 0xc3, 0xa9, 0xff]
    n = 5 if mc.THOROUGH else 4
    second = choose([None] + A, "second byte")
    tails = [b""] if second is None else [bytes((second,) + t) for k in range(n) for t in itertools.product(A, repeat=k)]
    for tail in tails:
        data = wrap(bytes([ty]) + tail)
        for t in [T[ty - 1]] if 1 <= ty <= 12 else T[4:10]:
            compare(data, [t]); compare(data, [t, "u8"])
        case(); dump(data)


def s_varints():
    """integers and sizes of all encoded lengths"""
    ty = choose([5, 6, 7, 8, 9, 10], "type")
    n = pick(13, "continued bytes")
    for fill in (0x80, 0xff, 0x81):
        for last in range(128):
            for rest in (b"", b"\0", b"a\0", b"ab\0cd"):
                data = wrap(bytes([ty]) + bytes([fill]) * n + bytes([last]) + rest)
                compare(data, [T[ty - 1]])
                case(); dump(data)
        data = wrap(bytes([ty]) + bytes([fill]) * n)
        compare(data, [T[ty - 1]])
        case(); dump(data)


SAMPLES = [[("str", "ab\u00e9"), ("u32", 300), ("buf", b"\x01\x02")], [("i64", -5), ("f64", 1.5), ("str", "")],
           [("i8", -3), ("u8", 4), ("i16", -5), ("u16", 6), ("f32", 0.5)], [("buf", b"0" * 130), ("i32", -1), ("u64", 1 << 40)], [("str", "x" * 127), ("str", "yz")]]


def s_damage():
    """every truncation and every change of one byte of valid payloads"""
    args = choose(SAMPLES, "message")
    types = [t for t, _ in args]
    good = cencode(4, args)[12:]
    pos = pick(len(good) + 1, "position")
    compare(wrap(good[:pos]), types)
    case(); dump(wrap(good[:pos]))
    if pos < len(good):
        for b in range(256):
            data = wrap(good[:pos] + bytes([b]) + good[pos + 1:])
            compare(data, types)
            if b % 16 == 0 or b < 16: case(); dump(data)
        for b in (0x00, 0x80, 0xff, 0x09):
            data = wrap(good[:pos] + bytes([b]) + good[pos:])
            compare(data, types)
            case(); dump(data)


def cstream(chunks):
    """messages the C decoder finds"""
    p = L.pomp_prot_new()
    out = []
    for c in chunks:
        buf = ct.create_string_buffer(c, len(c))
        off = 0
        while off < len(c):
            m = ct.c_void_p()
            r = L.pomp_prot_decode_msg(p, ct.addressof(buf) + off, len(c) - off, ct.byref(m))
            assert r > 0
            off += r
            if m.value:
                out.append((L.pomp_msg_get_id(m), cbytes(m)))
                L.pomp_msg_destroy(m)
    L.pomp_prot_destroy(p)
    return out


def pystream(chunks):
    p = protocol.Protocol()
    out = []
    for c in chunks:
        off = 0
        while off < len(c):
            o, m = p.decode(c, off)
            check(o > off and o <= len(c), "the stream decoder does not advance (%d after %d of %d)", o, off, len(c))
            off = o
            state((p.state, len(p.headerBuf), 0 if p.msg is None else len(p.msg.buf)))
            if m is not None:
                check(m.finished, "a decoded message is not finished")
                out.append((m.msgid, m.buf.getData()))
    return out


class FakeSock:
    def __init__(self, chunks, dgram):
        self.chunks, self.dgram, self.family, self.out = list(chunks), dgram, socket.AF_INET, []
    def getsockname(self): return ("a", 1)
    def getpeername(self): return ("b", 2)
    def recv(self, n):
        return self.chunks.pop(0) if self.chunks else b""
    def recvfrom(self, n):
        if not self.chunks: raise OSError(9, "closed")
        return self.chunks.pop(0), ("c", len(self.chunks))
    def sendall(self, d): self.out.append(bytes(d))
    def sendto(self, d, a): self.out.append((bytes(d), a))


class FakeCtx:
    def __init__(self): self.got, self.removed = [], 0
    def notifyMessage(self, conn, msg, *rest): self.got.append((msg.msgid, msg.buf.getData()))
    def removeConn(self, conn): self.removed += 1


def pyconn(chunks, dgram=False):
    """messages given by a Python connection that receives these chunks"""
    ctx = FakeCtx()
    c = connection.Connection(ctx, FakeSock(chunks, dgram), dgram)
    c.running = True
    c._reader()
    check(ctx.removed == 1, "the connection is not removed when its socket ends")
    return ctx.got


def streams_agree(data, chunks):
    case()
    c, p = cstream(chunks), pystream(chunks)
    check(c == p, "stream cut as %r: C finds %r, Python %r", [bytes(x) for x in chunks], c, p)
    return c


def cuts(data, k):
    for n in range(1, k + 1):
        for pos in itertools.combinations(range(1, len(data)), n - 1):
            pos = (0,) + pos + (len(data),)
            yield [data[a:b] for a, b in zip(pos, pos[1:])]


PIECES = [hdr(7, 12), wrap(b"\x02\x05", 8), wrap(b"\x09\x03ab\x00", 9), b"P", b"PO", b"POM", b"X", b"PPOM", b"POPOMP", hdr(3, 5), hdr(3, 11), hdr(4, 0), b"\0", hdr(5, 20), b"POMP\x01"]


def s_cuts():
    """streams of valid and invalid pieces, cut in every way"""
    a, b = choose([(a, b) for a in range(len(PIECES)) for b in range(len(PIECES))], "pieces")
    for c in range(3):
        data = PIECES[a] + PIECES[b] + PIECES[c]
        whole = streams_agree(data, [data])
        for ch in cuts(data, 4 if mc.THOROUGH and len(data) < 40 else 3):
            check(streams_agree(data, ch) == whole, "the messages depend on how the stream is cut: %r", ch)
        one = [data[i:i + 1] for i in range(len(data))]
        check(streams_agree(data, one) == whole, "the messages depend on how the stream is cut")
        case()
        check(pyconn([data]) == whole and pyconn(one) == whole, "a connection gives other messages than the decoder for %r", data)


def s_garbage():
    """everything short over the letters of the magic before and between messages"""
    n = 9 if mc.THOROUGH else 6
    first = choose([s for s in itertools.product(b"POMX", repeat=2)], "first bytes")
    for k in range(n - 1):
        for t in itertools.product(b"POMX", repeat=k):
            g = bytes(first) + bytes(t)
            streams_agree(None, [g + PIECES[1] + PIECES[0]])
            streams_agree(None, [PIECES[0] + g, PIECES[1]])
            if k <= 3:
                streams_agree(None, [bytes([x]) for x in g + PIECES[1]])


def s_headers():
    """every size field near the limits, with every byte of the header changed"""
    size = pick(32, "size")
    for pos in range(12):
        for v in range(256) if pos < 8 else (0, size):
            h = bytearray(hdr(6, size)); h[pos] = v
            streams_agree(None, [bytes(h) + b"\x02\x05" + PIECES[2] + PIECES[1]])
            if v % 16 == 0:
                streams_agree(None, [bytes(h)[:7], bytes(h)[7:] + b"\x02\x05" + PIECES[2], PIECES[1]])


def s_dgrams():
    """datagrams are decoded each on its own"""
    D = [PIECES[0], PIECES[1], PIECES[1] + PIECES[2], PIECES[1][:-1], b"PO", b"MP" + hdr(1, 12)[4:], hdr(5, 5), b"", hdr(5, 40), PIECES[2] + b"POMP"]
    a, b = choose([(a, b) for a in range(len(D)) for b in range(len(D))], "datagrams")
    for c in range(len(D)):
        l = [D[a], D[b], D[c]]
        case()
        want = [m for d in l for m in (cstream([d]) if d else [])]
        got = pyconn(l, True)
        check(got == want, "datagrams %r give %r instead of %r", l, got, want)


def s_life():
    """messages written, read and cleared in any order"""
    depth = 7 if mc.THOROUGH else 5
    ops = choose([o for o in itertools.product(range(7), repeat=2)], "first operations")
    m = Message()
    cur = None
    for rest in itertools.product(range(7), repeat=depth - 2):
        case()
        m, cur = Message(), None
        for o in ops + rest:
            if o == 0: m.write(1, "%u%s", 300, "ab"); cur = (1, [("u32", 300), ("str", "ab")])
            elif o == 1: m.write(2, None); cur = (2, [])
            elif o == 2: m.init(3); m.finish(); cur = (3, [])
            elif o == 3: m.clear(); cur = None
            elif cur is None: break
            elif o == 4: check(list(m.read("".join(FMT[t] for t, _ in cur[1]) or None)) == [v for _, v in cur[1]], "read gives something else")
            elif o == 5: check(m.dump() == dump(cencode(cur[0], cur[1])), "dump gives something else")
            elif o == 6:
                try:
                    m.read("%s")
                    check(False, "a wrong read succeeds")
                except DecodeException: pass
            if cur: check(m.buf.getData() == cencode(cur[0], cur[1]), "message is %r instead of %r", m.buf.getData(), cencode(cur[0], cur[1]))


def s_sends():
    """what a connection writes is what was encoded"""
    args = choose([[]] + SAMPLES, "message")
    dgram = pick(2, "datagram")
    m = Message(); m.write(9, "".join(FMT[t] for t, _ in args) if args else None, *[v for _, v in args])
    s = FakeSock([], dgram)
    c = connection.Connection(FakeCtx(), s, bool(dgram))
    case()
    if dgram:
        c._onWriteRequest((connection.Connection._WRITE_MSG_TO, m, ("x", 5)))
        check(s.out == [(cencode(9, args), ("x", 5))], "other bytes are sent: %r", s.out)
    else:
        c._onWriteRequest((connection.Connection._WRITE_MSG, m))
        check(s.out == [cencode(9, args)], "other bytes are sent: %r", s.out)


def caddr(text):
    """the socket address of the C library for a text, None when it refuses"""
    b = ct.create_string_buffer(128)
    n = ct.c_uint32(128)
    return b.raw[:n.value] if L.pomp_addr_parse(text.encode(), b, ct.byref(n)) == 0 else None


def sockaddr(fam, addr):
    """the socket address that the socket module makes of an address"""
    if fam == socket.AF_UNIX:
        b = addr if isinstance(addr, bytes) else os.fsencode(addr)
        # names in the file system end at the first NUL, abstract ones are as long as given
        if b[:1] != b"\0": b = b.split(b"\0")[0] + b"\0" * (108 - len(b.split(b"\0")[0]))
        return struct.pack("<H", fam) + b
    host, port = addr[0], addr[1]
    check(isinstance(host, str) and isinstance(port, int), "address %r", addr)
    if fam == socket.AF_INET: return struct.pack("<H", fam) + struct.pack(">H", port) + socket.inet_pton(fam, host) + bytes(8)
    return struct.pack("<H", fam) + struct.pack(">H", port) + struct.pack("<I", addr[2] if len(addr) > 2 else 0) + socket.inet_pton(fam, host) + struct.pack("<I", addr[3] if len(addr) > 3 else 0)


HOST4 = ["0.0.0.0", "127.0.0.1", "255.255.255.255", "10.0.0.255", "192.168.1.42", "1.2.3.4", "224.0.0.1"]
HOST6 = ["::", "::1", "fe80::1", "2001:db8::ff00:42:8329", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4", "::1.2.3.4", "1::", "1::8", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "0:0:0:0:0:0:0:1", "2001:DB8::A"]
PORTS = [0, 1, 9, 10, 80, 255, 256, 443, 1023, 1024, 4242, 8080, 9999, 10000, 32767, 32768, 65534, 65535]


def s_addrs():
    """address texts denote the same socket address in both implementations"""
    what = choose(["inet", "inet6", "unix", "abstract", "lengths", "bad"], "kind of texts")
    if what == "inet": l = ["inet:%s:%d" % (h, p) for h in HOST4 for p in PORTS]
    elif what == "inet6": l = ["inet6:%s:%d" % (h, p) for h in HOST6 for p in PORTS]
    elif what in ("unix", "abstract"):
        k = 5 if mc.THOROUGH else 4
        l = [("unix:@" if what == "abstract" else "unix:") + "".join(t) for n in range(1, k + 1) for t in itertools.product("/a.: @-\u00e9"[:6 if n > 3 else 8], repeat=n)]
        if what == "unix": l = [t for t in l if t[5] != "@"]
    elif what == "lengths": l = ["unix:" + c + "x" * n for n in range(0, 108) for c in ("/", "@", "a", "/tmp/", "@b:") if len(c) + n < 108]
    else: l = ["", "inet", "unix", "inet6", "inet7:127.0.0.1:1", "foo:bar", ":1", "inet:127.0.0.1", "inet:1234", "inet6:1", "inet:127.0.0.1:port", "INET:1.2.3.4:5", " inet:1.2.3.4:5", "Unix:a", "tcp:1.2.3.4:5", "inet:127.0.0.1:80a", "inet:127.0.0.1:0x50", "inet:127.0.0.1:8.0"]
    for t in l:
        case()
        want = caddr(t)
        try:
            got = pomp.parseAddr(t)
        except Exception as ex:
            check(want is None and not isinstance(ex, (IndexError, AttributeError, TypeError)), "address %r cannot be parsed: %r", t, ex)
            continue
        check(what != "bad", "the wrong address %r gives %r", t, got)
        check(want is not None, "the C library does not take %r", t)
        have = sockaddr(*got)
        check(have == want, "address %r is %r (%s) instead of %s", t, got, have.hex(), want.hex())


mc.SCEN += [("sequences", s_sequences, False), ("ints", s_ints, False), ("floats", s_floats, False), ("texts", s_texts, False), ("types", s_types, False),
            ("payloads", s_payloads, False), ("varints", s_varints, False), ("damage", s_damage, False), ("cuts", s_cuts, False), ("garbage", s_garbage, False),
            ("headers", s_headers, False), ("dgrams", s_dgrams, False), ("life", s_life, False), ("sends", s_sends, False), ("addrs", s_addrs, False)]
if __name__ == "__main__":
    e = os.open("/dev/null", os.O_WRONLY)
    os.dup2(e, 2)       # the warnings of the C library
    mc.main("C23", "Exhaustive enumeration, by choices made in every possible way, of messages, payloads and cuttings; each execution runs both implementations and compares. States are distinct positions in the tree of choices plus distinct states of the Python stream decoder.")
