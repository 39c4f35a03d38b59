"""Independent reference receivers, written from the wire formats: they see
nothing but the bytes a codec produced (plus the two Huffman code tables, which
are constants of the format).  Each keeps its own tables under the negotiated
limits, so an encoder that keeps more state than it is allowed to, refers to an
evicted entry, or drifts from the format shows up as a decoding error."""
import collections
import struct
import zlib

import core


class Bad(Exception):
    pass


# --------------------------------------------------------------------------
class Bits(object):
    def __init__(self, data):
        self.s = bin(int.from_bytes(b'\1' + data, 'big'))[3:]
        self.i = 0

    def left(self):
        return len(self.s) - self.i

    def get(self, n):
        if self.i + n > len(self.s):
            raise Bad('ran out of bits')
        v = int(self.s[self.i:self.i + n], 2) if n else 0
        self.i += n
        return v

    def align(self):
        self.i += -self.i % 8

    def huff(self, codes, maxlen):
        out = []
        s, i = self.s, self.i
        n = len(s)
        while True:
            j = i + 1
            while True:
                if j > n:
                    raise Bad('string without end')
                sym = codes.get(s[i:j])
                if sym is not None:
                    break
                j += 1
                if j - i > maxlen:
                    raise Bad('no such code')
            i = j
            if sym == 256:
                break
            out.append(chr(sym))
        self.i = i
        return ''.join(out)


def code_map(codes):
    """{symbol: [bytes, nbits]} as recorded -> {bit string: symbol}"""
    m = {}
    for sym, code in codes.items():
        if len(code) != 2:
            raise core.Broken('symbol %s cannot be encoded: %r' % (sym, code))
        by, nb = code
        bits = ''.join('{0:08b}'.format(b) for b in by)[:nb]
        m[bits] = int(sym)
    return m


def joined(pairs):
    return sorted([k, v] for k, v in pairs)


# -- HPACK draft 3 (compressor/http2) -----------------------------------------
H2_REQ = [(":scheme", "http"), (":scheme", "https"), (":host", ""), (":path", "/"),
          (":method", "get")] + [(n, "") for n in (
              "accept accept-charset accept-encoding accept-language cookie "
              "if-modified-since user-agent referer authorization allow cache-control "
              "connection content-length content-type date expect from if-match "
              "if-none-match if-range if-unmodified-since max-forwards "
              "proxy-authorization range via").split()]
H2_RES = [(":status", "200")] + [(n, "") for n in (
    "age cache-control content-length content-type date etag expires last-modified "
    "server set-cookie vary via access-control-allow-origin accept-ranges allow "
    "connection content-disposition content-encoding content-language "
    "content-location content-range link location proxy-authenticate refresh "
    "retry-after strict-transport-security transfer-encoding "
    "www-authenticate").split()]


class ByteReader(object):
    def __init__(self, b):
        self.b, self.i = b, 0

    def more(self):
        return self.i < len(self.b)

    def byte(self):
        if self.i >= len(self.b):
            raise Bad('ran out of bytes')
        self.i += 1
        return self.b[self.i - 1]

    def integer(self, first, prefix):
        """An integer whose first `prefix` bits lie in `first` (and, beyond 8,
        in the next byte too)."""
        if prefix <= 8:
            full = (1 << prefix) - 1
            v = first & full
        else:
            full = (1 << prefix) - 1
            v = ((first << 8) | self.byte()) & full
        if v < full:
            return v
        shift = 0
        while True:
            c = self.byte()
            v += (c & 0x7f) << shift
            shift += 7
            if not c & 0x80:
                return v
            if shift > 56:
                raise Bad('integer too long')

    def raw(self, n):
        if self.i + n > len(self.b):
            raise Bad('string beyond the end')
        s = self.b[self.i:self.i + n].decode('latin-1')
        self.i += n
        return s

    def string(self):
        return self.raw(self.integer(0, 0))


class Http2(object):
    def __init__(self, is_request, params=(), **_):
        self.max = 4096
        for p in params:
            if p.startswith('buffer_size='):
                self.max = int(p.split('=')[1])
        self.table = [[h, False, False] for h in (H2_REQ if is_request else H2_RES)]
        self.size = sum(len(n) + len(v) + 32 for (n, v), _, _ in self.table)
        self.evicted = 0

    def frame(self, wire):
        if len(wire) < 8:
            raise Bad('short frame')
        (n, a, b, c) = struct.unpack('!HBBL', wire[:8])
        if n != len(wire) - 8 or a or b or c:
            raise Bad('frame header %r for %d bytes' % ((n, a, b, c), len(wire) - 8))
        return ByteReader(wire[8:])

    def at(self, i):
        if not 0 <= i < len(self.table):
            raise Bad('index %d of %d' % (i, len(self.table)))
        return self.table[i]

    def decode(self, wire):
        r = self.frame(wire)
        out = []
        for e in self.table:
            e[2] = False
        while r.more():
            b = r.byte()
            if b & 0x80:
                e = self.at(r.integer(b, 7))
                if e[1]:
                    e[1] = e[2] = False
                else:
                    e[1] = e[2] = True
                    out.append(e[0])
                continue
            sub = b & 0xc0 == 0
            ni = r.integer(b, 6 if sub else 5)
            name = r.string() if ni == 0 else self.at(ni - 1)[0][0]
            if sub:
                ref = r.integer(0, 0)
            value = r.string()
            out.append((name, value))
            need = len(name) + len(value) + 32
            if sub:
                self.at(ref)
                old = len(self.table[ref][0][0]) + len(self.table[ref][0][1]) + 32
                pos, gone = ref, False
                while self.size + need - (0 if gone else old) > self.max and self.table:
                    if pos == 0:
                        gone = True
                    self.pop()
                    pos -= 1
                if self.size + need - (0 if gone else old) <= self.max:
                    e = [(name, value), True, True]
                    if gone:
                        self.table.insert(0, e)
                        self.size += need
                    else:
                        self.table[pos] = e
                        self.size += need - old
            elif b & 0xe0 == 0x40:
                while self.size + need > self.max and self.table:
                    self.pop()
                if self.size + need <= self.max:
                    self.table.append([(name, value), True, True])
                    self.size += need
            if self.size > self.max and self.evicted:
                raise Bad('table too large')
        for e in self.table:
            if e[1] and not e[2]:
                out.append(e[0])
        return out

    def pop(self):
        (n, v), _, _ = self.table.pop(0)
        self.size -= len(n) + len(v) + 32
        self.evicted += 1

    def state(self):
        return [self.size, self.max, len(self.table)]


# -- HeaderDiff ---------------------------------------------------------------
HD_REQ = """accept accept-charset accept-encoding accept-language cookie :method host
if-modified-since keep-alive :host :scheme :path user-agent :version
proxy-connection referer accept-datetime authorization allow cache-control
connection content-length content-md5 content-type date expect from if-match
if-none-match if-range if-unmodified-since max-forwards pragma
proxy-authorization range te upgrade via warning""".split()
HD_RES = """age cache-control content-length content-type date etag expires
last-modified server set-cookie :status vary :version via :status-text
access-control-allow-origin accept-ranges allow connection content-disposition
content-encoding content-language content-location content-md5 content-range
link location p3p pragma proxy-authenticate refresh retry-after
strict-transport-security trailer transfer-encoding warning
www-authenticate""".split()


class HeaderDiff(Http2):
    def __init__(self, is_request, params=(), zdict=b'', **_):
        self.max = 32768
        self.z = None
        for p in params:
            if p.startswith('buffer='):
                self.max = int(p.split('=')[1])
            if p.startswith('deflate='):
                # the shared dictionary went through the stream first
                self.z = zlib.decompressobj(-15, zdict=zdict)
        self.names = list(HD_REQ if is_request else HD_RES)
        self.table = []
        self.size = 0
        self.peak = 0

    def decode(self, wire):
        r = self.frame(wire)
        if self.z is not None:
            r = ByteReader(self.z.decompress(r.b))
        count = r.byte()
        out = []
        for _ in range(count):
            b = r.byte()
            if b & 0x80:
                i = r.integer(b, 14) + 64 if b & 0x40 else b & 0x3f
                out.append(self.ent(i))
                continue
            mode = b & 0x30
            inc, sub = mode == 0x20, mode == 0x30
            prefix = 4 if b & 0x20 else 5
            if b & 0x40:
                ref = r.integer(b, prefix)
                name, old = self.ent(ref)
                k = r.integer(0, 0)
                if k > len(old):
                    raise Bad('prefix longer than the reference')
                value = old[:k] + r.string()
            else:
                ni = r.integer(b, prefix)
                if ni == 0:
                    name = r.string()
                    self.names.append(name)
                elif ni > len(self.names):
                    raise Bad('name index %d' % ni)
                else:
                    name = self.names[ni - 1]
                if sub:
                    ref = r.integer(0, 0)
                value = r.string()
            out.append((name, value))
            if sub:
                old = self.ent(ref)
                self.table[ref] = (name, value)
                self.size += len(value) - len(old[1])
            elif inc:
                self.table.append((name, value))
                self.size += len(value)
            if self.size > self.max:
                raise Bad('header table holds %d bytes, limit %d'
                          % (self.size, self.max))
            self.peak = max(self.peak, self.size)
        if r.more():
            raise Bad('bytes left over')
        return out

    def ent(self, i):
        if not 0 <= i < len(self.table):
            raise Bad('index %d of %d' % (i, len(self.table)))
        return self.table[i]

    def state(self):
        return [self.peak, self.max, len(self.table)]


# -- delta2 -------------------------------------------------------------------
D2_STATIC = [(':scheme', 'http'), ('connection', 'keep-alive')] + [(n, '') for n in """
x-xss-protection x-powered-by x-frame-options x-content-type-options p3p
get-dictionary content-disposition access-control-allow-origin www-authenticate
warning via vary user-agent upgrade transfer-encoding trailer te status set-cookie
server retry-after referer range proxy-authorization proxy-authenticate pragma
origin max-forwards location last-modified if-unmodified-since if-range
if-none-match if-modified-since if-match from expires expect etag date content-type
content-range content-md5 content-location content-length content-encoding
content-base cache-control authorizations allow accept-ranges accept-language
accept-encoding accept-charset accept""".split()] + [
    (':version', '1.1'), (':status-text', 'OK'), (':status', '200'), ('cookie', ''),
    (':host', ''), (':scheme', 'https'), (':method', 'get'), (':path', '/')]


def is_true(p, key, default):
    if key not in p or p[key] is None:
        return default
    return p[key] in ('True', 'true', '1', 't')


class Delta2(object):
    def __init__(self, is_request, params=(), codes=None, **_):
        p = {}
        for x in params:
            k = x.split('=', 1)
            p[k[0]] = k[1] if len(k) > 1 else None
        self.codes = codes
        self.maxlen = max(len(c) for c in codes)
        self.max_bytes = int(p.get('max_byte_size', 4096))
        self.max_entries = 1024
        if 'max_entries' in p:
            self.max_entries = min(65535 - len(D2_STATIC), int(p['max_entries']))
        self.idx_bits = 16
        if is_true(p, 'small_index', True):
            self.idx_bits = 8
            self.max_entries = min(255 - len(D2_STATIC), self.max_entries)
        if is_true(p, 'varint_encoding', True):
            self.idx_bits = 0
        self.adjust = is_true(p, 'hg_adjust', False)
        self.implicit = is_true(p, 'implicit_hg_add', False)
        if is_true(p, 'refcnt_vals', False) and self.adjust:
            raise ValueError('refcnt_vals with hg_adjust is not modelled')
        self.from_end = is_true(p, 'idx_from_end', True)
        self.ring = collections.deque()   # sequence numbers, oldest first
        self.live = {}                    # sequence number -> (name, value)
        self.size = 0
        self.groups = {}
        self.evicted = 0
        self.wraps = 0
        self.next_seq = len(D2_STATIC)
        self.max_seq = 255 if is_true(p, 'small_index', True) else 65535
        self.ops_seen = {}

    def index(self, r):
        if self.idx_bits:
            return r.get(self.idx_bits)
        v = r.get(4)
        if v < 15:
            return v
        shift = 0
        while True:
            n = r.get(4)
            v += (n & 7) << shift
            shift += 3
            if not n & 8:
                return v
            if shift > 40:
                raise Bad('integer too long')

    def string(self, r):
        s = r.huff(self.codes, self.maxlen)
        r.align()
        return s

    def frames(self, wire, hdr, kind):
        pos, payload, group = 0, b'', None
        while True:
            if pos + hdr > len(wire):
                raise Bad('frame header cut off')
            if kind == 'delta2':
                n, typ, flags, sid, g = struct.unpack('!HBBLB', wire[pos:pos + hdr])
            else:
                n, flags, sid, typ, g = struct.unpack('!HBLBB', wire[pos:pos + hdr])
            if typ != 8 or flags not in (0, 1):
                raise Bad('frame header %r' % ((n, typ, flags, hex(sid)),))
            if group is not None and g != group:
                raise Bad('continuation for another group')
            group = g
            pos += hdr
            if pos + n > len(wire):
                raise Bad('frame length beyond the data')
            payload += wire[pos:pos + n]
            pos += n
            if flags:
                break
        if pos != len(wire):
            raise Bad('bytes after the last frame')
        return group, payload

    def resolve(self, i):
        """wire index -> sequence number; the static table has the first ones"""
        n, m = len(self.ring), len(D2_STATIC)
        if not self.from_end:
            return i
        if i < n:
            return self.ring[n - 1 - i]
        if i >= n + m:
            raise Bad('index %d of %d' % (i, n + m))
        return m - 1 - (i - n)

    def look(self, seq):
        if seq < len(D2_STATIC):
            return D2_STATIC[seq]
        if seq not in self.live:
            raise Bad('reference to %d, which is not in the table' % seq)
        return self.live[seq]

    def decode(self, wire):
        group, payload = self.frames(wire, 9, 'delta2')
        r = Bits(payload)
        ops = []
        while r.left() > 8:
            b = r.get(8)
            code, count = b >> 4, (b & 15) + 1
            if code > 7:
                raise Bad('opcode %d' % code)
            self.ops_seen[code] = self.ops_seen.get(code, 0) + count
            for _ in range(count):
                if code < 2:
                    ops.append((code, self.index(r)))
                elif code < 4:
                    last = self.index(r)
                    ops.append((code, last, self.index(r)))
                elif code < 6:
                    i = self.index(r)
                    ops.append((code, i, self.string(r)))
                else:
                    k = self.string(r)
                    ops.append((code, k, self.string(r)))
        if '1' in r.s[r.i:]:
            raise Bad('trailing garbage')
        self.last_ops = ops
        out, later = [], []
        toggles = (set(), set())
        for op in ops:
            code = op[0]
            if code < 4:
                last, first = self.resolve(op[1]), self.resolve(op[-1])
                if first > last:
                    raise Bad('empty toggle range')
                for seq in range(first, last + 1):
                    self.look(seq)
                    toggles[code & 1].symmetric_difference_update([seq])
            else:
                k = self.look(self.resolve(op[1]))[0] if code < 6 else op[1]
                out.append((k, op[2]))
                if not code & 1:
                    later.append((k, op[2]))
        g = self.groups.setdefault(group, set())
        g.symmetric_difference_update(toggles[0])
        for seq in toggles[1] ^ g:
            out.append(self.look(seq))
        keep = [(seq, self.look(seq)) for seq in sorted(g)] if self.adjust else []
        for k, v in later:
            seq = self.store(k, v)
            if self.implicit and seq is not None:
                g.add(seq)
        for seq, (k, v) in keep:
            g.discard(seq)
            seq = self.store(k, v)
            if seq is not None:
                g.add(seq)
        if self.size > self.max_bytes or len(self.ring) > self.max_entries:
            raise Bad('own table too large')
        return out

    def store(self, k, v):
        need = len(k) + len(v)
        if self.max_entries == 0 or self.max_bytes == 0:
            return None
        while len(self.ring) + 1 > self.max_entries:
            self.pop()
        while self.size + need > self.max_bytes:
            if not self.ring:
                return None
            self.pop()
        seq = self.next_seq
        self.next_seq += 1
        if self.next_seq >= self.max_seq:
            self.next_seq = len(D2_STATIC)
            self.wraps += 1
        self.ring.append(seq)
        self.live[seq] = (k, v)
        self.size += need
        return seq

    def pop(self):
        seq = self.ring.popleft()
        k, v = self.live.pop(seq)
        self.size -= len(k) + len(v)
        self.evicted += 1
        for gid in list(self.groups):
            self.groups[gid].discard(seq)
            if not self.groups[gid]:
                del self.groups[gid]

    def state(self):
        return [self.size, self.max_bytes, len(self.ring), self.max_entries]


# -- delta --------------------------------------------------------------------
D1_DEFAULT = [(':path', '/'), (':scheme', 'http'), (':scheme', 'https'),
              (':method', 'get'), (':host', ''), ('cookie', ''), (':status', '200'),
              (':status-text', 'OK'), (':version', '1.1')] + [(n, '') for n in """
accept accept-charset accept-encoding accept-language accept-ranges allow
authorizations cache-control content-base content-encoding content-length
content-location content-md5 content-range content-type date etag expect expires
from if-match if-modified-since if-none-match if-range if-unmodified-since
last-modified location max-forwards origin pragma proxy-authenticate
proxy-authorization range referer retry-after server set-cookie status te trailer
transfer-encoding upgrade user-agent vary via warning www-authenticate
access-control-allow-origin content-disposition get-dictionary p3p
x-content-type-options x-frame-options x-powered-by x-xss-protection""".split()] + [
    ('connection', 'keep-alive')]


class Ids(object):
    def __init__(self):
        self.next, self.low = 0, 0

    def new(self, used):
        for _ in range(1 << 17):
            self.next += 1
            if self.next >= 65536:
                self.next = self.low
            if self.next not in used:
                return self.next
        raise Bad('no id left')


class Ent(object):
    __slots__ = ('k', 'v', 'id', 'groups', 'lru')


class Delta(Delta2):
    def __init__(self, is_request, params=(), codes=None, **_):
        self.codes = codes
        self.maxlen = max(len(c) for c in codes)
        p = dict(x.split('=', 1) for x in params if '=' in x)
        self.max_bytes = int(p.get('max_byte_size', 16384))
        self.max_entries = int(p.get('max_entries', 4096))
        self.kid, self.vid = Ids(), Ids()
        self.by_id, self.keys, self.key_by_id = {}, {}, {}
        # keys: name -> [id, {value: Ent}]
        self.lru = {}                   # insertion ordered, oldest first
        self.size = self.count = 0
        self.groups = {}
        self.evicted = 0
        self.ops_seen = {}
        for k, v in D1_DEFAULT:
            if k not in self.keys:
                i = self.kid.new(self.key_by_id)
                self.keys[k] = [i, {}]
                self.key_by_id[i] = k
            e = Ent()
            e.k, e.v, e.groups, e.lru = k, v, set(), False
            e.id = self.vid.new(self.by_id)
            self.by_id[e.id] = e
            self.keys[k][1][v] = e
            self.vid.low = e.id
        self.peak = 0

    def decode(self, wire):
        group, payload = self.frames(wire, 9, 'delta')
        r = Bits(payload)
        ops = []
        while r.left() > 16:
            code, count = r.get(8), r.get(8) + 1
            if not 1 <= code <= 5:
                raise Bad('opcode %d' % code)
            self.ops_seen[code] = self.ops_seen.get(code, 0) + count
            for _ in range(count):
                if code == 1:
                    ops.append((1, r.get(16)))
                elif code == 2:
                    last = r.get(16)
                    ops.append((2, last, r.get(16)))
                elif code == 3:
                    i = r.get(16)
                    ops.append((3, i, self.string(r)))
                else:
                    k = self.string(r)
                    ops.append((code, k, self.string(r)))
        if '1' in r.s[r.i:]:
            raise Bad('trailing garbage')
        g = self.groups.setdefault(group, set())
        tog, out, later = [], [], []
        for op in ops:
            if op[0] == 1:
                tog.append(op[1])
            elif op[0] == 2:
                if op[2] > op[1]:
                    raise Bad('empty toggle range')
                tog.extend(range(op[2], op[1] + 1))
        if len(set(tog)) != len(tog):
            raise Bad('entry toggled twice')
        for i in tog:
            if i not in self.by_id:
                raise Bad('toggle of id %d, which is not in the table' % i)
            g.symmetric_difference_update([i])
            self.by_id[i].groups.symmetric_difference_update([group])
        for i in g:
            out.append((self.by_id[i].k, self.by_id[i].v))
        for op in ops:
            if op[0] == 3:
                if op[1] not in self.key_by_id:
                    raise Bad('key id %d is not in the table' % op[1])
                k = self.key_by_id[op[1]]
            elif op[0] >= 4:
                k = op[1]
            else:
                continue
            out.append((k, op[2]))
            if op[0] != 5:
                later.append((k, op[2]))
        for k, v in later:
            self.insert(k, v, group)
        for i in sorted(g):
            if i not in self.by_id:
                continue
            e = self.by_id[i]
            if e.lru:
                del self.lru[id(e)]
                self.lru[id(e)] = e
            for og in e.groups:
                self.groups[og].discard(e.id)
            del self.by_id[e.id]
            e.groups = {group}
            e.id = self.vid.new(self.by_id)
            self.by_id[e.id] = e
            g.add(e.id)
        return out

    def insert(self, k, v, group):
        if k not in self.keys:
            self.space(len(k), 0)
            i = self.kid.new(self.key_by_id)
            self.keys[k] = [i, {}]
            self.key_by_id[i] = k
            self.size += len(k)
        if v in self.keys[k][1]:
            return
        self.space(len(v), 1, k)
        self.size += len(v)
        self.count += 1
        e = Ent()
        e.k, e.v, e.groups, e.lru = k, v, {group}, True
        e.id = self.vid.new(self.by_id)
        self.by_id[e.id] = e
        self.keys[k][1][v] = e
        self.lru[id(e)] = e
        self.groups[group].add(e.id)
        if len(self.lru) > 1 and (self.size > self.max_bytes
                                  or self.count > self.max_entries):
            raise Bad('own table too large')
        self.peak = max(self.peak, self.size)

    def space(self, nbytes, nvals, pinned=None):
        while self.lru and (self.count + nvals > self.max_entries):
            self.pop(pinned)
        while self.lru and (self.size + nbytes > self.max_bytes):
            self.pop(pinned)

    def pop(self, pinned):
        i = next(iter(self.lru))
        e = self.lru.pop(i)
        self.evicted += 1
        for og in e.groups:
            self.groups[og].discard(e.id)
        del self.by_id[e.id]
        self.size -= len(e.v)
        self.count -= 1
        kid, vals = self.keys[e.k]
        del vals[e.v]
        if not vals and e.k != pinned:
            self.size -= len(e.k)
            del self.keys[e.k]
            del self.key_by_id[kid]

    def state(self):
        return [self.peak, self.max_bytes, len(self.by_id), self.max_entries]


DECODERS = {'http2': Http2, 'headerdiff': HeaderDiff, 'delta2': Delta2, 'delta': Delta}
