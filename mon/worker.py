# Executes jobs against the code in $VERIF_REPO and records what it saw.  Runs
# on Jython 2.7 (the Python 2 codecs) and on Python 3 (the others).  Contains
# no oracle: it only writes an event log, judged later by another process.
#
#   worker.py JOBS.json OUT.jsonl
from __future__ import print_function
import binascii
import importlib
import json
import os
import sys
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
PY2 = sys.version_info[0] == 2
if PY2:
    sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stub'))
    text_type = unicode  # noqa: F821
else:
    text_type = str
    unichr = chr


class Options(object):
    def __init__(self, verbose=0):
        self.verbose = verbose
    debug = False
    baseline = 'http1'


def nat(s):
    """The str type the codecs take."""
    if PY2 and isinstance(s, text_type):
        return s.encode('latin-1')
    return s


def uni(s):
    """Something JSON can carry: latin-1 view of byte strings."""
    if isinstance(s, text_type):
        return s
    if isinstance(s, (bytes, bytearray)):
        return bytes(s).decode('latin-1')
    return repr(s)


def hx(b):
    """A wire image: hex, with the type it had."""
    if isinstance(b, text_type):
        return 's' + binascii.hexlify(b.encode('utf-8')).decode('ascii')
    if isinstance(b, (list, tuple)):
        b = ''.join(chr(x) for x in b) if PY2 else bytes(b)
    return 'b' + binascii.hexlify(bytes(b)).decode('ascii')


def unhx(s):
    b = binascii.unhexlify(s[1:].encode('ascii'))
    return b.decode('utf-8') if s[0] == 's' else b


def items(h):
    """Decoded headers as a list of pairs (hpack returns pairs)."""
    if hasattr(h, 'items'):
        return sorted([uni(k), uni(v)] for k, v in h.items())
    return sorted([uni(k), uni(v)] for k, v in list(h))


OUT = None


def emit(rec):
    OUT.write(json.dumps(rec))
    OUT.write('\n')
    OUT.flush()


def load(codec):
    return importlib.import_module('compressor.' + codec)


def weigh(root):
    """Bytes in the distinct strings reachable from an object's own state."""
    seen, todo, total = set(), [root], 0
    strings = set()
    while todo:
        o = todo.pop()
        if isinstance(o, (bytes, text_type, bytearray)):
            key = id(o)
            if key not in strings:
                strings.add(key)
                total += len(o)
            continue
        if isinstance(o, (int, float, bool, type(None))) or id(o) in seen:
            continue
        seen.add(id(o))
        KEEP.append(o)
        if isinstance(o, dict):
            todo.extend(o.keys())
            todo.extend(o.values())
        elif isinstance(o, (list, tuple, set, frozenset)) or \
                type(o).__name__ in ('deque', 'defaultdict', 'OrderedDict'):
            todo.extend(list(o))
        else:
            d = getattr(o, '__dict__', None)
            if isinstance(d, dict) or hasattr(d, 'values'):
                if not isinstance(o, type):
                    todo.extend(list(d.values()))
    del KEEP[:]
    return total


KEEP = []       # no id may be reused while weighing


def tables(codec, proc):
    """The tables of a Processor by their present names, counted entry by entry;
    a table that is not found (renamed) is simply not reported."""
    out = {}
    for side in ('compressor', 'decompressor'):
        try:
            o = getattr(proc, side)
            if codec == 'delta2':
                ring = list(o.storage.lru_storage.ring)
                if getattr(o, 'refcnt_vals', 0):
                    continue
                out[side] = [sum(len(e.key()) + len(e.val()) for e in ring), len(ring)]
        except Exception:
            pass
    return out


def run_session(j, job):
    mod = load(job['codec'])
    wires = []
    msgs = [(dict((nat(k), nat(v)) for k, v in m[0].items()), nat(m[1]))
            for m in job['msgs']]
    procs = []
    for i, p in enumerate(job['procs']):
        try:
            procs.append(mod.Processor(Options(p.get('verbose', 0)), p['req'],
                                       [nat(x) for x in p.get('params', [])]))
        except Exception:
            emit({'j': j, 'i': -1, 'op': 'ctor', 'p': i,
                  'e': traceback.format_exc()[-1500:]})
            return
    kept0 = weigh(procs[0]) if job.get('weigh') else 0
    given = [unhx(w) for w in job.get('wires', [])]
    for i, st in enumerate(job['script']):
        op, p, x = st
        rec = {'j': j, 'i': i}
        stop = False
        try:
            if op == 'c':
                h, host = msgs[x]
                arg = dict(h)
                w = procs[p].compress(arg, host)
                wires.append(w)
                rec['w'] = hx(w)
                rec['n'] = len(w)
                if arg != h:
                    rec['mut'] = items(arg)
            elif op == 'd':
                w = wires[x]
                if isinstance(w, bytes):     # a copy: nothing but the bytes
                    w = bytes(bytearray(w)) if not PY2 else ''.join(list(w))
                rec['h'] = items(procs[p].decompress(w))
            elif op == 'g':
                rec['h'] = items(procs[p].decompress(given[x]))
            else:
                raise SystemError('bad op')
        except NotImplementedError:
            rec['ni'] = 1
        except (Exception, RuntimeError):
            rec['e'] = traceback.format_exc()[-1500:]
            stop = True
        except:     # SystemExit, java.lang.OutOfMemoryError and the like
            rec['e'] = repr(sys.exc_info()[1])[:300] + traceback.format_exc()[-1200:]
            stop = True
        if job.get('weigh') and not stop:
            if i % 7 == 6 or i == len(job['script']) - 1:
                rec['kept'], rec['kept0'] = weigh(procs[p]), kept0
            rec['tables'] = tables(job['codec'], procs[p])
        emit(rec)
        if stop:
            return


def run_trace(j, job):
    """Compress, with what is printed meanwhile, and the letter counts kept."""
    from StringIO import StringIO
    mod = load(job['codec'])
    impl = sys.modules[mod.__name__ + '.spdy4_codec_impl']

    def counts():
        return dict((k, [list(v.GetFrequencies()), repr(v)])
                    for k, v in impl.g_stats.wf.items())
    emit({'j': j, 'i': -1, 'wf': counts()})
    procs = [mod.Processor(Options(p['verbose']), p['req'], [nat(x) for x in p['params']])
             for p in job['procs']]
    out = sys.stdout
    for i, (op, p, x) in enumerate(job['script']):
        h, host = job['msgs'][x]
        rec = {'j': j, 'i': i}
        sys.stdout = StringIO()
        try:
            rec['w'] = hx(procs[p].compress(dict((nat(k), nat(v)) for k, v in h.items()),
                                            nat(host)))
        except Exception:
            rec['e'] = traceback.format_exc()[-1500:]
        finally:
            rec['t'] = uni(sys.stdout.getvalue())
            sys.stdout = out
        rec['wf'] = counts()
        emit(rec)
        if 'e' in rec:
            return


# -- unit level objects ------------------------------------------------------
def run_bb(j, job):
    """A script of BitBucket calls; every result is recorded."""
    bb = importlib.import_module('compressor.%s.bit_bucket' % job['dir']).BitBucket
    for n, script in enumerate(job['scripts']):
        b = bb()
        res = []
        for st in script:
            name, args = st[0], st[1:]
            try:
                if name in ('StoreBits',):
                    r = b.StoreBits(([ord(c) for c in args[0]], args[1]))
                elif name == 'StoreBitsL':
                    r = b.StoreBits((list(args[0]), args[1]))
                else:
                    r = getattr(b, name)(*args)
                if name == 'GetBits':
                    r = [list(r[0]), r[1]]
                elif name == 'GetAllBits':
                    r = [list(r[0]), r[1]]
                elif not isinstance(r, (int, type(2 ** 40), bool, type(None))):
                    r = repr(r)
                res.append(r)
            except Exception as e:
                res.append({'x': type(e).__name__})
        emit({'j': j, 'n': n, 'r': res})


def run_huff(j, job):
    """Code tables and encode/decode of strings with a shipped table."""
    mod = 'compressor.%s.' % job['dir']
    hf = importlib.import_module(mod + 'huffman')
    ft = importlib.import_module(mod + 'header_freq_tables')
    bbm = importlib.import_module(mod + 'bit_bucket')
    table = getattr(ft, job['table']) if isinstance(job['table'], (str, text_type)) \
        else None
    if table is None:
        table = [(chr(i) if i < 256 else 256, f) for i, f in enumerate(job['table'])]
    if job.get('freqs'):
        table = job['freqs']
    try:
        h = hf.Huffman(table)
    except Exception:
        emit({'j': j, 'n': -1, 'e': traceback.format_exc()[-1500:]})
        return
    codes = {}
    for s in range(257):
        try:
            if s == 256:
                v, nb = h.Encode([], True)
            else:
                v, nb = h.Encode([s], False)
            codes[s] = [list(bytearray(v) if isinstance(v, (bytes, bytearray)) else v),
                        nb]
        except Exception as e:
            codes[s] = {'x': repr(e)}
    emit({'j': j, 'n': -1, 'codes': codes,
          'freqs': [[ord(a) if isinstance(a, (str, text_type)) else a, f]
                    for a, f in table]})
    for n, (s, eof) in enumerate(job['strings']):
        try:
            v, nb = h.Encode(bytearray(s.encode('latin-1')), bool(eof))
            rec = {'j': j, 'n': n, 'v': list(v), 'nb': nb}
            b = bbm.BitBucket()
            b.StoreBits((v, nb))
            tail = job.get('tail', 0)
            for _ in range(tail):
                b.StoreBit(1)
            d = h.DecodeFromBB(b, bool(eof), -1 if eof else nb)
            rec['d'] = ''.join(unichr(c) for c in d)
            rec['left'] = b.BitsRemaining()
        except Exception:
            rec = {'j': j, 'n': n, 'e': traceback.format_exc()[-1500:]}
        emit(rec)


def run_lru(j, job):
    """A script of table operations: put, get, find, pop, len."""
    mod = importlib.import_module('compressor.%s.lrustorage' % job['dir'])

    def s(x):
        return x() if callable(x) else x
    for n, c in enumerate(job['cases']):
        popped = []
        store = mod.LruStorage(*c['args'])
        store.pop_cb = lambda e: popped.append(e.seq_num)
        res = []
        for st in c['script']:
            op, x = st[0], [nat(y) for y in st[1:]]
            del popped[:]
            try:
                if op == 'put':
                    kv = mod.KV(x[0], x[1])
                    room = kv if job['dir'] == 'delta2' else kv.ByteSize()
                    ok = bool(store.Reserve(room, 1))
                    if ok:
                        store.Store(kv)
                    res.append([ok, popped[:], kv.seq_num])
                elif op == 'get':
                    e = store.Lookup(x[0])
                    res.append([nat(s(e.key)), nat(s(e.val)), e.seq_num])
                elif op == 'find':
                    a, b = store.FindKeyValEntries(x[0], x[1])
                    a, b = [getattr(y, 'seq_num', y) for y in (a, b)]
                    res.append([a, b])
                elif op == 'pop':
                    store.PopOne()
                    res.append(popped[:])
                elif op == 'len':
                    res.append([len(store), store.byte_size])
            except Exception as ex:
                res.append({'x': repr(ex)[:200]})
        emit({'j': j, 'n': n, 'r': res})


def run_attr(j, job):
    mod = importlib.import_module(job['module'])
    for n in job['names']:
        v = getattr(mod, n)
        if isinstance(v, text_type):
            v = v.encode('latin-1')
        emit({'j': j, 'n': n, 'v': hx(v)})


KINDS = {'attr': run_attr, 'trace': run_trace, 'session': run_session, 'bb': run_bb, 'huff': run_huff, 'lru': run_lru}


def main():
    global OUT
    jobs = json.load(open(sys.argv[1]))
    OUT = open(sys.argv[2], 'w')
    for j, job in enumerate(jobs):
        try:
            KINDS[job['kind']](j, job)
        except Exception:
            emit({'j': j, 'fatal': traceback.format_exc()[-1500:]})
        emit({'j': j, 'end': 1})
    OUT.close()
    sys.stdout.flush()
    os._exit(0)     # codecs may leave child processes or threads behind


main()
