"""Feeds recorded wire images to the reference receivers."""
import os
import re
import sys

import core
import gen
import refdec
import sess

_consts = {}


def zdict():
    """The preset dictionary (a constant of the format), as Python 3 sees it."""
    if 'z' not in _consts:
        job = {'kind': 'attr', 'module': 'compressor.spdy_dictionary',
               'names': ['spdy_dict']}
        (_, ev), = core.run_jobs('py3', [job])
        _consts['z'] = bytes.fromhex(ev[0]['v'][1:])
    return _consts['z']


def codes(codec, req):
    """The Huffman code of a codec and direction: a constant of the format."""
    if codec not in ('delta', 'delta2'):
        return None
    if (codec, req) not in _consts:
        jobs = [{'kind': 'huff', 'dir': d, 'table': t, 'strings': []}
                for d in ('delta', 'delta2')
                for t in ('request_freq_table', 'response_freq_table')]
        for jb, ev in core.run_jobs('jy', jobs, shards=1):
            if not ev or 'codes' not in ev[0]:
                raise core.Broken('no code from the shipped table: %r' % (ev,))
            _consts[jb['dir'], jb['table'].startswith('req')] = \
                refdec.code_map(ev[0]['codes'])
    return _consts[codec, bool(req)]


def receiver(codec, req, params):
    return refdec.DECODERS[codec](bool(req), params, codes=codes(codec, req),
                                  zdict=zdict())


def check(run, job, events):
    """The reference receiver understands every message and reads the same
    headers out of it."""
    codec, params, req = job['codec'], job['procs'][0]['params'], job['procs'][0]['req']
    ref = receiver(codec, req, params)
    n = 0
    for ev in events:
        if sess.crash(run, job, ev):
            return
        op, p, x = job['script'][ev['i']]
        if op != 'c' or p != 0:
            continue
        wire = bytes.fromhex(ev['w'][1:])
        want = gen.norm(job['msgs'][x][0], sess.IGNORE)
        try:
            out = ref.decode(wire)
        except refdec.Bad as e:
            run.violation('%s: message %d is not decodable by the reference receiver '
                          'under the limits %r: %s' % (sess.fmt(job), x, params, e),
                          {'kind': 'reference', 'job': sess.cut(job, ev['i'])})
            return
        got, flat = sess.decoded(out)
        run.case((codec, tuple(params), ev['w']), bool(want))
        if got != want:
            run.violation('%s: message %d means other headers to the reference '
                          'receiver: %s' % (sess.fmt(job), x, sess.diff(want, got)),
                          {'kind': 'reference', 'job': sess.cut(job, ev['i'])})
            return
        n += 1
    run.count('messages_decoded', n)
    run.count('sessions')
    run.count('evictions', getattr(ref, 'evicted', 0))
    for k, v in getattr(ref, 'ops_seen', {}).items():
        run.count('%s_op%d' % (codec, k), v)
    st = ref.state()
    run.peak('peak_state_%s' % codec, st[0])
    run.sample({'session': job['tag'], 'receiver_state': st})
    return ref
