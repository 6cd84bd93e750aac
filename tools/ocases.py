"""Cases for OggTrace: Ogg physical bitstreams, remuxed by the real remuxer, in the specification's terms."""
import json, zlib, os, random, re
from common import *
import ogg, vb, vcases
from vcases import fault, rand_bytes, FIX, RES

M64 = (1 << 64) - 1


def limbs(v, n):
    return [(v >> (16 * k)) & 0xFFFF for k in range(n)]


def err_code(dbg):
    if dbg.startswith('OggError('):
        d = dbg[9:]
        for k, v in (('HashMismatch', 'crc'), ('NoCapturePatternFound', 'nosync'), ('InvalidStreamStructVer', 'oggversion'),
                     ('InvalidData', 'invalid')):
            if d.startswith(k):
                return v
        return 'eof' if 'UnexpectedEof' in d else 'io'
    if dbg.startswith('OptimizerError('):
        return fault(dbg[len('OptimizerError('):])
    for k, v in (('UnsupportedStreamMultiplexing', 'grouped'), ('NoVorbisStreamFound', 'novorbis'), ('InvalidSourceDateEpoch', 'sde'),
                 ('IoError', 'io')):
        if dbg.startswith(k):
            return v
    return 'other ' + re.sub(r'[^A-Za-z0-9]+', ' ', dbg)[:40]


OPT = ('rnd', 'off', 'ign', 'errno', 'crc', 'vendor', 'comments', 'start', 'mangle')
# what the documentation says about options that are not given
DOCUMENTED = dict(rnd=1, off=0, ign=0, errno=1, crc=1, vendor='appendTag', comments='copy')
DEF = dict(rnd=0, off=0, ign=0, errno=1, crc=1, start=0, vendor='copy', comments='copy')


def remux_req(case, data, extra=''):
    o = dict(DEF)
    o.update(case.get('opt', {}))
    omit = DOCUMENTED if (len(data) % 2 or 'implicit' in case) and 'explicit' not in case else {}
    log = 'log=1 ' if zlib.crc32(data[-1500:]) % 3 == 0 else ''
    s = 'remux ' + log + ' '.join('%s=%s' % (k, o[k]) for k in OPT if k in o and o[k] != omit.get(k))
    return s + (' ' + extra if extra else '') + ' in=' + data.hex()


def run_rec(a, k=0):
    if 'crash' in a:
        return dict(r='panic', err='', out=[])
    if k >= len(a['runs']):
        return dict(r='panic', err='', out=[])
    x = a['runs'][k]
    return dict(r=x['r'], err=err_code(x['dbg']) if x['r'] == 'err' else '', out=list(bytes.fromhex(x['out'])))


def oracle_requests(case):
    """one direct optimizer request per logical stream that a source begins"""
    o = dict(DEF)
    o.update(case.get('opt', {}))
    pages, _ = ogg.parse(case['in'][o['start']:])
    res = []
    for s, ps in ogg.streams(pages).items():
        if not ps:
            continue
        ops = [('N', ps[0])] + [('A', p) for p in ps[1:]] + [('O', p) for p in ps]
        res.append((s, len(ps), 'vorbis vendor=%s comments=%s ops=%s' % (o['vendor'], o['comments'],
                                                                        ';'.join('%s:%s' % (k, b.hex()) for k, b in ops))))
    return res


def oracle_rec(serial, n, a):
    ops = a.get('ops', [])
    A = [dict(bs=-1, err='')] + [dict(bs=x.get('bs', -1), err=fault(x['dbg']) if x['r'] == 'err' else 'panic' if x['r'] == 'panic' else '')
                                 for x in ops[1:n]]
    O = [dict(kept=x['r'] == 'pkt', data=list(bytes.fromhex(x.get('pkt', '')))) for x in ops[n:]]
    return dict(serial=limbs(serial, 2), a=A, o=O)


def log_rec(l):
    m = l['m']
    r = dict(m=m, n=l.get('n', -1), last=l.get('last', False))
    for k in ('in', 'out'):
        v = l[k]
        if m == 'freq':
            r[k] = list(int(v).to_bytes(4, 'little'))
        elif m == 'rates':
            r[k] = list(b''.join((int(x) & 0xFFFFFFFF).to_bytes(4, 'little') for x in v.split('/')[::-1]))
        elif m == 'serial':
            r[k] = limbs(int(v), 2)
        elif m == 'end':
            r[k] = [int(v)]
        else:
            r[k] = limbs(int(v) & M64, 4)
    if m == 'granule' and l['header'] != (l['n'] < 3):
        r['m'] = 'granule, wrong kind'
    return r


def mangle_rec(script):
    r = dict(on=script is not None, freq=[], rates=[], sadd=[0, 0], gadd=[0] * 4, every=0)
    for it in (script or '').split(','):
        if it.startswith('f='):
            r['freq'] = list(int(it[2:]).to_bytes(4, 'little'))
        elif it.startswith('b='):
            r['rates'] = [list((int(x) & 0xFFFFFFFF).to_bytes(4, 'little')) if x != '.' else [] for x in it[2:].split('/')[::-1]]
        elif it.startswith('s+'):
            r['sadd'] = limbs(int(it[2:]), 2)
        elif it.startswith('g+'):
            r['gadd'] = limbs(int(it[2:]) & M64, 4)
        elif it.startswith('e') and it[1:].isdigit():
            r['every'] = int(it[1:])
    return r


def to_tla(case, ans, oracle, alts):
    o = dict(DEF)
    o.update(case.get('opt', {}))
    sde = case.get('env', {}).get('SOURCE_DATE_EPOCH')
    return dict(**{'in': list(case['in'])}, start=o['start'], rnd=bool(int(o['rnd'])), off=limbs(o['off'], 2), ign=bool(int(o['ign'])),
                errno=bool(int(o['errno'])), verify=bool(int(o['crc'])), mg=mangle_rec(o.get('mangle')), oracle=oracle,
                sdesup=case.get('sdesup', True), sdeset=sde is not None, sde=list((sde or '').encode()),
                runs=[run_rec(ans, k) for k in range(max(1, len(ans.get('runs', []))))] if 'runs' in ans else [run_rec(ans)],
                log=[log_rec(l) for l in ans.get('log', [])], alts=alts, whole=case.get('whole', False))


# ---------------------------------------------------------------- sources
def short_setup(rng, b, ch=1):
    """two modes (short, long) whose packets need not carry anything else"""
    S = vcases.tiny(ch, modes=[dict(big=0, mapping=0), dict(big=1, mapping=0)] if rng.random() < .7 else
                    [dict(big=rng.randrange(2), mapping=0)])
    return S


def vorbis_packets(rng, n, drop=0.0, comment=None, b=None, fat=0.0):
    """(headers, audio, samples of each audio packet (None: dropped))"""
    b = b or rng.choice([(6, 6), (6, 7), (6, 8), (6, 13), (8, 11), (13, 13), (7, 9)])
    ch = 1
    S = short_setup(rng, b, ch)
    setup = vb.setup_packet(S, ch)
    ident = vb.ident_packet(ch, rng.choice([8000, 44100, 48000]), *b, rates=rng.choice([(0, 0, 0), (1, 2, 3), (-1, 128000, -1)]))
    hdr = [ident, comment if comment is not None else vb.comment_packet(b'v' * rng.randint(0, 9), [b'A=%d' % k for k in range(rng.randint(0, 2))]),
           setup]
    nm = len(S['modes'])
    audio, smp, prev = [], [], None
    for _ in range(n):
        if rng.random() < drop:
            audio.append(rng.choice([b'', b'', b'']))
            smp.append(None)
            continue
        m = rng.randrange(nm)
        big = S['modes'][m]['big']
        bits = [0] + ([m] if nm == 2 else []) + ([rng.randrange(2), rng.randrange(2)] if big else []) + [0] * ch
        p = bytes([sum(v << k for k, v in enumerate(bits))])
        if rng.random() < fat:
            p += bytes(rng.choice([1, 3, 100, 253, 254, 255, 300, 509, 510]))
        audio.append(p)
        bs = 1 << b[big]
        smp.append(0 if prev is None else (prev + bs) // 4)
        prev = bs
    return hdr, audio, smp


def granules(rng, smp, offset=0, trim=0, bad=0.0):
    g, tot = [], offset
    for s in smp:
        tot += s or 0
        g.append(tot)
    if g:
        g[-1] -= trim
    for k in range(len(g)):
        if rng.random() < bad:
            g[k] = rng.choice([0, -1, 5, -(1 << 63), (1 << 63) - 1, 1 << 40, g[k] + rng.randint(-300, 300), rng.getrandbits(63)])
    return [(x + (1 << 63)) % (1 << 64) - (1 << 63) for x in g]


def layout(rng, n, style):
    """ends[i]: a page ends after packet i"""
    if style == 'one':
        e = [False] * n
    elif style == 'each':
        e = [True] * n
    else:
        p = rng.choice([.1, .3, .6])
        e = [rng.random() < p for _ in range(n)]
    return e


def vstream(rng, serial, n=None, drop=None, offset=None, trim=None, bad=None, style=None, eos=True, comment=None, b=None, hdrend=None, fat=None):
    n = rng.choice([0, 1, 2, 3, 4, 6, 9]) if n is None else n
    drop = rng.choice([0, 0, .3]) if drop is None else drop
    hdr, audio, smp = vorbis_packets(rng, n, drop, comment, b, rng.choice([0, 0, .3]) if fat is None else fat)
    last = next((s for s in reversed(smp) if s is not None), 0) or 0
    if offset is None:
        offset = rng.choice([0, 0, 0, 1, 1000, 70000, 1 << 33, -1, -16, -32, -1000, -(1 << 40)])
    if trim is None:
        trim = rng.choice([0, 0, 1, max(0, last - 1), last, last + 1, rng.randint(0, last + 5), -1])
    g = granules(rng, smp, offset, trim, rng.choice([0, 0, 0, .3]) if bad is None else bad)
    e = [True, rng.random() < .3, True if hdrend is None else hdrend] + layout(rng, n, style or rng.choice(['one', 'each', 'rand', 'rand']))
    return ogg.Mux().stream(serial, hdr + audio, e, [0, 0, 0] + g, eos=eos, cut=(lambda: rng.random() < .3) if rng.random() < .3 else None)


def other_stream(rng, serial, n=None, eos=True):
    """a logical stream that is not Vorbis"""
    first = rng.choice([b'OpusHead\1\1\0\0\x80\xbb\0\0\0\0\0', b'\x80theora\3\2\1', b'fishead\0' + bytes(56), b'', b'\1', b'\1vorb', b'\1vorbit' + bytes(23),
                        b'\3vorbis' + bytes(23), b'\5vorbis\0', b'\0vorbis' + bytes(23), b'\7vorbis' + bytes(23), bytes(30), b'\x7fFLAC\1\0'])
    ps = [first] + [rand_bytes(rng, rng.choice([0, 1, 5, 254, 255, 256, 40])) for _ in range(rng.randint(0, 3) if n is None else n)]
    return ogg.Mux().stream(serial, ps, [True] + layout(rng, len(ps) - 1, 'rand'), [rng.randrange(1000) for _ in ps], eos=eos)


def serials(rng, n):
    s = set()
    while len(s) < n:
        s.add(rng.choice([0, 1, 2, 7, 0xFFFFFFFF, 0x80000000, rng.getrandbits(32)]))
    s = list(s)
    rng.shuffle(s)
    return s


def shuffle_in(rng, a, b):
    """pages of a and b interleaved, each in order"""
    out, a, b = [], list(a), list(b)
    while a or b:
        out.append((a if a and (not b or rng.random() < .5) else b).pop(0))
    return out


def opts(rng, **kw):
    o = dict(rnd=0, off=rng.choice([0, 1, 5, 0xFFFFFFFF, 0x7FFFFFFF, rng.getrandbits(32)]))
    if rng.random() < .25:
        o['ign'] = 1
    if rng.random() < .1:
        o['errno'] = 0
    if rng.random() < .3:
        o['vendor'] = rng.choice(vcases.VENDORS)
    if rng.random() < .2:
        o['comments'] = 'delete'
    o.update(kw)
    return o


# generators: (rng, info, name) -> case
def plain_case(rng, info, name, **kw):
    return dict(name=name, **{'in': b''.join(vstream(rng, serials(rng, 1)[0], **kw))}, opt=opts(rng))


def granule_case(rng, info, name):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 8])
    return plain_case(rng, info, name, n=n)


def offset_case(rng, info, name):
    return plain_case(rng, info, name, n=rng.choice([1, 2, 3, 4, 6, 10]), offset=rng.choice(
        [1, 2, 15, 31, 32, 64, 1000, 1 << 31, 1 << 32, 1 << 45, (1 << 63) - 5000, -1, -15, -31, -32, -33, -64, -1000, -(1 << 31), -(1 << 45),
         -(1 << 63), -(1 << 63) + 5]), bad=rng.choice([0, 0, 0, .1]), style=rng.choice(['rand', 'each', 'one']))


def trim_case(rng, info, name):
    return plain_case(rng, info, name, n=rng.choice([1, 2, 3, 5]), offset=rng.choice([0, 0, 0, 7, -9, 100000]), bad=0,
                      drop=rng.choice([0, 0, .2]))


def many_case(rng, info, name):
    """enough packets to fill pages"""
    n = rng.choice([254, 255, 256, 257, 300, 509, 510, 511, 520])
    return plain_case(rng, info, name, n=n, b=(6, 7), fat=0, drop=rng.choice([0, .02]), style=rng.choice(['one', 'rand']),
                      offset=rng.choice([0, 0, 5, -5]), bad=rng.choice([0, 0, .01]))


def early_case(rng, info, name):
    """known finding: the last packet of the first audio page of the source is dropped, so the start offset is derived
    from a later page, and the first page written ends before that"""
    hdr, audio, smp = vorbis_packets(rng, 250, 0, None, (6, 7), 0)
    _, a2, s2 = [], audio[:20], smp[:20]
    audio, smp = audio + [b''] + a2 + a2, smp + [None] + [32] * 40   # granule positions beyond: whatever
    off = rng.choice([1000, -500, 1 << 33])
    g = granules(rng, smp, off)
    ends = [True, False, True] + [k in (250, 270) for k in range(len(audio))]
    return dict(name=name, **{'in': b''.join(ogg.Mux().stream(7, hdr + audio, ends, [0, 0, 0] + g))}, opt=opts(rng, ign=0 if name.endswith('-0') else 1))


def big_header_case(rng, info, name):
    """header packets that span segments and pages"""
    size = rng.choice([200, 254, 255, 256, 509, 510, 511, 765, 4000, 40000, 65024, 65025, 65026, 66000])
    comment = vb.comment_packet(b'', [b'A=' + b'x' * max(0, size - 30)])
    comment = vb.comment_packet(b'', [b'A=' + b'x' * max(0, size - 30 + size - len(comment))])
    return plain_case(rng, info, name, n=rng.choice([0, 1, 3]), comment=comment)


def chained_case(rng, info, name):
    k = rng.choice([2, 2, 3, 4])
    ss = serials(rng, k)
    pages = []
    for j, s in enumerate(ss):
        if rng.random() < .2:
            pages += other_stream(rng, s)
        else:
            pages += vstream(rng, s, eos=True if j < k - 1 else rng.random() < .8, n=rng.choice([0, 1, 2, 4]))
    return dict(name=name, **{'in': b''.join(pages)}, opt=opts(rng))


def grouped_case(rng, info, name):
    """streams that are multiplexed concurrently, or look like it"""
    a, b = serials(rng, 2)
    k = rng.randrange(6)
    A = vstream(rng, a, n=rng.choice([1, 2, 4]), style='rand')
    if k == 0:
        pages = shuffle_in(rng, A, vstream(rng, b, n=2))
    elif k == 1:
        B = vstream(rng, b, n=2)
        pages = [A[0], B[0]] + shuffle_in(rng, A[1:], B[1:])
    elif k == 2:   # no end of stream flag
        pages = vstream(rng, a, n=2, eos=False) + vstream(rng, b, n=2)
    elif k == 3:   # the other one is not Vorbis
        pages = shuffle_in(rng, A, other_stream(rng, b))
    elif k == 4:
        B = other_stream(rng, b)
        pages = [B[0], A[0]] + shuffle_in(rng, A[1:], B[1:])
    else:          # an end of stream flag on the page before the last one completes nothing
        pages = vstream(rng, a, n=0) + vstream(rng, b, n=1)
    return dict(name=name, **{'in': b''.join(pages)}, opt=opts(rng))


def flag_eos(rng, pages, p=.4):
    """end of stream flags on pages that are not the last"""
    out = []
    for q in pages:
        if rng.random() < p:
            q = bytearray(q)
            q[5] |= 4
            q = fix_crc(bytes(q))
        out.append(q)
    return out


def eos_case(rng, info, name):
    """streams that go on after an end of stream flag, alone, chained, and with others beginning meanwhile"""
    a, b, d = serials(rng, 3)
    A = flag_eos(rng, vstream(rng, a, n=rng.choice([1, 2, 3, 5]), style=rng.choice(['each', 'each', 'rand']), eos=rng.random() < .6), rng.choice([.3, .6, 1]))
    k = rng.randrange(7)
    if k == 0:
        pages = A
    elif k > 4:       # the first stream may lack its flag; others begin
        B = other_stream(rng, b)
        A = vstream(rng, a, n=rng.choice([0, 1, 2]), eos=rng.random() < .5)
        j = rng.randint(1, len(A))
        pages = A[:j] + B[:1] + A[j:] + B[1:] + vstream(rng, d, n=1)
    elif k == 1:
        pages = A + vstream(rng, b, n=rng.choice([1, 2]))
    elif k == 2:
        pages = A + flag_eos(rng, vstream(rng, b, n=2, style='each')) + vstream(rng, d, n=1)
    elif k == 3:      # a stream begins after the flag, and the first one goes on in or after it
        j = rng.randint(1, len(A))
        B = vstream(rng, b, n=rng.choice([1, 2]))
        pages = A[:j] + shuffle_in(rng, A[j:], B) if rng.random() < .5 else A[:j] + B + A[j:]
        if rng.random() < .4:
            pages += vstream(rng, d, n=1)
    else:
        B = flag_eos(rng, other_stream(rng, b))
        pages = shuffle_in(rng, A, B) + vstream(rng, d, n=1)
    return dict(name=name, **{'in': b''.join(pages)}, opt=opts(rng))


# ---------------------------------------------------------------- scenarios of Sources.tla
SRC_CFG = """INIT Init
NEXT Next
CONSTANTS Kind = "%s" MaxPages = %d MaxStreams = %d MaxPackets = %d
CONSTRAINT Emit
INVARIANT Agree
CHECK_DEADLOCK FALSE
"""


def scenarios(kind, pages, streams=3, packets=3):
    """every behaviour of the machine that writes source files, up to these bounds"""
    return enumerated('Sources', SRC_CFG % (kind, pages, streams, packets))


def streams_scenario(rng, sc, name):
    """pages of several streams, as Sources says"""
    ser = serials(rng, 4)
    pages, st = [], {}
    for p in sc:
        s = p['s']
        x = st.setdefault(s, dict(seq=0, g=0, hdr=None, prev=None))
        if p['k'] == 'v':
            b = rng.choice([(6, 6), (6, 8), (8, 11)])
            x['hdr'] = vorbis_packets(rng, 0, 0, vb.comment_packet(b'', [b'S=%d' % s]), b)[0]
            x['bs'] = 1 << b[0]
            # a setup with a single, short mode, so that packets are one byte
            x['hdr'][2] = vb.setup_packet(vcases.tiny(1), 1)
            ps = x['hdr'][:1]
        elif p['k'] == 'h':
            ps = x['hdr'][1:]
        elif p['k'] == 'a':
            x['g'] += 0 if x['prev'] is None else x['bs'] // 2
            x['prev'] = True
            ps = [b'\0']
        else:
            ps = [b'\x80theora\3\2\1' if p['k'] == 'o' else rand_bytes(rng, rng.choice([1, 5, 255]))]
        segs = [y for q in ps for y in ogg.lacing(len(q))]
        pages.append(ogg.page(ser[s], x['seq'], x['g'], segs, b''.join(ps), (2 if p['k'] in 'vo' else 0) | (4 if p['eos'] else 0)))
        x['seq'] += 1
    return dict(name=name, **{'in': b''.join(pages)}, opt=opts(rng))


def granules_scenario(rng, sc, name):
    """block sizes, page ends and granule positions of one stream, as Sources says"""
    b = rng.choice([(6, 7), (6, 8), (8, 11), (6, 6), (6, 13)])
    S = vcases.tiny(1, modes=[dict(big=0, mapping=0), dict(big=1, mapping=0)])
    packets = [vb.ident_packet(1, 44100, *b), vb.comment_packet(), vb.setup_packet(S, 1)]
    ends, grans = [True, False, True], [0, 0, 0]
    g, prev = rng.choice([0, 0, 0, 1000, -20, 1 << 33, -(1 << 40)]), None
    for p in sc:
        for k, x in enumerate(p['b']):
            packets.append({'s': b'\0', 'l': b'\2', 'e': b''}[x])
            if x != 'e':
                bs = 1 << b[x == 'l']
                g += 0 if prev is None else (prev + bs) // 4
                prev = bs
            ends.append(k == len(p['b']) - 1)
            w = p['g']
            v = {'big': (1 << 63) - 1 - rng.randrange(2), 'none': -1, 'zero': 0}.get(w)
            grans.append(g + int(w) if v is None else v)
    return dict(name=name, **{'in': b''.join(ogg.Mux().stream(rng.getrandbits(32), packets, ends, grans))}, opt=opts(rng, ign=rng.randrange(2)))


def long_chain_case(rng, info, name):
    """more streams than a byte can count"""
    k = rng.choice([257, 260])
    pages = []
    for j in range(k):
        pages += vstream(rng, 1000 + 7 * j, n=rng.choice([0, 0, 0, 1]), drop=0, offset=0, trim=0, bad=0, comment=vb.comment_packet(b'', []), fat=0)
    return dict(name=name, **{'in': b''.join(pages)}, opt=opts(rng, vendor='copy', comments='copy', rnd=int(name[-1]) % 2))


def long_case(rng, info, name):
    """a stream of thousands of packets"""
    return plain_case(rng, info, name, n=rng.choice([4096 + 5, 4200, 4500]), b=(6, 7), fat=0, drop=0, style=rng.choice(['one', 'rand']),
                      offset=rng.choice([0, 5]), bad=0)


def endless_case(rng, info, name):
    """more packets than 16 bits can count"""
    return dict(plain_case(rng, info, name, n=65536 + rng.choice([5, 300]), b=(6, 7), fat=0, drop=0, style='one', offset=rng.choice([0, 5]), bad=0), whole=True)


def other_case(rng, info, name):
    """non-Vorbis streams, with or without Vorbis ones"""
    k = rng.choice([1, 1, 2, 3])
    ss = serials(rng, k + 2)
    groups = [other_stream(rng, s) for s in ss[:k]]
    if rng.random() < .5:
        groups.insert(rng.randrange(len(groups) + 1), vstream(rng, ss[k], n=2))
    pages = sum(groups, [])
    if rng.random() < .3:
        pages = [g[0] for g in groups]
        rest = []
        for g in groups:
            rest = shuffle_in(rng, rest, g[1:])
        pages += rest
    return dict(name=name, **{'in': b''.join(pages)}, opt=opts(rng, errno=rng.randrange(2)))


def nearly_case(rng, info, name):
    """a stream that begins like a Vorbis stream, but for one byte or the length, beside one that is Vorbis"""
    ident = vcases.rand_ident(rng)[2]
    k = rng.randrange(4)
    if k == 0:
        first = ident[:rng.randrange(len(ident) + 1)]
    elif k == 1:
        first = ident + rand_bytes(rng, rng.choice([1, 2, 200]))
    else:
        j = rng.choice([rng.randrange(len(ident)), rng.randrange(12), len(ident) - 1])
        first = ident[:j] + bytes([ident[j] ^ (1 << rng.randrange(8)) if k == 2 else rng.randrange(256)]) + ident[j + 1:]
    a, b = serials(rng, 2)
    ps = [first] + [rand_bytes(rng, rng.choice([0, 5, 255])) for _ in range(rng.choice([0, 0, 1, 2]))]
    groups = [ogg.Mux().stream(a, ps, [True] + layout(rng, len(ps) - 1, 'rand'), [rng.randrange(1000) for _ in ps], eos=rng.random() < .8)]
    if rng.random() < .7:
        groups.insert(rng.randrange(2), vstream(rng, b, n=2))
    return dict(name=name, **{'in': b''.join(sum(groups, []))}, opt=opts(rng, errno=rng.randrange(2)))


def fix_crc(p):
    return p[:22] + ogg.crc(p[:22] + b'\0\0\0\0' + p[26:]).to_bytes(4, 'little') + p[26:]


def crc_case(rng, info, name):
    pages = vstream(rng, serials(rng, 1)[0], n=rng.choice([1, 2, 4]))
    if rng.random() < .3:
        pages += vstream(rng, 12345, n=1)
    k = rng.randrange(4)
    if k < 3:
        j = rng.randrange(len(pages))
        p = bytearray(pages[j])
        if k == 0:
            q = 22 + rng.randrange(4)       # the checksum itself
        elif k == 1:
            q = 18 + rng.randrange(4)       # the page number, which nothing else reads
        else:
            q = 6 + rng.randrange(8)        # the granule position
        p[q] ^= 1 << rng.randrange(8)
        pages[j] = bytes(p)
    return dict(name=name, **{'in': b''.join(pages)}, opt=opts(rng, crc=rng.choice([0, 1, 1])))


def damage_case(rng, info, name):
    """container faults"""
    pages = vstream(rng, serials(rng, 1)[0], n=rng.choice([1, 2, 4]))
    if rng.random() < .3:
        pages += vstream(rng, 12345, n=1)
    k = rng.randrange(10)
    j = rng.randrange(len(pages))
    if k == 0:      # cut
        d = b''.join(pages)
        d = d[:rng.randrange(len(d))]
    elif k == 1:    # junk before, between, after
        junk = rng.choice([b'junk', b'Og', b'OgOgg', b'OggOgg', b'O' * 30, bytes(100), rand_bytes(rng, 50), b'OgggS', b'OggS'])
        j = rng.randrange(len(pages) + 1)
        d = b''.join(pages[:j]) + junk + b''.join(pages[j:])
    elif k == 2:
        p = bytearray(pages[j])
        p[4] = rng.choice([1, 2, 128, 255])
        pages[j] = fix_crc(bytes(p))
        d = b''.join(pages)
    elif k == 3:    # flags
        p = bytearray(pages[j])
        p[5] ^= rng.choice([1, 2, 4, 1, 2])
        pages[j] = fix_crc(bytes(p))
        d = b''.join(pages)
    elif k == 4:    # a page is lost or repeated
        if rng.random() < .5:
            pages.pop(j)
        else:
            pages.insert(j, pages[j])
        d = b''.join(pages)
    elif k == 5:
        d = rng.choice([b'', b'OggS', b'O', bytes(10), bytes(30), rand_bytes(rng, 200), b'RIFF' + bytes(300)])
    elif k == 6:    # empty pages
        e = ogg.page(int.from_bytes(pages[0][14:18], 'little'), 0, -1, [], b'')
        pages.insert(rng.randrange(1, len(pages) + 1), e)
        d = b''.join(pages)
    elif k == 7:    # an end of stream page without packets
        p = bytearray(pages[-1])
        p[5] &= ~4
        pages[-1] = fix_crc(bytes(p))
        pages.append(ogg.page(int.from_bytes(p[14:18], 'little'), 99, 777, [], b'', 4))
        d = b''.join(pages)
    elif k == 8:    # page numbers and reserved flags are not read
        p = bytearray(pages[j])
        p[18 + rng.randrange(4)] ^= 255
        p[5] ^= 0x80
        pages[j] = fix_crc(bytes(p))
        d = b''.join(pages)
    else:           # a packet the optimizer rejects
        p = bytearray(pages[j])
        p[27 + p[26]:] = rand_bytes(rng, len(p) - 27 - p[26])
        pages[j] = fix_crc(bytes(p))
        d = b''.join(pages)
    return dict(name=name, **{'in': d}, opt=opts(rng))


def mangle_case(rng, info, name):
    c = rng.choice([plain_case, chained_case, granule_case])(rng, info, name)
    m = ['log']
    if rng.random() < .5:
        m.append('f=%d' % rng.choice([1, 8000, 0xFFFFFFFF, rng.randint(1, 1 << 32) - 1 or 1]))
    if rng.random() < .5:
        k = rng.choice([0, 1, 2, 3, 3])      # which one, or all
        m.append('b=' + '/'.join(str(rng.choice([0, -1, 1, 2, 3, 128000, -(1 << 31), (1 << 31) - 1])) if k in (j, 3) else '.' for j in range(3)))
    if rng.random() < .4:
        m.append('s+%d' % rng.choice([1, 77, 0xFFFFFFFF]))
    if rng.random() < .4:
        m.append('g+%d' % rng.choice([1, -1, 1000, -(1 << 63), (1 << 63) - 1]))
    if rng.random() < .4:
        m.append('e%d' % rng.choice([1, 2, 3, 5]))
    c['opt']['mangle'] = ','.join(m)
    return c


def rnd_case(rng, info, name):
    c = rng.choice([plain_case, chained_case, chained_case, other_case])(rng, info, name)
    c['opt']['rnd'] = 1
    return c


def wrap(rng, vc, name):
    """the packets of a case of the optimizer, in an Ogg file"""
    ps = [p for k, p in vc['ops'] if k in 'NA']
    n = max(0, len(ps) - 3)
    g, t = [], rng.choice([0, 0, 5, -5, 1 << 20])
    for _ in range(n):
        t += rng.choice([0, 16, 32, 128, 256, 1024])
        g.append(t)
    ends = [True, rng.random() < .3, True] + layout(rng, n, rng.choice(['one', 'each', 'rand']))
    pages = ogg.Mux().stream(serials(rng, 1)[0], ps, ends[:len(ps)], ([0, 0, 0] + g)[:len(ps)])
    return dict(name=name, **{'in': b''.join(pages)}, opt=opts(rng))


def bad_vorbis_case(rng, info, name):
    f = rng.choice([vcases.bad_setup_case, vcases.bad_prelude_case, vcases.bad_audio_case])
    while True:
        c = f(rng, info, name)
        if sum(k == 'N' for k, _ in c['ops']) == 1:
            return wrap(rng, c, name)


def rich_case(rng, info, name):
    return wrap(rng, rng.choice([vcases.clean_case, vcases.freq_random_case, vcases.comment_case, vcases.dummy_case])(rng, info, name), name)


def default_case(rng, info, name):
    """a remuxer of which nothing was set"""
    c = rng.choice([plain_case, chained_case, offset_case, trim_case, other_case, crc_case])(rng, info, name)
    return dict(c, opt=dict(rnd=1, vendor='appendTag'), implicit=1)


def fixture_case(rng, f, name):
    return dict(name=name, **{'in': open(RES + '/' + f, 'rb').read()}, opt=opts(rng))


def fixtures(rng, big=False):
    fs = sorted(f for f in os.listdir(RES) if f.endswith('.ogg'))
    return [fixture_case(rng, f, f) for f in fs if big or os.path.getsize(RES + '/' + f) < 12000]
