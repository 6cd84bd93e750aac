"""Cases for VorbisTrace: sequences of calls, run on the real optimizer, in the specification's terms."""
import os, random, re, json, zlib
from common import *
import vb, ogg

# Rust's error names -> the specification's fault codes
FAULTS = [('TooSmallPacket', 'small'), ('InvalidPacketType', 'type'), ('UnexpectedPacketType', 'unexpected'),
          ('InvalidPattern', 'pattern'), ('UnexpectedHeaderPacketLength', 'hdrlen'),
          ('IncompatibleVorbisVersion', 'version'), ('InvalidChannelCount', 'channels'),
          ('InvalidSamplingFrequency', 'frequency'), ('InvalidBlocksizes', 'blocksizes'),
          ('InvalidSetupValue', 'value'), ('TooBigCodewordLength', 'cwlen'), ('ReservedLookupType', 'lookup'),
          ('InvalidCodebookDimension', 'dim'), ('UnsupportedFloorType', 'floortype'),
          ('InvalidCodebookNumber', 'book'), ('RepeatedFloor1Point', 'xrep'), ('TooManyFloor1Points', 'xmany'),
          ('ReservedResidueType', 'restype'), ('ReservedMappingType', 'maptype'),
          ('InvalidChannelMapping', 'chanmap'), ('InvalidChannelMultiplexing', 'mux'),
          ('InvalidFloorNumber', 'floor'), ('InvalidResidueNumber', 'residue'),
          ('InvalidMappingNumber', 'mapping'), ('ScalarCodebookUsedInVectorContext', 'scalar'),
          ('InvalidModeNumber', 'mode'), ('CodebookError(InvalidCodebookCodewords', 'over'),
          ('CodebookError(CodebookTreeWalkError', 'under')]


def fault(dbg):
    for k, v in FAULTS:
        if dbg.startswith(k):
            return v
    return 'other: ' + re.sub(r'[^A-Za-z0-9]+', ' ', dbg)[:60]


TYPES = dict(Audio='0', IdentificationHeader='1', CommentHeader='3', SetupHeader='5')
FIELDS = ['header_type', 'expected_type', 'actual_type', 'expected_length', 'actual_length', 'codebook_number',
          'codebook', 'dimensions', 'expected_dimensions_multiple_of', 'magnitude_channel', 'angle_channel',
          'audio_channels', 'mux_submap', 'mapping_submap_count']


def told(dbg, msg):
    """the fault and the numbers in the error, which its message has to have as well"""
    k = fault(dbg)
    named = dict(re.findall(r'(\w+): (\w+)', dbg))
    args = [named[f] for f in FIELDS if f in named] or re.findall(r'\b\d+', dbg)
    args = [TYPES.get(a, a) for a in args]
    if k == 'unexpected' and args[0] == '0' and args[1] != '0':
        args.pop()              # one bit tells audio packets from others, but not from each other
    said = re.findall(r'\d+', msg.replace('Vorbis I', ''))
    if k not in ('unexpected', 'hdrlen') and not set(args) <= set(said):
        return k + ' with message: ' + re.sub(r'[^A-Za-z0-9]+', ' ', msg)[:80]
    if k == 'version' and len(args) == 1:
        args = [str(b) for b in int(args[0]).to_bytes(4, 'little')]
    return ' '.join([k] + args)


def request(case):
    ops = ';'.join('%s:%s' % (k, b.hex()) for k, b in case['ops'])
    vendor, comments = case.get('vendor', 'copy'), case.get('comments', 'copy')
    # what is not given has to have the documented default
    omit = len(ops) % 3 == 0
    # logging must have no effect
    log = 'log=1 ' if zlib.crc32(ops[-3000:].encode()) % 3 == 0 else ''
    return 'vorbis %s%s%sops=%s' % (log, '' if omit and vendor == 'appendTag' else 'vendor=%s ' % vendor,
                                    '' if omit and comments == 'copy' else 'comments=%s ' % comments, ops)


def two_pass(packets, borrowed=False):
    o = 'o' if borrowed else 'O'
    return [('N', packets[0])] + [('A', p) for p in packets[1:]] + [(o, p) for p in packets]


def to_tla(case, ans, info, strict):
    """the case as the trace specification reads it"""
    ops = []
    if 'crash' in ans:
        res = [dict(r='panic', msg=ans['crash'])]
    else:
        res = ans['ops']
    for (k, b), r in zip(case['ops'], res):
        k, _, m = k.upper().partition('*')
        ops.append(dict(k=k, m=int(m or 1), **{'in': list(b)}, r=r['r'], bs=r.get('bs', -1),
                        out=list(bytes.fromhex(r.get('pkt', ''))), err=told(r['dbg'], r['msg']) if r['r'] == 'err' else ''))
    return dict(strict=strict, vendor=case.get('vendor', 'copy'), comments=case.get('comments', 'copy'),
                tag=list(info['tag'].encode()), short=list(info['short'].encode()), ops=ops)


def fixture_packets(name, serial=None):
    data = open(RES + '/' + name, 'rb').read()
    pages, _ = ogg.parse(data)
    for s, ps in ogg.streams(pages).items():
        if ps and ps[0][:7] == b'\x01vorbis':
            return ps


# ---------------------------------------------------------------- generators
VENDORS = ['copy', 'replace', 'appendTag', 'appendShortTag', 'empty']
COMMENTS = ['copy', 'delete']


def rand_bytes(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def rand_ident(rng, small=True):
    ch = rng.choice([1, 1, 2, 2, 2, 3, 4, 6, 8] + ([] if small else [16, 255]))
    b0 = rng.choice([6, 6, 7, 8])
    b1 = rng.choice([x for x in ([6, 7, 8, 9] if small else [6, 7, 8, 9, 10, 13]) if x >= b0])
    rates = tuple(rng.choice([0, -1, 64000, -2 ** 31, 2 ** 31 - 1, rng.randrange(-2 ** 31, 2 ** 31)]) for _ in range(3))
    freq = rng.choice([1, 8000, 44100, 48000, 2 ** 32 - 1, rng.randrange(1, 2 ** 32)])
    p = vb.ident_packet(ch, freq, b0, b1, rates, framing=rng.choice([1, 1, 1, 0, 255, rng.randrange(256)]),
                        trailing=rand_bytes(rng, rng.choice([0, 0, 0, 1, 7])))
    return ch, (1 << b0, 1 << b1), p


def rand_vendor(rng, info):
    tag, short = info['tag'].encode(), info['short'].encode()
    base = rng.choice([b'', b'Xiph.Org libVorbis I 20200704 (Reducing Environment)', b'aoTuV \xff\xfe\x80',
                       '\u00e9\u00e8 \u97f3'.encode(), rand_bytes(rng, rng.randrange(20))])
    return rng.choice([base] * 4 + [base + b'; ' + tag, base + b'; ' + short, base + tag, tag, short,
                                    base + b'; ' + tag + b' ', base + b';' + short, base + b'; ' + short.lower(),
                                    b'; ' + short, b'; ' + tag, base + b'; ' + short + b'; x',
                                    base + b'; ' + tag[:-1], base + b'; ' + short[:-1] + b'9'])


def rand_comment(rng, info):
    fields = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 8])):
        k = rng.randrange(6)
        fields.append([b'TITLE=a', b'', b'no equals sign', b'ARTIST=\xff\xfe', b'METADATA_BLOCK_PICTURE=' + b'A' * rng.randrange(300),
                       rand_bytes(rng, rng.randrange(12))][k])
    v = rand_vendor(rng, info)
    k = rng.randrange(12)
    p = vb.comment_packet(v, fields, framing=rng.choice([b'\x01', b'\x01', b'\x00', b'', b'\x01\x00\x00', b'\xff']))
    if k == 0:
        p = p[:rng.randrange(len(p) + 1)]
    elif k == 1:
        p = vb.comment_packet(v, fields, count=rng.choice([0, len(fields) + 1, 2 ** 32 - 1, 2 ** 31, max(0, len(fields) - 1)]))
    elif k == 2:
        i = 7 + rng.choice([0, 1, 2, 3])
        p = p[:i] + bytes([rng.randrange(256)]) + p[i + 1:]
    elif k == 3 and len(p) > 12 + len(v):
        i = 11 + len(v) + rng.randrange(8)
        if i < len(p):
            p = p[:i] + bytes([rng.choice([0, 1, 255, rng.randrange(256)])]) + p[i + 1:]
    return p


def big_comments(rng, tier, huge=True):
    """comment headers with many or long comments"""
    st = tiny_stream(rng, 0)
    v, out = b'test', []

    def add(name, p, **kw):
        out.append(dict(name=name, ops=two_pass([st['ident'], p, st['setup']]), vendor=rng.choice(VENDORS), comments='copy', **kw))
    for n in (9, 40, 255, 256, 257, 1000, 5000):
        add('empty-%d' % n, vb.comment_packet(v, [b''] * n))
        add('empty-%d-over' % n, vb.comment_packet(v, [b''] * n, count=n + 1, framing=b''))
        add('tiny-%d' % n, vb.comment_packet(v, [rand_bytes(rng, rng.randint(0, 1)) for _ in range(n)]))
        add('count-%d' % n, vb.comment_packet(v, [b''] * n, count=n - 1))
    for n in (65535, 65536, 65537) if tier == 'quick' else (32768, 65535, 65536, 65537, 70000, 131072):
        add('many-%d' % n, vb.comment_packet(v, [b''] * (n - 1) + [b'A=1']))
    for n in (255, 256, 32767, 65535, 65536, 65537, 300000):
        f = [b'A=1', b'B=' + bytes([rng.randrange(256)]) * (n - 2), b'C=3']
        add('long-%d' % n, vb.comment_packet(v, f))
        add('cut-%d' % n, vb.comment_packet(v, f[:2], framing=b'')[:-1])
        add('cutless-%d' % n, vb.comment_packet(v, f[:2], framing=b''))
        add('vendor-%d' % n, vb.comment_packet(b'v' * n, f[:1]))
    n = (1 << 20) + 5 if tier == 'quick' else 5000000
    if huge:
        add('long-%d' % n, vb.comment_packet(v, [b'A=1', b'B=' + bytes(n), b'C=3']), alone=1)
    return out


def rand_stream(rng, small=True, npackets=None, maxbytes=600, skew=None):
    """ident, setup, clean audio packets"""
    for _ in range(200):
        ch, bs, ident = rand_ident(rng, small)
        S = vb.random_setup(rng, ch, bs, small)
        enc = vb.Enc(S, ch, bs, rng, skew=rng.choice([0, .5, .9, 1]) if skew is None else skew,
                     quiet=rng.choice([0, .1, .25, .5]))
        n = npackets if npackets is not None else rng.choice([0, 1, 2, 3, 5, 8])
        audio = []
        try:
            for _ in range(n):
                for _ in range(8):
                    p = enc.packet()
                    if len(p) <= maxbytes:
                        break
                else:
                    raise ValueError
                audio.append(p)
        except ValueError:
            continue
        setup = vb.setup_packet(S, ch, trailing=rand_bytes(rng, rng.choice([0, 0, 0, 1, 5])))
        if len(setup) > 4000 or vb.max_count(setup) > 4000:
            continue
        return dict(ch=ch, bs=bs, ident=ident, S=S, setup=setup, audio=audio, enc=enc)
    raise ToolError('no stream found')


def stream_case(rng, info, name, small=True, trunc=.15, dummy=.1, **kw):
    st = rand_stream(rng, small, **kw)
    audio = []
    feats = set()
    for p in st['audio']:
        if rng.random() < dummy:
            audio.append(b'')
            feats.add('dummy')
        if rng.random() < .1:
            p += rand_bytes(rng, rng.randint(1, 4))
            feats.add('trailing')
        if rng.random() < trunc and len(p) > 1:
            p = p[:rng.randrange(1, len(p))]
            feats.add('truncated')
        audio.append(p)
    comment = rand_comment(rng, info)
    ops = two_pass([st['ident'], comment, st['setup']] + audio, borrowed=rng.random() < .5)
    return dict(name=name, ops=ops, vendor=rng.choice(VENDORS), comments=rng.choice(COMMENTS), feats=feats, st=st)


# ---------------------------------------------------------------- special streams
def tiny(ch=1, bs=(64, 64), books=None, modes=None):
    """a setup with the least of everything; nothing but flags in its packets"""
    return dict(books=books or [dict(dim=1, lens=[1], fmt='dense', lk=0)],
                floors=[dict(parts=[], classes=[], mult=1, rb=0, xs=[])],
                residues=[dict(type=0, begin=0, end=0, psize=1, classbook=0, books=[[-1] * 8])],
                mappings=[dict(coupling=[], mux=[0] * ch, submaps=[(0, 0)])],
                modes=modes or [dict(big=0, mapping=0)])


def tiny_stream(rng, n=2, ident=None, ch=1, b=(6, 6), S=None):
    S = S or tiny(ch)
    bs = (1 << b[0], 1 << b[1])
    enc = vb.Enc(S, ch, bs, rng, quiet=.5)
    return dict(ch=ch, bs=bs, ident=ident or vb.ident_packet(ch, 44100, *b), S=S,
                setup=vb.setup_packet(S, ch), audio=[enc.packet() for _ in range(n)], enc=enc)


def solo_freq_case(name, vectors, rng, **kw):
    """up to 64 books, one per floor and mode: a packet of mode m reads up to 64 entries of book m, and ends
    at a byte boundary after them or is padded so that nothing more decodes"""
    books, floors, maps, modes = [], [], [], []
    for m, v in enumerate(vectors):
        n = len(v)
        books.append(dict(dim=1, lens=vb.random_lens(rng, n) if n > 1 else [1], fmt='dense', lk=0))
        floors.append(None)
        maps.append(dict(coupling=[], mux=[0], submaps=[(m, 0)]))
        modes.append(dict(big=0, mapping=m))
    audio = []
    for m, v in enumerate(vectors):
        todo = [e for e, f in enumerate(v) for _ in range(f)]
        rng.shuffle(todo)
        # a floor that reads exactly as many entries as needed: k entries in parts of up to 8
        k = len(todo)
        per = next((d for d in range(min(64, k), 0, -1) if k % d == 0), 0) if k else 0
        parts, classes = [], []
        if per:
            full, rest = divmod(per, 8)
            if full:
                classes.append(dict(dim=8, sub=0, master=0, books=[m]))
                parts += [0] * full
            if rest:
                classes.append(dict(dim=rest, sub=0, master=0, books=[m]))
                parts.append(len(classes) - 1)
        floors[m] = dict(parts=parts, classes=classes, mult=4, rb=6, xs=rng.sample(range(64), per))
        code = vb.codewords(books[m]['lens'])
        for i in range(0, k, per or 1):
            w = vb.BitW()
            w.u(0, 1).u(m, vb.ilog(len(vectors) - 1)).u(1, 1).u(rng.randrange(64), 6).u(rng.randrange(64), 6)
            for e in todo[i:i + per]:
                w.bits += code[e]
            audio.append(w.bytes(rng.randint(0, 1)))
    S = dict(books=books, floors=floors, residues=tiny()['residues'], mappings=maps, modes=modes)
    rng.shuffle(audio)
    return mk(name, 1, (6, 6), S, audio, rng, **kw)


def mk(name, ch, b, S, audio, rng, ident=None, comment=None, borrowed=False, trailing=b'', **kw):
    ops = two_pass([ident or vb.ident_packet(ch, 44100, *b), comment or vb.comment_packet(),
                    vb.setup_packet(S, ch, trailing)] + audio, borrowed)
    return dict(name=name, ops=ops, **kw)


def encoded(name, ch, b, S, rng, n=3, modes=None, **kw):
    bs = (1 << b[0], 1 << b[1])
    enc = vb.Enc(S, ch, bs, rng, skew=.5, quiet=kw.pop('quiet', .2))
    audio = [enc.packet(mode=modes[i % len(modes)] if modes else None) for i in range(n)]
    return mk(name, ch, b, S, audio, rng, **kw)


def vq(rng, n, dim, lk=1, vb_=4, fmt='dense', lens=None, **kw):
    b = vb.random_book(rng, n, dim, False, fmt)
    if lens is not None:
        b['lens'] = lens
    k = vb.lookup1(n, dim) if lk == 1 else n * dim
    b.update(lk=lk, vb=vb_, seq=rng.randint(0, 1), mults=[rng.randrange(1 << vb_) for _ in range(k)],
             min=vb.float32(rng.randrange(1, 1 << 21), 768, 1), delta=vb.float32(rng.randrange(1, 1 << 21), 768))
    b.update(kw)
    return b


def res(ncls, classbook, books, type=0, begin=0, end=32, psize=8):
    return dict(type=type, begin=begin, end=end, psize=psize, classbook=classbook, books=books)


def row(*bs):
    r = list(bs)
    return r + [-1] * (8 - len(r))


def corners(rng):
    """extremes of every field"""
    out = []

    def add(name, f):
        out.append((name, f))

    def books256(rng):
        S = tiny()
        S['books'] = [vb.random_book(rng, rng.choice([1, 2, 3, 5]), 1, False) for _ in range(255)] + [vq(rng, 4, 2)]
        S['books'][254] = vb.random_book(rng, 6, 1, False, 'dense')
        S['floors'] = [dict(parts=[0, 1], classes=[dict(dim=2, sub=1, master=254, books=[253, 254]),
                                                   dict(dim=1, sub=0, master=0, books=[254])], mult=2, rb=4, xs=[1, 5, 9])]
        S['books'][253] = vb.random_book(rng, 3, 1, False, 'dense')
        S['residues'] = [res(2, 254, [row(255), row(-1, 255, -1, -1, -1, -1, -1, 255)])]
        return encoded('books256', 1, (6, 6), S, rng, 4)
    add('books256', books256)

    def many(rng):
        S = dict(books=[vb.random_book(rng, 4, 2, False, 'dense'), vq(rng, 5, 2), vq(rng, 9, 4, lk=2)],
                 floors=[dict(parts=[0], classes=[dict(dim=1 + i % 8, sub=0, master=0, books=[i % 3 - 1])], mult=1 + i % 4,
                              rb=4 + i % 12, xs=rng.sample(range(16), 1 + i % 8)) for i in range(64)],
                 residues=[res(2, 0, [row(1), row(-1, 2)], type=i % 3, begin=i % 5, end=20 + i, psize=4 * (1 + i % 2)) for i in range(64)],
                 mappings=[dict(coupling=[(0, 1)] if i % 2 else [], mux=[0, 0], submaps=[(63 - i, i)]) for i in range(64)],
                 modes=[dict(big=i % 2, mapping=63 - i) for i in range(64)])
        return encoded('many', 2, (6, 7), S, rng, 70, modes=list(range(64)), quiet=.1)
    add('many', many)

    for ch in (255, 129, 128, 17):
        def chans(rng, ch=ch):
            S = dict(books=[vb.random_book(rng, 2, 1, False, 'dense'), vq(rng, 2, 4)],
                     floors=tiny()['floors'],
                     residues=[res(2, 0, [row(1), row(-1, 1)], type=t, end=8, psize=4) for t in (0, 1, 2)],
                     mappings=[dict(coupling=[(i, i + 1) for i in range(0, ch - 1, 2)] + [(ch - 1, 0)], mux=[i % 3 for i in range(ch)],
                                    submaps=[(0, 0), (0, 1), (0, 2)])],
                     modes=[dict(big=0, mapping=0)])
            return encoded('channels%d' % ch, ch, (6, 6), S, rng, 2, quiet=.6)
        add('channels%d' % ch, chans)

    def coupling256(rng):
        S = dict(books=[vb.random_book(rng, 2, 1, False, 'dense'), vq(rng, 2, 4)], floors=tiny()['floors'],
                 residues=[res(2, 0, [row(1), row(-1, 1)], end=8, psize=4)],
                 mappings=[dict(coupling=[tuple(rng.sample(range(5), 2)) for _ in range(256)], mux=[0] * 5, submaps=[(0, 0)])],
                 modes=[dict(big=0, mapping=0)])
        return encoded('coupling256', 5, (6, 6), S, rng, 4, quiet=.8)
    add('coupling256', coupling256)

    def submaps16(rng):
        S = dict(books=[vb.random_book(rng, 2, 1, False, 'dense'), vq(rng, 3, 2)],
                 floors=[dict(parts=[0], classes=[dict(dim=1, sub=0, master=0, books=[0])], mult=1, rb=3, xs=[i]) for i in range(8)],
                 residues=[res(2, 0, [row(1), row(-1, 1)], type=i % 3, end=4 * i, psize=4) for i in range(16)],
                 mappings=[dict(coupling=[], mux=[15 - i for i in range(16)], submaps=[(i % 8, 15 - i) for i in range(16)])],
                 modes=[dict(big=0, mapping=0)])
        return encoded('submaps16', 16, (6, 6), S, rng, 4)
    add('submaps16', submaps16)

    def floors31(rng):
        cl = [dict(dim=1 + i % 4, sub=i % 4, master=0, books=[(j + i) % 3 - 1 for j in range(1 << (i % 4))]) for i in range(16)]
        parts = [i % 16 for i in range(16)] + [rng.choice([0, 4, 8, 12]) for _ in range(15)]
        nx = sum(cl[p]['dim'] for p in parts)
        S = dict(books=[vb.random_book(rng, 64, 1, False, 'dense'), vb.random_book(rng, 7, 1, False, 'sparse')],
                 floors=[dict(parts=parts, classes=cl, mult=3, rb=15, xs=rng.sample(range(1 << 15), nx))],
                 residues=tiny()['residues'], mappings=tiny()['mappings'], modes=tiny()['modes'])
        return encoded('floors31', 1, (6, 6), S, rng, 6, quiet=.1)
    add('floors31', floors31)

    def floors65(rng):
        cl = [dict(dim=8, sub=0, master=0, books=[0]), dict(dim=1, sub=0, master=0, books=[-1])]
        S = dict(books=[vb.random_book(rng, 5, 1, False, 'dense')],
                 floors=[dict(parts=[0] * 8 + [1], classes=cl, mult=4, rb=7, xs=rng.sample(range(128), 65)),
                         dict(parts=[], classes=[], mult=2, rb=0, xs=[]),
                         dict(parts=[0], classes=[dict(dim=1, sub=3, master=0, books=[-1] * 7 + [0])], mult=1, rb=0, xs=[0])],
                 residues=tiny()['residues'],
                 mappings=[dict(coupling=[], mux=[0], submaps=[(i, 0)]) for i in range(3)],
                 modes=[dict(big=0, mapping=i) for i in range(3)])
        return encoded('floors65', 1, (6, 6), S, rng, 8, quiet=.1)
    add('floors65', floors65)

    def passes8(rng):
        bks = [vb.random_book(rng, 9, 2, False, 'dense')] + [vq(rng, 2 + i, d, lk=1 + i % 2, vb_=1 + i) for i, d in enumerate([1, 2, 3, 4, 6, 8, 12, 24])]
        S = dict(books=bks, floors=tiny()['floors'],
                 residues=[dict(type=t, begin=3, end=3 + 24 * 5, psize=24, classbook=0,
                                books=[list(range(1, 9)), row(-1, -1, -1, 8, 7, 6, 5, 4), row()]) for t in range(3)],
                 mappings=[dict(coupling=[], mux=[0, 1, 2, 1, 2], submaps=[(0, 0), (0, 1), (0, 2)])],
                 modes=[dict(big=1, mapping=0), dict(big=0, mapping=0)])
        return encoded('passes8', 5, (8, 9), S, rng, 4, quiet=.2)
    add('passes8', passes8)

    for lo, hi in ((0, 0), (1, 0), (2, 3), (4, 1), (0, 16), (5, 4), (7, 31), (0, 1), (6, 30)):
        def masks(rng, lo=lo, hi=hi):
            # every cascade shape, at shifting bit offsets
            bks = [vb.random_book(rng, 64, 1, False, 'dense'), vq(rng, 2, 1)]
            rows = []
            for i in range(rng.randint(1, 40)):
                m = (lo ^ (i % 8 if i % 3 else 0)) | (hi ^ (rng.randrange(32) if i % 2 else 0)) << 3
                rows.append([1 if m >> k & 1 else -1 for k in range(8)])
            S = dict(books=bks, floors=tiny()['floors'],
                     residues=[dict(type=1, begin=0, end=4, psize=1, classbook=0, books=rows)],
                     mappings=tiny()['mappings'], modes=tiny()['modes'])
            return encoded('masks%d-%d' % (lo, hi), 1, (6, 6), S, rng, 2, quiet=0)
        add('masks%d-%d' % (lo, hi), masks)

    for begin, end, psize, dim, typ, ch in ((0, 0xFFFFFF, 1, 3, 0, 1), (5, 5, 8, 2, 0, 1), (40, 3, 8, 2, 1, 1), (31, 33, 2, 1, 2, 2),
                                            (0, 64, 7, 4, 2, 2), (0, 32, 33, 2, 0, 1), (0xFFFFFF, 0xFFFFFF, 1 << 24, 1, 2, 2),
                                            (0, 65, 5, 5, 2, 3), (1, 31, 3, 7, 1, 2), (0, 32, 32, 200, 0, 1), (0, 32, 4, 65535, 1, 1)):
        def ends(rng, begin=begin, end=end, psize=psize, dim=dim, typ=typ, ch=ch):
            n = 1 if dim > 6 else 2
            bks = [vb.random_book(rng, n ** dim, dim, False, 'dense'), vq(rng, 4, 1, lk=2)]
            S = dict(books=bks, floors=tiny()['floors'],
                     residues=[dict(type=typ, begin=begin, end=end, psize=psize, classbook=0, books=[row(1), row(-1, 1)][:n])],
                     mappings=[dict(coupling=[], mux=[0] * ch, submaps=[(0, 0)])], modes=tiny()['modes'])
            return encoded('residue%d-%d-%d-%d-%d' % (begin, end, psize, dim, typ), ch, (6, 6), S, rng, 3, quiet=.2)
        add('residue%d-%d-%d-%d-%d' % (begin, end, psize, dim, typ), ends)

    def codes(rng):
        """code length extremes in every format"""
        deep = list(range(1, 33)) + [32]
        S = tiny()
        S['books'] = [dict(dim=1, lens=deep, fmt='ordered', lk=0), dict(dim=1, lens=deep[::-1], fmt='dense', lk=0),
                      dict(dim=1, lens=[32, 0, 32, 0] + list(range(31, 0, -1)) + [0], fmt='sparse', lk=0),
                      dict(dim=3, lens=[8] * 256, fmt='ordered', lk=0),
                      dict(dim=3, lens=[1] + [4] * 8, fmt='ordered', lk=0),
                      dict(dim=65535, lens=[0, 0], fmt='sparse', lk=0), dict(dim=0, lens=[0], fmt='sparse', lk=0),
                      dict(dim=0, lens=[1, 1], fmt='dense', lk=0),
                      dict(dim=1, lens=[2, 2], fmt='dense', lk=0),      # incomplete, never read
                      dict(dim=1, lens=[], fmt='dense', lk=0), dict(dim=1, lens=[], fmt='ordered', lk=0), dict(dim=1, lens=[], fmt='sparse', lk=0)]
        S['floors'] = [dict(parts=[0, 1, 2, 3, 4], classes=[dict(dim=6, sub=0, master=0, books=[i]) for i in range(5)], mult=1, rb=6,
                            xs=rng.sample(range(64), 30))]
        return encoded('codes', 1, (6, 6), S, rng, 12, quiet=0)
    add('codes', codes)

    def lookups(rng):
        S = tiny()
        S['books'] += [vq(rng, n, d, lk=lk, vb_=w, fmt=rng.choice(['dense', 'sparse', 'ordered']), **extra)
                       for n, d, lk, w, extra in (
                           (81, 4, 1, 16, {}), (80, 4, 1, 1, {}), (2, 24, 1, 3, {}), (16, 2, 2, 16, {}), (1, 1, 2, 1, {}), (1, 5, 1, 7, {}),
                           (300, 1, 1, 9, {}), (27, 3, 1, 5, dict(min=0, delta=0)), (26, 3, 1, 5, dict(min=vb.float32(1, 0, 1), delta=vb.float32(0x1FFFFF, 1023))),
                           (8, 3, 1, 5, dict(min=vb.float32(0, 500, 1), delta=vb.float32(2, 1))),
                           (8, 3, 2, 5, dict(min=vb.float32(0x100000, 0), delta=vb.float32(0x0FFFFF, 0, 1))),
                           (9, 2, 1, 8, dict(min=vb.float32(3, 20), delta=vb.float32(5, 18, 1))))]
        return encoded('lookups', 1, (6, 6), S, rng, 2)
    add('lookups', lookups)

    def blocks(rng, b):
        bks = [vb.random_book(rng, 4, 2, False, 'dense'), vq(rng, 3, 16)]
        S = dict(books=bks, floors=tiny()['floors'],
                 residues=[dict(type=1, begin=0, end=4096, psize=64, classbook=0, books=[row(1), row()])],
                 mappings=tiny()['mappings'], modes=[dict(big=1, mapping=0), dict(big=0, mapping=0), dict(big=1, mapping=0)])
        return encoded('blocks%d-%d' % b, 1, b, S, rng, 7, quiet=.1)
    for b in ((6, 13), (13, 13), (12, 13), (6, 11), (10, 10)):
        add('blocks%d-%d' % b, lambda rng, b=b: blocks(rng, b))

    def bigbook(rng):
        S = tiny()
        n = 70000
        S['books'] += [dict(dim=1, lens=[16] * 61072 + [17] * 8928, fmt='ordered', lk=0)]
        S['floors'] = [dict(parts=[0], classes=[dict(dim=8, sub=0, master=0, books=[1])], mult=1, rb=6, xs=rng.sample(range(64), 8))]
        return encoded('bigbook', 1, (6, 6), S, rng, 1, quiet=0)
    add('bigbook', bigbook)

    def farbook(rng):
        n = 65560
        lens = [0] * n
        for e, l in zip((0, 5, 255, 256, 65535, 65536, 65541, n - 1), (3, 3, 3, 3, 3, 3, 3, 3)):
            lens[e] = l
        S = tiny()
        S['books'] += [dict(dim=1, lens=lens, fmt='sparse', lk=0)]
        S['floors'] = [dict(parts=[0, 0], classes=[dict(dim=8, sub=0, master=0, books=[1])], mult=1, rb=6, xs=rng.sample(range(64), 16))]
        return encoded('farbook', 1, (6, 6), S, rng, 2, quiet=0)
    add('farbook', farbook)
    return out


def counted(name, freqs, rng, per=128):
    """a stream in which entry e of a codebook occurs freqs[e] times (the most frequent one up to per - 1 times more)"""
    n = len(freqs)
    freqs = list(freqs)
    top = freqs.index(max(freqs))
    freqs[top] += -sum(freqs) % per
    S = tiny()
    lens = vb.random_lens(rng, n)
    S['books'] = [dict(dim=1, lens=[1], fmt='dense', lk=0), vq(rng, n, 1, lens=lens)]
    S['residues'] = [res(1, 0, [row(1)], type=1, end=per, psize=per)]
    b = vb.ilog(2 * per - 1)
    code = vb.codewords(lens)
    runs, rest = [], []
    for e, f in enumerate(freqs):
        if f >= per:
            runs.append(([e] * per, f // per))
        rest += [e] * (f % per)
    rng.shuffle(rest)
    runs += [(rest[i:i + per], 1) for i in range(0, len(rest), per)]
    rng.shuffle(runs)
    ops = []
    for syms, m in runs:
        w = vb.BitW()
        w.u(0, 1).u(1, 1).u(0, 16).u(0, 1)
        for e in syms:
            w.bits += code[e]
        ops.append((m, w.bytes()))
    c = mk(name, 1, (b, b), S, [], rng)
    at = len(c['ops']) // 2
    c['ops'] = c['ops'][:at] + [('A*%d' % m, p) for m, p in ops] + c['ops'][at:] + [('O', p) for _, p in ops]
    return c


def fib(n):
    f = [1, 1]
    while len(f) < n:
        f.append(f[-1] + f[-2])
    return f[:n]


def counted_cases(rng, tier):
    """counts around powers of two, and distributions whose codes are up to 32 bits deep"""
    out = []
    for e in (8, 12, 15, 16, 17, 20):
        k = 1 << e
        v = [k - 1, k, k + 1, 2 * k, k // 2, k // 2 + 1, 3, 1, 0]
        out.append(counted('around-2^%d' % e, v, rng))
    for e in (16, 20):
        k = 1 << e
        v = [k + 5, 90, k + 1, k * 2 + 3, 7, k * 3, 70, 800, 900, 1000, 5000]
        out.append(counted('past-2^%d' % e, v, rng))
    for n in (12, 20, 24, 28):
        v = fib(n)
        if n % 2:               # the longest codewords are those of ones, or anything
            v.reverse()
        else:
            rng.shuffle(v)
        out.append(counted('fibonacci-%d' % n, v, rng))
    v = fib(rng.randint(21, 27)) + fib(rng.randint(10, 20)) + [0] * 5
    rng.shuffle(v)
    out.append(counted('fibonacci-twice', v, rng))
    return out


def deepest(rng):
    """the deepest codes there can be, and one that would have to be deeper"""
    out = []
    for n in (32, 33, 34, 35):
        v = fib(n)
        if n % 2:               # the longest codewords are those of ones, or anything
            v.reverse()
        else:
            rng.shuffle(v)
        out.append(counted('fibonacci-%d' % n, v, rng))
    k = 1 << 24
    out.append(counted('around-2^24', [k - 1, k, k + 1, 2 * k, k // 2, k // 2 + 1, 3, 1, 0], rng))
    return out


def crowds(rng, tier):
    """books of which many entries are used: flat, skewed, banded and sparse counts"""
    out = []
    plan = [(129, 2), (257, 0), (300, 1), (600, 3), (1100, 0)] if tier == 'quick' else \
        [(n, k) for n in (129, 255, 256, 257, 258, 300, 520, 700, 1030) for k in range(4)] + [(1500, 0), (2050, 0)]
    for n, k in plan:
        if k == 0:
            v = [rng.choice([1, 1, 2]) for _ in range(n)]
        elif k == 1:
            v = [1 + int(rng.expovariate(.7)) for _ in range(n)]
        elif k == 2:
            v = [1 + (i % 7) * (i // 80) for i in range(n)]
            rng.shuffle(v)
        else:
            v = [0 if rng.random() < .6 else 1 + int(2 ** rng.uniform(0, 3)) for _ in range(n)]
        out.append(counted('crowd-%d-%d' % (n, k), v, rng))
    return out


def prefixes(rng):
    """a small stream with one of its packets cut, at every length"""
    st = tiny_stream(rng, 2)
    com = vb.comment_packet(b'abc; d', [b'A=1', b'', b'B=\xff'])
    ps = [st['ident'], com, st['setup']] + st['audio']
    out = []
    for j, p in enumerate(ps):
        for n in range(len(p)):
            out.append(dict(name='prefix-%d-%d' % (j, n), ops=two_pass(ps[:j] + [p[:n]] + ps[j + 1:], rng.random() < .5)))
        for more in (b'\0', b'\1', b'\xff\xff'):
            out.append(dict(name='longer-%d' % j, ops=two_pass(ps[:j] + [p + more] + ps[j + 1:])))
    return out


def header_bytes(rng, j):
    """a small stream of which one byte of a header has every value: those of fields of few bits"""
    out = []
    for at in ((7, 11, 28, 29) if j == 0 else (-1, 0)):
        for v in range(256):
            st = tiny_stream(rng, 1)
            ps = [bytearray(p) for p in (st['ident'], vb.comment_packet(b'abc; d', [b'A=1']), st['setup'])]
            ps[j][at] = v
            out.append(dict(name='byte-%d-%d-%d' % (j, at, v), ops=two_pass([bytes(p) for p in ps] + st['audio'], v % 2 == 0)))
    return out


def ident_bytes(rng):
    return header_bytes(rng, 0)


def comment_bytes(rng):
    return header_bytes(rng, 1)


def weighted_case(rng, info, name):
    """packets that occur many times"""
    c = stream_case(rng, info, name, trunc=0, dummy=0, maxbytes=200)
    c['ops'] = [('A*%d' % rng.choice([1, 1, 2, 3, 17, 300, 4100, 70000 if rng.random() < .2 else 5]), p) if k == 'A' and i > 2 else (k, p)
                for i, (k, p) in enumerate(c['ops'])]
    return c


# ---------------------------------------------------------------- invalid inputs
def flip(b, i):
    return b[:i // 8] + bytes([b[i // 8] ^ 1 << i % 8]) + b[i // 8 + 1:]


def bad_ident(rng, base):
    k = rng.randrange(9)
    if k == 0:
        return base[:rng.randrange(len(base))]
    if k == 1:
        return flip(base, rng.randrange(8 * min(30, len(base))))
    if k == 2:
        return bytes([rng.randrange(256)]) + base[1:]
    if k == 3:
        return base[:7] + bytes(rng.choice([0, 0, 1, 255]) for _ in range(4)) + base[11:]
    if k == 4:
        return base[:11] + b'\0' + base[12:]
    if k == 5:
        return base[:12] + b'\0\0\0\0' + base[16:]
    if k == 6:
        return base[:28] + bytes([rng.randrange(256)]) + base[29:]
    if k == 7:
        i = rng.randrange(1, 7)
        return base[:i] + bytes([base[i] ^ 32]) + base[i + 1:]
    return base[:29] + bytes([rng.randrange(256)])


def bad_header(rng, base):
    """damage to what all headers start with"""
    k = rng.randrange(5)
    if k == 0:
        return base[:rng.randrange(max(1, min(len(base), 12)))]
    if k == 1:
        return bytes([rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 255])]) + base[1:]
    if k == 2:
        i = rng.randrange(1, 7)
        return base[:i] + bytes([rng.randrange(256)]) + base[i + 1:]
    if k == 3:
        return b''
    return flip(base, rng.randrange(min(56, 8 * len(base)))) if base else base


def edges(rng):
    """every limit of the setup header, one below, at and one above"""
    import copy
    out = []

    def base(ch=2, rng=rng):
        bk = lambda n, d: vb.random_book(rng, n, d, False, rng.choice(['dense', 'ordered']))
        return dict(books=[bk(4, 2), vq(rng, 8, 2), vq(rng, 4, 4, lk=2), bk(6, 1)],
                    floors=[dict(parts=[0, 1], classes=[dict(dim=2, sub=1, master=3, books=[0, 3]), dict(dim=1, sub=0, master=0, books=[3])],
                                 mult=2, rb=5, xs=[3, 9, 20]),
                            dict(parts=[0], classes=[dict(dim=1, sub=0, master=0, books=[0])], mult=1, rb=4, xs=[7])],
                    residues=[res(2, 0, [row(1), row(-1, 2)], type=t, psize=4, end=32) for t in (0, 1, 2)],
                    mappings=[dict(coupling=[(0, 1)] if ch > 1 else [], mux=[i % 2 for i in range(ch)], submaps=[(0, 0), (1, 1)]),
                              dict(coupling=[], mux=[0] * ch, submaps=[(1, 2)])],
                    modes=[dict(big=0, mapping=0), dict(big=1, mapping=1)])

    def add(name, change, ch=2):
        S = base(ch)
        change(S)
        b = (6, 7)
        st = base(ch)
        try:
            enc = vb.Enc(S, ch, (64, 128), rng, skew=.5, quiet=.1)
            audio = [enc.packet() for _ in range(3)]
        except Exception:                           # what no encoder can use
            enc = vb.Enc(st, ch, (64, 128), rng, skew=.5, quiet=.1)
            audio = [enc.packet() for _ in range(2)] + [b'\0' * 5]
        out.append(mk('edge-' + name, ch, b, S, audio, rng, borrowed=rng.random() < .5))

    def setv(path, v):
        def f(S):
            x = S
            for k in path[:-1]:
                x = x[k]
            x[path[-1]] = v
        return f

    def both(*fs):
        def f(S):
            for g in fs:
                g(S)
        return f
    # numbers of other things
    for v in (3, 4, 5):
        add('classbook%d' % v, setv(('residues', 0, 'classbook'), v))
        add('rbook%d' % v, setv(('residues', 1, 'books', 1, 1), v))
        add('rbook7-%d' % v, setv(('residues', 1, 'books', 0, 7), v))
        add('master%d' % v, setv(('floors', 0, 'classes', 0, 'master'), v))
        add('fbook%d' % v, setv(('floors', 0, 'classes', 0, 'books', 1), v))
        add('fbook0-%d' % v, setv(('floors', 0, 'classes', 1, 'books', 0), v))
    add('fbook-none', setv(('floors', 0, 'classes', 0, 'books', 0), -1))
    for v in (1, 2, 3):
        add('mfloor%d' % v, setv(('mappings', 0, 'submaps', 1), (v, 1)))
        add('mres%d' % v, setv(('mappings', 1, 'submaps', 0), (0, v)))
        add('mux%d' % v, setv(('mappings', 0, 'mux', 1), v))
        add('mmap%d' % v, setv(('modes', 1, 'mapping'), v))
    for v in (2, 3, 15):
        add('mux3-%d' % v, both(setv(('mappings', 0, 'submaps'), [(0, 0), (1, 1), (1, 2)]), setv(('mappings', 0, 'mux', 0), v)))
    add('one-submap', both(setv(('mappings', 0, 'submaps'), [(0, 0)]), setv(('mappings', 0, 'forcemany'), True)))
    add('submaps16', both(setv(('mappings', 0, 'submaps'), [(i % 2, i % 3) for i in range(16)]), setv(('mappings', 0, 'mux'), [15, 7])))
    # coupling: channel numbers have ilog(channels - 1) bits
    for ch in (3, 4, 5, 6, 7, 8, 9, 255):
        top = (1 << vb.ilog(ch - 1)) - 1
        for m, a in [(ch - 1, 0), (0, ch - 1)] + ([(ch, 0), (0, ch)] if ch <= top else []) + [(top, 0), (top, top), (1, 1), (ch - 1, ch - 2)]:
            if ch < 9 or a == 0:
                add('couple%d-%d-%d' % (ch, m, a), setv(('mappings', 0, 'coupling'), [(m, a)]), ch)
    for n in (2, 128, 255, 256):
        add('couplings%d' % n, setv(('mappings', 1, 'coupling'), [(i % 2, 1 - i % 2) for i in range(n)]))
    add('couple-last', setv(('mappings', 1, 'coupling'), [(0, 1)] * 40 + [(1, 1)]))
    add('couple-mono', both(setv(('mappings', 1, 'coupling'), [(0, 0)])), 1)
    # classifications: the classbook needs classes ^ dimensions entries
    for ncls, dim in ((1, 1), (1, 9), (2, 1), (2, 3), (3, 2), (4, 2), (5, 3), (7, 1), (64, 1), (63, 2)):
        for d in (-2, -1, 0, 1, 2):
            n = ncls ** dim + d
            if n > 0 and (n < 300 or d == 0):
                add('classes%d-%d%+d' % (ncls, dim, d), both(
                    lambda S: S['books'].append(vb.random_book(rng, n, dim, False, 'dense')),
                    setv(('residues', 2), res(ncls, 4, [row(1) if i % 3 else row(-1, 2) for i in range(ncls)], type=2, psize=4, end=64))))
    for ncls, dim in ((2, 31), (2, 32), (2, 33), (4, 16), (16, 8), (64, 6), (2, 64), (3, 65535), (1, 65535), (2, 65535), (2, 65536 - 32)):
        add('classes%d-%d' % (ncls, dim), both(
            lambda S: S['books'].append(dict(vb.random_book(rng, 8, 1, False, 'dense'), dim=dim)),
            setv(('residues', 0), res(ncls, 4, [row(1)] * ncls, psize=4, end=32))))
    # a classbook or residue book without dimensions, and books without values
    add('class-dim0', lambda S: S['books'][0].update(dim=0))
    for k in (1, 2):
        add('book%d-dim0' % k, lambda S: S['books'][k].update(dim=0, lk=0))
        add('book%d-dim0-lk2' % k, lambda S: S['books'][k].update(dim=0, lk=2, mults=[]))
        add('book%d-nolookup' % k, lambda S: S['books'][k].update(lk=0))
    for lk in (3, 4, 7, 8, 15):
        add('lookup%d' % lk, lambda S: S['books'][2].update(lk=lk))
    for psize, dim in ((4, 3), (6, 4), (8, 4), (7, 7), (2, 4), (1, 1), (3, 2), (32, 1)):
        add('psize%d-%d' % (psize, dim), both(
            lambda S: S['books'].append(vq(rng, 5, dim, lk=2)),
            setv(('residues', 2), res(2, 0, [row(4), row(-1, 4)], type=2, psize=psize, end=33))))
        add('psize%d-%d-t0' % (psize, dim), both(
            lambda S: S['books'].append(vq(rng, 5, dim, lk=2)),
            setv(('residues', 0), res(2, 0, [row(4), row(-1, 4)], type=0, psize=psize, end=33))))
    # extent of residues
    for t in (0, 1, 2):
        for begin, end in ((0, 0), (5, 5), (6, 5), (0, 31), (0, 32), (0, 33), (0, 64), (0, 65), (0, 128), (0, 129), (31, 32), (32, 33), (64, 65),
                           (0, 0xFFFFFF), (0xFFFFFF, 0), (0xFFFFFF, 0xFFFFFF), (3, 30)):
            add('extent%d-%d-%d' % (t, begin, end), setv(('residues', t), res(2, 0, [row(1), row(-1, 2)], type=t, begin=begin, end=end, psize=4)))
        for psize in (1 << 24, (1 << 24) - 1, 1 << 16, 64, 33, 32, 31):
            add('psize%d-%d' % (t, psize), setv(('residues', t), res(2, 0, [row(), row()] if psize > 64 else [row(1), row()], type=t, end=64, psize=psize)))
        for psize in (1, 2, 3):
            for begin, end in ((0, 1), (0, 2), (0, 3), (0, 4), (1, 2), (1, 4), (2, 5), (31, 32), (30, 32), (30, 33), (63, 65), (62, 64)):
                add('small%d-%d-%d-%d' % (t, psize, begin, end), both(
                    lambda S: S['books'].append(vq(rng, 5, psize, lk=2)),
                    setv(('residues', t), res(2, 0, [row(4), row(-1, 4)], type=t, begin=begin, end=end, psize=psize)),
                    setv(('mappings', 0, 'submaps', 1), (1, t)), setv(('mappings', 1, 'submaps', 0), (1, t))))
    # floors
    for n, last in ((63, 0), (64, 0), (65, 0), (62, 1)):
        xs = rng.sample(range(1, 256), n)
        add('xs%d-%d' % (n, last), setv(('floors', 1), dict(
            parts=[0] * (n // 8) + [1] * (n % 8), classes=[dict(dim=8, sub=0, master=0, books=[-1]), dict(dim=1, sub=0, master=0, books=[3])][:2 if n % 8 else 1],
            mult=1, rb=8, xs=xs)))
    add('xs31', setv(('floors', 1), dict(parts=[0] * 31, classes=[dict(dim=1, sub=0, master=0, books=[3])], mult=3, rb=8, xs=rng.sample(range(1, 256), 31))))
    for xs in ([0], [16], [15], [1]):
        add('x%d' % xs[0], setv(('floors', 1), dict(parts=[0], classes=[dict(dim=1, sub=0, master=0, books=[3])], mult=3, rb=4, xs=[xs[0] & 15])))
    add('x-twice', setv(('floors', 0, 'xs'), [3, 20, 3]))
    add('x-two', setv(('floors', 0, 'xs'), [3, 3, 20]))
    add('rb0', setv(('floors', 1), dict(parts=[], classes=[], mult=3, rb=0, xs=[])))
    add('rb0-1', setv(('floors', 1), dict(parts=[0], classes=[dict(dim=1, sub=0, master=0, books=[-1])], mult=3, rb=0, xs=[0])))
    add('rb15', setv(('floors', 1), dict(parts=[0], classes=[dict(dim=2, sub=0, master=0, books=[3])], mult=3, rb=15, xs=[32767, 16384])))
    for mult in (1, 2, 3, 4):
        add('mult%d' % mult, setv(('floors', 0, 'mult'), mult))
    for sub in (0, 1, 2, 3):
        add('sub%d' % sub, setv(('floors', 0, 'classes', 0), dict(dim=2, sub=sub, master=3, books=([3, -1, 0, 3, -1, -1, 0, 3])[:1 << sub])))
    for cl in (0, 1, 15):
        add('class%d' % cl, setv(('floors', 1), dict(parts=[cl], classes=[dict(dim=1, sub=0, master=0, books=[3 if i == cl else -1]) for i in range(cl + 1)],
                                                     mult=4, rb=6, xs=[33])))
    for t in (0, 2, 255, 256, 65535):
        add('ftype%d' % t, setv(('floors', 1, 'type'), t))
        add('rtype%d' % (t + 3), setv(('residues', 1, 'type'), (t + 3) & 0xFFFF))
        add('mtype%d' % (t + 1), setv(('mappings', 1, 'type'), (t + 1) & 0xFFFF))
    for v in (1, 2, 3):
        add('mreserved%d' % v, setv(('mappings', 1, 'res'), v))
    for v in (1, 256, 32768):
        add('win%d' % v, setv(('modes', 1, 'win'), v))
        add('tr%d' % v, setv(('modes', 0, 'tr'), v))
        add('tds%d' % v, setv(('tds',), [0, v]))
    add('tds64', setv(('tds',), [0] * 64))
    add('tds64-last', setv(('tds',), [0] * 63 + [1]))
    for v in (0, None):
        add('framing%s' % v, setv(('framing',), v))
    for n in (2, 3, 32, 33, 63, 64):
        add('modes%d' % n, setv(('modes',), [dict(big=i % 2, mapping=i % 2) for i in range(n)]))
        add('floors%d' % n, lambda S: S['floors'].extend([S['floors'][0]] * (n - 2)))
        add('residues%d' % n, lambda S: S['residues'].extend([S['residues'][0]] * (n - 3)) if n > 2 else None)
        add('mappings%d' % n, lambda S: S['mappings'].extend([S['mappings'][0]] * (n - 2)))
    for n in (5, 255, 256):
        add('books%d' % n, lambda S: S['books'].extend([S['books'][1]] * (n - 4)))
    # codes
    for lens in ([1], [2], [32], [1, 1], [1, 2], [1, 2, 2], [1, 2, 3], [1, 1, 1], [2, 2, 2], [2] * 4, [2] * 5, [0], [0, 0], [0, 1], [0, 5, 0], [1, 0, 1], [1, 0, 2],
                 list(range(1, 33)) + [32], list(range(1, 33)), list(range(1, 32)) + [31], list(range(1, 32)) + [32] * 3, [32] * 33, [31, 32], [31, 31],
                 list(range(31, 0, -1)) + [31], [32, 32] + list(range(31, 0, -1)), [3] * 8, [3] * 9, [3] * 7, [], [5, 4, 3, 2, 1, 5]):
        for fmt in ('dense', 'sparse', 'ordered'):
            if 0 in lens and fmt != 'sparse' or fmt == 'ordered' and lens != sorted(lens):
                continue
            add('lens%s-%s' % ('.'.join(map(str, lens))[:20], fmt), lambda S: S['books'][3].update(lens=list(lens), fmt=fmt, lk=0))
    # lengths past 32, which only the ordered format can express
    for k, lens in enumerate((list(range(1, 33)) + [33, 33], list(range(1, 32)) + [33] * 4, list(range(1, 34)), [32, 33], [31, 33], [32] * 3 + [33], [30, 34],
                              list(range(1, 34)) + [34, 34], [1, 33], list(range(1, 33)) + [34] * 4, [1] + [32] * 5 + [33] * 3, [32, 40], [1, 70])):
        add('past32-%d' % k, lambda S: S['books'][3].update(lens=list(lens), fmt='ordered', lk=0))
    # multiplicands
    for w in (1, 2, 15, 16):
        for lk in (1, 2):
            add('vb%d-%d' % (w, lk), setv(('books', 1), vq(rng, 8, 2, lk=lk, vb_=w)))
    for n, d in ((1, 1), (2, 2), (3, 2), (4, 2), (8, 3), (9, 3), (7, 3), (26, 3), (27, 3), (28, 3), (16, 4), (15, 4), (80, 4), (81, 4), (82, 4), (255, 8), (256, 8),
                 (257, 8), (5, 60), (3, 32), (2, 31)):
        add('lookup1-%d-%d' % (n, d), lambda S: S['books'].append(vq(rng, n, d)))
    return out


def mutate_setup(rng, S, ch):
    """one illegal or reserved value in a copy of S; returns the packet"""
    import copy
    S = copy.deepcopy(S)
    b = rng.choice(S['books'])
    f = rng.choice(S['floors'])
    r = rng.choice(S['residues'])
    m = rng.choice(S['mappings'])
    md = rng.choice(S['modes'])
    nb = len(S['books'])
    k = rng.choice(['sync', 'over', 'lk', 'tds', 'tds2', 'ftype', 'fmaster', 'fbook', 'xrep', 'xmany', 'rtype', 'rbook', 'rclass',
                    'rwords', 'mtype', 'coupling', 'mux', 'mfloor', 'mres', 'mreserved', 'junk', 'win', 'tr', 'mmap', 'framing',
                    'noframing', 'cwlen', 'ovalue', 'forcemany', 'under', 'couplingself', 'edge'])
    if k == 'sync':
        b['sync'] = rng.choice([0, 0xFFFFFF, 0x564342 ^ 1 << rng.randrange(24), 0x424356])
    elif k == 'over':
        b['lens'] = rng.choice([[1, 1, 1], [1, 2, 2, 32], [1, 0, 1, 2], [2, 2, 2, 2, 2]])
        b['fmt'] = 'sparse' if 0 in b['lens'] else rng.choice(['sparse', 'dense', 'ordered'])
        b['lk'] = 0
    elif k == 'under':
        b['lens'] = rng.choice([[1, 2, 3], [2], [1, 3], [0, 3, 0], [32, 32], [2, 2, 2]])
        b['fmt'] = 'sparse' if 0 in b['lens'] else rng.choice(['sparse', 'dense', 'ordered'])
        b['lk'] = 0
    elif k == 'lk':
        b['lk'] = rng.randint(3, 15)
    elif k == 'cwlen':
        b['fmt'], b['lens'], b['lk'] = 'ordered', [32], 0
        b['count'] = rng.choice([2, 40])
    elif k == 'ovalue':
        w = vb.setup_bits(S, ch)
        # the count of the first group of an ordered book, if the first book is one
        if S['books'][0]['fmt'] == 'ordered' and S['books'][0]['lens']:
            n = vb.ilog(len(S['books'][0]['lens']))
            for i in range(n):
                w.bits[64 + 70 + i] = 1
        return w.bytes()
    elif k == 'tds':
        S['tds'] = [rng.choice([1, 0x8000, 0xFFFF])]
    elif k == 'tds2':
        S['tds'] = [0] * rng.randint(2, 64)
        if rng.random() < .5:
            S['tds'][-1] = 7
    elif k == 'ftype':
        f['type'] = rng.choice([0, 2, 256, 257, 65535])
    elif k == 'fmaster' and any(c['sub'] for c in f['classes']):
        c = rng.choice([c for c in f['classes'] if c['sub']])
        c['master'] = rng.choice([nb, nb - 1, 255])
    elif k == 'fbook' and f['classes']:
        c = rng.choice(f['classes'])
        c['books'][rng.randrange(len(c['books']))] = rng.choice([nb, nb - 1, 254])
    elif k == 'xrep' and len(f['xs']) > 1:
        i, j = rng.sample(range(len(f['xs'])), 2)
        f['xs'][i] = f['xs'][j]
    elif k == 'xmany':
        f['classes'] = [dict(dim=8, sub=0, master=0, books=[-1]), dict(dim=rng.choice([1, 2]), sub=0, master=0, books=[-1])]
        f['parts'] = [0] * 8 + [1]
        f['rb'] = 8
        f['xs'] = rng.sample(range(256), 64 + f['classes'][1]['dim'])
    elif k == 'rtype':
        r['type'] = rng.choice([3, 4, 255, 256, 65535])
    elif k == 'rbook':
        row_ = rng.choice(r['books'])
        row_[rng.randrange(8)] = rng.choice([nb, nb - 1, 255])
    elif k == 'rclass':
        r['classbook'] = rng.choice([nb, nb - 1, 255])
    elif k == 'rwords':
        r['classbook'] = rng.randrange(nb)
        while len(r['books']) < 64 and rng.random() < .9:
            r['books'].append([-1] * 8)
    elif k == 'mtype':
        m['type'] = rng.choice([1, 2, 256, 65535])
    elif k == 'coupling' and ch > 1:
        m['coupling'] = (m['coupling'] + [tuple(rng.randrange(1 << vb.ilog(ch - 1)) for _ in range(2))])[-256:]
    elif k == 'couplingself':
        m['coupling'] = [(0, 0)] if rng.random() < .5 or ch == 1 else [(0, 1), (ch - 1, ch - 1)]
    elif k == 'mux' and len(m['submaps']) > 1:
        m['mux'][rng.randrange(ch)] = rng.choice([len(m['submaps']), 15, len(m['submaps']) - 1]) & 15
    elif k == 'mfloor':
        i = rng.randrange(len(m['submaps']))
        m['submaps'][i] = (rng.choice([len(S['floors']), 255, len(S['floors']) - 1]), m['submaps'][i][1])
    elif k == 'mres':
        i = rng.randrange(len(m['submaps']))
        m['submaps'][i] = (m['submaps'][i][0], rng.choice([len(S['residues']), 255, len(S['residues']) - 1]))
    elif k == 'mreserved':
        m['res'] = rng.randint(1, 3)
    elif k == 'junk':
        m['junk'] = rng.randint(1, 255)
    elif k == 'win':
        md['win'] = rng.choice([1, 0x8000, rng.randrange(1, 65536)])
    elif k == 'tr':
        md['tr'] = rng.choice([1, 0x8000, rng.randrange(1, 65536)])
    elif k == 'mmap':
        md['mapping'] = rng.choice([len(S['mappings']), 255, len(S['mappings']) - 1])
    elif k == 'framing':
        S['framing'] = 0
    elif k == 'noframing':
        S['framing'] = None
    elif k == 'forcemany':
        m['forcemany'] = True
    elif k == 'edge':
        b['dim'] = rng.choice([0, 65535]) if b['lk'] == 0 else b['dim']
    return vb.setup_packet(S, ch, rand_bytes(rng, rng.choice([0, 0, 3])))


def setup_ok_to_check(p):
    return len(p) < 6000 and vb.max_count(p) <= 5000


def bad_setup_case(rng, info, name):
    while True:
        st = rand_stream(rng, npackets=rng.choice([0, 1, 2]), maxbytes=300)
        k = rng.randrange(10)
        p = st['setup']
        if k < 6:
            p = mutate_setup(rng, st['S'], st['ch'])
        elif k == 6:
            p = p[:rng.randrange(len(p))]
        elif k == 7:
            p = bad_header(rng, p)
        else:
            for _ in range(rng.choice([1, 1, 2])):
                p = flip(p, rng.randrange(8 * len(p)))
        if setup_ok_to_check(p):
            break
    return dict(name=name, ops=two_pass([st['ident'], vb.comment_packet(), p] + st['audio'], rng.random() < .5))


def bad_prelude_case(rng, info, name):
    st = tiny_stream(rng)
    ps = [st['ident'], rand_comment(rng, info), st['setup']] + st['audio']
    k = rng.randrange(4)
    if k < 2:
        ps[0] = bad_ident(rng, rand_ident(rng)[2] if rng.random() < .3 else st['ident'])
    elif k == 2:
        ps[1] = bad_header(rng, ps[1])
    else:
        ps[2] = bad_header(rng, ps[2])
    if rng.random() < .1:
        i, j = rng.sample(range(3), 2)
        ps[i], ps[j] = ps[j], ps[i]
    return dict(name=name, ops=two_pass(ps))


def bad_audio_case(rng, info, name):
    """faults that only show in audio packets"""
    st = rand_stream(rng, npackets=rng.choice([1, 2, 3]), maxbytes=300)
    S, k = st['S'], rng.randrange(6)
    audio = st['audio']
    setup = st['setup']
    if k == 0:
        i = rng.randrange(len(audio))
        if audio[i]:
            audio[i] = bytes([audio[i][0] | 1]) + audio[i][1:]
    elif k == 1:
        audio[rng.randrange(len(audio))] = rand_bytes(rng, rng.randint(0, 40))
    elif k == 2:
        audio.insert(rng.randrange(len(audio) + 1), rng.choice([st['ident'], vb.comment_packet(), setup]))
    elif k == 3:
        # random payload behind good flags
        i = rng.randrange(len(audio))
        audio[i] = audio[i][:2] + rand_bytes(rng, rng.randint(0, 60))
        if audio[i]:
            audio[i] = bytes([audio[i][0] & 0xFE]) + audio[i][1:]
    else:
        # a residue that uses a scalar book, or one whose dimension does not fit
        b = [x for r in S['residues'] for row_ in r['books'] for x in row_ if x >= 0]
        if b:
            b = S['books'][rng.choice(b)]
            if k == 4:
                b['lk'] = 0
            else:
                d = rng.choice([0, 5, 7, 11, 64])
                b['dim'], b['lk'] = d, 2
                b['mults'] = [rng.randrange(1 << b['vb']) for _ in range(d * len(b['lens']))]
            setup = vb.setup_packet(S, st['ch'])
    if not setup_ok_to_check(setup):
        return bad_audio_case(rng, info, name)
    return dict(name=name, ops=two_pass([st['ident'], vb.comment_packet(), setup] + audio, rng.random() < .5))


def ident_case(rng, info, name):
    ch, bs, ident = rand_ident(rng, False)
    b = tuple(vb.ilog(x) - 1 for x in bs)
    st = tiny_stream(rng, 1, ident, ch, b)
    return dict(name=name, ops=two_pass([ident, vb.comment_packet(), st['setup']] + st['audio'], rng.random() < .5))


def comment_case(rng, info, name):
    st = tiny_stream(rng, 0)
    return dict(name=name, ops=two_pass([st['ident'], rand_comment(rng, info), st['setup']], rng.random() < .5),
                vendor=rng.choice(VENDORS), comments=rng.choice(COMMENTS))


CALLS_CFG = """INIT Init
NEXT Next
CONSTANTS MaxAnalyzed = %d
CONSTRAINT Emit
INVARIANT Fits
CHECK_DEADLOCK FALSE
"""


def call_orders(rng, tier):
    """every history of calls of Calls.tla up to 4 (5) analyzed packets, and some of the longer ones"""
    def histories(n):
        return [json.dumps(h) for h in enumerated('Calls', CALLS_CFG % n)]
    small = histories(4 if tier == 'quick' else 5)
    more = sorted(set(histories(6 if tier == 'quick' else 7)) - set(small))
    out = []
    for k, x in enumerate(small + rng.sample(more, min(len(more), 500 if tier == 'quick' else 8000))):
        h = json.loads(x)
        S = tiny(1, modes=[dict(big=0, mapping=0), dict(big=1, mapping=0)])
        ps = dict(i=vb.ident_packet(1, 44100, 6, 7), c=vb.comment_packet(b'v', [b'N=%d' % k]), s=vb.setup_packet(S, 1),
                  a=b'\0', l=b'\x0e', e=b'', h=b'\x01', t=rng.choice([b'\2', b'\4', b'\6']), j=b'\x7f' + rand_bytes(rng, 8))
        ops = [('N', ps['i'])] + [('A', ps[p]) for p in h['first']]
        ops += [(rng.choice('Oo'), ps[p]) for p in (['i'] + h['first'])[:h['second']]]
        if h['late']:
            ops.append(('A', ps[h['late']]))
        out.append(dict(name='calls-%s-%d%s' % (''.join(h['first']), h['second'], h['late'] and '-' + h['late']), ops=ops))
    return out


def dummy_case(rng, info, name):
    """packets at and around the point where decoders start to care"""
    st = rand_stream(rng, npackets=rng.choice([1, 2, 3]), maxbytes=200)
    audio = []
    for p in st['audio']:
        for _ in range(rng.choice([0, 1, 2])):
            audio.append(rng.choice([b'', b'', p[:1], p[:2], bytes([rng.randrange(0, 256, 2)]) if len(st['S']['modes']) == 64 or
                                     all(True for _ in [0]) and len(st['S']['modes']) in (1, 2, 4) else b'', st['enc'].packet()[:1]]))
        audio.append(p)
    if rng.random() < .3:
        audio.append(b'')
    return dict(name=name, ops=two_pass([st['ident'], vb.comment_packet(), st['setup']] + audio, rng.random() < .5))


def modes64_dummy(rng, info, name):
    S = tiny(1, modes=[dict(big=i % 2, mapping=0) for i in range(64)])
    audio = [bytes([rng.randrange(64) << 1 | rng.choice([0, 128])]) for _ in range(6)] + [b'', bytes([2, 0]), bytes([2 | 128, 1])]
    rng.shuffle(audio)
    return mk(name, 1, (6, 7), S, audio, rng)


def trunc_case(rng, info, name):
    """one packet cut at many places"""
    while True:
        st = rand_stream(rng, npackets=2, maxbytes=150)
        if max(len(p) for p in st['audio']) > 6:
            break
    p = max(st['audio'], key=len)
    cuts = sorted(rng.sample(range(1, len(p)), min(len(p) - 1, 12)))
    audio = [p] + [p[:i] for i in cuts] + [min(st['audio'], key=len)]
    return dict(name=name, ops=two_pass([st['ident'], vb.comment_packet(), st['setup']] + audio, rng.random() < .5))


def late_case(rng, info, name):
    """analysis after the second pass began; second passes over prefixes"""
    st = tiny_stream(rng, 2)
    ps = [st['ident'], vb.comment_packet(), st['setup']] + st['audio']
    k = rng.randrange(4)
    if k == 0:
        ops = [('N', ps[0]), ('O', ps[0])]
    elif k == 1:
        ops = [('N', ps[0]), ('A', ps[1]), ('O', ps[0]), ('O', ps[1])]
    elif k == 2:
        n = rng.randint(1, len(ps))
        ops = [('N', ps[0])] + [('A', p) for p in ps[1:]] + [('O', p) for p in ps[:n]] + [('A', ps[rng.randrange(1, len(ps))])]
    else:
        ops = [('N', ps[0])] + [('A', p) for p in ps[1:]] + [('O', p) for p in ps[:rng.randint(1, len(ps))]]
    return dict(name=name, ops=ops)


def clean_case(rng, info, name):
    return stream_case(rng, info, name, trunc=0, dummy=0)


def mixed_case(rng, info, name):
    return stream_case(rng, info, name)


def large_case(rng, info, name):
    return stream_case(rng, info, name, small=False, npackets=rng.choice([1, 2, 4]), maxbytes=2000)


def setup_case(rng, info, name):
    return stream_case(rng, info, name, trunc=0, dummy=0, npackets=rng.choice([0, 0, 1]))


def freq_random_case(rng, info, name):
    """many packets of few books, skewed"""
    return stream_case(rng, info, name, trunc=0, dummy=0, npackets=rng.choice([5, 10, 20]), maxbytes=200, skew=rng.choice([.5, .9, 1]))


def solo_random_case(rng, info, name):
    vs = []
    for _ in range(rng.choice([1, 2, 4, 8])):
        n = rng.choice([1, 2, 3, 5, 8, 12, 20])
        k = rng.randrange(4)
        if k == 0:
            v = [rng.choice([0, 1, 1, 2]) for _ in range(n)]
        elif k == 1:
            v = [1, 1, 2, 3, 5, 8, 13, 21, 34, 55][:n]
            rng.shuffle(v)
        elif k == 2:
            v = [int(rng.expovariate(.1)) for _ in range(n)]
        else:
            v = [rng.choice([0, 0, 0, 7]) for _ in range(n)]
        vs.append(v)
    return solo_freq_case(name, vs, rng)


FIX = ['44100hz_500ms_6ch_sine_waves.ogg', '44100hz_500ms_stereo_400hz_sine_wave_aotuv.ogg',
       '44100hz_500ms_stereo_400hz_sine_wave_skeleton.ogg', '44100hz_500ms_stereo_uncoupled_400hz_sine_wave.ogg',
       '8khz_500ms_mono_400hz_sine_wave.ogg', '8khz_500ms_mono_400hz_sine_wave_comments.ogg']


def fixture_case(rng, name, f, maxp=24):
    ps = fixture_packets(f)
    return dict(name=name, ops=two_pass(ps[:3 + maxp], rng.random() < .5), vendor=rng.choice(VENDORS), comments=rng.choice(COMMENTS))
