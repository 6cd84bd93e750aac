"""V12: no input makes the library panic. Recorded outcomes are behaviours of Session."""
import multiprocessing
from common import *
import ochecks, ocases, ogg, vb, vcases, vchecks

CFG = '''INIT Init
NEXT Next
CONSTANTS Lo = 1 Hi = %d
ALIAS Short
'''
VGEN = ['clean_case', 'mixed_case', 'trunc_case', 'dummy_case', 'bad_setup_case', 'bad_prelude_case', 'bad_audio_case', 'ident_case',
        'comment_case', 'setup_case', 'freq_random_case']
OGEN = ['plain_case', 'granule_case', 'offset_case', 'trim_case', 'chained_case', 'grouped_case', 'other_case', 'crc_case', 'damage_case',
        'mangle_case', 'bad_vorbis_case', 'rich_case']


def mutate(rng, b, k=None):
    b = bytearray(b)
    for _ in range(k or rng.choice([1, 1, 1, 2, 3, 6])):
        if not b:
            b += bytes([rng.randrange(256)])
        j = rng.randrange(len(b))
        m = rng.randrange(7)
        if m < 2:
            b[j] ^= 1 << rng.randrange(8)
        elif m == 2:
            b[j] = rng.choice([0, 1, 127, 128, 254, 255])
        elif m == 3:
            b[j] = rng.randrange(256)
        elif m == 4:
            del b[j:j + rng.choice([1, 1, 2, 10])]
        elif m == 5:
            b[j:j] = bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(rng.choice([1, 1, 4])))
        else:
            n = rng.randrange(1, 12)
            i = rng.randrange(len(b))
            b[j:j + n] = b[i:i + n]
    return bytes(b)


def mutated_vorbis(rng, info, name):
    c = getattr(vcases, rng.choice(['clean_case', 'mixed_case', 'setup_case', 'dummy_case']))(rng, info, name) if rng.random() < .8 else \
        vcases.fixture_case(rng, name, rng.choice(vcases.FIX), 8)
    ps = [p for k, p in c['ops'] if k in 'NA']
    j = rng.choice([0, 1, 2, 2, 2, 2, rng.randrange(len(ps)), rng.randrange(len(ps))])
    if j < len(ps):
        h = 7 if j < 3 else 0
        ps[j] = ps[j][:h] + mutate(rng, ps[j][h:])
    if len(ps) > 2 and vb.max_count(ps[2]) > 1 << 19:  # memory for eight of them at a time; see big_books
        ps[2] = ps[2][:40]
    return dict(c, ops=vcases.two_pass(ps, rng.random() < .5))


def mutated_file(rng, info, name):
    if rng.random() < .7:
        c = getattr(ocases, rng.choice(OGEN))(rng, info, name)
    else:
        fs = [f for f in sorted(os.listdir(RES)) if f.endswith('.ogg') and os.path.getsize(RES + '/' + f) < 30000]
        c = ocases.fixture_case(rng, rng.choice(fs), name)
    d = c['in']
    k = rng.randrange(3)
    if k == 0:      # anything, checksums not verified
        d = mutate(rng, d)
        c['opt']['crc'] = 0
    else:           # bodies or headers of pages, with right checksums
        ps = ogg.parse(d)[0]
        for _ in range(rng.choice([1, 2])):
            if ps:
                p = rng.choice(ps)
                p['body'] = mutate(rng, p['body'])
                if len(p['body']) != sum(p['segs']):
                    p['segs'] = (ogg.lacing(len(p['body'])))[:255]
                    p['body'] = p['body'][:sum(p['segs'])]
                if rng.random() < .2:
                    p['flags'] = rng.randrange(8)
                if rng.random() < .2:
                    p['granule'] = rng.choice([0, -1, (1 << 63) - 1, -(1 << 63), rng.getrandbits(62)])
        d = b''.join(ogg.page(p['serial'], p['seq'], p['granule'], p['segs'], p['body'], p['flags']) for p in ps)
    return dict(c, **{'in': d})


def bit_case(rng, info, name):
    n = rng.randrange(12)
    if rng.random() < .5:
        ops = []
        for _ in range(rng.randrange(1, 20)):
            k = rng.choice('ussugfu')
            ops.append(k + (str(rng.randrange(33)) if k in 'us' else ''))
        return 'bitread chunk=%d in=%s ops=%s' % (rng.choice([1, 2, 100]), vcases.rand_bytes(rng, n).hex(), ','.join(ops))
    ops = []
    for _ in range(rng.randrange(1, 20)):
        k = rng.choice('ussugfzy')
        if k == 'u':
            ops.append('u%d=%d' % (rng.randrange(33), rng.choice([0, 1, 0xFFFFFFFF, rng.getrandbits(32), rng.getrandbits(7)])))
        elif k == 's':
            ops.append('s%d=%d' % (rng.randrange(33), rng.choice([0, -1, 1, -(1 << 31), (1 << 31) - 1, rng.getrandbits(32) - (1 << 31)])))
        elif k == 'g':
            ops.append('g=%d' % rng.randrange(2))
        elif k == 'f':
            ops.append('f=%016x' % rng.choice([0, 1 << 63, 0x7ff0000000000000, 0x7ff8000000000000, 1, rng.getrandbits(64), rng.getrandbits(64)]))
        else:
            ops.append(k)
    return 'bitwrite writer=%s ops=%s' % (rng.choice(['', 'f0', 'f2', 'z1', 'c1', 'i2']), ','.join(ops))


def big_books(tier):
    """a few bytes that make books of up to 2^24 - 1 entries"""
    for name, lens in [('incomplete', [24] * ((1 << 24) - 1)), ('complete', [23] * (1 << 23)), ('long', [32] * (1 << 22)),
                       ('ladder', list(range(1, 11)) + [30] * (1 << 19) + [32] * (1 << 20)), ('overfull', [20] * ((1 << 20) + 1))]:
        rng = random.Random(name)
        S = vcases.tiny()
        S['books'] += [dict(dim=1, lens=lens, fmt='ordered', lk=0)]
        c = vcases.mk(name, 1, (6, 6), S, [b'\0'], rng)
        yield vcases.request(c)


def _req(a):
    fn, info, seed, name = a
    rng = random.Random(seed)
    if fn == 'bit_case':
        return bit_case(rng, info, name)
    if fn in ('mutated_vorbis',) or fn in VGEN + ['large_case']:
        return vcases.request((globals().get(fn) or getattr(vcases, fn))(rng, info, name))
    c = (globals().get(fn) or getattr(ocases, fn))(rng, info, name)
    return ocases.remux_req(c, c['in'], c.get('extra', ''))


import random
NAMES = dict(N='new', A='analyze', O='optimize', o='optimize')


def session(req, a):
    kind = req.split(' ', 1)[0]
    ev = []
    if kind == 'vorbis' and 'ops' in a:
        ks = [x[0] for x in req[req.index('ops=') + 4:].split(';')]
        for k, x in zip(ks, a['ops']):
            o = {'pkt': 'packet', 'none': 'dropped'}.get(x['r'], x['r'])
            if k == 'A' and o == 'ok' and x.get('bs', -1) == -1:
                o = 'ok, no audio'
            ev.append([NAMES[k], o])
    elif kind == 'remux' and 'runs' in a:
        ev = [['remux', x['r']] for x in a['runs']]
    elif 'vals' in a:
        ev = [[kind[3:], 'panic' if v == '!panic' else 'err' if v.startswith('!') else 'value'] for v in a['vals']]
        # nothing is promised about a bit writer whose sink failed
        k = next((k for k, e in enumerate(ev) if e[1] != 'value'), len(ev))
        if kind == 'bitwrite':
            ev = ev[:k + 1]
    return dict(ev=ev, end='answered' if 'crash' not in a else a['crash'])


def check(prop, tier, seed):
    q = tier == 'quick'
    res = ochecks.new_result()
    res['notes']['outcomes'] = {}
    for prof in ('dbg', 'rel'):
        exe = harness(prof)
        info = ask_all(exe, ['info'], jobs=1)[0]
        jobs = []
        for fn, n in [(f, 60 if q else 1500) for f in VGEN + OGEN] + [('large_case', 8 if q else 400), ('mutated_vorbis', 5000 if q else 150000), ('mutated_file', 5000 if q else 150000),
                                                                     ('bit_case', 3000 if q else 60000)]:
            jobs += [(fn, info, 'v12/%s/%s/%s/%d' % (seed, prof, fn, k), '%s-%d' % (fn, k)) for k in range(n)]
        for lo in range(0, len(jobs), 40000):
            with multiprocessing.Pool(CORES) as pool:
                reqs = pool.map(_req, jobs[lo:lo + 40000], chunksize=16)
            ans = ask_all(exe, reqs)
            # what took long gets a second chance, with time
            for k in [k for k, a in enumerate(ans) if a.get('crash') == 'hang']:
                ans[k] = ask_all(exe, [reqs[k]], timeout=250, jobs=1)[0]
                if ans[k].get('crash') == 'hang':
                    break
            if lo == 0:
                listed = []
                for k in range(1 if q else 6):
                    r = random.Random('v12/%s/%s/listed/%d' % (seed, prof, k))
                    listed += vcases.edges(r) + vcases.prefixes(r) + vcases.ident_bytes(r) + vcases.comment_bytes(r)
                listed = [vcases.request(c) for c in listed]
                reqs += listed
                ans += ask_all(exe, listed, timeout=100)
                big = list(big_books(tier))
                reqs += big
                ans += ask_all(exe, big, timeout=150, jobs=2)
            recs = [session(r, a) for r, a in zip(reqs, ans)]
            for r in recs:
                for call, o in r['ev']:
                    key = call + ': ' + o
                    res['notes']['outcomes'][key] = res['notes']['outcomes'].get(key, 0) + 1
            f = os.path.join(scratch(), 'cases.json')
            with open(f, 'w') as o:
                json.dump(recs, o, separators=(',', ':'))
            r = tlc('Session', CFG % len(recs), env={'CASES': f}, timeout=3000, heap='12g')
            os.unlink(f)
            res['states'] += r['distinct']
            res['transitions'] += r['states']
            res['traces'] += len(recs)
            for k in (0, len(recs) // 2, len(recs) - 1):
                res['samples'].append(dict(profile=prof, request=cut(reqs[k], 300), outcome=recs[k]))
            if r['deadlock']:
                m = re.findall(r'/\\ c = (\d+)', r['out']) or re.findall(r'c \|-> (\d+)', r['out'])
                k = int(m[-1]) - 1
                res['violation'] = dict(property=prop, profile=prof, why='not a behaviour of Session: %s %s' % (recs[k], cut(json.dumps(ans[k]), 300)),
                                        request='0 ' + reqs[k], answer=ans[k])
                return res
    return res
