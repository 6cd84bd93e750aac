"""The B properties: the bit-packing crate (with and without std), decided by Bitpack."""
import random
from common import *
from ochecks import new_result

M32 = 0xFFFFFFFF
# a value that cannot be read or written at all is not laid out, reported or represented either
TAGS = {'B01': '"B01", "B02"', 'B02': '"B01", "B02"', 'B03': '"B01", "B02", "B03"'}
EDGE = [0, 1, M32, 0x80000000, 0x7FFFFFFF, 0x55555555, 0xAAAAAAAA, 0x00FF00FF]


def limbs(v, n):
    return [(v >> (16 * k)) & 0xFFFF for k in range(n)]


def val(rng):
    return rng.choice(EDGE) if rng.random() < .4 else rng.getrandbits(32)


def wop(rng, k, w):
    v = val(rng)
    if k == 'u':
        return 'u%d=%d' % (w, v)
    if k == 's':
        return 's%d=%d' % (w, v - (1 << 32) if v >> 31 else v)
    if k == 'g':
        return 'g=%d' % (v & 1)
    if k == 'f':
        return 'f=%016x' % double(rng)
    return k


def double(rng):
    """a double, often at the edges of what float32 holds"""
    e = rng.choice([rng.randint(225, 262), rng.randint(1270, 1285), rng.randint(900, 1100), rng.randint(1, 2046), 255, 234, 233, 235, 1278, 1279])
    k = rng.randrange(6)
    top = rng.getrandbits(20)
    if k == 0:
        m = top << 32
    elif k == 1:
        m = (top << 32) | (1 << 31)                 # a tie
    elif k == 2:
        m = (top << 32) | ((1 << 31) + rng.choice([-1, 1]))
    elif k == 3:
        m = (0xFFFFF << 32) | rng.choice([0, 1 << 31, (1 << 31) - 1, 0xFFFFFFFF])
    elif k == 4:
        m = rng.choice([0, 1, (1 << 52) - 1, 1 << 51, 1 << 32, 1 << 33])
    else:
        m = rng.getrandbits(52)
    if rng.random() < .03:
        e, m = rng.choice([(0, 0), (0, 0), (2047, 0), (2047, 1 << 51), (0, 1), (0, (1 << 52) - 1)])
    return rng.randrange(2) << 63 | e << 52 | m


def write_case(ops, limit=None, sink=''):
    w = ([('f%d' if sink != 'z' else 'z%d') % limit] if limit is not None else []) + ([sink] if sink not in ('', 'z') else [])
    return dict(kind='write', ops=ops, limit=10000 if limit is None else limit, writer=','.join(w))


def read_case(data, ops, chunk=1000):
    return dict(kind='read', ops=ops, data=data, chunk=chunk)


def cases(prop, tier, rng):
    q = tier == 'quick'
    out = []

    def rops(n):
        r = []
        for _ in range(n):
            k = rng.choice('uuussgf')
            r.append(k + (str(rng.choice([0, 1, 7, 8, 9, 16, 24, 31, 32, rng.randrange(33)])) if k in 'us' else ''))
        return r

    def wops(n, fin=.1):
        r = []
        for _ in range(n):
            k = 'z' if rng.random() < fin else rng.choice('uuuussgfy')
            r.append(wop(rng, k, rng.choice([0, 1, 7, 8, 9, 16, 24, 31, 32, rng.randrange(33)])))
        return r
    if prop == 'B01':
        # all pairs (triples) of widths: every bit offset meets every width
        for a in range(33):
            for b in range(33):
                out.append(write_case([wop(rng, rng.choice('us'), a), wop(rng, rng.choice('us'), b), wop(rng, 'u', rng.randrange(33))]))
                out.append(read_case(rng.randbytes(13), ['%s%d' % (rng.choice('us'), w) for w in (a, b, rng.randrange(33))]))
                if not q:
                    for d in range(33):
                        out.append(write_case([wop(rng, rng.choice('us'), w) for w in (a, b, d)]))
                        out.append(read_case(rng.randbytes(13), ['%s%d' % (rng.choice('us'), w) for w in (a, b, d)]))
        for _ in range(600 if q else 20000):
            out.append(write_case(wops(rng.randint(1, 30)), sink=rng.choice(['', 'c1', 'c3'])))
            out.append(read_case(rng.choice([rng.randbytes, lambda n: b'\xff' * n])(rng.randint(0, 60)), rops(rng.randint(1, 30)), rng.choice([1, 2, 1000])))
    elif prop == 'B02':
        # every amount of data, every bit offset, every width
        for n in range(6):
            for off in range(0, 8 * n + 1) if n < 2 or not q else sorted(rng.sample(range(8 * n + 1), 6)):
                for w in range(33):
                    pre = ['u%d' % min(32, off)] + (['u%d' % (off - 32)] if off > 32 else [])
                    out.append(read_case(rng.randbytes(n), pre + [rng.choice('us') + str(w)], rng.choice([1, 1000])))
        for n in range(6):
            out.append(read_case(rng.randbytes(n), ['g'] * (8 * n + 1)))
            out.append(read_case(rng.randbytes(n), ['u0', 'f']))
            out.append(read_case(rng.randbytes(n), ['s0', 'u8'] * n + ['u0', 's0', 'g']))
        for _ in range(600 if q else 30000):
            ops = wops(rng.randint(1, 12), .15) + (['z'] if rng.random() < .7 else [])
            out.append(write_case(ops, rng.randint(0, 30), rng.choice(['', 'z', 'c1'])))
        for _ in range(300 if q else 20000):
            out.append(read_case(rng.randbytes(rng.randint(0, 12)), rops(30), rng.choice([1, 2, 1000])))
    else:
        words = [(s << 31) | (e << 21) | m for s in (0, 1) for e in list(range(0, 1024, 1 if not q else 31)) + [767, 768, 769, 787, 788, 789, 1023]
                 for m in (0, 1, 2, 3, 0x155555, 0x1FFFFF, 0x100000, 0x0FFFFF)]
        words += [rng.getrandbits(32) for _ in range(4000 if q else 200000)]
        for lo in range(0, len(words), 8):
            w = words[lo:lo + 8]
            out.append(read_case(b''.join(x.to_bytes(4, 'little') for x in w), ['f'] * len(w)))
        for _ in range(1200 if q else 60000):
            out.append(write_case(wops(rng.choice([0, 1]), 0) + ['f=%016x' % double(rng) for _ in range(8)]))
        # values that float32 holds exactly
        for _ in range(300 if q else 20000):
            ops = []
            for _ in range(8):
                m, e, s = rng.getrandbits(rng.choice([1, 5, 20, 21])), rng.randrange(1024), rng.randrange(2)
                b = 0
                if m:
                    k = m.bit_length() - 1
                    b = (1023 + e - 788 + k) << 52 | (m - (1 << k)) << (52 - k)
                ops.append('f=%016x' % (s << 63 | b))
            out.append(write_case(ops))
    return out


def request(c):
    if c['kind'] == 'read':
        return 'bitread chunk=%d in=%s ops=%s' % (c['chunk'], c['data'].hex(), ','.join(c['ops']))
    return 'bitwrite writer=%s ops=%s' % (c['writer'], ','.join(c['ops']))


def to_tla(c, a):
    vals = a.get('vals', ['!panic'])
    ops = []
    for o, r in zip(c['ops'], vals):
        k = o[0]
        d = dict(k=k, r='ok' if not r.startswith('!') else r[1:], w=0, v=[])
        if c['kind'] == 'write':
            name, _, v = o.partition('=')
            if k in 'us':
                d.update(w=int(name[1:]), v=limbs(int(v) & M32, 2))
            elif k == 'g':
                d.update(w=1, v=limbs(int(v), 2))
            elif k == 'f':
                d.update(v=limbs(int(v, 16), 4))
        else:
            if k in 'us':
                d['w'] = int(o[1:])
            if d['r'] == 'ok':
                d['v'] = limbs(int(r, 16), 4) if k == 'f' else limbs(int(r) & M32, 2)
        ops.append(d)
        if c['kind'] == 'write' and d['r'] != 'ok':
            break
    if c['kind'] == 'write':
        return dict(kind='write', ops=ops, limit=c['limit'], out=list(bytes.fromhex(a.get('out', ''))))
    return dict(kind='read', ops=ops, left=a.get('left', 0), **{'in': list(c['data'])})


CFG = '''INIT Init
NEXT Next
VIEW View
CONSTANTS Lo = %d Hi = %d Props = {%s}
INVARIANT Holds
ALIAS Short
'''


def check(prop, tier, seed):
    res = new_result()
    for prof in ('dbg', 'rel', 'ns'):
        exe = harness_ns() if prof == 'ns' else harness(prof)
        cs = cases(prop, tier, random.Random('%s/%s/%s' % (prop, seed, prof)))
        ans = ask_all(exe, [request(c) for c in cs])
        for lo in range(0, len(cs), 20000):
            part = cs[lo:lo + 20000]
            f = os.path.join(scratch(), 'cases.json')
            with open(f, 'w') as o:
                json.dump([to_tla(c, a) for c, a in zip(part, ans[lo:])], o, separators=(',', ':'))
            r = tlc_cases('Bitpack', CFG, len(part), TAGS[prop], f)
            os.unlink(f)
            res['states'] += r['distinct']
            res['transitions'] += r['states']
            res['traces'] += len(part)
            if r['violated'] or r['deadlock']:
                m = re.search(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>', r['out'], re.S)
                k = lo + (r['unreadable'] + 1 if r['unreadable'] is not None else int((m or re.search(r'c \|-> (\d+)', r['out']) or re.search(r'/\\ c = (\d+)', r['out'])).group(1))) - 1
                res['violation'] = dict(property=prop, profile=prof, why=' '.join(m.group(3).split()) if m else r.get('why', 'not a behaviour'),
                                        request='0 ' + request(cs[k]), answer=ans[k])
                return res
        for k in (0, len(cs) // 2, len(cs) - 1):
            res['samples'].append(dict(profile=prof, request=cut(request(cs[k]), 400), answer=cut(json.dumps(ans[k]), 400)))
    return res
