"""The V properties: what the optimizer does to one Vorbis stream, decided by VorbisTrace."""
import json, multiprocessing, random, re
from common import *
import vcases, vb
from vcases import *

# property -> (tags of VorbisTrace that refute it, profiles, [(generator, quick, thorough)])
# A stream that is rejected, or makes the optimizer panic, is not losslessly optimized either.
USE = {'V09', 'V12'}
PLAN = {
    'V01': ({'V01', 'V02', 'V04', 'V07', 'V08'} | USE, ('dbg', 'rel'),
            [('clean_case', 110, 2500), ('mixed_case', 30, 600), ('large_case', 16, 400), ('setup_case', 0, 300), ('edges', 1, 3),
             ('corner', 1, 3), ('fixture', 1, 3), ('freq_random_case', 12, 200)]),
    'V02': ({'V02', 'V04'} | USE, ('dbg', 'rel'),
            [('setup_case', 150, 4000), ('clean_case', 20, 300), ('bad_setup_case', 40, 800), ('edges', 1, 4), ('large_case', 10, 200),
             ('corner', 1, 3), ('fixture', 1, 3)]),
    'V03': ({'V03', 'V02', 'V01', 'V04'} | USE, ('dbg', 'rel'),
            [('freq_random_case', 40, 900), ('solo_random_case', 50, 1500), ('clean_case', 20, 300), ('exhaustive_freq', 1, 1),
             ('corner', 1, 2), ('fixture', 1, 3), ('counted_cases', 1, 4), ('deepest', 1, 2), ('crowds', 1, 3), ('weighted_case', 40, 800)]),
    'V04': ({'V04', 'V02', 'V08'} | USE, ('dbg', 'rel'),
            [('clean_case', 50, 1200), ('mixed_case', 50, 1200), ('setup_case', 30, 500), ('bad_setup_case', 60, 3000), ('edges', 1, 3), ('large_case', 8, 200),
             ('corner', 1, 3), ('fixture', 1, 3)]),
    'V05': ({'V05'} | USE, ('dbg', 'rel'), [('ident_case', 300, 6000), ('ident_bytes', 1, 3), ('prefixes', 1, 3), ('fixture', 1, 1)]),
    'V06': ({'V06'} | USE, ('dbg', 'rel'), [('comment_case', 500, 12000), ('comment_bytes', 1, 3), ('comment_matrix', 1, 1), ('big_comments', 1, 1), ('prefixes', 1, 3), ('fixture', 1, 3)]),
    'V07': ({'V07', 'V11'} | USE, ('dbg', 'rel'), [('call_orders', 1, 1), ('dummy_case', 150, 4000), ('modes64_dummy', 20, 200), ('mixed_case', 40, 800), ('fixture', 1, 1)]),
    'V08': ({'V08', 'V07', 'V01', 'V04'} | USE, ('dbg', 'rel'), [('trunc_case', 90, 2500), ('mixed_case', 40, 1000), ('kf_case', 1, 1)]),
    'V09': ({'V09', 'V12'}, ('dbg', 'rel'),
            [('bad_setup_case', 200, 7000), ('prefixes', 1, 5), ('edges', 1, 4), ('bad_prelude_case', 200, 5000), ('bad_audio_case', 120, 3000), ('clean_case', 20, 300),
             ('corner', 1, 2), ('comment_case', 60, 1000), ('ident_case', 40, 500)]),
    'V10': ({'V10', 'V09', 'V12'}, ('dbg', 'rel'),
            [('bad_setup_case', 240, 7000), ('prefixes', 1, 5), ('edges', 1, 4), ('bad_prelude_case', 200, 5000), ('bad_audio_case', 120, 3000)]),
    'V11': ({'V11', 'V01', 'V02', 'V04', 'V07', 'V08'} | USE, ('dbg', 'rel'),
            [('clean_case', 60, 1500), ('mixed_case', 60, 1500), ('late_case', 60, 800), ('call_orders', 1, 1), ('dummy_case', 30, 500), ('fixture', 1, 2),
             ('large_case', 6, 100)]),
}


def _gen(a):
    fn, info, seed, name = a
    rng = random.Random(seed)
    c = getattr(vcases, fn)(rng, info, name)
    c.pop('st', None)
    c.pop('feats', None)
    return c


def generate(plan, tier, seed, info):
    jobs, out = [], []
    for fn, q, t in plan:
        n = q if tier == 'quick' else t
        if fn == 'corner':
            for k in range(n):
                s = '%s/corner/%d' % (seed, k)
                for name, f in corners(random.Random(s)):
                    if name == 'bigbook' and tier == 'quick':
                        continue
                    out.append(f(random.Random(s + name)))
        elif fn == 'fixture':
            for k in range(n):
                for f in FIX:
                    out.append(fixture_case(random.Random('%s/%d' % (seed, k)), f, f, 10 if tier == 'quick' else 40))
        elif fn == 'counted_cases':
            for k in range(n):
                out += counted_cases(random.Random('%s/counted/%d' % (seed, k)), tier)
        elif fn == 'deepest':
            for k in range(n if seed.endswith('rel') else 0):
                out += deepest(random.Random('%s/deepest/%d' % (seed, k)))
        elif fn == 'crowds':
            for k in range(n if seed.endswith('rel') or tier != 'quick' else 0):
                out += crowds(random.Random('%s/crowds/%d' % (seed, k)), tier)
        elif fn == 'prefixes':
            for k in range(n):
                out += prefixes(random.Random('%s/prefixes/%d' % (seed, k)))
        elif fn in ('ident_bytes', 'comment_bytes'):
            for k in range(n if seed.endswith('rel') or tier != 'quick' else 0):
                out += getattr(vcases, fn)(random.Random('%s/bytes/%d' % (seed, k)))
        elif fn == 'edges':
            for k in range(n):
                out += edges(random.Random('%s/edges/%d' % (seed, k)))
        elif fn == 'call_orders':
            out += call_orders(random.Random('%s/calls' % seed), tier)
        elif fn == 'exhaustive_freq':
            out += exhaustive_freq(random.Random('%s/ex' % seed), tier)
        elif fn == 'comment_matrix':
            out += comment_matrix(info)
        elif fn == 'big_comments':
            out += big_comments(random.Random('%s/big' % seed), tier, seed.endswith('rel'))
        elif fn == 'kf_case':
            out.append(kf_case())
        else:
            jobs += [(fn, info, '%s/%s/%d' % (seed, fn, i), '%s-%d' % (fn, i)) for i in range(n)]
    with multiprocessing.Pool(CORES) as pool:
        out += pool.map(_gen, jobs, chunksize=4)
    return out


def exhaustive_freq(rng, tier):
    """every frequency vector of up to 4 (5) entries with frequencies 0..3"""
    import itertools
    vs = []
    for n in range(1, 5 if tier == 'quick' else 6):
        vs += [list(v) for v in itertools.product(range(4 if n < 5 else 3), repeat=n)]
    rng.shuffle(vs)
    return [solo_freq_case('freq%d' % i, vs[i:i + 64], rng) for i in range(0, len(vs), 64)]


def comment_matrix(info):
    """every vendor action on vendors that are tagged, half tagged and untagged"""
    tag, short = info['tag'].encode(), info['short'].encode()
    out = []
    st = tiny_stream(random.Random(1), 0)
    for base in (b'', b'X', b'Lavf \xc3\xa9'):
        for v in (base, base + b'; ' + tag, base + b'; ' + short, base + tag, base + short, base + b';' + tag, base + b'; ' + tag + b'; ' + short,
                  base + b'; ' + short + b'; ' + tag):
            for a in VENDORS:
                for cm in COMMENTS:
                    out.append(dict(name='matrix', ops=two_pass([st['ident'], vb.comment_packet(v, [b'A=1', b'B=2']), st['setup']]),
                                    vendor=a, comments=cm))
    return out


def kf_case():
    """V08 known finding: a packet cut inside a codeword; the padding of what is left decodes as more"""
    S = tiny()
    lens = [4, 4, 4, 4, 4, 4, 4, 4, 1]
    S['books'] = [dict(dim=1, lens=lens, fmt='dense', lk=0)]
    S['floors'] = [dict(parts=[0], classes=[dict(dim=8, sub=0, master=0, books=[0])], mult=1, rb=6, xs=[3, 9, 11, 20, 25, 33, 40, 50])]
    w = vb.BitW()
    w.u(0, 1).u(1, 1).u(7, 8).u(9, 8)
    code = vb.codewords(lens)
    for e in (8, 8, 8, 8, 8):
        w.bits += code[e]
    w.bits += code[1][:3]
    assert len(w.bits) % 8 == 2 or True
    p = w.bytes()
    k = len(p)
    full = vb.BitW()
    full.u(0, 1).u(1, 1).u(7, 8).u(9, 8)
    for e in (8, 8, 8, 8, 0, 0, 0, 0):
        full.bits += code[e]
    return mk('known-finding', 1, (6, 6), S, [full.bytes(), full.bytes()[:3], full.bytes()[:4], full.bytes()[:5]], random.Random(1))


CFG = '''INIT Init
NEXT Next
VIEW View
CONSTANTS Lo = %d Hi = %d Props = {%s}
INVARIANTS Holds Note
ALIAS Short
'''


def trace_check(cases, answers, info, strict, props, batch=4000):
    """-> (first violation or None, stats, indices of cases with a known finding)"""
    stats = dict(states=0, distinct=0)
    kf = set()
    big = [k for k, c in enumerate(cases) if 'alone' in c]
    cuts = sorted({*range(0, len(cases), batch), *big, *(k + 1 for k in big), len(cases)})
    for lo, hi in zip(cuts, cuts[1:]):
        cs, an = cases[lo:hi], answers[lo:hi]
        f = os.path.join(scratch(), 'cases.json')
        with open(f, 'w') as o:
            json.dump([to_tla(c, a, info, strict) for c, a in zip(cs, an)], o, separators=(',', ':'))
        r = tlc_cases('VorbisTrace', CFG, len(cs), ', '.join('"%s"' % p for p in sorted(props)), f)
        os.unlink(f)
        stats['states'] += r['states']
        stats['distinct'] += r['distinct']
        for m in re.finditer(r'<<"KF", (\d+)>>', r['out']):
            kf.add(lo + int(m.group(1)) - 1)
        if r['unreadable'] is not None:
            return dict(case=lo + r['unreadable'], op=-1, bad=r['why']), stats, kf
        if r['violated'] or r['deadlock']:
            m = re.search(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>', r['out'], re.S)
            if not m:
                if r['deadlock']:
                    m = re.search(r'/\\ c = (\d+)', r['out'])
                    return dict(case=lo + int(m.group(1)) - 1, op=-1, bad='the recorded calls are not a behaviour'), stats, kf
                raise ToolError('violation without a case:\n' + r['out'][-2000:])
            return dict(case=lo + int(m.group(1)) - 1, op=int(m.group(2)) - 1, bad=' '.join(m.group(3).split())), stats, kf
    return None, stats, kf


def check(prop, tier, seed):
    props, profiles, plan = PLAN[prop]
    res = dict(states=0, transitions=0, traces=0, samples=[], calls=0, kf=[], violation=None, notes={})
    for prof in profiles:
        exe = harness(prof)
        info = ask_all(exe, ['info'], jobs=1)[0]
        if 'tag' not in info:
            raise ToolError('harness does not start: %r' % info)
        cases = generate(plan, tier, '%s/%s/%s' % (prop, seed, prof), info)
        ans = ask_all(exe, [request(c) for c in cases])
        line = [request(c) for c in cases]
        if prop == 'V11':
            # the same calls once more, while other optimizers live
            rng = random.Random('%s/%s/together' % (seed, prof))
            alone = range(len(cases))
            for how in ('mix', 'par'):
                some = rng.sample(alone, min(len(alone), 200 if tier == 'quick' else 4000))
                groups = [some[k:k + 4] for k in range(0, len(some), 4)]
                for g, a in zip(groups, ask_groups(exe, how, [[line[k] for k in g] for g in groups])):
                    req = how + ''.join('\x1e' + line[k] for k in g)
                    cases += [dict(cases[k], name='%s/%s' % (cases[k]['name'], how)) for k in g]
                    line += [req] * len(g)
                    ans += a
        v, st, kf = trace_check(cases, ans, info, prof == 'dbg', props)
        res['states'] += st['distinct']
        res['transitions'] += st['states']
        res['traces'] += len(cases)
        res['calls'] += sum(len(a.get('ops', [])) for a in ans)
        for i in (0, len(cases) // 2, len(cases) - 1):
            res['samples'].append(dict(profile=prof, case=cases[i]['name'], request=cut(line[i], 600),
                                       answer=cut(json.dumps(ans[i]), 600)))
        res['kf'] += [cases[i]['name'] for i in sorted(kf)]
        if v:
            c = cases[v['case']]
            res['violation'] = dict(property=prop, profile=prof, why=v['bad'], op=v['op'], case=c['name'],
                                    request='0 ' + line[v['case']], answer=ans[v['case']])
            return res
    res['notes']['calls_into_the_implementation'] = res['calls']
    return res
