"""The O properties: what the remuxer does to Ogg files, decided by OggTrace."""
import multiprocessing
from common import *
import ocases
from ocases import *

USE = {'OK', 'OC', 'V12'}
PLAN = {
    'O01': ({'O01', 'O04', 'O09'} | USE, [('default_case', 40, 600), ('plain_case', 60, 1500), ('eos_case', 60, 1500), ('endless_case', 1, 4), ('long_chain_case', 1, 6), ('chained_case', 40, 900), ('many_case', 6, 60), ('big_header_case', 6, 60),
                            ('grouped_case', 30, 500), ('streams_scenario', 300, 3000), ('other_case', 20, 300), ('granule_case', 20, 500)]),
    'O02': ({'O02', 'O01', 'O04'} | USE, [('plain_case', 50, 1500), ('endless_case', 1, 4), ('long_case', 1, 12), ('many_case', 12, 120), ('big_header_case', 12, 90), ('chained_case', 20, 500),
                                   ('offset_case', 20, 500)]),
    'O03': ({'O03', 'O04', 'O05'} | USE, [('granules_scenario', 400, 12000), ('endless_case', 1, 4), ('granule_case', 150, 6000), ('plain_case', 50, 2000), ('many_case', 4, 60), ('chained_case', 30, 600),
                            ('big_header_case', 2, 30)]),
    'O04': ({'O04', 'O03', 'O05'} | USE, [('default_case', 40, 600), ('granules_scenario', 400, 12000), ('offset_case', 250, 9000), ('endless_case', 1, 4), ('early_case', 2, 10), ('granule_case', 40, 1000), ('many_case', 4, 60)]),
    'O05': ({'O05', 'O03', 'O04'} | USE, [('default_case', 40, 600), ('granules_scenario', 400, 12000), ('endless_case', 1, 4), ('trim_case', 250, 9000), ('offset_case', 40, 1000), ('granule_case', 40, 1000)]),
    'O07': ({'O07', 'O09'} | USE, [('default_case', 60, 900), ('streams_scenario', 400, 8000), ('eos_case', 40, 1000), ('other_case', 160, 5000), ('nearly_case', 200, 6000), ('grouped_case', 40, 900), ('chained_case', 20, 500)]),
    'O08': ({'O08', 'O06', 'O01', 'O03', 'O04', 'O05', 'O09'} | USE, [('streams_scenario', 400, 8000), ('chained_case', 150, 5000), ('eos_case', 80, 2000), ('long_chain_case', 2, 10)]),
    'O09': ({'O09', 'O08'} | USE, [('streams_scenario', 1200, 15000), ('grouped_case', 220, 6000), ('eos_case', 200, 5000), ('chained_case', 50, 1000)]),
    'O10': ({'O10', 'O11'} | USE, [('default_case', 40, 600), ('crc_case', 200, 5000), ('damage_case', 30, 500)]),
    'O13': ({'O13', 'O01', 'O02'} | USE, [('mangle_case', 200, 6000)]),
}
STATED = ' MixedStreams Chosen InOrder Positions AsWhole'
CFG = '''INIT Init
NEXT Next
VIEW View
CONSTANTS Lo = %d Hi = %d Props = {%s}
INVARIANTS Holds Note''' + STATED + '''
ALIAS Short
'''


def _gen(a):
    fn, info, seed, name = a
    return getattr(ocases, fn)(random.Random(seed), info, name)


def generate(plan, tier, seed, info):
    jobs, scs = [], []
    for fn, q, t in plan:
        n = q if tier == 'quick' else t
        if fn.endswith('_scenario'):
            # all scenarios of fewer pages, and n of the longer ones
            kind = fn[:-9]
            big = tier != 'quick'
            rng = random.Random('%s/%s' % (seed, fn))
            few = scenarios(kind, 3 + big if kind == 'streams' else 1 + big)
            more = scenarios(kind, 5 + big if kind == 'streams' else 3)
            done = {json.dumps(x) for x in few}
            more = [x for x in more if json.dumps(x) not in done]
            for k, x in enumerate(([x for x in few if x] if n > 0 else []) + rng.sample(more, min(n, len(more)))):
                scs.append((fn, x, '%s/%s/%d' % (seed, fn, k), '%s-%d' % (fn, k)))
            continue
        jobs += [(fn, info, '%s/%s/%d' % (seed, fn, k), '%s-%d' % (fn, k)) for k in range(n)]
    with multiprocessing.Pool(CORES) as pool:
        return pool.map(_gen, jobs + scs, chunksize=4)


def oracles(exe, cases):
    reqs, owner = [], []
    for k, c in enumerate(cases):
        for s, n, r in oracle_requests(c):
            reqs.append(r)
            owner.append((k, s, n))
    ans = ask_all(exe, reqs)
    out = [[] for _ in cases]
    for (k, s, n), a in zip(owner, ans):
        out[k].append(oracle_rec(s, n, a))
    return out


def judge(recs, props, batch=3000, weight=6_000_000):
    """-> (violation or None, stats, indices with a known finding)"""
    stats = dict(states=0, distinct=0)
    kf = set()
    lo = 0
    while lo < len(recs):
        f = os.path.join(scratch(), 'cases.json')
        n = 0
        parts, size = [], 0
        whole = recs[lo].get('whole', False)
        cfg = CFG.replace(STATED, '').replace('INIT Init', 'INIT InitWhole') if whole else CFG
        while lo + n < len(recs) and n < batch and size < weight and recs[lo + n].get('whole', False) == whole:
            parts.append(json.dumps(recs[lo + n], separators=(',', ':')))
            size += len(parts[-1])
            n += 1
        with open(f, 'w') as o:
            o.write('[' + ','.join(parts) + ']')
        r = tlc_cases('OggWhole', cfg, n, ', '.join('"%s"' % p for p in sorted(props)), f)
        if r['violated'] not in (None, 'Holds', 'Note', 'Readable'):
            # what the library itself says about packets can be so wrong that the machine is off: is there a violation?
            stated, r = r, tlc_cases('OggWhole', cfg.replace(STATED, ''), n, ', '.join('"%s"' % p for p in sorted(props)), f)
            if not r['violated'] and not r['deadlock']:
                raise ToolError('the machine is not as stated: %s\n%s' % (stated['violated'], stated['out'][-1500:]))
        os.unlink(f)
        stats['states'] += r['states']
        stats['distinct'] += r['distinct']
        for m in re.finditer(r'<<"KF", (\d+)>>', r['out']):
            kf.add(lo + int(m.group(1)) - 1)
        if r['unreadable'] is not None:
            return dict(case=lo + r['unreadable'], bad=r['why']), stats, kf
        if r['violated'] or r['deadlock']:
            m = re.search(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>', r['out'], re.S)
            if not m:
                m = re.search(r'/\\ c = (\d+)', r['out']) or re.search(r'c \|-> (\d+)', r['out'])
                if r['deadlock'] and m:
                    return dict(case=lo + int(m.group(1)) - 1, bad='the machine is stuck'), stats, kf
                raise ToolError('violation without a case:\n' + r['out'][-2000:])
            return dict(case=lo + int(m.group(1)) - 1, bad=' '.join(m.group(3).split())), stats, kf
        lo += n
    return None, stats, kf


def new_result():
    return dict(states=0, transitions=0, traces=0, samples=[], kf=[], kf_tags=[], violation=None, notes={})


def run_cases(res, prop, props, exe, cases, alts=None, answers=None, envs=None):
    """remux every case, judge all; alts: per case a list of (request, alt record without outcome)"""
    ans = answers or ask_all(exe, [remux_req(c, c['in'], c.get('extra', '')) for c in cases])
    orc = oracles(exe, cases)
    recs = [to_tla(c, a, o, (alts[k] if alts else [])) for k, (c, a, o) in enumerate(zip(cases, ans, orc))]
    v, st, kf = judge(recs, props)
    res['states'] += st['distinct']
    res['transitions'] += st['states']
    res['traces'] += len(cases) + sum(len(a) for a in alts or [])
    res['kf'] += [cases[k]['name'] for k in sorted(kf)]
    for k in (0, len(cases) // 2, len(cases) - 1):
        res['samples'].append(dict(case=cases[k]['name'], request=cut(remux_req(cases[k], cases[k]['in']), 700), answer=cut(json.dumps(ans[k]), 700)))
    if v:
        c = cases[v['case']]
        res['violation'] = dict(property=prop, why=v['bad'], case=c['name'], request='0 ' + remux_req(c, c['in'], c.get('extra', '')),
                                answer=ans[v['case']], alts=[dict(a, out=None) for a in recs[v['case']]['alts']])
    return ans


def remux_all(exe, cases):
    return ask_all(exe, [remux_req(c, c['in'], c.get('extra', '')) for c in cases])


def alt(tag, what, rel, a, k=0, n=(0, 0), want=''):
    return dict(tag=tag, what=what, rel=rel, n=list(n), want=want, **run_rec(a, k))


def start(tier, seed, prop, plan):
    res = new_result()
    exe = harness('rel')
    info = ask_all(exe, ['info'], jobs=1)[0]
    return res, exe, info, generate(plan, tier, '%s/%s' % (prop, seed), info)


def check(prop, tier, seed):
    if prop in SPECIAL:
        return SPECIAL[prop](prop, tier, seed)
    props, plan = PLAN[prop]
    res, exe, info, cases = start(tier, seed, prop, plan)
    cases += fixtures(random.Random(seed))
    run_cases(res, prop, props, exe, cases)
    if 'O04' in props and res['kf']:
        res['kf_tags'].append('O04-early-page')
    return res


EPOCHS = ['0', '1', '-1', '1700000000', '-86400', '99999999999', '2147483648', '9223372036854775807']
BAD_EPOCHS = ['', 'x', '1.5', '0x10', ' 1', '1 ', '-', '1_000', '1e3', '--1', '\n', '1700000000Z']


def check_o06(prop, tier, seed):
    n = 70 if tier == 'quick' else 2500
    res, exe, info, cases = start(tier, seed, prop, [('chained_case', n, n), ('plain_case', n // 2, n // 2), ('mangle_case', n // 2, n // 2),
                                                     ('rnd_case', n, n), ('long_chain_case', 2, 8)])
    rng = random.Random('o06/%s' % seed)
    reqs, meta, answers, alts = [], [], [None] * len(cases), [[] for _ in cases]
    for k, c in enumerate(cases):
        def add(what, env, rel=None, off=None, data=None, **kw):
            o = dict(c, opt=dict(c['opt'], **({} if off is None else dict(off=off))))
            reqs.append((remux_req(o, data if data is not None else c['in'], 'reps=%d' % kw.pop('reps', 1)), env))
            meta.append((k, what, rel, kw))
        if not c['opt']['rnd']:
            e = {} if rng.random() < .5 else dict(SOURCE_DATE_EPOCH=rng.choice(EPOCHS + BAD_EPOCHS))
            c['env'] = e
            add('base', e)
            add('another environment', dict(SOURCE_DATE_EPOCH=rng.choice(EPOCHS + BAD_EPOCHS)), 'same')
            continue
        kind = rng.randrange(4)
        e = {} if kind == 0 else dict(SOURCE_DATE_EPOCH=rng.choice(BAD_EPOCHS if kind == 1 else EPOCHS))
        c['env'] = e
        add('base', e)
        if kind == 1:
            add('again', e, 'same')
            continue
        if kind == 0:
            add('randomized again', e, 'serials')
            continue
        d = rng.choice([1, 2, 77, 0xFFFFFFFF, 0x80000000])
        add('same file, same SOURCE_DATE_EPOCH', e, 'same')
        add('offset of the first serial', e, 'shift', off=(c['opt']['off'] + d) % (1 << 32), n=limbs(d, 2))
        other = rng.choice([x for x in EPOCHS if x != e['SOURCE_DATE_EPOCH']])
        add('another SOURCE_DATE_EPOCH', dict(SOURCE_DATE_EPOCH=other), 'serials')
        add('another file', e, 'otherserials', data=b''.join(vstream(rng, rng.getrandbits(32), n=rng.randrange(3))))
    out = ask_fresh(exe, reqs)
    for (k, what, rel, kw), a in zip(meta, out):
        if rel is None:
            answers[k] = a
        else:
            alts[k].append(alt('O06', what, rel, a, **kw))
    run_cases(res, prop, {'O06', 'O08', 'O01'} | USE, exe, cases, alts, answers)
    return res if res['violation'] else without_epochs(res, prop, tier, seed, info)


def without_epochs(res, prop, tier, seed, info):
    """the library built without source-date-epoch: the variable means nothing"""
    n = 40 if tier == 'quick' else 1500
    exe = harness('bare')
    cases = generate([('chained_case', n // 4, n // 4), ('mangle_case', n // 4, n // 4), ('rnd_case', n, n)], tier, '%s/%s/bare' % (prop, seed), info)
    rng = random.Random('o06/bare/%s' % seed)
    reqs = []
    for c in cases:
        # of the same value, of another, and without
        e = dict(SOURCE_DATE_EPOCH=rng.choice(EPOCHS + BAD_EPOCHS))
        c.update(env=e, sdesup=False)
        for x in (e, rng.choice([e, {}, dict(SOURCE_DATE_EPOCH=rng.choice(EPOCHS + BAD_EPOCHS))])):
            reqs.append((remux_req(c, c['in']), x))
    out = ask_fresh(exe, reqs)
    alts = [[alt('O06', 'SOURCE_DATE_EPOCH ' + ('ignored, and serials randomized' if c['opt']['rnd'] else 'of no effect'),
                 'serials' if c['opt']['rnd'] else 'same', a)] for c, a in zip(cases, out[1::2])]
    run_cases(res, prop, {'O06', 'O08', 'O01'} | USE, exe, cases, alts, out[0::2])
    return res


def check_o11(prop, tier, seed):
    """sources that are not acceptable, and reads, seeks and writes that fail"""
    q = tier == 'quick'
    res, exe, info, cases = start(tier, seed, prop, [('damage_case', 250, 8000), ('bad_vorbis_case', 60, 2000), ('other_case', 20, 300), ('eos_case', 30, 800)])
    run_cases(res, prop, {'O11', 'O07', 'O09', 'O10'} | USE, exe, cases)
    if res['violation']:
        return res
    # faults at every read, seek and write position
    rng = random.Random('o11/%s' % seed)
    cases = generate([('plain_case', 6, 120), ('chained_case', 3, 60)], tier, 'o11f/%s' % seed, info)
    for c in cases:
        c['reader'] = rng.choice(['', '', 'c7', 'c64'])
    base = ask_all(exe, [remux_req(c, c['in'], 'reader=%s' % c['reader']) for c in cases])
    reqs, meta, alts = [], [], [[] for _ in cases]
    for k, (c, a) in enumerate(zip(cases, base)):
        if 'runs' not in a or a['runs'][0]['r'] != 'ok':
            continue
        r = a['runs'][0]
        n = len(r['out']) // 2

        def add(what, reader, writer, lim):
            reqs.append(remux_req(c, c['in'], 'reader=%s writer=%s' % (','.join(x for x in (c['reader'], reader) if x), writer)))
            meta.append((k, what, lim))
        lim = 300 if q else 3000
        rd = range(1, r['reads'] + 1)
        for j in rd if len(rd) <= lim else sorted(rng.sample(rd, lim)):
            add('read %d of %d fails' % (j, r['reads']), 'f%d' % j, '', 0 if j <= r['mark'] else n)
        for j in range(1, r['seeks'] + 1):
            add('seek %d fails' % j, 's%d' % j, '', 0)
        add('the position is unknown', 'p', '', 0)
        ws = range(n)
        for j in ws if len(ws) <= lim else sorted(rng.sample(ws, lim)):
            add('a write after %d bytes fails' % j, '', 'f%d' % j, j)
            if rng.random() < .2:
                add('no space after %d bytes' % j, '', 'z%d,c%d' % (j, rng.choice([1, 9, 500])), j)
    for (k, what, lim), a in zip(meta, ask_all(exe, reqs)):
        alts[k].append(alt('O11', what, 'fault', a, n=limbs(lim, 2)))
    run_cases(res, prop, {'O11'} | USE, exe, cases, alts, base)
    return res


def check_o12(prop, tier, seed):
    """position of the source, size of reads and writes, repetition and history do not matter"""
    res, exe, info, cases = start(tier, seed, prop, [('plain_case', 30, 1500), ('chained_case', 30, 1500), ('damage_case', 30, 1500),
                                                     ('big_header_case', 2, 60), ('grouped_case', 10, 300), ('mangle_case', 20, 600),
                                                     ('bad_vorbis_case', 10, 300), ('eos_case', 15, 500)])
    cases += fixtures(random.Random(seed))
    rng = random.Random('o12/%s' % seed)
    dbg = harness('dbg')
    answers = remux_all(exe, cases)
    alts = [[] for _ in cases]
    r1, m1, r2, m2 = [], [], [], []
    for k, c in enumerate(cases):
        io = []
        # some reader faults of this size reveal nothing new when the source is invalid
        for j in range(3):
            io.append('reader=c%d writer=%s' % (rng.choice([1, 2, 3, 26, 27, 28, 100, 255]), rng.choice(['c1', 'c3', 'c27', 'i1', 'i2', 'i3,c5', ''])))
        for x in io:
            r1.append(remux_req(c, c['in'], x))
            m1.append((k, 'with ' + x, 0))
        pre = rng.choice([b'\0', b'OggS', rand_bytes(rng, rng.randint(1, 99)), rng.choice(cases)['in'],
                          bytes(rng.choice([65535, 65536, 70000, 200000]))])
        st = c['opt'].get('start', 0)
        c2 = dict(c, opt=dict(c['opt'], start=len(pre) + st))
        r1.append(remux_req(c2, pre + c['in']))
        m1.append((k, 'from position %d' % len(pre), 0))
        o = rng.choice(cases)
        r1.append(remux_req(c, o['in'], 'reps=3').replace(' in=', ' in1=%s in2=%s in=' % (c['in'].hex(), c['in'].hex())))
        m1.append((k, 'after another file', 1))
        m1.append((k, 'after itself', 2))
        r1.append(None)
        r2.append(remux_req(c, c['in']))
        m2.append((k, 'in a developer build', 0))
    real = [r for r in r1 if r is not None]
    a1, it = [], iter(ask_all(exe, real))
    for r in r1:
        a1.append(next(it) if r is not None else a1[-1])
    for (k, what, run), a in zip(m1, a1):
        alts[k].append(alt('O12', what, 'same', a, run))
    for (k, what, run), a in zip(m2, ask_all(dbg, r2)):
        # a developer build is strict about recoverable faults: VorbisSetup decides those
        if a.get('runs', [{}])[0].get('r') == 'ok' and answers[k].get('runs', [{}])[0].get('r') == 'ok':
            alts[k].append(alt('O12', what, 'same', a, run))
    # at the same time as others, in threads
    few = [k for k in range(len(cases)) if len(cases[k]['in']) < 1 << 20]
    rng.shuffle(few)
    groups = [few[k:k + 4] for k in range(0, len(few), 4)]
    for g, a in zip(groups, ask_groups(exe, 'par', [[remux_req(cases[k], cases[k]['in']) for k in g] for g in groups])):
        for k, x in zip(g, a):
            alts[k].append(alt('O12', 'at the same time as others', 'same', x))
    run_cases(res, prop, {'O12'} | USE, exe, cases, alts, answers)
    return res


def check_o14(prop, tier, seed):
    """remuxing what was remuxed changes nothing"""
    res, exe, info, cases = start(tier, seed, prop, [('plain_case', 80, 4000), ('chained_case', 30, 1500), ('offset_case', 60, 2000),
                                                     ('trim_case', 40, 1500), ('granule_case', 40, 1500), ('big_header_case', 2, 40),
                                                     ('rich_case', 60, 2500), ('many_case', 3, 30)])
    cases += fixtures(random.Random(seed))
    answers = remux_all(exe, cases)
    idx = [k for k, a in enumerate(answers) if a.get('runs', [{}])[0].get('r') == 'ok']
    again = ask_all(exe, [remux_req(cases[k], bytes.fromhex(answers[k]['runs'][0]['out'])) for k in idx])
    alts = [[] for _ in cases]
    for k, a in zip(idx, again):
        alts[k].append(alt('O14', 'remuxed again', 'same', a))
    run_cases(res, prop, {'O14'} | USE, exe, cases, alts, answers)
    return res


SPECIAL = dict(O06=check_o06, O11=check_o11, O12=check_o12, O14=check_o14)
