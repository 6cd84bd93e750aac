"""C03: what the JavaScript binding does, decided by Binding and by the machine of the remuxer."""
import itertools, re
from common import *
import ocases, ochecks
from ocases import *

CFG = '''INIT Init
NEXT Next
CONSTANTS Lo = %d Hi = %d Props = {%s}
INVARIANT Holds
ALIAS Short
'''
GEN = [('plain_case', 3), ('chained_case', 2), ('grouped_case', 1), ('other_case', 2), ('crc_case', 2), ('damage_case', 3), ('bad_vorbis_case', 1),
       ('trim_case', 1), ('offset_case', 1), ('rich_case', 2)]


def histories(rng, info, q):
    def file(fns):
        while True:
            fn = rng.choice([f for f, n in fns for _ in range(n)])
            c = getattr(ocases, fn)(random.Random(rng.getrandbits(64)), info, fn)
            if not c.get('opt', {}).get('start') and len(c['in']) < 60000:
                return c['in']
    good = [('plain_case', 1), ('chained_case', 1)]
    bad = [('grouped_case', 1), ('damage_case', 2), ('bad_vorbis_case', 1)]
    out = []
    # every short history of good and bad files, with files repeated or not
    for n in (1, 2, 3):
        for kinds in itertools.product('gbr', repeat=n):
            fs = []
            for k in kinds:
                fs.append(fs[-1] if k == 'r' and fs else b'' if k == 'r' else file(good if k == 'g' else bad))
            out.append(fs)
    out += [[file(GEN) for _ in range(rng.randint(1, 5))] for _ in range(120 if q else 3000)]
    return [(fs, {} if rng.random() < .15 else dict(SOURCE_DATE_EPOCH=rng.choice(ochecks.EPOCHS if rng.random() < .9 else ochecks.BAD_EPOCHS))) for fs in out]


def run(x, first):
    """an answer of the binding in the terms of Binding; without SOURCE_DATE_EPOCH only what is not random"""
    t = bytes.fromhex(x.get('text', '')).decode()
    return dict(r=x['r'], out=list(bytes.fromhex(x['out'])) if first else [], text=t)


def check(prop, tier, seed):
    q = tier == 'quick'
    res = ochecks.new_result()
    exe, lib = harness_js(), harness('rel')
    info = ask_all(lib, ['info'], jobs=1)[0]
    hs = histories(random.Random('%s/%s' % (prop, seed)), info, q)
    reqs = [('%s %s' % (kind, ','.join(f.hex() for f in fs)), e) for fs, e in hs for kind in ('js', 'lib')]
    ans = ask_fresh(exe, reqs)
    js, li = [[dict(r='panic', out='')] * len(fs) if 'crash' in a else a['runs'] for (fs, _), a in zip(hs, ans[0::2])], [a['runs'] for a in ans[1::2]]
    f = os.path.join(scratch(), 'cases.json')
    with open(f, 'w') as o:
        json.dump([dict(js=[run(x, e) for x in a], lib=[run(x, e) for x in b]) for (_, e), a, b in zip(hs, js, li)], o, separators=(',', ':'))
    r = tlc_cases('Binding', CFG, len(hs), '"C03"', f)
    os.unlink(f)
    res['states'] += r['distinct']
    res['transitions'] += r['states']
    res['traces'] += len(hs)
    if r['violated'] or r['deadlock']:
        m = re.search(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>', r['out'], re.S)
        k = r['unreadable'] if r['unreadable'] is not None else int(m.group(1)) - 1
        res['violation'] = dict(property=prop, why=' '.join(m.group(3).split()) if m else r['why'], request='0 ' + reqs[2 * k][0], env=reqs[2 * k][1],
                                answer=js[k], library=li[k])
        return res
    # and the machine of the remuxer, with the settings that are documented as the defaults
    cases, answers = [], []
    for (fs, e), a, b in zip(hs, js, li):
        for x, y, data in zip(a, b, fs):
            cases.append({'name': 'js', 'in': data, 'env': e, 'opt': dict(DOCUMENTED, start=0), 'explicit': 1})
            answers.append(dict(runs=[dict(r=x['r'], out=x['out'], dbg=bytes.fromhex(y.get('dbg', '')).decode())]))
    ochecks.run_cases(res, prop, {'O06', 'O07', 'O10'} | ochecks.USE, lib, cases, answers=answers)
    return res
