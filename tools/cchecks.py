"""The C properties: the command line program, decided by Cli."""
import shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from common import *
import ocases
from ocases import *

ROPTS = dict(randomize_stream_serials='rnd', first_stream_serial_offset='off', ignore_start_sample_offset='ign',
             error_on_no_vorbis_streams='errno', verify_ogg_page_checksums='crc')
ACTIONS = dict(vendor_string_action=vcases.VENDORS, comment_fields_action=['copy', 'delete'])
DEFAULT = dict(rnd=True, off='0', ign=False, errno=True, crc=True, vendor='appendTag', comments='copy')
TAG = 'OptiVorbis v'


def cli():
    if 'cli' not in common_built:
        t = BUILD + '/cli'
        e = cargo_env()
        e.update(CARGO_PROFILE_RELEASE_LTO='off', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='16', CARGO_TARGET_DIR=t)
        sh(['cargo', 'build', '--offline', '--quiet', '--release', '--manifest-path', REPO + '/Cargo.toml', '-p', 'optivorbis_cli'],
           cwd='/', env=e)
        common_built['cli'] = t + '/release/optivorbis'
    return common_built['cli']


common_built = {}


def sources(rng, info, n):
    """(kind, bytes)"""
    out = []
    for k in range(n):
        kind = rng.choice(['offset', 'offset', 'trim', 'chained', 'crc', 'other', 'garbage', 'empty', 'damaged', 'plain', 'plain', 'big'])
        f = dict(offset=ocases.offset_case, trim=ocases.trim_case, chained=ocases.chained_case, plain=ocases.plain_case,
                 other=ocases.other_case, damaged=ocases.damage_case, big=ocases.big_header_case).get(kind)
        if kind == 'crc':
            d = bytearray(ocases.offset_case(rng, info, 'x')['in'])
            ps, _ = ogg.parse(bytes(d))
            d[rng.choice(ps)['off'] + 22] ^= 1
            d = bytes(d)
        elif kind == 'garbage':
            d = rand_bytes(rng, rng.randrange(1, 200))
        elif kind == 'empty':
            d = b''
        else:
            d = f(rng, info, 'x')['in']
        out.append((kind, d))
    small = [f for f in sorted(os.listdir(RES)) if f.endswith('.ogg') and os.path.getsize(RES + '/' + f) < 60000]
    for f in small:
        out.append((f, open(RES + '/' + f, 'rb').read()))
    return out


def random_args(rng):
    """-> argv without files, settings"""
    st = dict(DEFAULT)
    parts = []        # token lists
    quiet = False

    def valued(name, v):
        if rng.random() < .5:
            parts.append(['--%s=%s' % (name, v)])
        else:
            parts.append(['--' + name, v])
    for name, key in ROPTS.items():
        if rng.random() < .45:
            if key == 'off':
                v = rng.choice(['0', '1', '7', '4294967295', '4294967294', '2147483648', '000', '0012', '00000000004294967295', '65536'])
                st[key] = v.lstrip('0') or '0'
            else:
                b = rng.random() < .5
                v = 'true' if b else 'false'
                st[key] = b
            valued('remuxer_option', '%s=%s' % (name, v))
            if rng.random() < .15:      # given again: one of them counts
                valued('remuxer_option', '%s=%s' % (name, rng.choice(['1', '3', '77'] if key == 'off' else ['true', 'false', 'false', 'x'])))
    while rng.random() < .25:           # options that no remuxer has
        name = rng.choice(list(ROPTS))
        name = rng.choice([name[:rng.randrange(len(name))], name + '_', 'x' + name, name.upper(), ' ' + name, name + ' ', name.split('_')[0],
                           name.replace('_', '-')])
        valued('remuxer_option', name + rng.choice(['=false', '=true', '=5', '', '=', '==', '=x']))
    if rng.random() < .1:
        valued('remuxer_option', rng.choice(list(ROPTS)))
    for name, vals in ACTIONS.items():
        if rng.random() < .5:
            v = rng.choice(vals)
            st['vendor' if name[0] == 'v' else 'comments'] = v
            valued(name, v)
    if rng.random() < .3:
        quiet = True
        parts.append([rng.choice(['-q', '--quiet'])])
    for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
        parts.append([rng.choice(['-v', '--verbose', '-vv', '-vvv'])])
    return parts, st, quiet


def remuxer_arg(rng):
    return rng.choice([['-r', 'ogg2ogg'], ['-rogg2ogg'], ['--remuxer=ogg2ogg'], ['--remuxer', 'ogg2ogg'], ['-vr', 'ogg2ogg'], ['-vvrogg2ogg']])


def spoil(rng, parts):
    """one bad argument, or a request for help"""
    k = rng.randrange(16)
    bad = None
    if k == 0:
        bad = [rng.choice(['--nope', '-z', '--remuxer_options=x=1', '--Quiet', '-vz', '--vendor', '--remux=ogg2ogg', '--verify_ogg_page_checksums=false'])]
    elif k == 1:
        bad = [rng.choice(['--quiet=yes', '--verbose=1', '--help=1', '--version='])]
    elif k == 2:
        bad = [rng.choice(['--help', '-h', '-vh', '-qh'])]
    elif k == 3:
        bad = ['--version']
    elif k == 4:
        bad = ['--vendor_string_action=' + rng.choice(['', 'Copy', 'appendtag', 'delete', 'none', 'copy ', 'appendTagX'])]
        parts[:] = [p for p in parts if not p[0].startswith('--vendor')]
    elif k == 5:
        bad = ['--comment_fields_action=' + rng.choice(['', 'Delete', 'empty', 'keep', 'delete,copy'])]
        parts[:] = [p for p in parts if not p[0].startswith('--comment')]
    elif k in (6, 7, 8):
        name = rng.choice([n for n, key in ROPTS.items() if key != 'off'])
        parts[:] = [p for p in parts if not any(name in t for t in p)]
        bad = ['--remuxer_option', name + '=' + rng.choice(['', '1', '0', 'yes', 'True', 'FALSE', 'true ', ' false', 'truefalse', 'no'])]
    elif k in (9, 10):
        name = 'first_stream_serial_offset'
        parts[:] = [p for p in parts if not any(name in t for t in p)]
        bad = ['--remuxer_option', name + '=' + rng.choice(['', '-1', '4294967296', '99999999999999999999', '1.0', '0x10', ' 1', '1 ', 'one', '1_0',
                                                          '5=6', '4294967300', '10000000000'])]
    elif k == 11:
        one = rng.choice([['-q'], ['--quiet'], ['-r', 'ogg2ogg'], ['--vendor_string_action', 'copy'], ['--comment_fields_action=copy'], ['-h'], ['--version']])
        bad = one
        parts.append(list(one))
        rng.shuffle(parts)
    elif k == 12:
        parts[:] = [p for p in parts if 'r' not in p[0][:4]]
        bad = rng.choice([['-rogg'], ['-r', 'OGG2OGG'], ['--remuxer='], ['--remuxer', 'ogg2mp4']])
    elif k == 13:
        bad = ['-qq']
    elif k == 14:
        bad = ['--quiet', '--version']
    else:
        bad = ['-vhz']
    parts.insert(rng.randrange(len(parts) + 1), bad)


OUTS = ['o.ogg', 'o.ogg', 'o.oga', 'o.ogx', 'o.mp3', 'o', 'o.OGG', '.ogg', 'd.ogg/o', 'd/o.ogg', 'a.b.ogg', 'o.ogg.bak', './o.ogg', 'o.']
ENVS = ['0', '1', '1700000000', '-1', 'x', '']


def case(rng, srcs, name, good):
    """-> dict for run()"""
    kind, data = rng.choice(srcs)
    parts, st, quiet = random_args(rng)
    inp = rng.choice(['i.ogg'] * 9 + ['-']) if good else rng.choice(['i.ogg'] * 8 + ['i.bin', 'missing.ogg', 'indir', '-i.ogg' if rng.random() < .3 else 'i.ogg'])
    okind = rng.choice(['file', 'file', 'old', 'stdout', 'null'] if good else ['file'] * 5 + ['old', 'old', 'stdout', 'stdout', 'stdoutfull', 'full', 'null', 'dir', 'noparent'])
    out = rng.choice(OUTS) if okind in ('file', 'old') else '-' if okind.startswith('stdout') else 'no/o.ogg' if okind == 'noparent' else \
        'adir.ogg' if okind == 'dir' else rng.choice(['f.ogg', 'f.ogg', 'f'])
    sure = good and (out == '-' or os.path.splitext(out)[1] not in ('.ogg', '.oga', '.ogx'))
    if rng.random() < (.95 if sure else .6 if out == '-' else .25):
        parts.append(remuxer_arg(rng))
    if rng.random() < (.05 if good else .35):
        spoil(rng, parts)
        if okind == 'stdoutfull':
            okind, out = 'stdout', '-'
    rng.shuffle(parts)
    argv = [t for p in parts for t in p]
    seen = set()
    for p in parts:
        t = p[0].split('=', 1)[1] if p[0].startswith('--remuxer_option=') else p[1] if p[0] == '--remuxer_option' and len(p) > 1 else ''
        n, eq, v = t.partition('=')
        if eq and n in ROPTS and n not in seen:
            seen.add(n)
            st[ROPTS[n]] = (v.lstrip('0') or '0') if ROPTS[n] == 'off' else v == 'true'
    files = [inp, out]
    r = rng.random()
    if okind != 'stdoutfull' and not good:
        if r < .03:
            files = files[:rng.randrange(2)]
        elif r < .06:
            files.append(rng.choice(['x', '-q', '--help']))
        elif r < .08:
            argv += [rng.choice(['--remuxer_option', '-r', '--vendor_string_action'])]
            files = []
        elif r < .10:
            argv = files[:1] + argv
            files = files[1:]
    if (files and files[0].startswith('-') and len(files[0]) > 1) or rng.random() < .1:
        files.insert(0, '--')
    return dict(name=name, kind=kind, data=data, argv=argv + files, set=st, inp=inp, out=out, okind=okind, epoch=rng.choice(ENVS[:4] * 3 + ENVS))


ARGS_CFG = '''INIT Init
NEXT Next
CONSTANTS MaxArgs = %d
CONSTRAINT Emit
INVARIANT Fits
CHECK_DEADLOCK FALSE
'''


def arg_lists(rng, info, tier, n):
    """every short list of arguments of the environment Args, before two file names"""
    data = ocases.plain_case(rng, info, 'x')['in']
    ls = [(l, o) for l in enumerated('Args', ARGS_CFG % 3) for o in ('o.ogg', '-')]
    some = ls if tier != 'quick' else [x for x in ls if len(x[0]) <= n] + rng.sample([x for x in ls if len(x[0]) > n], 700)
    return [dict(name='args-%d' % k, kind='args', data=data, argv=l + ['i.ogg', o], set=dict(DEFAULT), inp='i.ogg', out=o,
                 okind='file' if o != '-' else 'stdout', epoch='1') for k, (l, o) in enumerate(some)]


def run(exe, c):
    d = tempfile.mkdtemp(prefix='cli', dir=scratch())
    try:
        j = lambda *p: os.path.join(d, *p)
        for x in ('d', 'd.ogg', 'indir', 'adir.ogg'):
            os.mkdir(j(x))
        for x in ('i.ogg', 'i.bin', '-i.ogg', '-'):
            with open(j(x), 'wb') as f:
                f.write(c['data'])
        out = c['out']
        old = b'previous content ' * 3000 if c['okind'] == 'old' else None
        if old:
            with open(j(out), 'wb') as f:
                f.write(old)
        if c['okind'] in ('full', 'null'):
            os.symlink('/dev/' + c['okind'], j(out))
        e = dict(os.environ, SOURCE_DATE_EPOCH=c['epoch'])
        so = open('/dev/full', 'wb') if c['okind'] == 'stdoutfull' else subprocess.PIPE
        try:
            p = subprocess.run([exe] + c['argv'], cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=so, stderr=subprocess.PIPE, timeout=60)
            rc, stdout, stderr = p.returncode, p.stdout or b'', p.stderr
        except subprocess.TimeoutExpired:
            rc, stdout, stderr = 99, b'', b'hang'
        finally:
            if so is not subprocess.PIPE:
                so.close()
        regular = c['okind'] in ('file', 'old')
        now = None
        if regular and os.path.isfile(j(out)):
            with open(j(out), 'rb') as f:
                now = f.read()
        return dict(rc=rc, stdout=stdout, stderr=stderr, data=now, untouched=not regular or now == old)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def text(b):
    return ''.join(ch if 32 <= ord(ch) < 127 or ch == '\n' else '?' for ch in b.decode('latin-1'))


def lib_request(c):
    s = c['set']
    return remux_req(dict(explicit=1, opt=dict(rnd=int(s['rnd']), off=int(s['off']) if s['off'].isdigit() and int(s['off']) < 1 << 32 else 0, ign=int(s['ign']), errno=int(s['errno']), crc=int(s['crc']),
                                   vendor=s['vendor'], comments=s['comments'])), c['data'])


def to_rec(c, r, lib, more):
    tostd = c['out'] == '-'
    full = c['okind'] in ('full', 'stdoutfull')
    if c['inp'] == 'indir':
        lr, lo, lm = 'err', '', ''
    else:
        x = lib['runs'][0] if 'runs' in lib else dict(r='panic', out='')
        lr, lo, lm = x['r'], x.get('out', ''), x.get('msg', '')
    return dict(argv=c['argv'], input=dict(exists=c['inp'] != 'missing.ogg'),
                output=dict(creatable=c['okind'] not in ('dir', 'noparent'), untouched=r['untouched'], full=full,
                            special=c['okind'] in ('full', 'null', 'stdoutfull'), data=list(r['data'] or b'')),
                outdata=list(r['stdout']) if tostd else [], stdout=text(r['stdout'][:20000] if not tostd else r['stdout'][:9000]), stderr=text(r['stderr'][-1500:]), rc=r['rc'], tag=TAG,
                lines=r['stderr'].count(b'\n'), more=more,
                lib=dict(set=c['set'], r=lr, msg=text(lm.encode()), out=list(bytes.fromhex(lo))))


CFG = '''INIT Init
NEXT Next
VIEW View
CONSTANTS Lo = %d Hi = %d Props = {%s}
INVARIANT Holds
ALIAS Brief
'''


def check(prop, tier, seed):
    res = dict(states=0, transitions=0, traces=0, samples=[], kf=[], kf_tags=[], violation=None, notes={})
    exe, lib = cli(), harness('rel')
    info = ask_all(lib, ['info'], jobs=1)[0]
    rng = random.Random('%s/%s' % (prop, seed))
    q = tier == 'quick'
    srcs = sources(rng, info, 60 if q else 600)
    cs = [case(rng, srcs, '%s-%d' % (prop, k), rng.random() < (.8 if prop == 'C01' else .15)) for k in range(1500 if q else 30000)]
    cs += arg_lists(rng, info, tier, 1 if prop == 'C01' else 2)
    with ThreadPoolExecutor(CORES) as ex:
        runs = list(ex.map(lambda c: run(exe, c), cs))
        # some that end well are run again, more verbose
        talk = [k for k in range(len(cs)) if runs[k]['rc'] == 0 and cs[k]['out'] != '-' and k % 5 == 0]
        more = dict(zip(talk, ex.map(lambda k: run(exe, dict(cs[k], argv=['-v'] + cs[k]['argv']))['stderr'].count(b'\n'), talk)))
    # one call of the library for every file, settings and epoch
    asked = {}
    for c in cs:
        asked.setdefault((lib_request(c), c['epoch']), len(asked))
    answers = ask_fresh(lib, [(q, dict(SOURCE_DATE_EPOCH=e)) for q, e in asked])
    libs = [answers[asked[lib_request(c), c['epoch']]] for c in cs]
    for lo in range(0, len(cs), 1500):
        part = [to_rec(*x, more.get(lo + k, -1)) for k, x in enumerate(zip(cs[lo:lo + 1500], runs[lo:], libs[lo:]))]
        f = os.path.join(scratch(), 'cases.json')
        with open(f, 'w') as o:
            json.dump(part, o, separators=(',', ':'))
        r = tlc_cases('Cli', CFG, len(part), '"C01", "C02"', f)
        os.unlink(f)
        res['states'] += r['distinct']
        res['transitions'] += r['states']
        res['traces'] += len(part)
        if r['violated'] or r['deadlock']:
            m = re.search(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>', r['out'], re.S)
            k = lo + (r['unreadable'] + 1 if r['unreadable'] is not None else int((m or re.search(r'c \|-> (\d+)', r['out']) or re.search(r'/\\ c = (\d+)', r['out'])).group(1))) - 1
            c = cs[k]
            res['violation'] = dict(property=prop, why=' '.join(m.group(3).split()) if m else r.get('why', 'not a behaviour'), argv=c['argv'], epoch=c['epoch'],
                                    out=c['okind'], input=c['data'].hex(), rc=runs[k]['rc'], stderr=text(runs[k]['stderr']),
                                    stdout=cut(text(runs[k]['stdout']), 2000))
            return res
    for k in (0, len(cs) // 2, len(cs) - 1):
        res['samples'].append(dict(argv=cs[k]['argv'], input=cs[k]['kind'], output=cs[k]['okind'], rc=runs[k]['rc'],
                                   stderr=cut(text(runs[k]['stderr']), 300)))
    hist = {}
    for r in runs:
        hist[str(r['rc'])] = hist.get(str(r['rc']), 0) + 1
    res['notes'] = dict(exit_statuses=hist)
    return res
