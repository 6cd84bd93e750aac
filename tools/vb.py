"""Builds Vorbis I packets: a bit writer, setup headers from plain dicts, and audio packets
made of random symbols. It only makes inputs; what they mean is decided by the specification."""
import struct


class BitW:
    def __init__(self):
        self.bits = []

    def u(self, v, n):
        for i in range(n):
            self.bits.append((v >> i) & 1)
        return self

    def bytes(self, pad=0):
        b = self.bits + [pad] * (-len(self.bits) % 8)
        return bytes(sum(b[i + j] << j for j in range(8)) for i in range(0, len(b), 8))


class BitR:
    def __init__(self, data, p=0):
        self.d, self.p = data, p

    def u(self, n):
        v = 0
        for i in range(n):
            k = self.p >> 3
            if k >= len(self.d):
                raise EOFError
            v |= ((self.d[k] >> (self.p & 7)) & 1) << i
            self.p += 1
        return v


def ilog(n):
    return n.bit_length() if n > 0 else 0


def lookup1(n, d):
    if n == 0 or d == 0:
        return 0
    r = int(round(n ** (1.0 / d)))
    while r ** d > n:
        r -= 1
    while (r + 1) ** d <= n:
        r += 1
    return r


def float32(m, e, s=0):
    return (m & 0x1FFFFF) | (e & 0x3FF) << 21 | (s << 31)


def codewords(lens):
    """entry -> list of bits; Vorbis I 3.2.1"""
    free = {0: []}  # depth -> path of the free subtree
    out = {}
    for e, l in enumerate(lens):
        if l == 0:
            continue
        d = max((x for x in free if x <= l), default=None)
        if d is None:
            return None
        path = free.pop(d)
        while d < l:
            free[d + 1] = path + [1]
            path = path + [0]
            d += 1
        out[e] = path
    return out


# ---------------------------------------------------------------- writing
def write_book(w, b):
    w.u(b.get('sync', 0x564342), 24).u(b['dim'], 16).u(b.get('count', len(b['lens'])), 24)
    lens = b['lens']
    if b['fmt'] == 'ordered':
        w.u(1, 1).u((lens[0] if lens else b.get('first', 1)) - 1, 5)
        i, l = 0, (lens[0] if lens else 1)
        while i < len(lens):
            k = 0
            while i + k < len(lens) and lens[i + k] == l:
                k += 1
            w.u(k, ilog(len(lens) - i))
            i += k
            l += 1
    elif b['fmt'] == 'sparse':
        w.u(0, 1).u(1, 1)
        for l in lens:
            if l:
                w.u(1, 1).u(l - 1, 5)
            else:
                w.u(0, 1)
    else:
        w.u(0, 1).u(0, 1)
        for l in lens:
            w.u(l - 1, 5)
    w.u(b['lk'], 4)
    if b['lk'] in (1, 2):
        w.u(b['min'], 32).u(b['delta'], 32).u(b['vb'] - 1, 4).u(b['seq'], 1)
        for m in b['mults']:
            w.u(m, b['vb'])


def write_floor(w, f):
    w.u(f.get('type', 1), 16)
    w.u(len(f['parts']), 5)
    for p in f['parts']:
        w.u(p, 4)
    for c in f['classes']:
        w.u(c['dim'] - 1, 3).u(c['sub'], 2)
        if c['sub']:
            w.u(c['master'], 8)
        for b in c['books']:
            w.u(b + 1, 8)
    w.u(f['mult'] - 1, 2).u(f['rb'], 4)
    for x in f['xs']:
        w.u(x, f['rb'])


def write_residue(w, r):
    w.u(r['type'], 16).u(r['begin'], 24).u(r['end'], 24).u(r['psize'] - 1, 24)
    w.u(len(r['books']) - 1, 6).u(r['classbook'], 8)
    for bs in r['books']:
        m = sum(1 << i for i, b in enumerate(bs) if b >= 0)
        w.u(m & 7, 3)
        hi = m >> 3 or r.get('longmask')
        w.u(1 if hi else 0, 1)
        if hi:
            w.u(m >> 3, 5)
    for bs in r['books']:
        for b in bs:
            if b >= 0:
                w.u(b, 8)


def write_mapping(w, m, ch):
    w.u(m.get('type', 0), 16)
    many = len(m['submaps']) > 1 or m.get('forcemany')
    w.u(1 if many else 0, 1)
    if many:
        w.u(len(m['submaps']) - 1, 4)
    w.u(1 if m['coupling'] else 0, 1)
    if m['coupling']:
        w.u(len(m['coupling']) - 1, 8)
        for a, b in m['coupling']:
            w.u(a, ilog(ch - 1)).u(b, ilog(ch - 1))
    w.u(m.get('res', 0), 2)
    if len(m['submaps']) > 1:
        for x in m['mux']:
            w.u(x, 4)
    for fl, rs in m['submaps']:
        w.u(m.get('junk', 0), 8).u(fl, 8).u(rs, 8)


def write_mode(w, m):
    w.u(m['big'], 1).u(m.get('win', 0), 16).u(m.get('tr', 0), 16).u(m['mapping'], 8)


def setup_bits(S, ch):
    w = BitW()
    for x in b'\x05vorbis':
        w.u(x, 8)
    w.u(len(S['books']) - 1, 8)
    for b in S['books']:
        write_book(w, b)
    tds = S.get('tds', [0])
    w.u(len(tds) - 1, 6)
    for t in tds:
        w.u(t, 16)
    w.u(len(S['floors']) - 1, 6)
    for f in S['floors']:
        write_floor(w, f)
    w.u(len(S['residues']) - 1, 6)
    for r in S['residues']:
        write_residue(w, r)
    w.u(len(S['mappings']) - 1, 6)
    for m in S['mappings']:
        write_mapping(w, m, ch)
    w.u(len(S['modes']) - 1, 6)
    for m in S['modes']:
        write_mode(w, m)
    if S.get('framing', 1) is not None:
        w.u(S.get('framing', 1), 1)
    return w


def setup_packet(S, ch, trailing=b''):
    return setup_bits(S, ch).bytes() + trailing


def ident_packet(ch=2, rate=44100, b0=8, b1=11, rates=(0, 128000, 0), version=0, framing=1, trailing=b''):
    return (b'\x01vorbis' + struct.pack('<IBIiii', version, ch, rate, *rates)
            + bytes([b0 | b1 << 4, framing]) + trailing)


def comment_packet(vendor=b'test', fields=(b'TITLE=x',), framing=b'\x01', count=None):
    o = b'\x03vorbis' + struct.pack('<I', len(vendor)) + vendor
    o += struct.pack('<I', len(fields) if count is None else count)
    for f in fields:
        o += struct.pack('<I', len(f)) + f
    return o + framing


# ---------------------------------------------------------------- random setups
def random_lens(rng, used, skew=None):
    """lengths of a complete prefix code of `used` codewords, at most 32 bits"""
    leaves = [0]
    skew = rng.random() if skew is None else skew
    while len(leaves) < used:
        if rng.random() < skew:
            i = max(range(len(leaves)), key=lambda j: (leaves[j] < 31, leaves[j]))
        else:
            i = rng.randrange(len(leaves))
        if leaves[i] >= 32:
            i = leaves.index(min(leaves))
        d = leaves.pop(i)
        leaves += [d + 1, d + 1]
    rng.shuffle(leaves)
    return leaves


def random_book(rng, entries, dim, lookup, fmt=None):
    fmt = fmt or rng.choice(['ordered', 'sparse', 'dense', 'dense'])
    if entries < 2:
        fmt = 'dense' if fmt == 'ordered' and rng.random() < .5 else fmt
    if fmt == 'sparse':
        used = rng.randint(2, entries) if entries > 2 else entries
        if used == 1:
            lens = [1]
        else:
            lens = random_lens(rng, used) + [0] * (entries - used)
            rng.shuffle(lens)
    else:
        lens = random_lens(rng, entries) if entries > 1 else [1]
        if fmt == 'ordered':
            lens.sort()
    b = dict(dim=dim, lens=lens, fmt=fmt, lk=0)
    if lookup:
        b['lk'] = rng.choice([1, 2])
        n = lookup1(entries, dim) if b['lk'] == 1 else entries * dim
        b['vb'] = rng.choice([1, 2, 4, 8, 16, rng.randint(1, 16)])
        b['seq'] = rng.randint(0, 1)
        b['mults'] = [rng.randrange(1 << b['vb']) for _ in range(n)]
        b['min'] = random_float(rng)
        b['delta'] = random_float(rng)
    return b


def random_float(rng):
    k = rng.randrange(10)
    if k == 0:
        return 0
    if k == 1:
        return float32(0, rng.randrange(1024), rng.randint(0, 1))
    if k == 2:
        return float32(rng.randrange(1 << 21), rng.randrange(1024), rng.randint(0, 1))
    if k == 3:
        return float32(rng.choice([1, (1 << 21) - 1, 1 << 20]), rng.choice([0, 1, 19, 20, 21, 1023, 1022, 788, 235, 236, 234]),
                       rng.randint(0, 1))
    return float32(rng.randrange(1, 1 << 21), rng.randint(760, 800), rng.randint(0, 1))


def random_setup(rng, ch, bs, small=True):
    """bs: the two block sizes"""
    S = dict(books=[], floors=[], residues=[], mappings=[], modes=[])
    books = S['books']

    def book(entries, dim, lookup):
        if len(books) >= 200:
            c = [i for i, b in enumerate(books) if len(b['lens']) == entries and b['dim'] == dim and (b['lk'] > 0) == lookup]
            if c:
                return rng.choice(c)
        books.append(random_book(rng, entries, dim, lookup))
        return len(books) - 1

    big = not small and rng.random() < .3
    for _ in range(rng.randint(0, 2)):  # a few that nothing refers to, perhaps
        book(rng.randint(1, 20), rng.randint(0, 5), False)
    for _ in range(rng.choice([1, 1, 2, 3])):
        ncls = rng.randint(1, 4)
        classes = []
        for _ in range(ncls):
            sub = rng.randint(0, 3)
            master = book(rng.randint(1, 1 << (sub * rng.randint(1, 3)) if sub else 4) if sub else 4, 1, False) if sub else 0
            bl = [(-1 if rng.random() < .2 else
                   (rng.randrange(len(books)) if books and rng.random() < .4
                    else book(rng.choice([2, 8, 16, 24, 40]), rng.randint(1, 3), rng.random() < .1)))
                  for _ in range(1 << sub)]
            classes.append(dict(dim=rng.randint(1, 4 if small else 8), sub=sub, master=master, books=bl))
        parts = [rng.randrange(ncls) for _ in range(rng.randint(0, 5 if small else 10))]
        ncls = max(parts, default=-1) + 1
        classes = classes[:ncls]
        nx = sum(classes[p]['dim'] for p in parts)
        while nx > 65:
            nx -= classes[parts.pop()]['dim']
        ncls = max(parts, default=-1) + 1
        classes = classes[:ncls]
        rb = rng.randint(max(1, ilog(nx)), 15)
        if nx == 0:
            rb = rng.randint(0, 15)
        xs = rng.sample(range(1 << rb), nx)
        S['floors'].append(dict(parts=parts, classes=classes, mult=rng.randint(1, 4), rb=rb, xs=xs))
    for _ in range(rng.choice([1, 1, 2, 3])):
        ncls = rng.choice([1, 2, 3, 4, 4, 6])
        dim = rng.choice([1, 2, 2, 3, 4]) if ncls > 1 else rng.choice([1, 2, 4, 9, 30])
        need = ncls ** dim
        if need > 256:
            dim = 2
            need = ncls ** dim
        cb = book(need + rng.choice([0, 0, 0, 1, 5]), dim, rng.random() < .2)
        psize = rng.choice([2, 4, 8, 8, 16, 12, 32])
        divs = [d for d in range(1, psize + 1) if psize % d == 0]
        rbooks = []
        for _ in range(ncls):
            row = []
            for _ in range(8):
                if rng.random() < (.7 if small else .6):
                    row.append(-1)
                else:
                    d = rng.choice(divs)
                    c = [i for i, b in enumerate(books) if b['lk'] and b['dim'] == d]
                    row.append(rng.choice(c) if c and rng.random() < .6 else
                               book(rng.choice([2, 3, 4, 9, 16, 27, 40, 81] + ([256] if big else [])), d, True))
            if rng.random() < .5:
                row[3:] = [-1] * 5
            rbooks.append(row)
        # vectors are at most half the larger block (times the channels if interleaved)
        lim = bs[1] // 2 * (ch if rng.random() < .3 else 1)
        begin = rng.choice([0, 0, 0, rng.randrange(lim)])
        k = rng.random()
        if k < .6:
            end = begin + psize * rng.randint(0, max(0, (lim - begin) // psize))
        elif k < .8:
            end = rng.randint(begin, lim + 40)
        elif k < .9:
            end = rng.choice([0xFFFFFF, lim, lim + 1])
        else:
            end = rng.randrange(lim)
        S['residues'].append(dict(type=rng.randint(0, 2), begin=begin, end=end, psize=psize,
                                  classbook=cb, books=rbooks, longmask=rng.random() < .1))
    for _ in range(rng.choice([1, 1, 2, 3])):
        ns = rng.choice([1, 1, 2, 3, 16])
        coupling = []
        if ch > 1 and rng.random() < .6:
            for _ in range(rng.randint(1, 3)):
                coupling.append(tuple(rng.sample(range(ch), 2)))
        S['mappings'].append(dict(coupling=coupling, mux=[rng.randrange(ns) for _ in range(ch)],
                                  forcemany=rng.random() < .1,
                                  submaps=[(rng.randrange(len(S['floors'])), rng.randrange(len(S['residues'])))
                                           for _ in range(ns)]))
    nm = rng.choice([1, 2, 2, 3, 4, 5, 64])
    for _ in range(nm):
        S['modes'].append(dict(big=rng.randint(0, 1), mapping=rng.randrange(len(S['mappings']))))
    if not books:
        book(2, 1, False)
    assert len(books) <= 256
    return S


# ---------------------------------------------------------------- audio packets
class Enc:
    """Writes random symbols of a setup. pick(entries) chooses an entry."""

    def __init__(self, S, ch, bs, rng, skew=0.0, stop=None, quiet=.25):
        self.S, self.ch, self.bs, self.rng, self.skew, self.quiet = S, ch, bs, rng, skew, quiet
        self.codes = [codewords(b['lens']) for b in S['books']]
        self.order = [list(c) for c in self.codes]
        for o in self.order:
            rng.shuffle(o)

    def ent(self, w, b, limit=None):
        o = self.order[b]
        if limit is not None:
            o = [e for e in o if e < limit] or o
        if not o:
            raise ValueError('empty book')
        if self.rng.random() < self.skew:
            i = min(int(self.rng.expovariate(1.0)), len(o) - 1)
        else:
            i = self.rng.randrange(len(o))
        w.bits += self.codes[b][o[i]]
        return o[i]

    def packet(self, mode=None, trail=b'', prev_next=None):
        S, rng, ch = self.S, self.rng, self.ch
        w = BitW()
        m = rng.randrange(len(S['modes'])) if mode is None else mode
        w.u(0, 1).u(m, ilog(len(S['modes']) - 1))
        md = S['modes'][m]
        if md['big']:
            w.u(rng.randrange(4) if prev_next is None else prev_next, 2)
        half = self.bs[md['big']] // 2
        mp = S['mappings'][md['mapping']]
        mux = mp['mux'] if len(mp['submaps']) > 1 else [0] * ch
        quiet = []
        for c in range(ch):
            f = S['floors'][mp['submaps'][mux[c]][0]]
            q = rng.random() < self.quiet
            w.u(0 if q else 1, 1)
            quiet.append(q)
            if q:
                continue
            rb = [8, 7, 7, 6][f['mult'] - 1]
            w.u(rng.randrange(1 << rb), rb).u(rng.randrange(1 << rb), rb)
            for p in f['parts']:
                cl = f['classes'][p]
                cv = self.ent(w, cl['master']) if cl['sub'] else 0
                for _ in range(cl['dim']):
                    bk = cl['books'][cv & ((1 << cl['sub']) - 1)]
                    cv >>= cl['sub']
                    if bk >= 0:
                        self.ent(w, bk)
        for a, b in mp['coupling']:
            quiet[a] = quiet[b] = quiet[a] and quiet[b]
        for i, (_, rs) in enumerate(mp['submaps']):
            chans = [c for c in range(ch) if mux[c] == i]
            if all(quiet[c] for c in chans):
                continue
            r = S['residues'][rs]
            if r['type'] == 2:
                size, vecs = half * len(chans), [0]
            else:
                size, vecs = half, [j for j, c in enumerate(chans) if not quiet[c]]
            b0, e0 = min(r['begin'], size), min(max(r['end'], r['begin']), size)
            parts = (e0 - b0) // r['psize']
            dim = S['books'][r['classbook']]['dim']
            ncls = len(r['books'])
            cls = {j: [] for j in vecs}
            if parts == 0 or dim == 0:
                continue
            for pas in range(8):
                g = 0
                while g < parts:
                    if pas == 0:
                        for j in vecs:
                            v = self.ent(w, r['classbook'])
                            d = []
                            for _ in range(dim):
                                d.append(v % ncls)
                                v //= ncls
                            cls[j] += reversed(d)
                    for k in range(g, min(g + dim, parts)):
                        for j in vecs:
                            bk = r['books'][cls[j][k]][pas]
                            if bk >= 0:
                                for _ in range(r['psize'] // S['books'][bk]['dim']):
                                    self.ent(w, bk)
                    g += dim
        return w.bytes(rng.randint(0, 1)) + trail


def max_count(packet):
    """The largest number of codebook entries a parser of this setup header could meet;
    used to keep mutated headers cheap to check."""
    r = BitR(packet, 56)
    worst = 0
    try:
        nb = r.u(8) + 1
        for _ in range(nb):
            r.u(24)
            dim = r.u(16)
            n = r.u(24)
            worst = max(worst, n)
            if n > 5000:
                return n
            if r.u(1):
                l = r.u(5) + 1
                i = 0
                while i < n:
                    if l > 32:
                        return worst
                    i += r.u(ilog(n - i))
                    l += 1
            elif r.u(1):
                for _ in range(n):
                    if r.u(1):
                        r.u(5)
            else:
                r.u(5 * n)
            lk = r.u(4)
            if lk in (1, 2):
                r.u(64)
                vb = r.u(4) + 1
                r.u(1)
                k = lookup1(n, dim) if lk == 1 else n * dim
                worst = max(worst, k)
                if k > 200000:
                    return k
                r.p += k * vb
                if r.p > 8 * len(packet):
                    return worst
            elif lk:
                return worst
    except EOFError:
        pass
    return worst


def setup_books(packet):
    """dims and entry counts (rough parse), or None"""
    return None
