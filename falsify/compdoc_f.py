"""C11: OLE2 compound documents"""
import io
import random
import signal
import struct
from .biff import P, outcome

MAGIC = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1"
FREE, EOC, SATS, MSATS = -1, -2, -3, -4


class Node(object):
    def __init__(self, name, data=None, kids=None):
        self.name, self.data, self.kids = name, data, kids      # kids: storage
        self.did = self.left = self.right = self.root = -1
        self.first, self.size = EOC, 0


def cfb(rng, root, ssz=9, sssz=6, minsize=4096, frag=0.5, tail=0, free=0, didorder=True):
    """root: list of Nodes in the root storage -> bytes of the file"""
    ss, mss = 1 << ssz, 1 << sssz
    nodes = []

    def collect(ns):
        for n in ns:
            nodes.append(n)
            if n.kids is not None:
                collect(n.kids)
    collect(root)
    order = list(nodes)
    if didorder:
        rng.shuffle(order)
    for i, n in enumerate(order):
        n.did = i + 1
        n.left = n.right = n.root = -1

    def tree(ns):
        if not ns:
            return -1
        i = rng.randrange(len(ns))
        ns[i].left, ns[i].right = tree(ns[:i]), tree(ns[i + 1:])
        return ns[i].did

    def key(n):
        return (len(n.name), n.name.upper())
    rootchild = tree(sorted(root, key=key))
    for n in nodes:
        if n.kids is not None:
            n.root = tree(sorted(n.kids, key=key))
    # short streams
    short = [n for n in order if n.data is not None and 0 < len(n.data) < minsize]
    blocks = []                  # (node, index)
    chains = {}
    seqs = [[(n, i) for i in range(-(-len(n.data) // mss))] for n in short]
    flat = interleave(rng, seqs, frag)
    ssat = [FREE] * len(flat)
    pos = {x: k for k, x in enumerate(flat)}
    sscs = b''
    for k, (n, i) in enumerate(flat):
        sscs += n.data[i * mss:(i + 1) * mss].ljust(mss, bytes([rng.randrange(256)]))
        ssat[k] = pos[(n, i + 1)] if (n, i + 1) in pos else EOC
    for n in short:
        n.first, n.size = pos[(n, 0)], len(n.data)
    per = ss // 4
    ssatb = b''.join(P('<i', x) for x in ssat)
    ssatb += P('<i', FREE) * ((-len(ssat)) % per)
    # directory (sizes filled in later)
    ndir = -(-(len(order) + 1) * 128 // ss)
    big = [n for n in order if n.data is not None and len(n.data) >= minsize and len(n.data) > 0]
    seqs = [[('b', n, i) for i in range(-(-len(n.data) // ss))] for n in big]
    seqs.append([('d', None, i) for i in range(ndir)])
    seqs.append([('s', None, i) for i in range(-(-len(sscs) // ss))])
    seqs.append([('t', None, i) for i in range(len(ssatb) // ss)])
    base = interleave(rng, seqs, frag)
    nsat = 1
    while True:
        nx = max(0, -(-(nsat - 109) // (per - 1)))
        tot = len(base) + free + nsat + nx
        if nsat * per >= tot:
            break
        nsat += 1
    nx += 0
    extra = [('f', None, i) for i in range(free)] + [('S', None, i) for i in range(nsat)] + [('X', None, i) for i in range(nx)]
    if frag and rng.random() < frag:
        secs = list(base)
        for x in extra:
            secs.insert(rng.randrange(len(secs) + 1), x)
    elif rng.random() < .5:
        secs = extra + base
    else:
        secs = base + extra
    pos = {x: k for k, x in enumerate(secs)}
    sat = [FREE] * (nsat * per)
    for x, k in pos.items():
        if x[0] == 'f':
            continue
        if x[0] in 'SX':
            sat[k] = SATS if x[0] == 'S' else MSATS
            continue
        nxt = (x[0], x[1], x[2] + 1)
        sat[k] = pos.get(nxt, EOC)
    for n in big:
        n.first, n.size = pos[('b', n, 0)], len(n.data)
    rootfirst = pos.get(('s', None, 0), EOC)
    d = [dent('Root Entry', 5, -1, -1, rootchild, rootfirst, len(sscs))]
    for n in order:
        d.append(dent(n.name, 1 if n.kids is not None else 2, n.left, n.right, n.root, 0 if n.kids is not None else n.first, n.size))
    db = b''.join(d)
    db += dent('', 0, -1, -1, -1, 0, 0) * ((-len(d)) % (ss // 128) if ss >= 128 else 0)
    db = db.ljust(ndir * ss, b'\0')
    msat = [pos[('S', None, i)] for i in range(nsat)]
    head = msat[:109] + [FREE] * (109 - len(msat[:109]))
    rest = msat[109:]
    xs = [pos[('X', None, i)] for i in range(nx)]
    body = bytearray(len(secs) * ss)
    for x, k in pos.items():
        t, n, i = x
        if t == 'b':
            c = n.data[i * ss:(i + 1) * ss]
            c = c.ljust(ss, bytes([rng.randrange(256)]))
        elif t == 'd':
            c = db[i * ss:(i + 1) * ss]
        elif t == 's':
            c = sscs[i * ss:(i + 1) * ss].ljust(ss, b'\0')
        elif t == 't':
            c = ssatb[i * ss:(i + 1) * ss]
        elif t == 'S':
            c = b''.join(P('<i', v) for v in sat[i * per:(i + 1) * per])
        elif t == 'X':
            part = rest[i * (per - 1):(i + 1) * (per - 1)]
            c = b''.join(P('<i', v) for v in part + [FREE] * (per - 1 - len(part)) + [xs[i + 1] if i + 1 < nx else EOC])
        else:
            c = bytes([rng.randrange(256)]) * ss
        assert len(c) == ss, (t, len(c))
        body[k * ss:(k + 1) * ss] = c
    hdr = (MAGIC + bytes(16) + P('<HHHHH', 0x3E, 3, 0xFFFE, ssz, sssz) + bytes(10) +
           P('<iiiiiiii', nsat, pos[('d', None, 0)], 0, minsize, pos.get(('t', None, 0), EOC), len(ssatb) // ss, xs[0] if xs else EOC, nx) +
           b''.join(P('<i', v) for v in head))
    assert len(hdr) == 512
    return hdr + bytes(body)[:len(body) - tail] if tail else hdr + bytes(body), dict(pos=pos, sat=sat, secs=secs, ss=ss)


def interleave(rng, seqs, frag):
    seqs = [s for s in seqs if s]
    rng.shuffle(seqs)
    if not frag:
        return [x for s in seqs for x in s]
    flat = [x for s in seqs for x in s]
    if rng.random() < .3:
        rng.shuffle(flat)
        return flat
    out = []
    idx = [0] * len(seqs)
    live = list(range(len(seqs)))
    while live:
        q = rng.choice(live)
        n = 1
        while rng.random() < .8:
            n += 1
        out += seqs[q][idx[q]:idx[q] + n]
        idx[q] += n
        if idx[q] >= len(seqs[q]):
            live.remove(q)
    return out


def dent(name, etype, left, right, root, first, size):
    b = name.encode('utf-16-le') + b'\0\0' if name else b''
    assert len(b) <= 64
    return b.ljust(64, b'\0') + P('<HBBiii', len(b), etype, 1, left, right, root) + bytes(36) + P('<iii', first, size, 0)


NAMES = ['Workbook', 'Book', 'VBA', '\x05SummaryInformation', '\x01CompObj', 'dir', 'PROJECT', 'Module1', 'a', 'B', 'Ctls', '_\xe9\u4e2d']


def content(rng, n):
    b = bytes(rng.randrange(256) for _ in range(min(n, 97)))
    return b''.join(P('<I', rng.getrandbits(32)) for _ in range(n // 4)) + b[:n % 4] if n < 6000 else (rng.getrandbits(8 * n).to_bytes(n, 'little'))


def build(c):
    rng = random.Random(c['seed'])
    ss, mss = 1 << c['ssz'], 1 << c['sssz']
    used = set()

    def mk(depth):
        out = []
        seen = set()
        for _ in range(rng.choice([1, 2, 3, 5] if not c['many'] or depth else [5, 40, 300])):
            nm = rng.choice(NAMES) if rng.random() < .6 else 'n%d' % rng.randrange(1000)
            if nm.lower() in seen:
                continue
            seen.add(nm.lower())
            if depth < 2 and rng.random() < .2:
                out.append(Node(nm, kids=mk(depth + 1)))
            else:
                mn = c['min']
                n = rng.choice([0, 1, mss - 1, mss, mss + 1, 3 * mss, mn - 1, mn, mn + 1, ss, ss - 1, ss + 1, 2 * ss, 5 * ss, 20 * ss + 7, rng.randrange(3 * mn + 100)])
                if c['many']:
                    n = min(n, 300)
                out.append(Node(nm, data=content(rng, n)))
        return out
    root = mk(0)
    if c['huge']:
        root.append(Node('Huge', data=content(rng, (109 + rng.choice([1, 30, 40])) * (ss // 4) * ss)))
    b, info = cfb(rng, root, c['ssz'], c['sssz'], c['min'], c['frag'], free=c['free'])
    return rng, root, b, info


def paths(root, pre=''):
    for n in root:
        if n.kids is not None:
            for x in paths(n.kids, pre + n.name + '/'):
                yield x
        else:
            yield pre + n.name, n


def limited(f, seconds=4):
    """f(), ended when it takes too long"""
    def stop(*_):
        raise TooLong('no end after %d seconds' % seconds)
    old = signal.signal(signal.SIGPROF, stop)
    left = signal.setitimer(signal.ITIMER_PROF, seconds)[0]
    try:
        return f()
    except TooLong as x:
        return ('exc', 'TooLong', str(x))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        if left:
            signal.setitimer(signal.ITIMER_PROF, left)


class TooLong(BaseException):
    pass


class C11(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            ssz = rng.choice([9, 9, 9, 9, 12, 7, 7, 8, 10])
            huge = ssz == 7 and rng.random() < .3
            yield dict(seed=rng.getrandbits(40), ssz=ssz, sssz=min(ssz, rng.choice([6, 6, 6, 6, 5, 7])), min=rng.choice([4096, 4096, 4096, 512, 100, 1024]), frag=rng.choice([0, .5, .9, .9]),
                       free=rng.choice([0, 0, 1, 5]), many=rng.random() < .06, huge=huge, bad=rng.choice([None, None, None, 'cycle', 'scycle', 'shared', 'msatx', 'msat', 'ssat', 'dir', 'sscs']))

    @staticmethod
    def test(c):
        from xlrd.compdoc import CompDoc, CompDocError
        rng, root, b, info = build(c)
        if c['bad']:
            return C11.corrupt(c, rng, root, b, info)
        for meth in ('locate', 'get'):
            for q in (0, 1):
                r = outcome(CompDoc, b, logfile=io.StringIO())
                if r[0] != 'ok':
                    return 'a well formed compound document was refused: %s' % (r[1:],)
                cd = r[1]
                ps = list(paths(root))
                rng.shuffle(ps)
                for nm, n in ps:
                    ask = nm if q == 0 else nm.swapcase() if nm.swapcase().lower() == nm.lower() else nm
                    if meth == 'locate':
                        r = outcome(cd.locate_named_stream, ask)
                        if r[0] == 'ok' and r[1][0] is None:
                            return 'stream %r not found' % (nm,)
                        if r[0] == 'ok' and r[1][2] != len(n.data):
                            return 'stream %r: length %r instead of %d' % (nm, r[1][2], len(n.data))
                        got = r[1][0][r[1][1]:r[1][1] + r[1][2]] if r[0] == 'ok' else None
                    else:
                        r = outcome(cd.get_named_stream, ask)
                        got = r[1] if r[0] == 'ok' else None
                        if r[0] == 'ok' and got is None:
                            return 'stream %r not found' % (nm,)
                    if r[0] != 'ok':
                        return '%s %r (%d bytes): %s' % (meth, nm, len(n.data), r[1:])
                    if bytes(got) != n.data:
                        k = next((i for i, (x, y) in enumerate(zip(got, n.data)) if x != y), min(len(got), len(n.data)))
                        return '%s %r (%d bytes): %d bytes, first difference at %d' % (meth, nm, len(n.data), len(got), k)
                for nm in ('nothere', 'Workbooks', 'Root Entry', ''):
                    if nm not in [n.name for n in root]:
                        r = outcome(cd.locate_named_stream, nm)
                        if r != ('ok', (None, 0, 0)):
                            return 'absent stream %r: %s' % (nm, str(r)[:80])
                        r = outcome(cd.get_named_stream, nm)
                        if r != ('ok', None):
                            return 'absent stream %r: %s' % (nm, str(r)[:80])
        return None

    @staticmethod
    def corrupt(c, rng, root, b, info):
        """a chain that comes back to a sector already used is refused, and never followed forever"""
        from xlrd.compdoc import CompDoc, CompDocError
        pos, sat, ss = info['pos'], list(info['sat']), info['ss']
        b = bytearray(b)
        per = ss // 4
        targets = [(nm, n) for nm, n in paths(root) if n.data]
        if c['bad'] in ('msatx', 'msat', 'ssat', 'dir', 'sscs'):
            def chainof(t):
                return [pos[x] for x in sorted((x for x in pos if x[0] == t), key=lambda x: x[2])]
            sats = chainof('S')
            if c['bad'] == 'msatx':
                xs = chainof('X')
                if not xs:
                    return None
                off, to = 512 + xs[-1] * ss + 4 * (per - 1), rng.choice(xs)
            elif c['bad'] == 'msat':
                off, to = 76 + 4 * rng.randrange(1, 109), sats[0]
                if struct.unpack('<i', b[off:off + 4])[0] >= 0:
                    off = 76
                    to = sats[-1]
                    if len(sats) < 2:
                        return None
            else:
                ch = chainof(dict(ssat='t', dir='d', sscs='s')[c['bad']])
                if not ch:
                    return None
                off, to = 512 + sats[ch[-1] // per] * ss + 4 * (ch[-1] % per), rng.choice(ch)
                if c['bad'] == 'ssat':
                    b[64:68] = P('<i', len(ch) + rng.choice([1, 2, 1000]))
                    if rng.random() < .5:
                        to = rng.choice(chainof('d'))
            b[off:off + 4] = P('<i', to)
            r = limited(lambda: outcome(CompDoc, bytes(b), logfile=io.StringIO()))
            if r[0] == 'ok' or r[1] != 'CompDocError':
                return 'opening a file with a cyclic chain (%s): %s' % (c['bad'], str(r)[:100])
            return None
        if c['bad'] == 'scycle':
            targets = [(nm, n) for nm, n in targets if len(n.data) < c['min']]
            if not targets:
                return None
            nm, n = rng.choice(targets)
            # the short sector table: last entry of the chain points back to the first
            t = [pos[x] for x in sorted((x for x in pos if x[0] == 't'), key=lambda x: x[2])]
            k = n.first
            seen = []
            while True:
                off = 512 + t[k // per] * ss + 4 * (k % per)
                nxt = struct.unpack('<i', b[off:off + 4])[0]
                seen.append(k)
                if nxt < 0:
                    break
                k = nxt
            b[off:off + 4] = P('<i', rng.choice(seen))
        else:
            targets = [(nm, n) for nm, n in targets if len(n.data) >= c['min']]
            if not targets:
                return None
            nm, n = rng.choice(targets)
            chain = sorted((x for x in pos if x[0] == 'b' and x[1] is n), key=lambda x: x[2])
            last = pos[chain[-1]]
            if c['bad'] == 'cycle':
                to = pos[rng.choice(chain)]
            else:
                to = pos[rng.choice([x for x in pos if x[0] in 'dtSs'])]
            off = 512 + pos[('S', None, last // per)] * ss + 4 * (last % per)
            b[off:off + 4] = P('<i', to)
        for meth in ('locate', 'get'):
            r = outcome(CompDoc, bytes(b), logfile=io.StringIO())
            if r[0] != 'ok':
                return 'opening: %s' % (r[1:],)
            r = limited(lambda: outcome(getattr(r[1], meth + '_named_stream'), nm))
            if r[0] == 'ok' or r[1] not in ('CompDocError',):
                return '%s of %r with a cyclic chain (%s): %s' % (meth, nm, c['bad'], str(r)[:100])
        return None
