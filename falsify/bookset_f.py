"""executable contract of C35: workbook-wide settings"""
import struct
from . import biff as W
from .biff import rec, ustr, bstr, outcome
P = struct.pack


class C35(object):
    from_model = staticmethod(lambda h: [])

    @staticmethod
    def cases(rng, deep):
        while True:
            bv = rng.choice([80, 80, 80, 70, 50, 45, 40, 30, 21])
            yield dict(bv=bv, dm=rng.choice([None, 0, 1, 1, 1, rng.choice([2, 3, 255, 256, 257, 65535, 32769])]),
                       co=rng.choice([None, [[1, 1]], [[rng.randrange(65536), rng.randrange(65536)]], [[0, 7], [0, 7]], [[7, 0], [0, 7]], [[49, 49], [1, 49]], [[49, 49], [49, 1]],
                                      [[0, 0], [44, 1]], [[0, 7], [7, 8]], [[7, 0], [7, 8]]]), dm0=rng.choice([None, None, 0, 1]),
                       user=rng.choice([None, '', 'A', 'John Smith', ' x ', 'tab\t', 'nb\xa0', 'a' * 54, 'J\xe9r\xf4me', '\u0416\u0443\u043a' if bv >= 80 else '\xd6']),
                       wide=rng.choice([None, 1]), pad=rng.choice([0, 0, 1, 7, 30]), late=rng.randrange(2), rand=rng.randrange(256), verb=rng.choice([0, 0, 1]))

    @staticmethod
    def test(c):
        bv = c['bv']
        recs = []
        cp = rec(0x42, P('<H', 1252)) if bv < 80 else rec(0x42, P('<H', 1200))
        us = b''
        if c['user'] is not None:
            if bv >= 80:
                us = rec(0x5C, ustr(c['user'], 2, wide=c['wide']) + b' ' * c['pad'])
            else:
                us = rec(0x5C, bstr(c['user'].encode('cp1252')) + b' ' * c['pad'])
        recs += [us, cp] if c['late'] else [cp, us]
        if c['dm'] is not None and c.get('dm0') is not None:
            recs.append(rec(0x22, P('<H', c['dm0'])))     # superseded
        if c['dm'] is not None:
            recs.append(rec(0x22, P('<H', c['dm'])))
        for a, b in c['co'] or ():
            recs.append(rec(0x8C, P('<HH', a, b)))
        recs.append(rec(0x56, P('<H', c['rand']))) if 30 <= bv < 50 else None
        g = W.std_globals(bv)
        body = [W.dimension(bv)]
        if bv >= 50:
            data = W.WB(bv, pre=recs + g).sheet('S', recs=body).bytes()
        elif bv == 45:
            data = W.WB(45, pre=recs).sheet('S', recs=g + body).bytes()
        else:
            data = W.WB(bv).sheet('S', recs=recs + g + body).bytes()
        o = outcome(W.open_bytes, data, verbosity=c['verb'])
        bad = c['dm'] not in (None, 0, 1)
        co = (0, 0)
        for p in c['co'] or ():
            if co != (0, 0) and co != tuple(p):
                bad = True
            co = tuple(p)
        if bad:
            return None if o[0] == 'exc' else 'date mode %r, countries %r accepted' % (c['dm'], c['co'])
        if o[0] != 'ok':
            return 'opening fails: %r' % (o[1:],)
        b = o[1]
        if b.datemode != (c['dm'] or 0):
            return 'date mode %r instead of %r' % (b.datemode, c['dm'])
        if b.countries != co:
            return 'countries %r instead of %r' % (b.countries, co)
        if b.user_name != (c['user'] or '').rstrip():
            return 'user name %r instead of %r' % (b.user_name, c['user'])
        return None
