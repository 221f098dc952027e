"""property -> contract units, falsifier, metadata"""
import importlib

PROPS = {}


def prop(pid, contracts, falsifier=None, **kw):
    kw.setdefault('level', 'proof')
    PROPS[pid] = dict(contracts=contracts, falsifier=falsifier, **kw)


def units(pid):
    mod, name = PROPS[pid]['contracts']
    return getattr(importlib.import_module('contracts.' + mod), name)


def unit_names(pid):
    return [getattr(u, '__name__', str(u)) for u in units(pid)]


def falsifier(pid):
    mod, name = PROPS[pid]['falsifier']
    return getattr(importlib.import_module('falsify.' + mod), name)


FLOAT = ('IEEE-754 double facts used for the date arithmetic: relative rounding error 2^-53, monotonicity at small '
         'integers, exactness of int<->float below 2^53, Sterbenz subtraction; NaN and infinities are outside the claim')

prop('C01', ('xldate', 'C01'), ('xldate_f', 'C01'), trusted=(FLOAT,))
prop('C02', ('xldate', 'C02'), ('xldate_f', 'C02'), trusted=(FLOAT,))
prop('C03', ('xldate', 'C03'), ('xldate_f', 'C03'), trusted=(FLOAT, 'datetime + timedelta arithmetic of CPython'))
prop('C04', ('basics', 'RK'), ('basics_f', 'C04'), smoke=8)
prop('C05', ('basics', 'C05'), ('basics_f', 'C05'), smoke=8)
prop('C14', ('basics', 'C14'), ('basics_f', 'C14'), smoke=8)
prop('C15', ('basics', 'C15'), ('basics_f', 'C15'), smoke=8)
prop('C30', ('basics', 'C30'), ('basics_f', 'C30'), smoke=10)
prop('C07', ('grid', 'C07'), ('grid_f', 'C07'), smoke=10)
prop('C09', ('grid', 'C09'), ('grid_f', 'C09'), smoke=8)
prop('C10', ('grid', 'C10'), ('grid_f', 'C10'), smoke=8)
prop('C26', ('reading', 'C26'), ('grid_f', 'C26'), smoke=10)
prop('C31', ('reading', 'C31'), ('settings_f', 'C31'), smoke=12)
for _p in ('C12', 'C13', 'C27', 'C33', 'C37'):
    prop(_p, ('walk', _p), ('walk_f', _p), smoke=10)
for _p in ('C18', 'C19', 'C20', 'C24', 'C36'):
    prop(_p, ('formats', _p), ('formats_f', _p), smoke=10)
for _p in ('C06', 'C25'):
    prop(_p, ('strings', _p), ('strings_f', _p), smoke=12)
prop('C11', ('compdoc', 'C11'), ('compdoc_f', 'C11'), smoke=12)
for _p in ('C21', 'C23'):
    prop(_p, ('books', _p), ('books_f', _p), smoke=12)
for _p in ('C16', 'C22', 'C34'):
    prop(_p, ('names', _p), ('names_f', _p), smoke=12)
prop('C17', ('formulas', 'C17'), ('formulas_f', 'C17'), smoke=12)
prop('C35', ('bookset', 'C35'), ('bookset_f', 'C35'), smoke=8)
for _p in ('C28', 'C29'):
    prop(_p, ('links', _p), ('links_f', _p), smoke=12)
