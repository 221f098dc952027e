"""structural summary of a loaded workbook, for comparing two loads"""
SKIP = set('''logfile mem filestr stream_len base _position book load_time_stage_1 load_time_stage_2 _sh_abs_posn use_mmap on_demand
_resources_released _sharedstrings _first_full_rowx _dimnrows _dimncols _cell_attr_to_xfx verbosity bt bf
_sheetsoffset raw_formula biff_version_ put_cell tidy_dimensions'''.split())


def view(o, seen=None, skip=SKIP):
    seen = {} if seen is None else seen
    if o is None or isinstance(o, (bool, int, str, bytes)):
        return o
    if isinstance(o, float):
        return repr(o)
    if isinstance(o, (list, tuple)):
        if type(o).__name__ == 'Ref3D':
            return ['Ref3D', [view(x, seen, skip) for x in (o.coords, o.relflags)]]
        return [view(x, seen, skip) for x in o]
    if isinstance(o, dict):
        return sorted(((repr(k), view(v, seen, skip)) for k, v in o.items()), key=lambda kv: kv[0])
    if callable(o):
        return None
    if id(o) in seen:
        return '<seen %s>' % seen[id(o)]
    seen[id(o)] = '%s%d' % (type(o).__name__, len(seen))
    if hasattr(o, 'tobytes') and not hasattr(o, '__dict__'):
        return list(o)
    d = {}
    names = list(getattr(o, '__dict__', {})) or list(getattr(type(o), '__slots__', ()))
    for k in sorted(names):
        if k in skip:
            continue
        d[k] = view(getattr(o, k, None), seen, skip)
    return [type(o).__name__, sorted(d.items())]


def bookview(bk):
    v = view(bk)
    return v


def diff(a, b, path='', out=None):
    """first difference of two views"""
    if type(a) is not type(b):
        return '%s: %r / %r' % (path, str(a)[:80], str(b)[:80])
    if isinstance(a, (list, tuple)):
        if len(a) == 2 and isinstance(a[0], str) and len(b) == 2 and isinstance(b[0], str) and a[0] == b[0]:
            return diff(a[1], b[1], path + '.' + a[0])
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, '%s[%d]' % (path, i))
            if r:
                return r
        if len(a) != len(b):
            return '%s: lengths %d / %d' % (path, len(a), len(b))
        return None
    return None if a == b else '%s: %r / %r' % (path, str(a)[:80], str(b)[:80])
