"""Model of the CosmoSIS data block: a map from (section, name) to values; names are case-insensitive; reading a name that
is absent without a default raises; a grid is three entries (two axes and the table)."""
from . import graph as G
from .arrays import Unknown
from .values import ExtObj


def key_of(sec, name):
    if not isinstance(sec, str) or not isinstance(name, str):
        raise Unknown('symbolic name in the data block')
    return (sec.lower(), name.lower())


def make(values=None, tag='block'):
    """values: {(section, name): value}"""
    b = ExtObj('block', {})
    for (s, n), v in (values or {}).items():
        b.f[(s.lower(), n.lower())] = v
    b.f['#tag'] = tag
    return b


def missing(interp, k):
    from .interp import RaiseSig
    raise RaiseSig('ValueError', G.CUR_SITE[0])


def get(interp, o, k, has_default=False, default=None):
    if k in o.f:
        interp.block_reads.setdefault(o.f['#tag'], set()).add(k)
        return o.f[k]
    interp.block_missing.setdefault(o.f['#tag'], set()).add(k)
    if has_default and default is not None:
        return default
    return missing(interp, k)


def put(interp, o, k, v):
    interp.put(o, k, v)
    interp.block_writes.append((o.f['#tag'], k, G.CUR_SITE[0]))


def getitem(interp, o, key):
    return get(interp, o, key_of(*key))


def setitem(interp, o, key, v):
    try:
        put(interp, o, key_of(*key), v)
    except (Unknown, TypeError):
        interp.lost.append(G.CUR_SITE[0])
        raise Unknown('symbolic name in the data block')


GETTERS = ('get', 'get_double', 'get_int', 'get_bool', 'get_string', 'get_double_array_1d', 'get_double_array_nd',
           'get_int_array_1d', 'get_string_array_1d')
PUTTERS = ('put', 'put_double', 'put_int', 'put_bool', 'put_string', 'put_double_array_1d', 'put_double_array_nd',
           'put_int_array_1d', 'put_string_array_1d')


def bind(names, args, kw):
    d = dict(zip(names, args))
    if len(args) > len(names):
        raise Unknown('data block arguments')
    d.update(kw)
    return d


def method(interp, o, name, args, kw):
    try:
        return _method(interp, o, name, args, kw)
    except (Unknown, AttributeError):
        interp.lost.append(G.CUR_SITE[0])
        raise Unknown('data block access')


def _method(interp, o, name, args, kw):
    if name == 'has_value':
        a = bind(('section', 'name'), args, kw)
        k = key_of(a['section'], a['name'])
        interp.block_reads.setdefault(o.f['#tag'], set()).add(k)
        return k in o.f
    if name == 'has_section':
        return any(isinstance(k, tuple) and k[0] == args[0].lower() for k in o.f)
    if name in GETTERS:
        a = bind(('section', 'name', 'default'), args, kw)
        return get(interp, o, key_of(a['section'], a['name']), 'default' in a, a.get('default'))
    if name in PUTTERS or name.replace('replace', 'put') in PUTTERS:
        a = bind(('section', 'name', 'value'), args, kw)
        put(interp, o, key_of(a['section'], a['name']), a['value'])
        return None
    if name in ('put_grid', 'replace_grid'):
        a = bind(('section', 'name_x', 'x', 'name_y', 'y', 'name_z', 'z'), args, kw)
        for n, v in (('name_x', 'x'), ('name_y', 'y'), ('name_z', 'z')):
            put(interp, o, key_of(a['section'], a[n]), a[v])
        put(interp, o, (a['section'].lower(), '_grid_' + a['name_z'].lower()), (a['name_x'].lower(), a['name_y'].lower()))
        return None
    if name == 'get_grid':
        a = bind(('section', 'name_x', 'name_y', 'name_z'), args, kw)
        out = [get(interp, o, key_of(a['section'], a[n])) for n in ('name_x', 'name_y', 'name_z')]
        order = o.f.get((a['section'].lower(), '_grid_' + a['name_z'].lower()))
        if order is None:
            return tuple(out)
        if order == (a['name_x'].lower(), a['name_y'].lower()):
            return tuple(out)
        if order == (a['name_y'].lower(), a['name_x'].lower()):
            return (out[0], out[1], interp.getattr(out[2], 'T'))
        return missing(interp, (a['section'], a['name_z']))
    if name == 'get_metadata':
        a = bind(('section', 'name', 'key'), args, kw)
        return get(interp, o, (a['section'].lower(), a['name'].lower() + '#' + a['key']))
    if name in ('put_metadata', 'replace_metadata'):
        a = bind(('section', 'name', 'key', 'value'), args, kw)
        if not all(isinstance(a[x], str) for x in ('section', 'name', 'key')):
            raise Unknown('symbolic name in the data block')
        put(interp, o, (a['section'].lower(), a['name'].lower() + '#' + a['key']), a['value'])
        return None
    if name == 'log_access':
        return None
    raise Unknown(f'data block method {name}')
