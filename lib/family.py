"""Families of declarations written by the models spec/MC_*.tla, as cases to be compiled and run."""
import itertools, json
from dsl import *

def S(x):
    return ''.join(map(chr, x))
def ty(t, names):
    k = t['k']
    if k in ('opt', 'vec', 'ref', 'box'):
        return Ty(k=k, e=ty(t['e'], names))
    if k == 'tup':
        return Ty(k=k, es=[ty(x, names) for x in t['es']])
    if k == 'named':
        return N(names[t['n'] - 1])
    return Ty(t)
def attr(a):
    a = dict(a)
    a['_extra'] = []
    a['new'] = [dict(x) for x in a['new']]
    return a
def decl(t, names):
    vs = []
    for v in t['vs']:
        fs_ = [dict(key=None if v['shape'] == 'tuple' else S(f['key']), ty=ty(f['ty'], names), attrs=[attr(a) for a in f['attrs']], ident=None) for f in v['fs']]
        vs.append(dict(name=S(v['name']), shape=v['shape'], attrs=[attr(a) for a in v['attrs']], fs=fs_, ident=None, extra=''))
    return dict(name=S(t['name']), kind=t['kind'], attrs=[attr(a) for a in t['attrs']], vs=vs, ds=''.join(t['ds']), params='', dv=t['dv'][0] if t['dv'] else None, extra='', ident=None, where='')
def texts(alpha, n):
    for k in range(n + 1):
        for x in itertools.product(alpha, repeat=k):
            yield list(x)
def cases(path, prefix, ops):
    """ops: which operations are run on the texts ('parse', 'rx') and the values ('display', 'padded', 'rt')"""
    out = []
    for i, e in enumerate(json.load(open(path))):
        names = [S(t['name']) for t in e['d']['types']]
        c = Case('%s%d' % (prefix, i), *[decl(t, names) for t in e['d']['types']], roots=[N(names[e['root'] - 1])])
        c.tags, c.auto, c.opts = set(), False, {}
        ds = c.type(names[e['root'] - 1])['ds']
        for x in itertools.chain(texts(e['alpha'], e['n']), e['extra']):
            if 'F' in ds:
                if 'parse' in ops:
                    c.ops.append((0, 'parse', x))
                if 'rx' in ops or e['rx']:
                    c.ops.append((0, 'rx', x))
        for v in e['vals']:
            for o in ('display', 'padded', 'short', 'rt'):
                if o in ops and 'D' in ds and (o != 'rt' or 'F' in ds):
                    c.ops.append((0, o, v))
        out.append(c)
    return out
