"""Big declarations: many fields, many variants, deep nesting, long texts."""
import random
from dsl import *
import gen, rand
from rand import SEPS, NAMES

TYS = [U8, U8, U8, U16, U32, BOOL, U64, STR, STR, I32, CHAR]
SAFE = ['-', ',', ' ', ':', '/', '=', '|', ';', '&', '~', '%', '::', '=>', ', ']
def keys(rng, n):
    if rng.random() < .5:
        return [None] * n
    pool = ['f%d' % i for i in range(30)] + ['a', 'b', 'c', 'z', 'ab', 'abc', 'a1', 'a10', 'a2', 'value', 'value_1', 'é', 's', 'type', 'B', 'Z', '_1', '_10', '_2']
    return rng.sample(pool, n)
def many(rng, n, g, ctx=''):
    """n fields of few types, a format naming each once; (fields, format)"""
    ks = keys(rng, n)
    t0 = rng.choice(TYS)
    fl = []
    for k in ks:
        ty = t0 if rng.random() < .7 else rng.choice(TYS)
        a = []
        if rng.random() < .12:
            a.append(d('<{}>'))
        if rng.random() < .1:
            ty = Opt(ty)
            a.append(d('?{}', opt=True))
        fl.append(F(k, ty, *a))
    order = list(range(n))
    if rng.random() < .6:
        rng.shuffle(order)
    sep = rng.choice(SAFE)
    fmt = ''
    for p, i in enumerate(order):
        fmt += ('' if p == 0 else sep if rng.random() < .8 else rng.choice(SAFE)) + '{%s}' % (i if ks[i] is None else ks[i])
    return fl, ctx + fmt, order
def wide_struct(rng, name, n, named):
    fl, fmt, order = many(rng, n, None)
    attrs = [d(fmt)]
    r = rng.random()
    same = [(i, j) for i in range(n) for j in range(i) if repr(fl[i]['ty']) == repr(fl[j]['ty'])]
    if r < .2:
        new = list(range(n))
        rng.shuffle(same)
        for i, j in same[:3]:
            new[i], new[j] = new[j], new[i]
        # only a permutation within types is wanted
        if sorted(new) == list(range(n)) and all(repr(fl[new[i]]['ty']) == repr(fl[i]['ty']) for i in range(n)):
            attrs.append(fs(new=New(new, rng.choice(['self', 'opt', 'res']))))
    elif r < .4:
        drop = rng.sample(range(n), rng.choice([1, 2, 3]))
        keep = [i for i in order if i not in drop]
        attrs[0] = d(rng.choice(SAFE).join('{%s}' % (i if fl[i]['key'] is None else fl[i]['key']) for i in keep))
        if rng.random() < .5:
            attrs.append(fs(default_fields=[str(i) if fl[i]['key'] is None else fl[i]['key'] for i in drop if fl[i]['key'] != 'type']))
            for i in drop:
                if fl[i]['key'] == 'type':
                    fl[i]['attrs'].append(fs(default=True))
        else:
            for i in drop:
                fl[i]['attrs'].append(fs(default=True))
    elif r < .55:
        # the whole pattern as a regex
        parts = []
        for i in order:
            parts += [cap(str(i) if fl[i]['key'] is None else fl[i]['key'], star(DOT, rng.random() < .5)), rng.choice(['-', ',', ';', ':'])]
        parts.pop()
        attrs.append(fs(regex=cat(*parts)))
    return struct(name, *fl, attrs=attrs, ds='DF')
def wide_enum(rng, name, n, named):
    st = rng.choice([None, 'snake_case', 'kebab-case', 'UPPERCASE', 'Title Case'])
    vs = []
    for i in range(n):
        nm = ('V%d' % i if rng.random() < .5 else 'Var%c%dX' % (rng.choice('ABC'), i))
        r = rng.random()
        if r < .55:
            vs.append(V(nm, attrs=[d(rng.choice(['{}', '{}!', 'x{}', 'v%d' % (i // 2)]))] if rng.random() < .3 else []))
        elif r < .9 or n > 20:
            t = rng.choice([U8, U8, BOOL, CHAR, STR] + [N(x) for x in named])
            f = F(rng.choice([None, 'a', 'x']), t)
            k = '0' if f['key'] is None else f['key']
            vs.append(V(nm, f, attrs=[d(rng.choice(['{%s}', '<{%s}>', '{}={%s}', 'p{%s}', '{%s}.']) % k)]))
        else:
            fl, fmt, _ = many(rng, rng.choice([3, 6, 11]), None, '{}(')
            vs.append(V(nm, *fl, attrs=[d(fmt + ')')]))
        if rng.random() < .06:
            vs[-1]['attrs'].append(fs(ignore=True))
    if len({v['name'] for v in vs}) < n:
        return wide_enum(rng, name, n, named)
    return enum(name, *vs, attrs=[d(style=st)] if st else [], ds='DF')
def chain(rng, depth):
    """types within types within types"""
    out = [struct('N0', F(None, rng.choice([U8, STR, BOOL])), ds='DF')]
    for i in range(1, depth):
        inner = N('N%d' % (i - 1))
        r = rng.random()
        nm = 'N%d' % i
        if r < .35:
            out.append(struct(nm, F('a', inner), F('b', rng.choice([U8, STR])), attrs=[d(rng.choice(['{a}-{b}', '({a}){b}', '{b},{a}', '{a}%d{b}' % i]))], ds='DF'))
        elif r < .55:
            out.append(struct(nm, F('a', Opt(inner), d('[{}]', opt=True)), F('b', U8), attrs=[d('{b}{a}')], ds='DF'))
        elif r < .8:
            out.append(enum(nm, V('A', F(None, inner), attrs=[d('<{0}>')]), V('B', F('x', inner), F('y', inner), attrs=[d('{x}|{y}')]), V('C%d' % i), ds='DF'))
        else:
            out.append(struct(nm, F('a', inner, fs(infer=True)), F('b', STR), attrs=[d('{a}{b}')], ds='DF'))
    return out
def paths(rng, depth):
    """a format that names fields of fields of fields; every type on the way can be shown itself"""
    F_ = rng.random() < .7
    ds = 'DFM' if F_ else 'DM'
    names = ['a', 'b', 'n', 'type', 'value', 'é', '0x'[1:], 'fn', 'A']
    out, leaves = [], []
    def leaf():
        return rng.choice([U8, U8, STR, BOOL, I32, CHAR, F64])
    for i in range(depth):
        tup = rng.random() < .35
        n = rng.choice([1, 2, 2, 3])
        ks = [None] * n if tup else rng.sample(names, n)
        j = rng.randrange(n)
        fl = [F(ks[x], leaf() if i == 0 or x != j else (rng.choice([lambda t: t, lambda t: t, Box]) if i + 1 < depth or not out else (lambda t: t))(N('N%d' % (i - 1)))) for x in range(n)]
        key = lambda x: str(x) if ks[x] is None else ks[x]
        fmt = rng.choice(SAFE).join('{%s}' % key(x) for x in range(n))
        out.append(struct('N%d' % i, *fl, attrs=[d(fmt + '%d' % i)], ds=ds))
        # the paths that end here or below
        leaves = [[key(x)] + p for x in range(n) for p in ([[]] if i == 0 or x != j else [[]] + leaves)]
    ps = rng.sample(leaves, min(len(leaves), rng.choice([1, 2, 3])))
    if max(map(len, leaves)) not in map(len, ps):
        ps[0] = max(leaves, key=len)
    if F_:
        # no path within another
        ps = [p for i, p in enumerate(ps) if not any(q == p[:len(q)] or p == q[:len(p)] for q in ps[:i])]
    top = N('N%d' % (depth - 1))
    k, k2 = rng.choice([(None, None), ('r', 'q'), ('type', 'f'), ('x', 'xx')])
    f = F(k, rng.choice([top, top, Box(top)]), *([fs(default=True)] if F_ else []))
    g = F(k2, rng.choice([U8, STR]))
    rk, gk = ('0', '1') if k is None else (k, k2)
    sep = rng.choice(SAFE)
    if rng.random() < .25:
        # the path in the format of the field
        f['attrs'] = [d(sep.join('{%s}' % '.'.join(p) for p in ps))] + f['attrs']
        fmt = '{%s}%s{%s}' % (rk, sep, gk)
        one = [f, g]
    else:
        fmt = sep.join(['{%s}' % '.'.join([rk] + p) for p in ps] + ['{%s}' % gk])
        one = [f, g]
    if rng.random() < .3:
        v = V('A', *one, attrs=[d(fmt)])
        out.append(enum('X', V('B', attrs=[d('b')]), v, ds=ds.replace('M', '')))
    else:
        out.append(struct('X', *one, attrs=[d(fmt)], ds=ds.replace('M', '')))
    return out
def case(rng, id, ops):
    kind = rng.choice(['struct', 'struct', 'struct', 'enum', 'enum', 'chain', 'long', 'path', 'path'])
    if kind == 'struct':
        types = [wide_struct(rng, 'X', rng.randrange(10, 17), [])]
    elif kind == 'enum':
        types = [struct('I', F(None, U8), ds='DF'), wide_enum(rng, 'X', rng.choice([11, 14, 24, 40]), ['I'])]
    elif kind == 'path':
        types = paths(rng, rng.choice([2, 3, 4, 5, 6]))
    elif kind == 'chain':
        types = chain(rng, rng.choice([4, 5, 6]))
    else:
        w = ''.join(rng.choice('abc x.-(é{{') for _ in range(rng.choice([60, 200]))).replace('{{', '').replace('{', '{{')
        types = [rng.choice([lambda: struct('X', F('a', STR), F('b', U8), attrs=[d(w + '{a}' + rng.choice(SAFE) + '{b}' + w)]),
                             lambda: enum('X', V('A', attrs=[d(w)]), V('B', attrs=[d(w + 'b')]), V('C', F(None, STR), attrs=[d(w + '{0}')])),
                             lambda: struct('X', *[F('a%d' % i, STR) for i in range(4)], attrs=[d('{a0}%s{a1}%s{a2}%s{a3}' % (w[:20], w[20:40], w[40:60]) if w.count('{') == 0 else '{a0}-{a1}-{a2}-{a3}')])])()]
    c = Case(id, *types, roots=[N(types[-1]['name'])])
    c.tags, c.auto = set(), False
    gen.auto(c, rng, **dict(ops, maxlen=400))
    return c
def cases(pid, seed, k, ops):
    return [case(random.Random('%s/%s/wide/%d' % (seed, pid, i)), 'big%d' % i, ops) for i in range(k)]
