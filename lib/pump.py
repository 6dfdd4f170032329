"""Inputs of any length: a run of one character that no literal of the declaration contains is as good as a short one.

The real code gets texts with runs of LONG characters; runs of exactly LONG in what it is given and answers are written
as runs of KEPT for TLC, which then decides an ordinary event (of another length: the run was cut, and the event is refused).
Fields take any text, or `[..]*`, so the length of a run matters to no declaration here."""
import random
from dsl import *
decl = struct

LONG, KEPT = 70001, 4
SEPS = ['-', ',', ' ', ':', '/', '=>', '{{', '}}', '\n', 'é', '.', '*', '|', '(', '日', '<>', ';; ']
RUN = ['q', 'µ', '語', '😀', '_', '0', '\n', '+', '"']

def collapse(x):
    if isinstance(x, dict):
        return {k: collapse(v) for k, v in x.items()}
    if not isinstance(x, list) or not x:
        return x
    if not isinstance(x[0], int):
        return [collapse(y) for y in x]
    if len(x) < 1000:
        return x
    o, i = [], 0
    while i < len(x):
        j = i
        while j < len(x) and x[j] == x[i]:
            j += 1
        k = j - i
        o += [x[i]] * (k if k < 100 else KEPT if k == LONG else KEPT + 5)
        i = j
    return o

def fields(rng, name, c, inner=None):
    n = rng.choice([1, 2, 2, 3])
    seps = [x for x in SEPS if c not in x]
    ks = [None] * n if rng.random() < .4 else rng.sample(['a', 'b', 'c', 'xs', 'd1'], n)
    fl, fmt, names = [], rng.choice(['', '', rng.choice(seps)]), []
    for i, k in enumerate(ks):
        ty, a = STR, []
        r = rng.random()
        if c == '0' and r < .4:
            ty = rng.choice([U8, U64, I32])
        elif inner and r < .6:
            ty, inner = N(inner), None
        elif r < .2:
            a.append(d(rng.choice(['<{}>', '{}!', '={}'])))
        elif r < .35:
            ty, a = Opt(STR), [d(opt=True)]
        elif r < .5 and c not in '-é日':
            a.append(fs(regex=rep(cls('-é日', neg=True), rng.choice([0, 1]), -1, rng.random() < .7)))
        fl.append(F(k, ty, *a))
        fmt += (rng.choice(seps) if i else '') + '{%s}' % (i if k is None else k)
    return fl, fmt + rng.choice(['', '', rng.choice(seps)])

def case(rng, id, ops):
    c = rng.choice(RUN)
    types = []
    if rng.random() < .35:
        fl, fmt = fields(rng, 'I', c)
        types.append(decl('I', *fl, attrs=[d(fmt)]))
    inner = 'I' if types else None
    if rng.random() < .35:
        vs = [V('Az')]
        for nm in ('Bee', 'Cy')[:rng.choice([1, 2])]:
            fl, fmt = fields(rng, nm, c, inner)
            vs.append(V(nm, *fl, attrs=[d(rng.choice(['', '{}']) + fmt)]))
        rng.shuffle(vs)
        types.append(enum('X', *vs))
    else:
        fl, fmt = fields(rng, 'X', c, inner)
        types.append(decl('X', *fl, attrs=[d(fmt)]))
    k = Case(id, *types)
    k.tags, k.auto, k.pump = set(), False, True
    import gen
    run = T(c) * LONG
    def pumped(v):
        """the value with runs in some of its strings"""
        if isinstance(v, dict):
            return dict(v, f=[pumped(x) for x in v['f']])
        if not isinstance(v, list) or (v and not isinstance(v[0], int)):
            return [pumped(x) for x in v]
        if rng.random() < .5:
            return v
        i = rng.randrange(len(v) + 1)
        return v[:i] + run + v[i:]
    def strings(v, ty):
        """pumped, but only where there are strings"""
        if ty['k'] == 'str':
            return pumped(v)
        if ty['k'] == 'opt':
            return [strings(x, ty['e']) for x in v]
        if ty['k'] == 'named':
            t = k.type(ty['name'])
            if t['kind'] == 'enum':
                return dict(v, f=[strings(x, f['ty']) for x, f in zip(v['f'], t['vs'][v['v'] - 1]['fs'])])
            return [strings(x, f['ty']) for x, f in zip(v, t['vs'][0]['fs'])]
        return v
    root = k.roots[0]
    ok = lambda s: c * 2 not in s and not gen.SKIP & set(s)
    for op in ops:
        if op == 'parse':
            s = gen.text_of(k, root, rng)
            s = gen.mutate(s, rng) if rng.random() < .4 else s
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(len(s) + 1)
                if c not in s[max(0, i - 1):i + 1]:
                    s = s[:i] + c * LONG + s[i:]
            if len(s) > LONG and c not in s.replace(c * LONG, ''):
                k.ops.append((0, 'parse', T(s)))
        else:
            v = strings(gen.gen_value(k, root, rng), root)
            if ok_value(v, T(c)[0]):
                k.ops.append((0, op, v))
    return k

def ok_value(v, c):
    """runs of c are of length LONG only"""
    if isinstance(v, dict):
        return ok_value(v['f'], c)
    if not isinstance(v, list) or not v:
        return True
    if not isinstance(v[0], int):
        return all(ok_value(x, c) for x in v)
    return v.count(c) in (0, LONG)

def cases(pid, seed, n, *ops):
    return [case(random.Random('%s/%s/pump/%d' % (seed, pid, i)), 'p%d' % i, ops) for i in range(n)]
