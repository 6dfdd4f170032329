"""Declarations made slightly wrong (or not): one or two small edits of a valid one.
Whether the outcome is still a valid declaration is for spec/Accept.tla to say."""
import copy, random
from dsl import *
import rand, gen

BAD_RX = ['(', ')', '[', '*', '+a', 'a{2,1}', '[z-a]', '\\', '\\q', '(?=a)', '\\1', '\\p{Bogus}', '(?z)', 'a{', '(a', 'a)', '[a', '(?', '(?:', 'a|*', '(?<!x)y', '?', '[\\d-z]{3', '(?i', '[^', 'a{99999999999}']
def bad_rx(rng, alone=True):
    return dict(k='bad', raw=rng.choice([x for x in BAD_RX if alone or x[0] not in '*+?']))

def attrs_of(c, w=None):
    for t in c.types:
        for owner in [t] + t['vs'] + [f for v in t['vs'] for f in v['fs']]:
            if owner in t['vs'] and t['kind'] == 'struct':
                continue
            for a in owner['attrs']:
                if w is None or a['w'] == w:
                    yield t, owner, a

def regexes(n, path=()):
    yield n
    for x in n.get('a', []):
        yield from regexes(x)

ARGS = list('{}:{}:.0x?# é_>a-1') + ['{}', '{{', '}}', '{a}', '{0}', '{value}', 'r#', ':x', ':?', ':>', ':e', ':1.', ':b', ':y', ':#?', ':5', ' ', '.0', '.a', '..', 'X', ':x?', 'o', ':\n', ':zz', ':E', ':0', ':-', ':}>3', ':{<2']
def edit_format(c, rng):
    l = [a for _, _, a in attrs_of(c) if a['fmt']]
    if not l:
        return False
    a = rng.choice(l)
    s = ''.join(map(chr, a['fmt'][0]))
    # mostly inside or at the edge of a placeholder
    spots = [i for i in range(len(s) + 1) if s[:i].count('{') > s[:i].count('}') or s[i:i + 1] in ('{', '}')]
    i = rng.choice(spots) if spots and rng.random() < .8 else rng.randrange(len(s) + 1)
    r = rng.random()
    if r < .5:
        s = s[:i] + rng.choice(ARGS) + s[i:]
    elif r < .75 and s:
        s = s[:i] + s[i + 1:]
    elif r < .9:
        s = s[:i] + rng.choice(ARGS) + s[i + 1:]
    else:
        j = rng.randrange(i, len(s) + 1)
        s = s[:i] + s[i:j] * 2 + s[j:]
    a['fmt'] = [T(s)]
    return True
def rename(c, rng):
    """a placeholder naming something else"""
    l = [a for _, _, a in attrs_of(c) if a['fmt'] and '{' in ''.join(map(chr, a['fmt'][0]))]
    if not l:
        return False
    a = rng.choice(l)
    s = ''.join(map(chr, a['fmt'][0]))
    import re
    ms = [m for m in re.finditer(r'\{([^{}:]*)', s)]
    if not ms:
        return False
    m = rng.choice(ms)
    names = [f['key'] for t in c.types for v in t['vs'] for f in v['fs'] if f['key']] + ['0', '1', '2', '9', 'nope', '', 'a.b', 'a.0', '0.0', '0.a', 'self', 'r#a', '01', 'a ', 'é']
    n = rng.choice(names)
    if rng.random() < .3:
        n = m.group(1) + '.' + rng.choice(names)
    a['fmt'] = [T(s[:m.start(1)] + n + s[m.end(1):])]
    return True
def drop_format(c, rng):
    l = [(o, a) for _, o, a in attrs_of(c) if a['fmt'] or a['rx']]
    if not l:
        return False
    o, a = rng.choice(l)
    if rng.random() < .5:
        o['attrs'] = [x for x in o['attrs'] if x is not a]
    else:
        a['fmt'] = []
    return True
def drop_part(c, rng):
    """a placeholder or group taken out"""
    import re
    l = [a for _, _, a in attrs_of(c) if a['fmt'] and '{' in ''.join(map(chr, a['fmt'][0]))]
    if not l:
        return False
    a = rng.choice(l)
    s = ''.join(map(chr, a['fmt'][0]))
    ms = list(re.finditer(r'\{[^{}]*\}', s))
    if not ms:
        return False
    m = rng.choice(ms)
    if rng.random() < .25:
        m2 = rng.choice(ms)
        a['fmt'] = [T(s[:m.end()] + m2.group(0) + s[m.end():])]
    else:
        a['fmt'] = [T(s[:m.start()] + s[m.end():])]
    return True
def style(c, rng):
    l = [a for _, _, a in attrs_of(c, 'd')]
    owners = [t for t in c.types] + [v for t in c.types if t['kind'] == 'enum' for v in t['vs']]
    st = rng.choice(['SnakeCase', 'snakecase', 'lowerCase', 'camelcase', 'Kebab-Case', '', 'None', 'upper', 'TITLE_CASE', 'title', 'snake_case ', 'lower case', 'Titlecase', 'CAMELCASE', 'UPPER', 'kebab_case', 'Title  Case'] + rand.STYLES)
    if l and rng.random() < .5:
        rng.choice(l)['style'] = [st]
    else:
        rng.choice(owners)['attrs'].append(d(style=st))
    return True
def fields_of(c, F_=False):
    return [(t, v, f) for t in c.types if not F_ or 'F' in t['ds'] for v in t['vs'] for f in v['fs']]
def opt_attr(c, rng):
    l = fields_of(c)
    if not l:
        return False
    t, v, f = rng.choice(l)
    if rng.random() < .5 and any(a['opt'] for a in f['attrs']):
        for a in f['attrs']:
            a['opt'] = False
    else:
        f['attrs'].append(d(opt=True))
    return True
def dflt(c, rng):
    l = [t for t in c.types if 'F' in t['ds']]
    if not l:
        return False
    t = rng.choice(l)
    r = rng.random()
    if r < .35:
        t['attrs'].append(fs(default=True))
    elif r < .75:
        keys = [str(i) if f['key'] is None else f['key'] for v in t['vs'] for i, f in enumerate(v['fs'])]
        owner = rng.choice([t] + (t['vs'] if t['kind'] == 'enum' else []))
        owner['attrs'].append(fs(default_fields=[rng.choice(keys + ['nope', '0', '7', 'b'])  for _ in range(rng.choice([1, 1, 2]))]))
    else:
        l = [f for v in t['vs'] for f in v['fs']]
        if not l:
            return False
        f = rng.choice(l)
        if rng.random() < .5 and any(a['dflt'] for a in f['attrs']):
            for a in f['attrs']:
                a['dflt'] = False
        else:
            f['attrs'].append(fs(default=True))
    return True
def regex(c, rng):
    l = [(t, o, a) for t, o, a in attrs_of(c, 'f') if a['rx']]
    r = rng.random()
    if l and r < .6:
        t, o, a = rng.choice(l)
        q = rng.random()
        caps = [n for n in regexes(a['rx'][0]) if n['k'] == 'cap']
        if caps and q < .6:
            n = rng.choice(caps)
            n['n'] = T(rng.choice(['nope', 'zz', '9', 'a', '0', 'a.b', 'a.0', '', 'b'] + [x['key'] for _, _, x in fields_of(c) if x['key']]))
        elif q < .8:
            a['rx'] = [bad_rx(rng)]
        else:
            a['rx'] = [cat(a['rx'][0], bad_rx(rng, False))] if rng.random() < .7 else [cat(a['rx'][0], copy.deepcopy(a['rx'][0]))]
        return True
    l = fields_of(c, True)
    if not l:
        return False
    t, v, f = rng.choice(l)
    x = bad_rx(rng) if rng.random() < .5 else rng.choice([cap(rng.choice(['', 'a', '0', 'x.y', 'value']), star(DOT)), cat(cap('', DOT), cap('', DOT)), rand.rand_rx(rng)])
    if rng.random() < .6:
        f['attrs'].append(fs(regex=x))
    else:
        (v if t['kind'] == 'enum' else t)['attrs'].append(fs(regex=x))
    return True
def derive(c, rng):
    l = [t for t in c.types[:-1] if not any(a['w'] == 'f' for tt, _, a in attrs_of(c) if tt is t)]
    if not l:
        return False
    t = rng.choice(l)
    x = rng.choice([y for y in 'DF' if y in t['ds']] or ['Z'])
    if len([y for y in t['ds'] if y in 'DF']) < 2:
        return False
    t['ds'] = t['ds'].replace(x, '')
    return True
def type_(c, rng):
    """a field of another type"""
    l = [f for t, _, f in fields_of(c) if f['ty']['k'] not in ('named', 'param') and 'M' not in t['ds']]
    if not l or any(t['dv'] is not None for t in c.types) or any(a['new'] for _, _, a in attrs_of(c)):
        return False
    f = rng.choice(l)
    f['ty'] = rng.choice([Vec(U8), Opt(U8), Tup(U8, U8), P('nzu8'), STR, F64, CHAR, BOOL])
    return True
def with_(c, rng):
    l = fields_of(c, True)
    if not l:
        return False
    t, v, f = rng.choice(l)
    if 'param' in repr(f['ty']):
        return False
    x = d(with_=rng.choice(['dis', 'hex', 'num', Join(W('fmt'), ','), 'brk', 'pad'])) if rng.random() < .6 else fs(with_=rng.choice(['fro', 'hex', 'num', Join(W('hex'), ',')]))
    if x['w'] == 'd' and x['with'][0].get('n') == 'pad' and f['ty']['k'] != 'str':
        return False
    f['attrs'].append(x)
    return True
KINDS = [(edit_format, 6), (rename, 4), (drop_format, 2), (drop_part, 3), (style, 1.5), (opt_attr, 1.5), (dflt, 3), (regex, 4), (derive, 1), (type_, 2), (with_, 1.5)]

def mutated(rng, prof, id):
    while True:
        c = rand.rand_case(rng, prof, id, dict(nd=0, npos=2, nmut=0, rx=0, rt=0, padded=0))
        c.types = copy.deepcopy(c.types)
        c._mono = None
        done = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            f = rng.choices([k for k, _ in KINDS], [w for _, w in KINDS])[0]
            if f(c, rng):
                done.append(f.__name__)
        if not done:
            continue
        # values shown in operations may not fit any more: keep the texts
        c.ops = [o for o in c.ops if o[1] == 'parse' and 'F' in c.types[-1]['ds']]
        c.note = '+'.join(done)
        if sane(c):
            return c

def sane(c):
    """leaves out what the properties say nothing about"""
    for t, o, a in attrs_of(c):
        for s in a['fmt']:
            x = ''.join(map(chr, s))
            if '$' in x and ':' in x or '.*' in x and ':' in x or ':p' in x:
                return False
    for _, _, f in fields_of(c):
        # join writes whatever can be iterated over, an Option too
        if f['ty']['k'] == 'opt' and any(w['n'] == 'join' for a in f['attrs'] for w in a['with']):
            return False
    return True
