"""Random values, texts and declarations (VERIF_SEED decides every choice)."""
import random
from dsl import *

INT_RANGE = {}
for _k in INTS:
    b = 64 if 'size' in _k else int(_k[1:])
    INT_RANGE[_k] = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if _k[0] == 'i' else (0, (1 << b) - 1)

STRINGS = ['', 'a', 'ab', 'A b', '-', 'x1', 'é', '日本', '{', '}', '{}', '{{', 'a-b', '\n', 'a\nb', '.*', '(', ')', '\\', '[x]', '0', '12', '--', 'αβ', '😀',
           'e\u0301', ' ', '  a ', 'abc', 'None', 'true', '^a$', '|', ',', ', ', ':', '=', '+1', '-5', '\t', '"', "'", 'a"b', '\r\n', '#', '&&', '~']
CHARS = ['a', 'Z', '0', '-', '\n', 'é', '日', '😀', ' ', '{', '\\', '"', "'", '.', '(']
FLOATS = ['0', '1', '1.5', '-0.25', '100', 'NaN', 'inf', '-inf', '-0', '0.001', '123.456', '-7']

BEL = 0     # how often a Prb is one that fails to be displayed
def gen_value(case, ty, rng, depth=0):
    k = ty['k']
    if k in INTS or k.startswith('nz'):
        lo, hi = INT_RANGE[k[2:] if k.startswith('nz') else k]
        pool = [v for v in (0, 1, 2, 5, 7, 9, 10, 12, 15, 16, 42, 99, 100, 255, 1000, 65535, lo, hi, -1, -5, -10, -128, lo + 1, hi - 1) if lo <= v <= hi
                and not (k.startswith('nz') and v == 0)]
        return T(str(rng.choice(pool)))
    if k == 'str':
        return T(rng.choice(STRINGS))
    if k in ('prb', 'path', 'os'):
        x = rng.choice(STRINGS)
        if BEL and k == 'prb' and rng.random() < BEL:
            i = rng.randrange(len(x) + 1)
            x = x[:i] + '\7' + x[i:]
        return T(x)
    if k in ('ref', 'box'):
        return gen_value(case, ty['e'], rng, depth)
    if k == 'char':
        return T(rng.choice(CHARS))
    if k == 'bool':
        return T(rng.choice(['true', 'false']))
    if k in ('f32', 'f64'):
        return T(rng.choice(FLOATS))
    if k == 'opt':
        return [] if rng.random() < 0.4 else [gen_value(case, ty['e'], rng, depth + 1)]
    if k == 'vec':
        return [gen_value(case, ty['e'], rng, depth + 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if k == 'tup':
        return [gen_value(case, t, rng, depth + 1) for t in ty['es']]
    if k == 'named':
        d_ = case.type(ty['name'])
        env = dict(zip(tparams(d_), ty['args']))
        if d_['kind'] == 'struct':
            return [gen_value(case, subst(f['ty'], env), rng, depth + 1) for f in d_['vs'][0]['fs']]
        i = rng.randrange(len(d_['vs']))
        return dict(v=i + 1, f=[gen_value(case, subst(f['ty'], env), rng, depth + 1) for f in d_['vs'][i]['fs']])
    raise ValueError(k)

def tparams(d_):
    return [p.split(':')[0].strip() for p in d_['params'].split(',') if p.strip() and not p.strip().startswith("'")]
def subst(t, env):
    k = t['k']
    if k == 'param':
        return env[t['name']]
    if k in ('opt', 'vec', 'ref', 'box'):
        return Ty(k=k, e=subst(t['e'], env))
    if k == 'tup':
        return Ty(k=k, es=[subst(x, env) for x in t['es']])
    if k == 'named':
        return Ty(k=k, name=t['name'], args=[subst(x, env) for x in t['args']])
    return t

# ---- texts: only seeds of inputs, their verdict is the specification's -----------------
def style_of(style, s):
    words, last = [], '\0'
    head = True
    for c in s:
        if not c.isalnum():
            head = True
            continue
        if head or (not ('A' <= last <= 'Z') and 'A' <= c <= 'Z'):
            words.append('')
        words[-1] += c
        head, last = False, c
    sep = {'s': '_', 'S': '_', 'k': '-', 'K': '-', 'T': ' ', 't': ' '}.get(style[0], '') if '_' in style or '-' in style or ' ' in style else ''
    if style == 'none':
        return s
    if style[0] == style[0].upper() and style[1] == style[1].upper():
        return sep.join(words).upper()
    w = [x.lower() for x in words]
    if style in ('camelCase', 'CamelCase', 'Title Case'):
        w = [x[:1].upper() + x[1:] for x in w]
        if style == 'camelCase' and w:
            w[0] = w[0].lower()
    elif style == 'Title case' and w:
        w[0] = w[0][:1].upper() + w[0][1:]
    return sep.join(w)

def split_fmt(f):
    """parts of a format: str or ('var', arg, spec)"""
    out, i = [], 0
    while i < len(f):
        if f[i:i + 2] in ('{{', '}}'):
            out.append(f[i])
            i += 2
        elif f[i] == '{':
            j = f.index('}', i)
            a = f[i + 1:j].split(':', 1)
            out.append(('var', a[0], a[1] if len(a) > 1 else ''))
            i = j + 1
        else:
            out.append(f[i])
            i += 1
    return out

def sample_rx(n, rng, nm=''):
    k = n['k']
    if k == 'lit':
        return ''.join(map(chr, n['s']))
    if k == 'cls':
        if n['neg']:
            return rng.choice([c for c in 'xyz -019é' if not any(a <= ord(c) <= b for a, b in n['r'])] or ['?'])
        a, b = rng.choice(n['r'])
        return chr(rng.randint(a, min(b, a + 30)))
    if k == 'any':
        return rng.choice('ab1- é')
    if k == 'cat':
        return ''.join(sample_rx(x, rng, nm) for x in n['a'])
    if k == 'alt':
        return sample_rx(rng.choice(n['a']), rng, nm)
    if k == 'rep':
        hi = n['hi'] if n['hi'] >= 0 else n['lo'] + 2
        return ''.join(sample_rx(n['a'][0], rng, nm) for _ in range(rng.randint(n['lo'], hi)))
    if k == 'cap' and not n['n'] and nm:
        return nm
    if k in ('cap', 'grp', 'dotall', 'nci', 'nds'):
        return sample_rx(n['a'][0], rng, nm)
    if k == 'ci':
        s = sample_rx(n['a'][0], rng, nm)
        return ''.join(c.upper() if rng.random() < 0.3 else c.lower() if rng.random() < 0.3 else c for c in s if True)
    return ''

def resolve(attrs):
    r = dict(fmt=None, rx=None, w=None, opt=False, style=None, ign=False, infer=False)
    for kind in 'df':
        for a in attrs:
            if a['w'] != kind:
                continue
            if a['fmt']:
                r['fmt'] = ''.join(map(chr, a['fmt'][0]))
            if a['rx']:
                r['rx'] = a['rx'][0]
            if a['with']:
                r['w'] = a['with'][0]
            r['opt'] |= a['opt']
            r['ign'] |= a['ign']
            r['infer'] |= a['infer']
            if a['style']:
                r['style'] = a['style'][0]
    return r

def text_of(case, ty, rng, depth=0):
    k = ty['k']
    if k == 'named':
        d_ = case.type(ty['name'])
        env = dict(zip(tparams(d_), ty['args']))
        if not d_['vs']:
            return 'x'
        v = rng.choice(d_['vs'])
        ta, va = resolve(d_['attrs']), resolve(v['attrs'])
        nm = style_of(va['style'] or ta['style'] or 'none', v['name']) if d_['kind'] == 'enum' else ''
        if d_['kind'] == 'enum' and va['rx']:
            return sample_rx(va['rx'], rng, nm)
        fmt = None
        if d_['kind'] == 'enum' and va['fmt'] is not None:
            fmt = va['fmt']
        elif ta['rx']:
            return sample_rx(ta['rx'], rng, nm)
        elif ta['fmt'] is not None:
            fmt = ta['fmt']
        if fmt is None:
            if d_['kind'] == 'struct' and len(v['fs']) == 1:
                return field_text(case, v['fs'][0], env, rng, depth)
            return nm
        out = ''
        for p in split_fmt(fmt):
            if isinstance(p, str):
                out += p
            elif p[1] == '':
                out += nm
            else:
                key = p[1].split('.')[0].replace('r#', '')
                f = [f for i, f in enumerate(v['fs']) if (f['key'] if f['key'] is not None else str(i)) == key]
                if not f:
                    out += '?'
                elif '.' in p[1]:
                    out += rng.choice(['1', '23', 'a', '', '-4'])
                else:
                    out += field_text(case, f[0], env, rng, depth)
        return out
    if k in ('ref', 'box'):
        return text_of(case, ty['e'], rng, depth)
    if k in ('opt', 'vec', 'tup'):
        return rng.choice(['', '1'])
    s = ''.join(map(chr, gen_value(case, ty, rng)))
    if k in INTS and rng.random() < 0.15:
        s = rng.choice(['+', '0', '00', ' ', '-', 'x']) + s
    return s

def field_text(case, f, env, rng, depth):
    a = resolve(f['attrs'])
    ty = subst(f['ty'], env)
    if a['opt']:
        if rng.random() < 0.4:
            return ''
        if ty['k'] == 'opt':
            ty = ty['e']
    if a['rx']:
        inner = sample_rx(a['rx'], rng)
    elif a['w']:
        inner = with_text(case, a['w'], ty, rng, depth)
    else:
        inner = text_of(case, ty, rng, depth + 1)
    if a['fmt'] is not None and not (a['rx'] and 'cap' in repr(a['rx'])):
        return ''.join(p if isinstance(p, str) else (inner if p[1] == '' else rng.choice(['1', '2', 'a'])) for p in split_fmt(a['fmt']))
    return inner

def with_text(case, w, ty, rng, depth):
    n = w['n']
    if n == 'join':
        d_ = ''.join(map(chr, w['d']))
        return d_.join(with_text(case, w['item'][0], ty.get('e', STR), rng, depth) for _ in range(rng.choice([0, 1, 2, 3])))
    if n == 'alt':
        return rng.choice(['a', 'abc', '12', '7', 'ccb'])
    if n == 'alt2':
        return rng.choice(['a', 'ab'])
    if n == 'grp':
        return rng.choice(['x', 'y1', 'x2'])
    if n == 'nest':
        return ''.join(rng.choice(['x', 'y1', 'x23', 'y']) for _ in range(rng.choice([1, 1, 2, 3])))
    if n == 'old':
        return rng.choice(['a', 'zz', 'A'])
    if n == 'cis':
        return rng.choice(['ab', 'aB', 'AB'])
    if n == 'rej':
        return rng.choice(['no', 'yes', 'a'])
    if n == 'rx':
        return sample_rx(w['re'][0], rng)
    if n == 'hex':
        return rng.choice(['0', 'ff', '1a', 'FF', ''])
    t = text_of(case, ty, rng, depth + 1)
    if n in ('brk', 'brkr'):
        return '[' + t + ']'
    if n in ('dis', 'fro'):
        return '<' + t + '>'
    return t

INSERT = ['', 'x', '0', '9', '-', ' ', '\n', '.', '*', '(', '[', '\\', '{', '}', 'é', '😀', '\u0301', '\0', 'A', '"', '+', '\r', '\u2028', '^', '$', '|', '?', ',', '\x7f', '\ufeff']
def mutate(s, rng):
    n = rng.random()
    i = rng.randrange(len(s) + 1)
    if n < 0.35:
        return s[:i] + rng.choice(INSERT) + s[i:]
    if n < 0.55 and s:
        i = rng.randrange(len(s))
        return s[:i] + s[i + 1:]
    if n < 0.65:
        return s + rng.choice(INSERT)
    if n < 0.75:
        return rng.choice(INSERT) + s
    if n < 0.82 and s:
        i = rng.randrange(len(s))
        return s[:i] + s[i].swapcase() + s[i + 1:]
    if n < 0.9 and s:
        j = rng.randrange(len(s) + 1)
        return s[:min(i, j)] + s[min(i, j):max(i, j)] * 2 + s[max(i, j):]
    if n < 0.95 and len(s) > 1:
        i = rng.randrange(len(s) - 1)
        return s[:i] + s[i + 1] + s[i] + s[i + 2:]
    return s[:i]

SKIP = set('\u212a\u017fıİ')
def faulty(case, ty, rng):
    global BEL
    BEL = .3
    try:
        return gen_value(case, ty, rng)
    finally:
        BEL = 0
def auto(case, rng, nd=6, npos=8, nmut=10, rx=4, padded=1, maxlen=60, rt=0, short=0):
    """adds operations for every root that supports them"""
    for r, ty in enumerate(case.roots):
        t = case.type(ty['name']) if ty['k'] == 'named' else None
        ds = t['ds'] if t else 'DF'
        seen = {(op, repr(a)) for (rr, op, a) in case.ops if rr == r}
        def add(op, arg):
            if op in ('parse', 'rx') and (len(arg) > maxlen or SKIP & set(map(chr, arg))):
                return
            if (op, repr(arg)) not in seen:
                seen.add((op, repr(arg)))
                case.ops.append((r, op, arg))
        empty = t and t['kind'] == 'enum' and not t['vs']
        if 'D' in ds and not empty:
            for i in range(nd):
                v = gen_value(case, ty, rng)
                add('display', v)
                if i < padded:
                    add('padded', v)
            for i in range(short):
                add('short', faulty(case, ty, rng) if i % 2 else gen_value(case, ty, rng))
            if t and t['kind'] == 'enum':
                for i in range(min(4, len(t['vs']))):
                    for _ in range(2):
                        v = gen_value(case, ty, rng)
                        add('display', v)
        if 'D' in ds and 'F' in ds and not empty:
            for i in range(rt):
                add('rt', gen_value(case, ty, rng))
        if 'F' in ds:
            texts = [text_of(case, ty, rng) for _ in range(npos)]
            for s in texts:
                add('parse', T(s))
            for _ in range(nmut):
                m = mutate(rng.choice(texts), rng)
                if rng.random() < 0.3:
                    m = mutate(m, rng)
                add('parse', T(m))
                if rx:
                    rx -= 1
                    add('rx', T(m))
            for s in texts[:3]:
                if rx is not False and not empty:
                    add('rx', T(s))
    return case
