"""Declarations usable without the std feature: Display, and FromStr of fixed texts."""
import random
from dsl import *
import gen, rand

def fixed(t):
    """whether parsing t needs no pattern (the specification decides; this only selects)"""
    ta = gen.resolve(t['attrs'])
    for v in t['vs']:
        va = gen.resolve(v['attrs']) if t['kind'] == 'enum' else ta
        if t['kind'] == 'enum' and va['ign']:
            continue
        if va['rx'] or (ta['rx'] and va['fmt'] is None):
            return False
        f = va['fmt'] if va['fmt'] is not None else ta['fmt']
        if f is None:
            if t['kind'] == 'struct' or v['fs']:
                return False
        elif any(p[1] != '' for p in gen.split_fmt(f) if not isinstance(p, str)):
            return False
    return True

def strip(c):
    """the case without the parts that need std"""
    n = clone(c)
    for t in n.types:
        if 'F' in t['ds']:
            try:
                ok = fixed(t)
            except Exception:
                ok = False
            if not ok:
                t['ds'] = t['ds'].replace('F', '')
                for l in [t] + t['vs'] + [f for v in t['vs'] for f in v['fs']]:
                    l['attrs'] = [a for a in l['attrs'] if a['w'] == 'd']
                if 'D' not in t['ds']:
                    for l in [t] + t['vs'] + [f for v in t['vs'] for f in v['fs']]:
                        l['attrs'] = []
    def op_ok(r, op):
        ty = n.roots[r]
        ds = n.type(ty['name'])['ds'] if ty['k'] == 'named' else 'DF'
        return {'display': 'D' in ds, 'padded': 'D' in ds, 'short': 'D' in ds, 'rt': 'D' in ds and 'F' in ds, 'parse': 'F' in ds, 'rx': False}[op]
    n.ops = [(r, op, a) for r, op, a in n.ops if op_ok(r, op)]
    return n

def clone(c):
    import copy
    n = Case(c.id, *copy.deepcopy(c.types), roots=c.roots, prelude=c.prelude, ops=list(c.ops))
    n.tags, n.auto, n.opts = c.tags, c.auto, getattr(c, 'opts', {})
    return n

def usable(c):
    """whether the source of the case itself does without std"""
    return 'std::' not in c.rust().replace('::harness_support', '') and bool(c.ops)

TEXTS = ['', 'a', 'ab', 'x-y', '{{', '}}', '{{}}', 'a{{b}}c', 'é', '\n', '.*', '(', '\\', '^a$', 'A', '日本', ' ', '"q"', '#', '{{{{', 'a b', '\t', '+1', 'None']
def lit_case(rng, id, ops):
    g = rand.G(rng, rand.profile(fs=0, spec=.2, opt=.15, with_=.15, join=.1, fmt=.2))
    def fields(n):
        fl = []
        for f in g.fields(n, False, True, 1, []):
            if not g.hasdef(f['ty']):
                f['ty'] = U8
                f['attrs'] = []
            f['attrs'] = [a for a in f['attrs'] if a['w'] == 'd']
            fl.append(f)
        return fl
    if rng.random() < .5:
        n = rng.choice([0, 0, 1, 2, 3])
        fl = fields(n)
        attrs, ds, dv = [d(rng.choice(TEXTS))], 'DF', None
        how = rng.choice(['whole', 'own', 'fields', 'mixed']) if n else ''
        if how in ('whole', 'mixed'):
            attrs.append(fs(default=True))
            dv = [g.value(f['ty']) for f in fl]
            ds += 'm'
        if how in ('own', 'mixed'):
            for f in fl:
                if how == 'own' or rng.random() < .4:
                    f['attrs'].append(fs(default=True))
        if how == 'fields':
            attrs.append(fs(default_fields=[str(i) if f['key'] is None else f['key'] for i, f in enumerate(fl)]))
        if n and how in ('own', 'fields') and rng.random() < .4:
            attrs.append(fs(new=g.new(fl)))
        if rng.random() < .3:
            rng.shuffle(attrs)
        t = struct('X', *fl, attrs=attrs, ds=ds, dv=dv, shape=None if n else rng.choice(['unit', 'named', 'tuple']))
    else:
        vs = []
        for nm in rng.sample(rand.NAMES, rng.choice([0, 1, 2, 3, 4, 6])):
            fl = fields(rng.choice([0, 0, 0, 1, 2]))
            for f in fl:
                f['attrs'].append(fs(default=True))
            a = []
            if fl or rng.random() < .3:
                a.append(d(rng.choice(TEXTS + ['{}', 'a{}', '{}}}', '{}{}']), style=rng.choice([None, None] + rand.STYLES)))
            elif rng.random() < .2:
                a.append(d(style=rng.choice(rand.STYLES)))
            new = g.new(fl) if fl and rng.random() < .25 else None
            ign = rng.random() < .12
            if new or ign:
                a.append(fs(new=new, ignore=ign))
            vs.append(V(nm, *fl, attrs=a))
        ta = []
        if rng.random() < .5:
            ta.append(d(rng.choice([None, None, '{}', '<{}>', 'x']), style=rng.choice(rand.STYLES)))
        t = enum('X', *vs, attrs=ta, ds='DF')
    g.types.append(t)
    # a type that holds it is displayed only
    o = struct('Y', F('x', N('X')), F('y', STR), attrs=[d('{x}/{y:>4}')], ds='D')
    empty = t['kind'] == 'enum' and not t['vs']
    c = Case(id, *g.types, o, roots=[N('X')] + ([] if empty else [N('Y')]))
    c.tags, c.auto, c.opts = set(), False, {}
    gen.auto(c, rng, **ops)
    return c

class Direct(Case):
    """a newtype whose impls are written by hand: they call the custom format itself"""
    def rust_type(self, t):
        w = rust_with(t['vs'][0]['fs'][0]['attrs'][0]['with'][0])
        f = dict(t['vs'][0]['fs'][0], attrs=[])
        s = Case.rust_type(self, dict(t, ds='', vs=[dict(t['vs'][0], fs=[f])]))
        return s + '''
impl ::core::fmt::Display for X {
    fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::parse_display::DisplayFormat::write(&%s, f, &self.0) }
}
impl ::core::str::FromStr for X {
    type Err = ::parse_display::ParseError;
    fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
        ::parse_display::FromStrFormat::parse(&%s, s).map(X).map_err(|_| ::parse_display::ParseError::with_message("field `0` parse failed."))
    }
}''' % (w, w)
def direct(rng, n, ops):
    out = []
    for i in range(n):
        k = i % 4
        e = rng.choice([U8, STR, I32, CHAR, BOOL])
        dl = rng.choice([',', ', ', '|', '-', '::', 'aa', '.', 'é', '\n', ''])
        if k == 0:
            ty, w = Vec(e), Delim(dl)
        elif k == 1:
            ty, w = Vec(e), Join(W(rng.choice(['brk', 'fmt'])), dl)
        elif k == 2:
            ty, w = Vec(Vec(e)), Join(Join(W('fmt'), dl), rng.choice([';', '/', '--']))
        else:
            ty, w = e, W('fmt')
        c = Direct('direct%d' % i, struct('X', F(None, ty, d(with_=w)), ds='DF'))
        c.tags, c.auto, c.opts = set(), False, {}
        gen.auto(c, rng, **ops)
        out.append(c)
    return out
