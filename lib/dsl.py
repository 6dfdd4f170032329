"""Declarations: one description rendered both as Rust source and as the JSON
the specification reads (spec/Decl.tla)."""
import copy

def T(s):
    return [ord(c) for c in s]

def rust_str(s):
    out = ['"']
    for c in s:
        o = ord(c)
        if c in '"\\':
            out.append('\\' + c)
        elif 32 <= o < 127:
            out.append(c)
        else:
            out.append('\\u{%x}' % o)
    return ''.join(out) + '"'

# ---- types ------------------------------------------------------------------
class Ty(dict):
    __hash__ = None
INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize']
def P(k):
    return Ty(k=k)
U8, U32, I32, I8, U64, I64, U128, I128, U16, I16 = map(P, ['u8', 'u32', 'i32', 'i8', 'u64', 'i64', 'u128', 'i128', 'u16', 'i16'])
STR, CHAR, BOOL, F64, F32 = P('str'), P('char'), P('bool'), P('f64'), P('f32')
def Opt(t):
    return Ty(k='opt', e=t)
def Vec(t):
    return Ty(k='vec', e=t)
def Ref(t):
    return Ty(k='ref', e=t)
def Box(t):
    return Ty(k='box', e=t)
PRB, PATH, OS = P('prb'), P('path'), P('os')
def Tup(*ts):
    return Ty(k='tup', es=list(ts))
def N(name, *args):
    return Ty(k='named', name=name, args=list(args))
def Par(name):
    return Ty(k='param', name=name)
def As(t, rust):
    """type t, written `rust` in the Rust source"""
    return Ty(t, rust=rust)

# how the source is spelled (lib/spell.py): rng, lit (a literal), hole (what is given to a macro)
SPELL = None
def lit_src(s):
    if not SPELL:
        return rust_str(s)
    x = SPELL['lit'](s)
    return SPELL['hole']('literal', x) if SPELL['hole'] else x
def hole(kind, text, p=.6, memo=False):
    return SPELL['hole'](kind, text, p, memo) if SPELL and SPELL['hole'] else text
ABSOLUTE = False        # whether types are written with their full paths
def rust_ty(t):
    if 'rust' in t:
        return t['rust']
    k = t['k']
    if k == 'str':
        return '::harness_support::String' if ABSOLUTE else 'String'
    if k in ('prb', 'path', 'os'):
        return dict(prb='::harness_support::Prb', path='::std::path::PathBuf', os='::std::ffi::OsString')[k]
    if k == 'ref':
        return "&'static %s" % rust_ty(t['e'])
    if k == 'box':
        return '::harness_support::Box<%s>' % rust_ty(t['e'])
    if k == 'opt':
        return ('::core::option::Option<%s>' if ABSOLUTE else 'Option<%s>') % rust_ty(t['e'])
    if k == 'vec':
        return ('::harness_support::Vec<%s>' if ABSOLUTE else 'Vec<%s>') % rust_ty(t['e'])
    if k == 'tup':
        return '(%s,)' % ', '.join(map(rust_ty, t['es']))
    if k == 'named':
        return t['name'] + ('<%s>' % ', '.join(map(rust_ty, t['args'])) if t['args'] else '')
    if k == 'param':
        return t['name']
    if k.startswith('nz'):
        return '::core::num::NonZero<%s>' % k[2:]
    return k

# ---- regexes ------------------------------------------------------------------
def lit(s):
    return dict(k='lit', s=T(s))
def cls(r, neg=False):
    """cls('a-z0') ; ranges as in a bracket expression, `-` only between two"""
    out, i = [], 0
    while i < len(r):
        if i + 2 < len(r) and r[i + 1] == '-':
            out.append([ord(r[i]), ord(r[i + 2])])
            i += 3
        else:
            out.append([ord(r[i])] * 2)
            i += 1
    return dict(k='cls', neg=neg, r=out)
DOT = dict(k='any')
BOS, EOS = dict(k='bos'), dict(k='eos')
def at(k):
    """mbos, meos: ^ and $ of lines; wb, nwb: where words begin and end, and where not"""
    return dict(k=k)
def rawcls(raw, r, neg=False):
    """a class written `raw` that has the ranges r"""
    return dict(k='cls', neg=neg, r=[[a, b] for a, b in r], raw=raw)
_word = [(48, 57), (65, 90), (95, 95), (97, 122), (170, 170), (181, 181), (186, 186), (192, 214), (216, 246), (248, 591), (768, 879), (913, 929), (931, 937), (945, 969), (19968, 40959)]
_digit = [(48, 57), (0x660, 0x669), (0xff10, 0xff19)]
_space = [(9, 13), (32, 32), (133, 133), (160, 160), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)]
CLASSES = [rawcls(r'\w', _word), rawcls(r'\W', _word, True), rawcls(r'\d', _digit), rawcls(r'\D', _digit, True), rawcls(r'\s', _space), rawcls(r'\S', _space, True), rawcls(r'[\d.-]', [(45, 46)] + _digit),
           rawcls('[[:alpha:]]', [(65, 90), (97, 122)]), rawcls('[[:^digit:]]', [(48, 57)], True), rawcls('[[:xdigit:]_]', [(48, 57), (65, 70), (95, 95), (97, 102)]), rawcls('[a-f&&[^b]]', [(97, 97), (99, 102)]),
           rawcls('[a-c~~b-d]', [(97, 97), (100, 100)]), rawcls('[a-z--[ab]]', [(99, 122)]), rawcls(r'[^\n]', [(10, 10)], True), rawcls(r'[\x61\u{62}\t]', [(9, 9), (97, 98)]), rawcls('[]a]', [(93, 93), (97, 97)]),
           rawcls('[^]a]', [(93, 93), (97, 97)], True), rawcls('[-a]', [(45, 45), (97, 97)]), rawcls(r'[^\s\d]', sorted(_space + _digit), True), rawcls(r'\pL', [x for x in _word if x not in ((48, 57), (95, 95), (768, 879))])]
def _w(x):
    return lit(x) if isinstance(x, str) else x
def cat(*a):
    return dict(k='cat', a=[_w(x) for x in a])
def alt(*a):
    return dict(k='alt', a=[_w(x) for x in a])
def rep(x, lo, hi=-1, g=True):
    return dict(k='rep', lo=lo, hi=hi, g=g, a=[_w(x)])
def star(x, g=True):
    return rep(x, 0, -1, g)
def plus(x, g=True):
    return rep(x, 1, -1, g)
def opt(x, g=True):
    return rep(x, 0, 1, g)
def cap(n, x, p=False):
    return dict(k='cap', n=T(n), a=[_w(x)], p=p)
def grp(x, style='(', head=False):
    """styles: ( ?: and ?U: (greed exchanged) ?x: (spaces and comments)"""
    return dict(k='grp', a=[_w(x)], style=style, head=head)
def ci(x, head=False, mid=False):
    return dict(k='ci', a=[_w(x)], head=head, mid=mid)
def dotall(x, head=False, mid=False):
    return dict(k='dotall', a=[_w(x)], head=head, mid=mid)
def off(k, x):
    """(?-i:x), (?-s:x)"""
    return dict(k=k, a=[_w(x)])
DIG = cls('0-9')

RXMODE = dict(x=0, U=0)
FLAGS = dict(ci='i', dotall='s', nci='-i', nds='-s')
def rx_char(c, n={}):
    o = ord(c)
    if RXMODE['x'] and (c.isspace() or o in (0x85, 0x200e, 0x200f, 0x2028, 0x2029)):
        return '\\x{%x}' % o
    e = n.get('esc')
    if e == 'x':
        return '\\x%02x' % o if o < 128 else '\\x{%X}' % o
    if e == 'u':
        return '\\u{%x}' % o if o % 2 else '\\U%08X' % o
    if e == 'c' and c not in '\\[]^-&~':
        return '[%s]' % c if o != 10 else '[\\n]'
    return '\\' + c if c in '\\.+*?()|[]{}^$#&-~' else ('\\n' if o == 10 else c)
def rx_text(n, ctx=-1):
    """ctx -1: all of it, 0: top/alternation branch allowed, 1: inside a concatenation, 2: operand of a repetition"""
    k = n['k']
    def wrap(s, level):
        return '(?:%s)' % s if ctx >= level else s
    def within(mode, f):
        RXMODE[mode] ^= 1
        try:
            return f()
        finally:
            RXMODE[mode] ^= 1
    # in verbose mode: blanks, and now and then a comment
    gap = lambda i: '' if not RXMODE['x'] else [' ', ' # (a|b\n', '\t', '', '\n'][(i + len(n['a'])) % 5]
    if k == 'lit':
        s = ''.join(rx_char(chr(c), n) for c in n['s'])
        return s if ctx < 2 or len(n['s']) == 1 else '(?:%s)' % s
    if k == 'cls':
        if 'raw' in n:
            return n['raw']
        def e(c):
            return '\\' + chr(c) if chr(c) in '\\[]^-&~' else ('\\x{%x}' % c if c <= 32 or c > 126 else chr(c))
        return '[%s%s]' % ('^' if n['neg'] else '', ''.join(e(a) if a == b else e(a) + '-' + e(b) for a, b in n['r']))
    if k == 'bad':
        return n['raw']
    if k in ('any', 'bos', 'eos', 'wb', 'nwb', 'mbos', 'meos'):
        s = dict(any='.', bos='^', eos='$', wb=r'\b', nwb=r'\B', mbos='(?m:^)', meos='(?m:$)')[k]
        return wrap(s, 2) if k in ('wb', 'nwb', 'bos', 'eos') else s
    if k == 'cat':
        x = n['a'][-1] if n['a'] else {}
        if x.get('mid') and len(n['a']) > 1:
            return '(?:%s(?%s)%s)' % (''.join(rx_text(y, 1) for y in n['a'][:-1]), FLAGS[x['k']], rx_text(x['a'][0], 1))
        return wrap(''.join(gap(i) + rx_text(x, 1) for i, x in enumerate(n['a'])), 2)
    if k == 'alt':
        return wrap('|'.join(rx_text(x, 0) + gap(i) for i, x in enumerate(n['a'])), 1)
    if k == 'rep':
        lo, hi = n['lo'], n['hi']
        q = {(0, -1): '*', (1, -1): '+', (0, 1): '?'}.get((lo, hi))
        if q is None:
            q = '{%d}' % lo if lo == hi else '{%d,%s}' % (lo, '' if hi < 0 else hi)
        return wrap(rx_text(n['a'][0], 2) + q + ('' if n['g'] != bool(RXMODE['U']) else '?'), 2)
    if k == 'cap':
        return '(?%s<%s>%s)' % ('P' if n.get('p') else '', ''.join(map(chr, n['n'])), rx_text(n['a'][0], 0))
    if k == 'grp':
        st = n.get('style', '(')
        if st in ('?U:', '?x:'):
            s = within(st[1], lambda: rx_text(n['a'][0], 0))
            # both modes are left as they are outside
            off_ = '-' if RXMODE[st[1]] else ''
            if st == '?x:' and not off_:
                if n.get('head') and ctx < 0:
                    return '(?x) %s # (end' % s
                s = ' %s #)\n' % s
            return '(?%s%s)%s' % (off_, st[1], s) if n.get('head') and ctx <= 0 and not off_ else '(?%s%s:%s)' % (off_, st[1], s)
        return '(%s%s)' % ('' if st == '(' else '?:', rx_text(n['a'][0], 0))
    if k in FLAGS:
        y = n['a'][0]
        if n.get('head') and ctx <= 0:
            return '(?%s)%s' % (FLAGS[k], rx_text(y, 0))
        if k in ('ci', 'dotall') and y['k'] in ('ci', 'dotall') and not y.get('head') and n.get('comb', True):
            return '(?%s%s:%s)' % (FLAGS[k], FLAGS[y['k']] if y['k'] != k else '', rx_text(y['a'][0], 0))
        return '(?%s:%s)' % (FLAGS[k], rx_text(y, 0))
    raise ValueError(k)

# ---- custom formats --------------------------------------------------------------
RUST_FORMAT = dict(fmt='with_formats::fmt()', brk='Brk', brkr='BrkR', num='Num', alt='Alt', alt2='Alt2', grp='Grp', nest='Nest', old='Old',
                   cis='Cis', rej='Rej', dota='Dota', hex='Hex', pad='Pad', dis='dis()', fro='fro()')
def W(n):
    return dict(n=n)
def Rx(*re):
    """a format with any regular expression (without named groups)"""
    return dict(n='rx', re=[cat(*re) if len(re) > 1 else _w(re[0])])
def Join(item, d):
    return dict(n='join', item=[item], d=T(d))
def Delim(d):
    return dict(n='join', item=[W('fmt')], d=T(d), delim=True)
def rust_with(w):
    if w['n'] == 'join':
        d = rust_str(''.join(map(chr, w['d'])))
        if w.get('delim'):
            return 'with_formats::delimiter(%s)' % d
        return 'with_formats::join(%s, %s)' % (rust_with(w['item'][0]), d)
    if 'rust' in w:
        return w['rust']
    if w['n'] == 'rx':
        return 'Rx(%s)' % rust_str(rx_text(w['re'][0]))
    return RUST_FORMAT[w['n']]

# ---- attributes -------------------------------------------------------------------
def _attr(w, **k):
    a = dict(w=w, fmt=[], opt=False, style=[], rx=[], infer=False, new=[], dflt=False, dfields=[], ign=False, bound=[])
    a['with'] = []
    a['_extra'] = []
    a.update(k)
    return a
def d(fmt=None, with_=None, opt=False, style=None, bound=None, crate=None, extra=None):
    return _attr('d', fmt=[] if fmt is None else [T(fmt)], **{'with': [] if with_ is None else [W(with_) if isinstance(with_, str) else with_]},
                 opt=opt, style=[] if style is None else [style], bound=[] if bound is None else [bound],
                 _extra=(['crate = ' + crate] if crate else []) + (extra or []))
def fs(regex=None, with_=None, infer=False, new=None, default=False, default_fields=(), ignore=False, bound=None, extra=None):
    return _attr('f', rx=[] if regex is None else [_w(regex)], **{'with': [] if with_ is None else [W(with_) if isinstance(with_, str) else with_]},
                 infer=infer, new=[] if new is None else [new], dflt=default, dfields=[T(x) for x in default_fields], ign=ignore,
                 bound=[] if bound is None else [bound], _extra=extra or [])
def New(order, kind='self', rej=None, mark=None):
    """order[j] = index (from 0) of the parsed field that becomes field j"""
    return dict(map=[i + 1 for i in order], kind=kind, rej=[] if rej is None else [dict(f=rej[0] + 1, v=rej[1])],
                mark=[] if mark is None else [dict(f=mark[0] + 1, v=mark[1])])

def rust_bound(b):
    if b == '..':
        return '..'
    return b

def rust_attr(a, new_expr=None):
    parts = []
    if a['fmt']:
        parts.append(lit_src(''.join(map(chr, a['fmt'][0]))))
    if a['rx']:
        parts.append('regex = ' + lit_src(rx_text(a['rx'][0])))
    if a['infer']:
        parts.append('regex_infer')
    if a['with']:
        w = rust_with(a['with'][0])
        if SPELL:
            w = SPELL['rng'].choice(['%s', '%s', '(%s)', '{ %s }', 'if true { %s } else { unreachable!() }' if 0 else '%s']) % w
        parts.append('with = ' + hole('expr', w))
    if a['opt']:
        parts.append('opt')
    if a['style']:
        parts.append('style = ' + lit_src(a['style'][0]))
    if a['new']:
        parts.append('new = ' + new_expr)
    if a['dflt']:
        parts.append('default')
    if a['dfields']:
        parts.append('default_fields(%s)' % ', '.join('"%s"' % ''.join(map(chr, x)) if not SPELL or SPELL['rng'].random() < .5 else dfield(''.join(map(chr, x))) for x in a['dfields']))
    if a['ign']:
        parts.append('ignore')
    if a['bound']:
        parts.append('bound(%s)' % ', '.join(b['rust'] for b in a['bound'][0]))
    parts += a['_extra']
    nm = 'display' if a['w'] == 'd' else 'from_str'
    if not SPELL:
        return '#[%s(%s)]' % (nm, ', '.join(parts))
    rng = SPELL['rng']
    head, rest = (parts[:1], parts[1:]) if a['fmt'] else ([], parts)
    rng.shuffle(rest)
    cut = rng.randrange(len(rest) + 1) if len(parts) > 1 and rng.random() < .3 and not a['_extra'] else None
    groups = [head + rest] if cut is None else [head + rest[:cut], rest[cut:]]
    if cut is not None and rng.random() < .5:
        groups.reverse()
    out = []
    for g in groups:
        x = '%s(%s%s)' % (nm, ', '.join(g), ',' if g and rng.random() < .25 else '')
        q = rng.random()
        out.append('#[cfg_attr(all(), %s)]' % x if q < .15 else '#[%s]' % hole('meta', x, .4) if '$x' not in x and not a['new'] else '#[%s]' % x)
        if rng.random() < .15:
            out.append(rng.choice(['#[allow(unused)]', '/// text {of} a comment', '#[doc = "display(\\"x\\")"]']))
    return ' '.join(out).replace('/// text {of} a comment', '/** text {of} a comment */')
def dfield(x):
    return x if x.isdigit() or x not in KEYWORDS else x

# ---- declarations --------------------------------------------------------------------
def F(key, ty, *attrs, ident=None):
    """a field; key is its plain name (or None in a tuple), ident its spelling"""
    return dict(key=key, ty=ty, attrs=list(attrs), ident=ident)
def V(name, *fields, attrs=(), ident=None, extra=''):
    fields = list(fields)
    shape = 'unit' if not fields else ('tuple' if fields[0]['key'] is None else 'named')
    return dict(name=name, shape=shape, attrs=list(attrs), fs=fields, ident=ident, extra=extra)
def struct(name, *fields, attrs=(), ds='DF', params='', dv=None, shape=None, extra='', ident=None, where=''):
    """ds: D = derive(Display), F = derive(FromStr), P = PartialEq etc. irrelevant; M = impl Default derived,
    m = Default written by hand returning dv"""
    v = V(name, *fields)
    if shape:
        v['shape'] = shape
    return dict(name=name, kind='struct', attrs=list(attrs), vs=[v], ds=ds, params=params, dv=dv, extra=extra, ident=ident, where=where)
def enum(name, *vs, attrs=(), ds='DF', params='', extra='', ident=None, dv=None, where=''):
    return dict(name=name, kind='enum', attrs=list(attrs), vs=list(vs), ds=ds, params=params, dv=dv, extra=extra, ident=ident, where=where)

KEYWORDS = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen'.split())

class Case:
    """A declaration set, its roots (types operated on) and the operations."""
    def __init__(self, id, *types, roots=None, prelude='', ops=None, note='', site=None):
        self.id, self.types, self.prelude, self.note = id, list(types), prelude, note
        self.roots = roots if roots is not None else [N(types[-1]['name'])]
        self.ops = ops if ops is not None else []
        self._mono = None
    def display(self, v, r=0):
        self.ops.append((r, 'display', v))
        return self
    def parse(self, s, r=0):
        self.ops.append((r, 'parse', T(s) if isinstance(s, str) else s))
        return self
    def rx(self, s, r=0):
        self.ops.append((r, 'rx', T(s) if isinstance(s, str) else s))
        return self
    def parses(self, *ss, r=0):
        for s in ss:
            self.parse(s, r)
        return self
    def displays(self, *vs, r=0):
        for v in vs:
            self.display(v, r)
        return self
    def type(self, name):
        return next(t for t in self.types if t['name'] == name)

    # -- the JSON the specification reads: generic types are instantiated
    def mono(self):
        if self._mono is not None:
            return self._mono
        table, out = {}, []
        def conv(t, env):
            t = Ty({k: v for k, v in t.items() if k != 'rust'})
            k = t['k']
            if k == 'param':
                return env[t['name']]
            if k in ('opt', 'vec', 'ref', 'box'):
                return dict(k=k, e=conv(t['e'], env))
            if k == 'tup':
                return dict(k=k, es=[conv(x, env) for x in t['es']])
            if k == 'named':
                args = [conv(x, env) for x in t['args']]
                return dict(k='named', n=inst(t['name'], args))
            return dict(t)
        def inst(name, args):
            key = (name, repr(args))
            if key in table:
                return table[key]
            decl = self.type(name)
            slot = len(out)
            out.append(None)
            table[key] = slot + 1
            env = dict(zip([p.split(':')[0].strip() for p in decl['params'].split(',') if p.strip() and not p.strip().startswith("'")], args))
            vs = []
            for v in decl['vs']:
                vs.append(dict(name=T(v['name']), shape=v['shape'], attrs=[clean(a) for a in v['attrs']],
                               fs=[dict(key=T(str(i) if f['key'] is None else f['key']), ty=conv(f['ty'], env),
                                        attrs=[clean(a) for a in f['attrs']]) for i, f in enumerate(v['fs'])]))
            dv = decl['dv']
            out[slot] = dict(name=T(decl['name']), kind=decl['kind'], attrs=[clean(a) for a in decl['attrs']], vs=vs,
                             ds=[c for c in decl['ds']], dv=[] if dv is None else [dv], site=decl['name'])
            if dv is None and 'M' in decl['ds'] and decl['kind'] == 'struct':
                out[slot]['dv'] = [[default_of(f['ty'], out) for f in vs[0]['fs']]]
            return table[key]
        def cw(w):
            w = {k: v for k, v in w.items() if k in ('n', 'item', 'd', 're')}
            if 'item' in w:
                w['item'] = [cw(x) for x in w['item']]
            if 're' in w:
                w['re'] = [crx(x) for x in w['re']]
            return w
        def crx(n):
            if isinstance(n, dict):
                return {k: crx(v) for k, v in n.items() if k not in ('p', 'style', 'head', 'raw', 'mid', 'esc')}
            if isinstance(n, list):
                return [crx(x) for x in n]
            return n
        def clean(a):
            a = {k: v for k, v in a.items() if not k.startswith('_')}
            a['with'] = [cw(w) for w in a['with']]
            a['rx'] = [crx(x) for x in a['rx']]
            a['bound'] = []
            a['new'] = [{k: v for k, v in x.items() if k in ('map', 'rej', 'mark')} for x in a['new']]
            return a
        def default_of(t, types):
            k = t['k']
            if k in INTS or k in ('f32', 'f64'):
                return T('0')
            if k in ('ref', 'box'):
                return default_of(t['e'], types)
            if k in ('str', 'opt', 'vec', 'prb', 'path', 'os'):
                return []
            if k == 'char':
                return [0]
            if k == 'bool':
                return T('false')
            if k == 'tup':
                return [default_of(x, types) for x in t['es']]
            if k == 'named':
                return types[t['n'] - 1]['dv'][0] if types[t['n'] - 1]['dv'] else []
            return []
        roots = [conv(r, {}) for r in self.roots]
        for t in self.types:
            if not t['params']:
                inst(t['name'], [])
        self._mono = dict(id=self.id, types=out, roots=roots)
        return self._mono

    # -- Rust
    def rust(self):
        o = ['#![allow(warnings)]', 'use harness_support::*;', 'use parse_display::{Display, FromStr};', self.prelude]
        for t in self.types:
            o.append(self.rust_type(t))
        o.append('pub fn run(r: usize, op: &str, v: &::harness_support::V) -> ::harness_support::String {\n    match (r, op) {')
        for i, r in enumerate(self.roots):
            used = {op for (rr, op, _) in self.ops if rr == i}
            ty = rust_ty(r)
            for op, fn in (('display', 'display'), ('padded', 'display_padded'), ('short', 'display_short'), ('parse', 'parse'), ('rx', 'rx'), ('rt', 'round_trip')):
                if op in used:
                    o.append('        (%d, "%s") => ::harness_support::%s::<%s>(v),' % (i, op, fn, ty))
        o.append('        _ => ::core::unreachable!(),\n    }\n}')
        return '\n'.join(o) + '\n'
    def rust_type(self, t):
        o = []
        der = []
        if 'D' in t['ds']:
            der.append('Display')
        if 'F' in t['ds']:
            der.append('FromStr')
        if 'M' in t['ds']:
            der.append('Default')
        if 'G' in t['ds']:
            der.append('Debug')
        if 'C' in t['ds']:
            der.append('Clone')
        if SPELL:
            rng = SPELL['rng']
            rng.shuffle(der)
            der = [{'Display': 'parse_display::Display', 'FromStr': '::parse_display::FromStr', 'Default': 'std::default::Default'}.get(x, x) if rng.random() < .2 else x for x in der]
            while len(der) > 1 and rng.random() < .3:
                o.append('#[derive(%s)]' % der.pop())
        if der:
            o.append('#[derive(%s)]' % ', '.join(der))
        name = t['ident'] or t['name']
        gen = '<%s>' % t['params'] if t['params'] else ''
        name = hole('ident', name, .4, True)
        tgen, twhere = gen, t['where']
        if SPELL:
            tgen, twhere = self.spell_params(t)
            if rng.random() < .15:
                o.append(rng.choice(['#[non_exhaustive]', '#[allow(dead_code)]', '#[must_use]']))
        names = ', '.join(p.split(':')[0].strip() for p in t['params'].split(',')) if t['params'] else ''
        garg = '<%s>' % names if names else ''
        helpers = []
        def attrs(l, vid, v):
            r = []
            for a in l:
                ne = None
                if a['new']:
                    ne = self.new_fn(t, v, vid, a['new'][0], helpers)
                r.append(rust_attr(a, ne))
            return r
        tv = t['vs'][0] if t['kind'] == 'struct' else None
        o += attrs(t['attrs'], 0, tv)
        def fid(f):
            return hole('ident', f['ident'] or ('r#' + f['key'] if f['key'] in KEYWORDS else f['key']), .4, True)
        def vis():
            return 'pub ' if not SPELL else rng.choice(['pub ', 'pub ', 'pub(crate) ', 'pub(in super) '])
        def vid_(v):
            return hole('ident', v['ident'] or ('r#' + v['name'] if v['name'] in KEYWORDS else v['name']), .3, True)
        def fields(v, vis):
            fl = []
            for f in v['fs']:
                fa = ' '.join(rust_attr(a) for a in f['attrs'])
                if v['shape'] == 'named':
                    fl.append('    %s %s%s: %s' % (fa, vis(), fid(f), hole('ty', rust_ty(f['ty']))))
                else:
                    fl.append('    %s %s%s' % (fa, vis(), hole('ty', rust_ty(f['ty']))))
            return fl
        if t['extra']:
            o.append(t['extra'])
        if t['kind'] == 'struct':
            v = tv
            if v['shape'] == 'unit':
                o.append('%sstruct %s%s %s;' % (vis(), name, tgen, twhere))
            elif v['shape'] == 'named':
                o.append('%sstruct %s%s %s {\n%s\n}' % (vis(), name, tgen, twhere, ',\n'.join(fields(v, vis))))
            else:
                o.append('%sstruct %s%s(\n%s\n) %s;' % (vis(), name, tgen, ',\n'.join(fields(v, vis)), twhere))
        else:
            o.append('%senum %s%s %s {' % (vis(), name, tgen, twhere))
            disc = bool(SPELL) and t['vs'] and all(v['shape'] == 'unit' for v in t['vs']) and rng.random() < .4
            for i, v in enumerate(t['vs']):
                o += ['    ' + x for x in attrs(v['attrs'], i, v)]
                if v['extra']:
                    o.append('    ' + v['extra'])
                vn = vid_(v)
                if v['shape'] == 'unit':
                    o.append('    %s%s,' % (vn, ' = %d' % (100 - 3 * i) if disc else ''))
                elif v['shape'] == 'named':
                    o.append('    %s {\n%s\n    },' % (vn, ',\n'.join(fields(v, lambda: ''))))
                else:
                    o.append('    %s(\n%s\n    ),' % (vn, ',\n'.join(fields(v, lambda: ''))))
            o.append('}')
        # Default by hand
        jgen = gen
        if gen and 'nojbound' not in t['ds']:
            jgen = '<%s>' % ', '.join((p if p.strip().startswith("'") else (p + (' + ' if ':' in p else ': ') + '::harness_support::J')) for p in t['params'].split(','))
        if 'm' in t['ds']:
            o.append('impl ::core::default::Default for %s { fn default() -> Self { <Self as ::harness_support::J>::from_j(&::harness_support::parse_json(%s)) } }'
                     % (name, rust_str(repr(t['dv']).replace("'", '"'))))
        o += helpers
        # codec
        def pat(v, ctor):
            if v['shape'] == 'unit':
                return ctor
            if v['shape'] == 'named':
                return ctor + ' { %s }' % ', '.join('%s: j%d' % (fid(f), i) for i, f in enumerate(v['fs']))
            return ctor + '(%s)' % ', '.join('j%d' % i for i in range(len(v['fs'])))
        def emit(v):
            s = "o.push('[');"
            for i in range(len(v['fs'])):
                s += (" o.push(',');" if i else '') + ' ::harness_support::J::j(j%d, o);' % i
            return s + " o.push(']');"
        def build(v, ctor):
            if v['shape'] == 'unit':
                return ctor
            if v['shape'] == 'named':
                return ctor + ' { %s }' % ', '.join('%s: ::harness_support::J::from_j(&a[%d])' % (fid(f), i) for i, f in enumerate(v['fs']))
            return ctor + '(%s)' % ', '.join('::harness_support::J::from_j(&a[%d])' % i for i in range(len(v['fs'])))
        o.append('impl%s ::harness_support::J for %s%s %s {' % (jgen, name, garg, t['where']))
        if t['kind'] == 'struct':
            o.append('    fn j(&self, o: &mut ::harness_support::String) { let %s = self; %s }' % (pat(tv, name), emit(tv)))
            o.append('    fn from_j(v: &::harness_support::V) -> Self { let a = v.arr(); %s }' % build(tv, name))
        else:
            def vn(v):
                return name + '::' + vid_(v)
            o.append('    fn j(&self, o: &mut ::harness_support::String) { match self {')
            for i, v in enumerate(t['vs']):
                o.append('        %s => { o.push_str("{\\"v\\":%d,\\"f\\":"); %s o.push(\'}\'); }' % (pat(v, vn(v)), i + 1, emit(v)))
            if not t['vs']:
                o.append('        _ => {}')
            o.append('    } }')
            o.append('    fn from_j(v: &::harness_support::V) -> Self { let n = v.get("v").num(); let a = v.get("f").arr(); match n {')
            for i, v in enumerate(t['vs']):
                o.append('        %d => %s,' % (i + 1, build(v, vn(v))))
            o.append('        _ => ::core::unreachable!() } }')
        o.append('}')
        return '\n'.join(o)
    def spell_params(self, t):
        """generics and where clause with the bounds at other places"""
        rng = SPELL['rng']
        ps, ws = [], []
        for p in (t['params'].split(',') if t['params'] else []):
            p = p.strip()
            if ':' in p and not p.startswith(('const', "'")) and rng.random() < .5:
                a, b = p.split(':', 1)
                ws.append('%s: %s' % (a.strip(), b.strip()))
                p = a.strip()
            ps.append(p)
        if ps and not ps[-1].startswith(('const', "'")) and 'nodefault' not in t['ds'] and rng.random() < .3:
            ps[-1] += ' = u8'
        w = t['where']
        if ws:
            w = (w.rstrip().rstrip(',') + ', ' if w.strip() else 'where ') + ', '.join(ws)
        return ('<%s>' % ', '.join(ps) if ps else ''), w
    def new_fn(self, t, v, vid, new, helpers):
        """a constructor function and the expression calling it"""
        name = t['ident'] or t['name']
        fn = 'new_%d' % vid if not any(' fn new_%d(' % vid in h for h in helpers) else 'new_%d_%d' % (vid, len(helpers))
        def var(i, f):
            return '_%d' % i if f['key'] is None else (f['ident'] or ('r#' + f['key'] if f['key'] in KEYWORDS else f['key']))
        args = [var(i, f) for i, f in enumerate(v['fs'])]
        params = ', '.join('x%d: %s' % (i, rust_ty(f['ty'])) for i, f in enumerate(v['fs']))
        body = []
        k = new['kind']
        if new['rej']:
            r = new['rej'][0]
            body.append('if ::harness_support::js(&x%d) == "%s" { return %s; }' % (r['f'] - 1, str(r['v']).replace(' ', ''), '::core::option::Option::None' if k == 'opt' else '::core::result::Result::Err(())'))
        ctor = 'Self' if t['kind'] == 'struct' else 'Self::' + (v['ident'] or ('r#' + v['name'] if v['name'] in KEYWORDS else v['name']))
        def val(j):
            for m in new['mark']:
                if m['f'] - 1 == j:
                    return '::harness_support::J::from_j(&::harness_support::parse_json("%s"))' % str(m['v']).replace(' ', '')
            x = 'x%d' % (new['map'][j] - 1)
            return '::core::clone::Clone::clone(&%s)' % x if new['map'].count(new['map'][j]) > 1 else x
        if v['shape'] == 'named':
            c = ctor + ' { %s }' % ', '.join('%s: %s' % (var(j, f), val(j)) for j, f in enumerate(v['fs']))
        elif v['shape'] == 'tuple':
            c = ctor + '(%s)' % ', '.join(val(j) for j in range(len(v['fs'])))
        else:
            c = ctor
        ret, wrap = {'self': ('Self', '%s'), 'opt': ('::core::option::Option<Self>', '::core::option::Option::Some(%s)'),
                     'res': ('::core::result::Result<Self, ()>', '::core::result::Result::Ok(%s)')}[k]
        gen = '<%s>' % t['params'] if t['params'] else ''
        garg = '<%s>' % ', '.join(p.split(':')[0].strip() for p in t['params'].split(',')) if t['params'] else ''
        jgen = gen
        helpers.append('impl%s %s%s { fn %s(%s) -> %s { %s %s } }' % (jgen, name, garg, fn, params, ret, ' '.join(body), wrap % c))
        return 'Self::%s(%s)' % (fn, ', '.join(args))
