"""Which properties a declaration is about."""
from dsl import *

def _walk(ty):
    yield ty
    for k in ('e',):
        if k in ty:
            yield from _walk(ty[k])
    for x in ty.get('es', []) + ty.get('args', []):
        yield from _walk(x)

def has_spec(fmt):
    s = ''.join(map(chr, fmt)).replace('{{', '').replace('}}', '')
    i = 0
    while True:
        i = s.find('{', i)
        if i < 0:
            return False
        j = s.find('}', i)
        if j < 0:
            return True
        if ':' in s[i:j]:
            return True
        i = j

def features(case):
    f = set()
    for t in case.types:
        where = [t['attrs']] + [v['attrs'] for v in t['vs']] + [x['attrs'] for v in t['vs'] for x in v['fs']]
        if 'D' in t['ds'] and 'F' in t['ds']:
            f.add('C02')
        if 'D' in t['ds']:
            f.add('C01')
        if 'F' in t['ds']:
            f |= {'C18', 'C19'}
            f.add('C04' if t['kind'] == 'enum' else 'C03')
        if t['params'].replace("'a", '').strip(', '):
            f.add('C13')
        if t['kind'] == 'enum' and any(not v['fs'] for v in t['vs']):
            f.add('C05')
        for attrs in where:
            ws = [a['w'] for a in attrs]
            if len(attrs) > 1 or 'f' in ws:
                f.add('C16')
            for a in attrs:
                if a['opt']:
                    f.add('C06')
                if a['with']:
                    f.add('C07')
                    if a['with'][0]['n'] == 'join':
                        f.add('C21')
                if a['rx']:
                    f.add('C08')
                if a['infer']:
                    f.add('C09')
                if a['new']:
                    f.add('C11')
                if a['dflt'] or a['dfields']:
                    f.add('C10')
                if a['style']:
                    f.add('C05')
                if a['fmt'] and has_spec(a['fmt'][0]):
                    f.add('C12')
                if a['bound']:
                    f.add('C14')
        for v in t['vs']:
            for x in v['fs']:
                if x['ident'] or (x['key'] in KEYWORDS if x['key'] else False):
                    f.add('C20')
            if v['ident'] or v['name'] in KEYWORDS:
                f.add('C20')
    if any(op == 'rx' for _, op, _ in case.ops):
        f.add('C09')
    return f
