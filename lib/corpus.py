"""Hand written declarations, each tagged with the properties it is about."""
from dsl import *

CASES = []
def case(tags, *types, p=(), v=(), x=(), roots=None, prelude='', auto=True, id=None, no=False, **k):
    c = Case(id or 'k%d' % len(CASES), *types, roots=roots, prelude=prelude)
    for r in range(len(c.roots)):
        for a in (v[r] if roots else v):
            c.display(a, r)
        for s in (p[r] if roots else p):
            c.parse(s, r)
        for s in (x[r] if roots else x):
            c.rx(s, r)
    c.tags = set(tags.split())
    c.auto = auto
    c.opts = k
    CASES.append(c)
    return c
def E(i, *f):
    return dict(v=i, f=list(f))
S = T

# ============ formats of structs =====================================================
case('C01 C02 C03 C15 C18 C19', struct('X', F('a', U32), F('b', U8), attrs=[d('{a}-{b}')]),
     v=[[T('0'), T('255')], [T('4294967295'), T('0')]],
     p=['1-2', '1-2-3', '-', '', '1-', '-1', '1-256', '4294967296-1', ' 1-2', '1-2 ', '1-2\n', '\n1-2', '+1-+2', '01-002', '1\u20132', '\u0661-1', '1-2\0'])
case('C01 C02 C03', struct('X', F('a', STR), F('b', STR), attrs=[d('{a}{b}')]), p=['', 'a', 'ab\ncd', '\n', '\r\n'], v=[[S(''), S('')]])
case('C01 C03', struct('X', F('a', STR), F('b', STR), F('c', STR), attrs=[d('{a}-{b}-{c}')]),
     p=['--', 'a--', '-a-', '--a', '---', 'a-b-c-d', 'a-b', '\n-\n-\n', 'é-日-😀'])
case('C01 C03', struct('X', F('a', STR), F('b', STR), attrs=[d('{b}aa{a}')]), p=['aa', 'aaa', 'aaaa', 'xaay', 'xaaaay', 'a', 'aa\n'])
case('C01 C03 C18', struct('X', F('a', STR), F('b', STR), attrs=[d('[{{{a}}}]({b}).*+?^$|\\')]), v=[[S('x'), S('{')]],
     p=['[{x}](y).*+?^$|\\', '[{}]().*+?^$|\\', '[{x}](y)z*+?^$|\\', '[{x}](y).*+?^$|', '{x}(y).*+?^$|\\'])
case('C01 C03 C09', struct('X', F('a', STR), attrs=[d('#&-~ \t{a}')]), p=['#&-~ \tx', '#&-~ \t', '#&-~\tx'], x=['#&-~ \tx', '&-~ \tx'])
case('C01 C03', struct('X', attrs=[d('only {{text}} \n"quoted" \\d')], shape='unit'), v=[[]], p=['only {text} \n"quoted" \\d', 'only {text}', 'only {{text}} \n"quoted" \\d'])
case('C01 C03', struct('X', attrs=[d('')], shape='unit'), v=[[]], p=['', ' ', '\n'])
case('C01', struct('X', F('a', STR), attrs=[d('%s {{}}{a}}}{{{a} %% {a}')], ds='D'), v=[[S('{}')], [S('%d')]])
case('C01 C02 C03', struct('X', F(None, U8), F(None, STR), attrs=[d('{1}:{0}')]), v=[[T('7'), S(':')]], p=[':1', 'a:1', 'a:b:1', ':', 'a:1:2', 'a:-1'])
case('C01 C02 C03 C19', struct('X', F(None, I32)), v=[[T('-2147483648')]], p=['-2147483648', '2147483648', '', '-', ' 1', '1\n'])
case('C01 C02 C03', struct('X', F('only', STR)), v=[[S('a\nb')]], p=['', '\n', 'x'])
case('C01 C02 C03', struct('X', F(None, STR, d('<{}>'))), v=[[S('<>')]], p=['<>', '<x>', '<x', '<<x>>', 'x', '<x>\n'])
case('C01 C02 C03', struct('X', F('a', U32, d('a is {}')), F('b', U32, d('b is {}')), attrs=[d('{a}, {b}')]), p=['a is 1, b is 2', 'a is 1,b is 2', 'a is , b is 2', '1, 2'])
case('C01 C03', struct('X', F('a', STR, d('{{{}}}')), F('b', STR, d('{}{{}}')), attrs=[d('{b}{a}')]), v=[[S('1'), S('2')]], p=['2{}{1}', '{}{}', '{}{}{}', '{1}2{}'])
case('C01', struct('X', F('a', STR, d('{}+{}')), attrs=[d('{a}={a}')], ds='D'), v=[[S('z')]])
case('C01 C03', struct('X', F('a', STR, d('const')), F('b', U8), attrs=[d('{a}{b}')], ds='D'), v=[[S('z'), T('1')]])
case('C01 C03 C02', struct('I', F('x', U8), F('y', U8), attrs=[d('{x}.{y}')]), struct('X', F('l', N('I')), F('r', N('I')), attrs=[d('{l}/{r}')]),
     p=['1.2/3.4', '1.2/3', '1/3.4', '1.2.3/4.5', '/', '1.2/3.4/5.6'])
case('C01 C02 C03', struct('I', F('x', STR), F('y', STR), attrs=[d('<{x}|{y}>')]), struct('X', F('l', N('I'), d('l{}')), F('r', N('I')), attrs=[d('{l}{r}')]),
     p=['l<a|b><c|d>', 'l<|><|>', '<a|b><c|d>', 'l<a|b><c|d', 'l<a><b|c>'])
case('C01 C10', struct('I', F('x', U8), F('y', STR), ds='M'), struct('X', F('i', N('I'), fs(default=True)), F('k', U8), attrs=[d('{i.x},{k},{i.y}')]),
     v=[[[T('1'), S('q')], T('2')]], p=['1,2,z', '1,2,', ',2,z', '256,2,z', '1,2', '1,256,z'])
case('C01 C12', struct('I', F(None, Tup(U8, STR)), F(None, F64), ds=''), struct('X', F('i', N('I')), attrs=[d('{i.0.1:>6}|{i.0.0:#x}|{i.1:08.3}')], ds='D'),
     v=[[[[T('200'), S('né')], T('-1.5')]]])
case('C01 C12', struct('I', F('x', I32), ds=''), struct('X', F('i', N('I'), d('<{x:+}>{x:5}')), F('t', Tup(U8, U16), d('{1}.{0}')), attrs=[d('{i} {t}')], ds='D'),
     v=[[[T('5')], [T('1'), T('2')]], [[T('-5')], [T('10'), T('20')]]])
case('C01', struct('X', F('a', U8), F('b', U8), attrs=[d('no fields')], ds='D'), v=[[T('1'), T('2')]])
case('C01 C03 C15', struct('X', F('a', U8), attrs=[d('[{a}]'), d('({a})')]), p=['(1)', '[1]'], v=[[T('1')]])
case('C01 C12', struct('X', F('a', U8), attrs=[d('x={a:?} self={:?}')], ds='DG'), v=[[T('1')]])
case('C01 C12', struct('X', F(None, STR), F(None, U8), attrs=[d('{:?}')], ds='DG'), v=[[S('q"\n\\\t'), T('1')]])
case('C01 C12', enum('X', V('A'), V('Bc', F('q', STR)), V('D', F(None, U8), F(None, Opt(CHAR))), attrs=[d('{:?}')], ds='DG'),
     v=[E(1), E(2, S("it's")), E(3, T('1'), [S("'")]), E(3, T('1'), [])])
case('C01 C12', enum('X', V('A', attrs=[d('{} {:?}')]), V('Ab', attrs=[d('{:>5}|{:<5}|{:^5}|{:.1}|{:*^6.1}')]), attrs=[d(style='kebab-case')], ds='DG'), v=[E(1), E(2)])
# no leak of the caller's parameters
case('C01', struct('I', F(None, I32)), enum('J', V('Va'), V('Vb', F(None, U8), attrs=[d('{0}')])), struct('X', F('a', N('I')), F('b', N('J')), attrs=[d('{a:>8}{b:>8}{b:<3}')], ds='D'),
     roots=[N('I'), N('J'), N('X')], v=[[[T('5')]], [E(1), E(2, T('7'))], [[[T('5')], E(1)], [[T('5')], E(2, T('9'))]]], p=[['5'], ['Va', '7'], []], x=[[], [], []], padded=3)

# ============ enums ====================================================================
case('C01 C02 C04 C05', enum('X', V('VarA'), V('VarB'), V('var_c'), V('V1d')), p=['VarA', 'varA', 'VarB', 'var_c', 'V1d', 'V1D', '', 'VarA ', 'VarAVarB'])
case('C01 C02 C04 C05', enum('X', V('VarA'), V('VarB', attrs=[d('{}!')]), V('VarC', attrs=[d('c', style='none')]), V('VarD', attrs=[d(style='UPPERCASE')]),
     V('VarE', attrs=[d('-{}-', style='SNAKE_CASE')]), attrs=[d(style='snake_case')]), p=['var_a', 'var_b!', 'var_b', 'c', 'VARD', '-VAR_E-', 'VarA', 'VarC', 'var_c', 'var_d'])
case('C01 C04', enum('X', V('VarA'), V('VarB'), V('VarC', attrs=[d('own')]), attrs=[d('x-{}-x')]), p=['x-VarA-x', 'x-VarB-x', 'own', 'x-VarC-x', 'VarA', 'x-own-x'])
case('C01 C03 C04', enum('X', V('VarA', F(None, U8)), V('VarB', F(None, STR)), attrs=[d('{}:{0}')]), p=['VarA:1', 'VarB:1', 'VarA:x', 'VarB:x', 'VarB:', 'VarC:1', ':1'])
case('C01 C03 C04', enum('X', V('VarA', F('f', U8)), V('VarB', F('f', STR, d('<{}>')), F('g', U8, fs(default=True))), attrs=[d('{}:{f}')], ds='DF'), p=['VarA:1', 'VarB:<1>', 'VarB:1', 'VarA:<1>'])
case('C01 C02 C03 C04', enum('X', V('A', F(None, U8), attrs=[d('this is A {0}')]), V('B', F('x', STR), F('y', I8), attrs=[d('B {y} {x}')]), V('C')),
     p=['this is A 1', 'this is A 256', 'B 1 q', 'B 200 q', 'B 1', 'C', 'D', 'this is A '], v=[E(2, S(' '), T('-1'))])
case('C04 C09', enum('X', V('A', attrs=[d('a')]), V('B', attrs=[d('a')]), V('C', F(None, STR), attrs=[d('{0}')])), p=['a', 'b', ''], x=['a', ''])
case('C04', enum('X', V('A', F(None, STR), attrs=[d('{0}')]), V('B', attrs=[d('lit')]), V('C', F(None, STR), attrs=[d('c{0}')])), p=['lit', 'c1', 'x', 'lit '])
case('C04', enum('X', V('A', F(None, U8), attrs=[d('{0}')]), V('B', F(None, I32), attrs=[d('{0}')]), V('C', F(None, BOOL), attrs=[d('{0}')]), V('D', F(None, STR), attrs=[d('{0}')])),
     p=['1', '255', '256', '-1', '2147483648', 'true', 'tru', '', '\n'])
case('C04', enum('X', V('A', F(None, U8), F(None, U8), attrs=[d('{0}-{1}')]), V('B', F(None, STR), F(None, U8), attrs=[d('{0}-{1}')]), V('C', F(None, STR), F(None, STR), attrs=[d('{0}-{1}')])),
     p=['1-2', '1-256', 'x-2', 'x-y', '1-2-3', 'x', '256-1', '-'])
case('C04 C18', enum('X', V('A', attrs=[fs(ignore=True)]), V('B', F(None, U8), attrs=[d('{0}')]), V('C', F(None, U8), attrs=[d('c{0}'), fs(ignore=True)]), V('D', F(None, STR), attrs=[d('c{0}')])),
     p=['A', '1', 'c1', 'cx', ''])
case('C04', enum('X', V('A', attrs=[d('a'), fs(ignore=True)]), V('B', attrs=[d('a')]), V('C', attrs=[d('c')])), p=['a', 'c', 'A', 'B'])
case('C04', enum('X', V('A', attrs=[d('a')]), V('B', attrs=[d('b')]), V('C', F('n', U8, fs(default=True)), attrs=[d('b')]), V('D', F('n', U8, fs(default=True)), attrs=[d('d')])),
     p=['a', 'b', 'd', ''])
case('C04 C15', enum('X', ds='D'), auto=True)
case('C04 C15', enum('X', ds='DF'), p=['', 'a', '\n'])
case('C04 C15', enum('X', V('A', attrs=[fs(ignore=True)]), V('B', F(None, Opt(U8)), attrs=[fs(ignore=True)]), ds='F'), p=['', 'A', 'B'], auto=False)
case('C04 C11', enum('X', V('A', F(None, U8), attrs=[d('{0}'), fs(new=New([0], 'opt', rej=(0, T('7'))))]), V('B', F(None, STR), attrs=[d('{0}')])), p=['7', '8', 'x', '256'])
case('C04 C11', enum('X', V('A', attrs=[d('k'), fs(new=New([], 'res'))]), V('B', F('z', U8, fs(default=True)), attrs=[d('l'), fs(new=New([0], 'res', rej=(0, T('0'))))]), V('C', attrs=[d('l')]), V('D', F(None, STR), attrs=[d('{0}')])),
     p=['k', 'l', 'm', ''])
case('C04', enum('I', V('P'), V('Q', F(None, U8), attrs=[d('q{0}')])), enum('X', V('A', F(None, N('I')), attrs=[d('{0}')]), V('B', F(None, N('I')), F(None, N('I')), attrs=[d('{0}+{1}')]), V('C', F(None, STR), attrs=[d('{0}')])),
     p=['P', 'q1', 'P+q2', 'q256', 'P+', 'P+P+P', 'q1+x'])
case('C04', enum('X', V('A', F(None, STR), attrs=[fs(regex=cat('a', cap('0', plus(cls('a-z')))))]), V('B', F(None, U8), attrs=[fs(regex=cap('0', plus(DIG)))]), V('C', attrs=[d('abc')]), ds='F'),
     p=['abc', 'ab', 'a', '12', '300', 'abc1'])
case('C04 C05', enum('X', V('Ab'), V('AB'), V('aB'), attrs=[d(style='lowercase')]), p=['ab', 'AB', 'Ab'])

# ============ nested paths / default ====================================================
case('C10 C15 C19', struct('X', F('a', U32), F('b', U32), attrs=[d('{b}'), fs(default=True)], ds='DFm', dv=[T('99'), T('98')]), p=['10', '', 'x', '-1'])
case('C10', struct('X', F('a', U32, fs(default=True)), F('b', U32), attrs=[d('{b}')], ds='DFm', dv=[T('99'), T('98')]), p=['10', 'x'])
case('C10', struct('X', F('a', U32), F('b', STR), F('c', Opt(U8)), attrs=[d('lit'), fs(default=True)], ds='DFm', dv=[T('9'), S('bb'), [T('3')]]), p=['lit', 'x', ''])
case('C10 C19', struct('I', F('x', U8), F('y', U8), ds='m', dv=[T('7'), T('8')]), struct('X', F('i', N('I'), fs(default=True)), attrs=[d('{i.x}')]), p=['1', '', 'x', '256'])
case('C10 C19', struct('I', F('x', U8), F('y', U8), ds='m', dv=[T('7'), T('8')]), struct('X', F('i', N('I')), F('k', U8), attrs=[d('{i.y};{k}'), fs(default=True)], ds='DFm', dv=[[T('1'), T('2')], T('3')]),
     p=['5;6', ';6', '5;', '5;256', '256;5', '256;256'])
case('C10 C19', struct('J', F('p', I8), F('q', STR), ds='M'), struct('I', F('j', N('J')), F('t', Tup(U8, STR)), ds='M'),
     struct('X', F('i', N('I'), fs(default=True)), attrs=[d('{i.j.p}/{i.t.1}/{i.t.0}')]), p=['-1/x/2', '1/x/256', '200/x/2', '//', '1//2'])
case('C10 C08 C19', struct('I', F('x', U8), F('y', STR), ds='M'), struct('X', F('i', N('I'), fs(default=True)), F('k', U8), attrs=[fs(regex=cat(cap('i.x', star(cls('0-9a-c'))), '_', cap('k', star(DIG)), opt(cat('_', cap('i.y', star(cls('a-z')))))))], ds='F'),
     p=['1_2', '1_2_z', '_2', '1_', 'a_2', '256_1_q', '1_256_q', '1_2_'])
case('C10', enum('X', V('A', F('a', U8), F('b', STR, fs(default=True)), attrs=[d('{a}')]), V('B', F(None, STR, fs(default=True)), F(None, I8, fs(default=True)), attrs=[d('bee')]), ds='F'), p=['1', 'bee', '256', 'x'])
case('C10', struct('X', F('a', U8), F('b', U8), F('c', U8), attrs=[d('{b}'), fs(default_fields=['a', 'c'])]), p=['5', 'x', ''])
case('C10', struct('X', F(None, U8), F(None, STR), attrs=[d('{0}'), fs(default_fields=['1'])]), p=['5', 'x'])
case('C10 C16', struct('X', F('a', U8), F('b', STR), F('c', U8), attrs=[fs(default_fields=['a']), d('{b}'), fs(default_fields=['c'])]), p=['5', 'x', ''])
case('C10 C16', enum('X', V('A', F('n', U8), F('m', U8), F('k', STR), attrs=[d('a{k}'), fs(default_fields=['n']), fs(default_fields=['m'])]), V('B', F('m', STR), F('n', U8), attrs=[d('b')]), attrs=[fs(default_fields=['m']), fs(default_fields=['n'])]), p=['a1', 'b', 'a'])
case('C10', enum('X', V('A', F('n', U8), F('m', U8), attrs=[d('a{n}')]), V('B', F('m', STR), F('n', U8), attrs=[d('b{n}')]), attrs=[fs(default_fields=['m'])]), p=['a1', 'b1', 'a256'])
case('C10 C11', struct('X', F('a', U8), F('b', U8, fs(default=True)), attrs=[d('{a}'), fs(new=New([1, 0], 'self'))], ds='DF'), p=['5'])
case('C10', struct('X', F('a', U8, fs(default=True)), attrs=[d('{a}')]), p=['', '1', 'x'])
case('C10', struct('X', F('a', Opt(U8), d(opt=True), fs(default=True)), F('b', Opt(U8), d(opt=True), fs(default=True)), attrs=[d('<{a}>')]), p=['<>', '<1>', '<x>'])
case('C10', struct('X', F('a', U8), F('b', Tup(U8, U8)), attrs=[d('{b.1}'), fs(default=True)], ds='DFm', dv=[T('4'), [T('5'), T('6')]]), p=['9', 'x'])
case('C10 C19', struct('I', F('x', U8), F('y', U8), attrs=[d('{x},{y}')], ds='DFm', dv=[T('7'), T('8')]), struct('X', F('i', N('I')), attrs=[d('{i}#{i.x}')]), p=['1,2#3', '1,2#', '1#3', '1,2#256'])
case('C10', struct('X', F('a', STR), F('b', STR), attrs=[fs(regex=alt(cat('a', cap('a', star(cls('0-9')))), cat('b', cap('b', star(cls('0-9'))))), default=True)], ds='Fm', dv=[S('da'), S('db')]), p=['a1', 'b2', 'a', 'b', 'c'])

# ============ opt ========================================================================
case('C06 C02', struct('X', F('a', Opt(U32), d('a={}', opt=True))), v=[[[]], [[T('10')]]], p=['', 'a=10', 'a=', '10', 'a=x', 'a=10 '])
case('C06 C02', struct('X', F('a', Opt(U32), d(opt=True)), F('b', Opt(STR), d(',{}', opt=True)), attrs=[d('<{a}{b}>')]), p=['<>', '<1>', '<1,>', '<,>', '<,x>', '<x>', '<1,2,3>', '<1', '<,,>'])
case('C06', struct('X', F('a', Opt(STR), d(opt=True)), F('b', STR), attrs=[d('{a}{b}')]), p=['', 'x', 'xy'])
case('C06', struct('X', F('a', STR), F('b', Opt(STR), d('-{}', opt=True)), attrs=[d('{a}{b}')]), p=['', 'x', 'x-y', 'x-y-z', '-'])
case('C06', struct('X', F('a', Opt(STR), d('-{}', opt=True)), F('b', STR), attrs=[d('{a}{b}')]), p=['', 'x', '-y', '-', '--'])
case('C06', struct('X', F('a', Opt(STR), d(opt=True), fs(regex=plus(cls('a-c')))), F('b', STR, d('{}')), attrs=[d('{a}{b}')], ds='F'), p=['', 'abc', 'abcd', 'd'])
case('C06', struct('X', F('a', Opt(STR), d(opt=True), fs(regex=plus(cls('a-c')))), F('b', STR, fs(regex=star(cls('d-f')))), attrs=[d('{a}{b}')], ds='F'), p=['', 'abc', 'abcd', 'd', 'g'])
case('C06', struct('X', F('a', Opt(U8), d('[{}]', opt=True), fs(regex=plus(DIG))), F('b', STR), attrs=[d('{a}{b}')], ds='DF'), p=['[1]x', '[1]', '[256]', '[]', '[x]', ''])
case('C06', struct('X', F('a', Opt(U8), d(opt=True), fs(regex=cat('<', cap('', star(DIG)), '>'))), F('b', STR, fs(regex=star(cls('x-z')))), attrs=[d('{a}{b}')], ds='F'), p=['<1>x', '<>', 'x', '', '<300>', '<1>a'])
case('C06 C12', struct('X', F('a', Opt(I32), d(opt=True)), F('b', Opt(STR), d('({:>4})', opt=True)), F('c', Opt(I32), d('{:#06x}', opt=True)), attrs=[d('{a:+05}|{b}|{c}|{a:>6}|{a:?}')], ds='D'),
     v=[[[T('5')], [S('z')], [T('255')]], [[], [], []], [[T('-5')], [S('zzzzzz')], [T('-1')]]])
case('C06 C12', struct('X', F('a', Opt(I32), d(opt=True)), attrs=[d('{a:x}|{a:X}|{a:o}|{a:b}|{a:e}|{a:E}|{a:#?}|{a:08b}|{a:^+9}')], ds='D'), v=[[[T('250')]], [[]], [[T('-3')]]])
case('C06 C01', struct('I', F('x', U8), F('y', STR), ds=''), struct('X', F('a', Opt(N('I')), d('{x}={y:?}', opt=True)), attrs=[d('[{a}]')], ds='D'), v=[[[[T('1'), S('q')]]], [[]]])
case('C06 C02 C04', enum('X', V('A', F(None, Opt(U8), d('/{}', opt=True)), attrs=[d('a{0}')]), V('B', F('x', Opt(U8), d(opt=True)), F('y', Opt(STR), d('!{}', opt=True)), attrs=[d('b{x}{y}')]), V('C', F(None, STR), attrs=[d('{0}')])),
     p=['a', 'a/1', 'a/x', 'b', 'b1', 'b!x', 'b1!x', 'bx', 'b!', 'c', ''])
case('C06 C07', struct('X', F('a', Opt(U8), d('a{}', with_='brk', opt=True)), F('b', Opt(U8), d(with_='hex', opt=True)), attrs=[d('{a}:{b}')]), p=['a[1]:ff', ':', 'a[]:1', 'a1:2', ':100', ':g', 'a[1]:'])
case('C06 C07', struct('X', F('a', Opt(STR), d(with_='num', opt=True)), F('b', STR), attrs=[d('{a}{b}')]), p=['12ab', 'ab', '', '12'])
case('C06 C09', struct('X', F('a', Opt(U8), d(opt=True), fs(infer=True)), F('b', STR, fs(regex=star(cls('a-z')))), attrs=[d('{a}{b}')], ds='DF'), p=['12ab', 'ab', '', '12', '300x', '-1'])
case('C06', struct('I', F('x', U8), F('y', U8), attrs=[d('{x}.{y}')]), struct('X', F('i', Opt(N('I')), d('({})', opt=True)), F('z', Opt(N('I')), d(opt=True)), attrs=[d('{i}{z}')]), p=['(1.2)3.4', '(1.2)', '3.4', '', '(1)', '()', '1'])
case('C06', struct('X', F('a', As(Opt(U8), 'std::option::Option<u8>'), d(opt=True)), F('b', As(Opt(U8), '::core::option::Option<u8>'), d(opt=True)), attrs=[d('{a},{b}')]), p=[',', '1,', ',2', '1,2', 'x,'])
case('C06', struct('X', F('a', Opt(CHAR), d(opt=True)), F('b', Opt(BOOL), d(opt=True)), F('c', Opt(F64), d(opt=True)), attrs=[d('{a};{b};{c}')]), p=[';;', 'a;true;1.5', ';;1e3', 'ab;;', ';maybe;', ';;x', ';;-inf', '\n;;'])
case('C06 C10', struct('X', F('a', Opt(U8), d(opt=True)), F('b', Opt(U8), d(opt=True)), attrs=[d('{a}'), fs(default=True)], ds='DFm', dv=[[T('5')], [T('6')]]), p=['', '1', 'x'])

# ============ with ========================================================================
case('C07 C02', struct('X', F(None, STR, d(with_='num')), F(None, STR), attrs=[d('{0}{1}')]), p=['123abc', 'abc', '', '1', '1\n'])
case('C07', struct('X', F(None, STR, fs(with_='num')), F(None, STR), attrs=[d('{0}{1}')]), p=['123abc', 'abc', '1'])
case('C07', struct('X', F(None, STR), F(None, STR, d(with_='num')), F(None, STR), attrs=[d('{0}{1}{2}')]), p=['a12b', '12', 'a1b2c', 'ab', ''])
case('C07', struct('X', F('a', STR, d(with_='alt')), F('b', STR, d(with_='alt')), F('c', STR), attrs=[d('{a}{b}{c}')]), p=['ab', 'a12x', '1212', 'abcabc', '12', 'x', 'ab12cd'])
case('C07', struct('X', F('a', STR, d('<{}', with_='alt')), F('b', STR, d('{}>', with_='alt')), attrs=[d('{a}|{b}')]), p=['<a|b>', '<12|ab>', '<12|3>', '<a|b', 'a|b'])
case('C07', struct('X', F('a', STR, d(with_='grp')), F('b', STR, d(with_='grp')), F('c', STR), attrs=[d('{a}{b}{c}')]), p=['xy', 'x1y2z', 'x1', 'y1x', 'xyz', 'z'])
case('C07', struct('X', F('a', STR, d(with_='alt2')), F('b', STR), attrs=[d('{a}{b}')]), p=['a', 'ab', 'abc', 'b'])
case('C07', struct('X', F('a', STR, d(with_='alt2')), F('b', STR, fs(regex=plus('c'))), attrs=[d('{a}{b}')], ds='F'), p=['ac', 'abc', 'abcc', 'ab'])
case('C07', struct('X', F('a', STR, d(with_='old')), F('b', U8), attrs=[d('{a}{b}')]), p=['ab12', '12', 'ab', 'AB12', 'ab256'])
case('C07 C08', struct('X', F('a', STR, d(with_='cis')), F('b', STR, fs(regex=plus('a'))), attrs=[d('ab{a}{b}')], ds='F'), p=['ababa', 'abABa', 'ABaba', 'abABA', 'abAbaaa'])
case('C07', struct('X', F('a', STR, d(with_=Rx(dotall(star(DOT, False)), '!'))), F('b', STR), attrs=[d('{a}{b}')]), p=['a!b', '!', '', 'a!b!c', '!!', 'ab'])
case('C07', struct('X', F('a', STR, d(with_=Rx('!', dotall(star(DOT, False))))), F('b', STR), attrs=[d('{b}{a}')]), p=['a!b', '!', '', 'a!b!c', '!!', 'ab'])
case('C07', struct('X', F('a', STR, d(with_=Rx(alt(dotall(star(DOT, False)), 'b')))), F('b', STR), attrs=[d('{a}{b}')]), p=['a!b', 'b', '', 'bb', 'cb'])
case('C07', struct('X', F('a', STR, d(with_='dota')), F('b', STR), attrs=[d('{a}-{b}')]), p=['a-b', 'a-b-c', 'a\n-b', '-', 'a\nb'])
case('C07 C19', struct('X', F('a', STR, d(with_='rej')), F('b', STR, d(with_='rej')), attrs=[d('{a}-{b}')]), p=['a-b', 'no-b', 'a-no', 'no-no', 'A-b', 'a-'])
case('C07 C04', enum('X', V('A', F(None, STR, d(with_='rej')), attrs=[d('{0}')]), V('B', F(None, STR), attrs=[d('n{0}')]), V('C', F(None, STR, d(with_='num')), attrs=[d('{0}')])), p=['no', 'yes', '12', 'nx!', '1x'])
case('C07 C02', struct('X', F('a', U8, d(with_='brk')), F('b', STR, d(with_='brk')), attrs=[d('{a}{b}')]), p=['[1][x]', '[1]x', '[][]', '[1][x][y]', '[256][x]', '1[x]'])
case('C07 C02', struct('X', F('a', U8, d(with_='brkr')), F('b', STR, d(with_='brkr')), attrs=[d('{a}{b}')]), p=['[1][x]', '[1]x', '[][]', '[1][x][y]', '[256][x]', '[1][[x]]'])
case('C07 C12', struct('X', F('a', STR, d(with_='pad')), F('b', I32, d('={:*<5}', with_='pad')), attrs=[d('{a:>4}|{a:.1}|{b}|{a:^7.2}')], ds='D'), v=[[S('xyz'), T('-1')]])
case('C07', struct('X', F('a', U8, d(with_='dis'), fs(with_='fro')), F('b', STR, d(with_='dis'), fs(with_='fro')), attrs=[d('{a}{b}')]), p=['<1><x>', '<1>x', '<1><>', '1<x>', '<1><x>>'], v=[[T('1'), S('>')]])
case('C07 C16', struct('X', F('a', U8, d(with_='hex'), fs(with_='num')), attrs=[d('{a}')]), p=['12', 'ff', '255', '256'], v=[[T('255')]])
case('C07 C16', struct('X', F('a', U8, fs(with_='hex')), attrs=[d('{a}')]), p=['12', 'ff', '100'], v=[[T('255')]])
case('C07 C08 C16', struct('X', F('a', U8, fs(regex=plus(cls('0-9a-f')), with_='hex')), F('b', STR), attrs=[d('{a}{b}')], ds='DF'), p=['fz', 'ffg', '1', 'g', '100'])
case('C07 C10', struct('X', F('a', STR, d(with_='num')), F('b', STR, d(with_='num')), F('c', STR), attrs=[d('{a}x{c}'), fs(default=True)], ds='DFm', dv=[S('da'), S('db'), S('dc')]), p=['1x', '1xx', 'x', '12x3'])
case('C07', struct('I', F('v', STR, d(with_='num'))), struct('X', F('a', N('I'), d(with_='fmt')), F('b', N('I')), attrs=[d('{a}{b}')]), p=['12', '1', 'a1', '1a'])
case('C07', enum('X', V('A', F('x', STR, d(with_='alt')), F('y', STR), attrs=[d('{x}{y}')]), V('B', F('x', STR), attrs=[d('{x}')])), p=['ab', '12', '1', 'abx', ''])

# ============ join / delimiter ===============================================================
case('C21 C07', struct('X', F('a', Vec(U32), d(with_=Delim(', ')))), v=[[[]], [[T('1')]], [[T('1'), T('2'), T('3')]]], p=['', '1', '1, 2', '1,2', '1, ', ', 1', '1, 2, 3', '1, x', '1,  2'])
case('C21', struct('X', F('a', Vec(STR), d(with_=Delim('|')))), v=[[[]], [[S('')]], [[S(''), S('')]], [[S('a|b'), S('c')]]], p=['', '|', 'a|b', '||', 'a', '\n|\n'])
case('C21', struct('X', F('a', Vec(STR), d(with_=Delim('aa')))), v=[[[S('x'), S('a'), S('y')]]], p=['aaa', 'aaaa', 'xaay', 'a', 'xaaaay'])
case('C21', struct('X', F('a', Vec(CHAR), d(with_=Delim('')))), v=[[[S('a'), S('b')]], [[]]], p=['', 'a', 'ab'])
case('C21', struct('X', F('a', Vec(STR), d(with_=Delim('')))), v=[[[S('ab'), S('c')]], [[]]], p=['', 'a', 'ab'])
case('C21', struct('X', F('a', Vec(U8), d('[{}]', with_=Delim('-'))), F('b', Vec(STR), d(with_=Delim('--'))), attrs=[d('{a}:{b}')]), p=['[1-2]:a--b', '[1]:', '[]:', '[1-2]:a-b', '[1--2]:a', '[1]:a---b'])
case('C21', struct('X', F('a', Vec(Vec(U8)), d(with_=Join(Join(W('fmt'), ','), ';'))), F('b', STR), attrs=[d('{a}/{b}')]), v=[[[[T('1'), T('2')], [T('3')]], S('x')], [[[]], S('')], [[], S('')]], p=['1,2;3/x', '1/', '/', ';/', '1,;2/', '1,2/x'])
case('C21', struct('X', F('a', Vec(U8), d(with_=Join(W('brk'), ' ')))), p=['[1] [2]', '[1]', '', '[1][2]', '[1]  [2]', '1 2'], v=[[[T('1'), T('2')]]])
case('C21', struct('X', F('a', Vec(U8), d(with_=Join(W('hex'), '.')))), p=['ff.0', '', '100', 'f.g'], v=[[[T('255'), T('0')]]])
case('C21 C06', struct('X', F('a', Opt(Vec(U8)), d('<{}>', opt=True, with_=Delim(',')))), p=['', '<>', '<1>', '<1,2>', '<,>'], v=[[[]], [[[T('1'), T('2')]]], [[[]]]])
case('C21 C04', enum('X', V('A', F(None, Vec(U8), d(with_=Delim('+'))), attrs=[d('{0}')]), V('B', F(None, Vec(STR), d(with_=Delim('+'))), attrs=[d('{0}')])), p=['1+2', 'a+b', '1+b', '', '256'])
case('C21', struct('I', F('x', U8), F('y', U8), attrs=[d('{x}:{y}')]), struct('X', F('a', Vec(N('I')), d(with_=Delim(',')))), p=['1:2,3:4', '1:2', '', '1:2,', '1:2:3,4:5'], v=[[[[T('1'), T('2')], [T('3'), T('4')]]]])
case('C21', struct('X', F('a', Vec(STR), d(with_=Delim('é.'))), F('k', U8), attrs=[d('{a}={k}')]), p=['aé.b=1', 'aéxb=1', 'é.=1', '=1', 'a=b=1'], v=[[[S('x'), S('é')], T('1')]])
case('C21 C03', struct('X', F('a', Vec(STR), d(with_=Delim(','))), F('b', Vec(STR), d(with_=Delim(','))), attrs=[d('{a} {b}')]), p=['a,b c,d', ' ', 'a b c', ', ,'])
case('C21 C09', struct('X', F('a', Vec(U8), d(with_=Delim(','))), F('b', U8, fs(infer=True)), attrs=[d('{a}={b}')]), p=['1,2=3', '=3', '1=', '1,2=3=4'], x=['1,2=3', '=', '=1', 'x=1'])

# ============ regex ============================================================================
# a verbose pattern that ends in a comment
VB = lambda x: grp(x, '?x:', head=True)
case('C08', struct('X', F('a', U8, fs(regex=VB(plus(DIG)))), F('b', STR), attrs=[d('{a}{b}')]), p=['1', '12x', 'x', '', '1 ', ' 1', '1#', '300'])
case('C08', struct('X', F('a', STR, d('<{}>'), fs(regex=VB(alt('a b', 'c')))), F('b', STR, fs(regex=VB(star(DOT)))), attrs=[d('{a}-{b}')]), p=['<a b>-', '<c>-x', '<ab>-', 'c-', '<a b>-\n'])
case('C08 C04', enum('X', V('A', F(None, U8), attrs=[fs(regex=VB(cat(cap('', 'x'), '=', cap('0', plus(DIG)))))]), V('B', attrs=[fs(regex=VB(alt('b ', 'c')))])), p=['A=1', 'x=1', 'b ', 'b', 'c', 'A=', 'A=300', 'a=1'])
case('C08', struct('X', F('a', Opt(U8), d(opt=True), fs(regex=VB(rep(DIG, 1, 2)))), F('b', STR), attrs=[d('{a}{b}')]), p=['1', '12x', 'x', '', '123'])
case('C08', struct('X', F('a', U8), F('b', U8), attrs=[fs(regex=cat(cap('a', plus(DIG)), '__', cap('b', plus(DIG))))], ds='F'), p=['10__20', '10_20', '10__', '10__20_', '300__1', '1__300', 'x10__20', '10__20\n', '1__2__3'])
case('C08', struct('X', F('a', STR), F('b', STR), attrs=[fs(regex=alt(cat('a', cap('a', star(DOT))), cat('b', cap('b', star(DOT)))))], ds='F'), p=['a1', 'b1', 'a', 'b', 'c', 'ab', 'a\n', 'ba'])
case('C08', struct('X', F('a', STR), F('b', STR), attrs=[fs(regex=cat(cap('b', star(cls('a-z'), g=False)), cap('a', star(cls('a-z')))), )], ds='F'), p=['', 'abc', 'ab1'])
case('C08', struct('X', F('a', U8, fs(regex=plus(DIG))), F('b', STR, fs(regex=plus(cls('a-z')))), attrs=[d('{a}{b}')], ds='DF'), p=['1a', '12ab', 'a1', '1', '300a', '1a '])
case('C08', struct('X', F('a', STR, fs(regex=alt('a', 'ab'))), F('b', STR, fs(regex=alt('c', 'bc'))), attrs=[d('{a}{b}')], ds='F'), p=['ac', 'abc', 'abbc', 'a', 'c', 'ab'])
case('C08', struct('X', F('a', STR, fs(regex=alt('a', 'b', ''))), F('b', STR), F('c', STR, fs(regex=alt('x', 'y'))), attrs=[d('{a}-{b}-{c}')], ds='F'), p=['a--x', '-q-y', 'b-x-y', 'c--x', 'a-x', '--x'])
case('C08', struct('X', F('a', STR, fs(regex=ci('ab', head=True))), F('b', STR, fs(regex='cd')), attrs=[d('x{a}{b}')], ds='F'), p=['xabcd', 'xABcd', 'XABcd', 'xABCD', 'xaBcd'])
case('C08', struct('X', F('a', STR, fs(regex=dotall(star(DOT), head=True))), F('b', STR, fs(regex=star(DOT))), attrs=[d('{a}|{b}')], ds='F'), p=['a|b', 'a\nb|c', 'a|b\nc', '|', 'a|b|c'])
case('C08', struct('X', F('a', STR, fs(regex=cat(grp(alt('x', 'y')), grp('1', '?:')))), F('b', STR, fs(regex=grp(plus(cls('a-c'))))), F('c', STR), attrs=[d('{a}{b}{c}')], ds='F'), p=['x1a', 'y1abcq', 'x1', 'z1a'])
case('C08', struct('X', F('a', U8, fs(regex=cat('a = ', cap('', plus(DIG)))))), p=['a = 10', '10', 'a = ', 'a = 300'])
case('C08 C16', struct('X', F('a', U8, d('a = {}'), fs(regex=plus(DIG)))), p=['a = 10', '10', 'a = a = 10', 'a = ', 'a = 300'])
case('C08 C16', struct('X', F('a', U8, d('a = {}'), fs(regex=cat('a = ', cap('', plus(DIG)))))), p=['a = 10', '10', 'a = a = 10', 'a = 300'])
case('C08', struct('X', F('a', U8, fs(regex=cat('<', cap('', plus(DIG), p=True), '>'))), F('b', STR, fs(regex=cat(cap('', star(cls('a-z'))), ';'))), attrs=[d('{a},{b}')], ds='F'), p=['<1>,a;', '<1>,;', '<>,a;', '<1>,a', '1,a', '<300>,a;'])
case('C08 C05', enum('X', V('VarA'), V('VarB', attrs=[fs(regex=cat('xxx', cap('', ''), 'xxx'))]), attrs=[fs(regex=cat('___', cap('', ''), '___'))], ds='F'), p=['___VarA___', 'xxxVarBxxx', '___VarB___', 'VarA', '______', '___vara___'])
case('C08 C05', enum('X', V('VarA'), V('Var1B'), attrs=[d(style='SNAKE_CASE'), fs(regex=cat(star('<'), cap('', 'zz'), opt('>')))], ds='F'), p=['VAR_A', '<<VAR_A>', 'VAR1_B>', 'zz', '<zz', 'VAR_A>>'])
case('C08', enum('X', V('VarA', F(None, U8), attrs=[fs(regex=cat(cap('', ''), '=', cap('0', plus(DIG))))]), V('VarB', F('q', STR), attrs=[fs(regex=ci(cat(cap('', ''), '=', cap('q', star(cls('a-c')))), head=True))]), ds='F'),
     p=['VarA=1', 'VarB=a', 'varb=ABC', 'vara=1', 'VARB=', 'VarA=300', 'VarB=d'])
case('C08', enum('X', V('A', attrs=[fs(regex=cat(cap('', '')))]), V('B', attrs=[d('{}')]), V('C_D', attrs=[fs(regex=alt(cap('', ''), 'see'))]), attrs=[d(style='kebab-case')], ds='DF'), p=['a', 'b', 'c-d', 'see', 'C_D'])
case('C08', enum('X', V('A', F('x', U8), F('y', STR), attrs=[fs(regex=cat('A', cap('x', plus(DIG)), cap('y', star(DOT))))]), V('B', F('x', STR), attrs=[d('B{x}'), fs(regex=cat(cap('x', plus(cls('^a', neg=False)))))]), ds='F'), p=['A1', 'A12x', 'Ax', 'B', 'a', '^', 'A300', 'B1'])
case('C08 C10', struct('I', F('x', U32), F('y', U32), ds='M'), struct('X', F('i', N('I'), fs(default=True)), attrs=[fs(regex=cat('___', cap('i.x', plus(DIG))))], ds='F'), p=['___10', '10', '___', '___x'])
case('C08 C10', struct('X', F(None, Tup(U8, U8), fs(default=True)), F(None, STR), attrs=[fs(regex=cat(cap('0.1', plus(DIG)), ',', cap('0.0', plus(DIG)), cap('1', star(DOT))))], ds='F'), p=['1,2', '1,2x', '1,', '300,1', '1,300'])
case('C08 C10', struct('I', F('x', U32), F('y', STR), ds='M'), struct('X', F('i', N('I'), fs(default=True, regex=cat('(', cap('y', star(cls('a-z'))), ')', cap('x', plus(DIG))))), F('k', STR), attrs=[d('{k}{i}')], ds='F'), p=['(a)1', 'q(a)1', '()2', 'a1', '(A)1'])
case('C08', struct('X', F('a', STR), attrs=[fs(regex=cat(BOS, cap('a', star(cls('a-z'))), EOS))], ds='F'), p=['abc', '', 'ab1', 'abc\n'])
# backslashes before what looks like a group: pairs of them are text, and one more takes the parenthesis as text
case('C08', struct('X', F(None, STR, fs(regex=cat('\\', opt('('), '<a>', star(DOT))))), p=['\\(<a>x', '\\<a>', '\\\\<a>x', '<a>', '(<a>x', 'x'])
case('C08', struct('X', F('a', STR), F('b', STR), attrs=[fs(regex=cat(cap('a', star(cls('xy'))), '\\\\', opt('('), '<b>', cap('b', star(DOT))))]), p=['x\\\\(<b>y', '\\\\<b>', 'x\\(<b>y', 'xy\\\\<b>\n', 'x\\\\(<b>(<b>'])
case('C08', struct('X', F('a', STR), F('b', STR), attrs=[fs(regex=cat('\\', cap('a', star(cls('xy'))), '\\\\', cap('b', star(DOT)), '\\'))]), p=['\\x\\\\y\\', '\\\\\\\\', '\\\\\\', 'x\\\\y', '\\x\\y\\'])
case('C08', enum('X', V('A', F('n', STR), attrs=[fs(regex=cat('\\\\\\', opt('('), '<n>-', cap('', ''), cap('n', DOT)))]), V('B', attrs=[fs(regex=cat('\\', cap('', ''), '\\', opt('('), '<>'))]), ds='F'), p=['\\\\\\(<n>-Ax', '\\\\\\<n>-Ax', '\\B\\(<>', '\\B\\<>', '\\B\\\\<>', '\\\\(<n>-Ax'])
# spaces at the ends of a regex are text
case('C08', struct('X', F('a', STR, fs(regex=cat(' ', cls('a-z'), ' '))), F('b', STR, fs(regex=cat(plus(cls('a-z')), '\t'))), attrs=[d('<{a}>{b}')]), p=['< x >a\t', '<x >a\t', '< x>a\t', '< x >a', '<x>a', '< x >\t'])
case('C08', struct('X', F('a', STR), attrs=[fs(regex=cat('\n', cap('a', star(DOT)), ' '))]), p=['\nx ', 'x ', '\nx', '\n ', 'x', ' x '])
# programs of a megabyte: fifty letters of any script, and as many words
case('C08 C18', struct('X', F('a', STR, fs(regex=rep(CLASSES[0], 50, 50))), F('b', STR, fs(regex=rep(CLASSES[19], 0, 30, False))), attrs=[d('{a}-{b}')]), p=['a', 'é' * 50 + '-', 'ab_1é' * 10 + '-日b', 'a' * 50 + '-b1', 'é' * 49 + '-', 'b' * 51 + '-', '日' * 50 + '-' + '語' * 30, '日' * 50 + '-' + 'b' * 31])
case('C08 C18', struct('X', F('a', STR, fs(regex=plus(alt('q', cat(rep(CLASSES[0], 60, 60), ';'))))), attrs=[d('<{a}>')]), p=['<>', '<q>', '<%s;>' % ('é' * 60), '<q%s;q>' % ('a' * 60), '<%s;>' % ('é' * 59), 'q'])
case('C08', struct('X', F('a', STR, fs(regex=rep(cls('a-z'), 2, 3))), F('b', STR, fs(regex=rep(cls('a-z'), 1, 2, g=False))), attrs=[d('{a}{b}')], ds='F'), p=['ab', 'abc', 'abcd', 'abcde', 'abcdef', 'a'])
case('C08', struct('X', F('a', STR, fs(regex=star(cls('-,\\x', neg=True)))), F('b', STR, fs(regex=star(cls('\\[].-')))), attrs=[d('{a}{b}')], ds='F'), p=['abc', 'ab]-', 'a[.', '-', 'x\\', '\n]'])
case('C08 C16', struct('X', F('a', U8), F('b', U8), attrs=[d('{a}+{b}'), fs(regex=cat(cap('b', plus(DIG)), '-', cap('a', plus(DIG))))], ds='DF'), p=['1-2', '1+2'], v=[[T('1'), T('2')]])
case('C08 C03', struct('X', F('a', STR, fs(regex=plus(DIG))), F('b', STR), F('c', STR, fs(regex=star(cls('0-9'), g=False))), attrs=[d('{a}{b}{c}')], ds='F'), p=['123', '1a2', '1', 'a'])
case('C08', struct('X', F('ab', STR), F('a_b', STR), F('_c', STR), F('C9', STR), attrs=[fs(regex=cat(cap('a_b', 'x'), cap('_c', 'y', p=True), cap('ab', 'z'), cap('C9', star('w'))))], ds='F'), p=['xyz', 'xyzww', 'xy'])
case('C08', struct('X', F('a', STR), F('b', STR), attrs=[fs(regex=cat('\\(?<a>', cap('a', star(cls('a-z'))), '(?<', cap('b', star(DIG))))], ds='F'), p=['\\(?<a>q(?<1', '\\(?<a>(?<', 'q1'])
case('C08 C06', struct('X', F('a', Opt(U8), d('<{}>', opt=True), fs(regex=plus(DIG))), F('b', Opt(STR), d(opt=True), fs(regex=alt('x', 'yy'))), attrs=[d('{a}{b}')], ds='F'), p=['<1>x', '<1>', 'yy', '', 'x', '<>x', '<1>y', '<999>'])
case('C08 C04', enum('X', V('A', F('n', U8, fs(regex=plus(DIG))), attrs=[d('v{n}')]), V('B', F('n', STR, fs(regex=alt('v', 'w'))), F('m', STR), attrs=[d('{n}{m}')]), ds='DF'), p=['v1', 'v300', 'w1', 'v', 'x'])

# ============ regex_infer / FromStrRegex =====================================================================
case('C09', struct('X', F('a', U32, fs(infer=True)), F('b', STR), attrs=[d('{a}{b}')]), p=['1a', '12', 'a', '', '-1'], x=['1a', 'a', '', '1'])
case('C09', struct('X', F('a', I32), F('b', U8), F('c', STR), attrs=[d('{a}{b}{c}'), fs(infer=True)]), p=['-12x', '12', '1', '-1-2', '+12'])
case('C09', struct('X', F('a', F64), F('b', STR), attrs=[d('{a}{b}'), fs(infer=True)]), p=['1.5e3x', '-infx', 'nan', 'NaNx', '.5.', '1.', 'e', 'INF', 'inf', '-nan', '+1'], v=[[T('inf'), S('')]])
case('C09', struct('X', F('a', CHAR), F('b', BOOL), F('c', CHAR), attrs=[d('{a}{b}{c}'), fs(infer=True)]), p=['xtruey', '\nfalse\n', 'true', 'xtrue', 'ttruet', '日true😀'])
case('C09', struct('X', F('a', I8), F('b', I8), attrs=[d('{a}{b}'), fs(infer=True)]), p=['1-2', '-1-2', '12', '1', '-', '--1', '200-1'])
case('C09 C04', enum('X', V('A', F(None, U8), F(None, STR), attrs=[d('{0}{1}'), fs(infer=True)]), V('B', F(None, STR), F(None, U8), attrs=[d('{0}{1}')]), V('C', F(None, U8, fs(infer=True)), F(None, CHAR), attrs=[d('c{0}{1}')])), p=['1a', 'a1', 'c12', 'c1x', 'c', '300a'])
case('C09', enum('I', V('A'), V('Ab'), V('B', F(None, U8), attrs=[d('b{0}')])), struct('X', F('i', N('I'), fs(infer=True)), F('s', STR), attrs=[d('{i}{s}')]), p=['A', 'Ab', 'Abc', 'b1', 'bq', 'AbA', 'b', ''], x=['A', 'Abc', 'b', 'x'])
case('C09', enum('I', V('A', attrs=[d('a|b')]), V('Ab', attrs=[d('(x.y)*')]), V('C', attrs=[d('{{}}')])), struct('X', F('i', N('I'), fs(infer=True)), F('s', STR), attrs=[d('{i}{s}')]), roots=[N('I'), N('X')],
     p=[['a|b', 'a', '(x.y)*', '{}'], ['a|bz', '(x.y)*', '{}{}', 'a']], x=[['a|b', 'a', 'b', '(x.y)*', 'xzy', '{}'], ['a|b', 'a', 'b', '{}z']], v=[[], []])
case('C09', enum('I', V('A', attrs=[d('a|b')]), V('B', F(None, U8), attrs=[d('{{{0}}}|.')]), V('D', attrs=[d('{{1}}')]), V('E', attrs=[d('^.$'), fs(ignore=True)])), struct('X', F('i', N('I'), fs(infer=True)), F('s', STR), attrs=[d('<{i}>{s}')]), roots=[N('I'), N('X')],
     p=[['a|b', '{1}|.', '{1}', '^.$'], ['<a|b>', '<{1}|.>x', '<{1}>', '<a>']], x=[['a|b', 'a', 'b', '{1}|.', '{1}', '^.$', 'x', '{}|.'], ['<a|b>', '<a', 'b>', '<{1}>z', '<{9}|.>']], v=[[], []])
case('C09', struct('I', F('x', U8), F('y', STR, fs(regex=alt('a', 'bb'))), attrs=[d('{x}:{y}')], ds='DF'), struct('X', F('i', N('I')), F('j', N('I')), F('s', STR), attrs=[d('{i}{j}{s}'), fs(infer=True)], ds='DF'), p=['1:a2:bb', '1:bb2:a!', '1:a', '1:a2:b'], x=['1:a2:bb', ':a:a', 'a:ab:az', '1:b2:a'])
case('C09', struct('I', F('x', STR, fs(regex=ci('q', head=True))), F('y', STR, fs(regex=dotall(DOT))), attrs=[d('{x}{y}')], ds='F'), struct('X', F('i', N('I'), fs(infer=True)), F('s', STR, fs(regex=star(cat('q', DOT)))), attrs=[d('q{i}{s}')], ds='F'), roots=[N('I'), N('X')],
     p=[['q\n', 'Qq', 'qq'], ['qQ\nqx', 'qqxqy', 'QQx', 'qqxQx', 'qqxq\n']], x=[['q\n', 'Qx', 'qqq'], ['qQ\n', 'QQ\n', 'qqxqx', 'qqxQx']], v=[[], []])
case('C09', struct('I', F('x', Opt(U8), d('<{}>', opt=True)), F('y', STR), attrs=[d('{x}={y}')]), struct('X', F('i', N('I'), fs(infer=True)), F('k', STR), attrs=[d('{i};{k}')]), p=['<1>=a;b', '=a;b', '=;', ';', '<x>=;'], x=['<1>=a;', '=;', '<>=;', ';', '<=;'])
case('C09', struct('X', F('a', Ty(k='nzu8')), F('b', Ty(k='nzi32')), F('s', STR), attrs=[d('{a}/{b}{s}'), fs(infer=True)]), p=['1/2', '0/1', '1/0', '1/-5x', '-1/5'])
case('C09 C07 C16', struct('X', F('a', STR, d(with_='num'), fs(infer=True)), F('b', STR, fs(infer=True, regex=plus(cls('a-c')))), attrs=[d('{a}{b}')], ds='DF'), p=['12ab', 'xab', '12', '12abcd'])
case('C09', struct('X', attrs=[d('a.b*{{}}[x]|^$')], shape='unit'), x=['a.b*{}[x]|^$', 'aXb*{}[x]|^$', 'a.b*{}[x]|^', ''], p=['a.b*{}[x]|^$'])
case('C09', enum('X', V('A'), V('B', attrs=[fs(ignore=True)]), V('C', attrs=[fs(regex=plus('c'))]), ds='F'), x=['A', 'B', 'c', 'cc', 'C', ''], p=['A', 'B', 'cc'])
case('C09', struct('X', F('a', STR), attrs=[fs(regex=cat(cap('a', alt('x', 'y')), opt('z')))], ds='F'), struct('Y', F('x', N('X'), fs(infer=True)), F('s', STR), attrs=[d('{x}{s}')], ds='F'), roots=[N('X'), N('Y')], p=[['x', 'yz'], ['xzq', 'yq', 'z']], x=[['x', 'yz', 'zz'], ['xzq', 'q', 'y']], v=[[], []])
for _k in INTS:
    case('C09', struct('X', F('a', P(_k)), F('b', STR), attrs=[d('{a}{b}'), fs(infer=True)]), p=['1', '-1', '10x', '-', '+1', '0', ''], id='infer_' + _k)
    case('C09', struct('X', F('a', P('nz' + _k)), F('b', STR, fs(regex='x')), attrs=[d('{a}{b}'), fs(infer=True)], ds='DF'), p=['1x', '-1x', '10x', '-x', '0x'], id='infer_nz' + _k)
for _k in ('f32', 'f64', 'str', 'char', 'bool'):
    case('C09', struct('X', F('a', P(_k)), F('b', STR), attrs=[d('{a}|{b}'), fs(infer=True)]), p=['1|', '-1|', 'x|y', 'true|', 'inf|', 'NaN|', '1e5|', '1.|', '.1|', '\n|', '||'], id='infer_' + _k)

case('C05 C04', enum('X', V('A٣b'), V('x〇Y_٣'), V('किB'), V('क्Xa'), V('Tª9X'), attrs=[d(style='snake_case')]), p=['a٣b', 'x〇_y_٣', 'A٣b', 'a_b'])
# ============ new ================================================================================================
case('C11', struct('X', F('v', U32), attrs=[fs(new=New([0], 'opt', rej=(0, T('0'))))]), p=['1', '0', 'x', '00'])
case('C11', struct('X', F(None, U32), attrs=[fs(new=New([0], 'res', rej=(0, T('0'))))]), p=['1', '0', 'x'])
case('C11', struct('X', F('a', U8), F('b', U8), attrs=[d('{a},{b}'), fs(new=New([1, 0], 'self'))]), p=['1,2', '1,', '1,256'])
case('C11', struct('X', F(None, STR), F(None, STR), F(None, U8), attrs=[d('{0},{1},{2}'), fs(new=New([1, 0, 2], 'opt', mark=(2, T('77'))))]), p=['a,b,1', 'a,b,x', 'a,b'])
case('C11 C04', enum('X', V('A', F('a', U8), F('b', U8), attrs=[d('{a}-{b}'), fs(new=New([1, 0], 'res', rej=(0, T('3'))))]), V('B', F(None, STR), F(None, STR), attrs=[d('{0}-{1}'), fs(new=New([1, 0], 'opt', rej=(1, S('z'))))]), V('C', F(None, STR), attrs=[d('{0}')])),
     p=['1-2', '3-2', 'x-y', 'x-z', '3-z', 'q', '256-z'])
case('C11', struct('X', F('a', Opt(U8), d(opt=True)), F('b', STR), attrs=[d('{a};{b}'), fs(new=New([0, 1], 'opt', rej=(0, []), mark=(1, S('!'))))]), p=['1;x', ';x', 'y;x'])
case('C11 C20', struct('X', F('c', STR), F('s', STR), F('p', STR), F('value', STR), F('e', STR), attrs=[d('{c}/{s}/{p}/{value}/{e}'), fs(new=New([4, 3, 2, 1, 0], 'self'))]), p=['1/2/3/4/5', '////'])
case('C11 C10', struct('X', F('a', U8), attrs=[d('{a}'), fs(default=True), fs(new=New([0], 'opt', rej=(0, T('7'))))], ds='DFm', dv=[T('9')]), p=['1', '7', '256', ''])
case('C11 C10', struct('X', F('a', U8), F('b', U8, fs(default=True)), attrs=[d('{a}'), fs(new=New([1, 0], 'res', rej=(0, T('7')), mark=(1, T('3')))), fs(default=True)], ds='DFm', dv=[T('9'), T('8')]), p=['1', '7', '256', ''])
case('C11 C10', struct('I', F('x', U8), F('y', U8), ds='m', dv=[T('3'), T('4')]), struct('X', F('i', N('I'), fs(default=True)), F('k', U8), attrs=[d('{i.x}:{k}'), fs(new=New([0, 1], 'res', rej=(1, T('9'))))]), p=['1:2', '1:9', '300:9', '1:300'])
case('C11', struct('X', F('a', STR, d(with_='num')), F('b', U8, fs(infer=True)), attrs=[d('{a}{b}'), fs(new=New([0, 1], 'opt', rej=(0, S('12'))))]), p=['123', '12', '1', '1234'])
case('C11', enum('X', V('A', F('a', U8), attrs=[d('{a}'), fs(new=New([0], 'self', mark=(0, T('5'))))]), V('B', attrs=[fs(new=New([], 'opt'))])), p=['1', 'B', 'A', '300'])

# ============ attribute combination =============================================================================
case('C16', struct('X', F('a', U8), attrs=[fs(regex=cat('r', cap('a', plus(DIG)))), d('d{a}')]), p=['r1', 'd1'], v=[[T('1')]])
case('C16', struct('X', F('a', U8, fs(with_='num'), d(with_='hex')), attrs=[d('{a}')]), p=['12', 'ff', '255'], v=[[T('255')]])
case('C16', struct('X', F('a', U8, d('<{}>'), d(with_='hex'), d('({})')), attrs=[d('{a}')]), p=['(12)', '<12>', '(ff)', '12'], v=[[T('255')]])
case('C16', struct('X', F('a', STR, fs(regex=plus('a')), fs(regex=plus('b'))), attrs=[d('{a}')], ds='F'), p=['a', 'b', 'bb'])
case('C16', struct('X', F('a', STR, fs(with_='num'), fs(with_='alt')), F('b', STR), attrs=[d('{a}{b}')], ds='DF'), p=['12', 'ab', '123'])
case('C16 C05', enum('X', V('VarA', attrs=[d(style='UPPERCASE'), d('{}?'), d(style='lowercase')]), V('VarB'), attrs=[d(style='none'), d('<{}>'), d(style='kebab-case')]), p=['vara?', 'VARA?', '<var-b>', 'VarB'])
case('C16', enum('X', V('VarA', F('n', U8), attrs=[d('d{n}'), fs(regex=cat('r', cap('n', plus(DIG))))]), V('VarB', F('n', U8)), attrs=[fs(regex=cat(cap('', ''), cap('n', plus(DIG)))), d('{}={n}')]), p=['d1', 'r1', 'VarB1', 'VarB=1', 'VarA1'], v=[E(1, T('1')), E(2, T('2'))])
case('C16', enum('X', V('VarA', F('n', U8), attrs=[d('d{n}')]), V('VarB', F('n', U8), attrs=[d('e{n}')]), attrs=[fs(regex=cat(cap('', ''), cap('n', plus(DIG))))]), p=['d1', 'e1', 'VarB1', 'VarA1'], v=[E(1, T('1'))])
case('C16 C10', struct('X', F('a', U8), F('b', U8), attrs=[fs(default=True), d('{b}')], ds='DFM'), p=['1', 'x'])
case('C16 C06', struct('X', F('a', Opt(U8), d(opt=True), d('[{}]')), F('b', Opt(U8), d('({})'), d(opt=True)), attrs=[d('{a}{b}')]), p=['', '[1](2)', '(2)', '[1]', '12'])
case('C16', struct('X', F('a', STR, d('<{}>', with_='brk'), fs(regex=plus(cls('[]a-z')))), F('b', STR), attrs=[d('{a}{b}')], ds='DF'), p=['<[a]>z', '<a>', '<[]>', '[a]'], v=[[S('x'), S('y')]])
case('C16', struct('X', F('a', STR), F('b', STR), attrs=[d('{a}={b}'), fs(regex=cat(cap('a', star(DOT)), '=', cap('b', star(DOT))))], ds='DF'), p=['1=2=3', '=', '1'], v=[[S('='), S('=')]])
case('C16', struct('X', F('a', U8, d(bound=[dict(rust='..')]), fs(infer=True), fs(default=True)), F('b', STR), attrs=[d('{a}{b}')], ds='DF'), p=['1a', 'a'])

# ============ errors ============================================================================================
case('C19', struct('X', F('first', U8), F('second', I8), F('third', BOOL), attrs=[d('{third}/{first}/{second}')]), p=['true/1/2', 'tru/1/2', 'true/x/2', 'true/1/x', 'x/y/z', 'true/1', 'true/300/300', 'true/1/2/3'])
case('C19', struct('X', F(None, U8), F(None, U8), attrs=[d('{0} {1}')]), p=['1 2', 'x 2', '1 x', '1', 'x x', '1 2 3'])
case('C19', struct('I', F('p', U8), F('q', U8), attrs=[d('{p}.{q}')]), struct('X', F('i', N('I')), F('k', U8), attrs=[d('{i}:{k}')]), p=['1.2:3', '1.x:3', '1.2:x', '1:3', 'x'])
case('C19', struct('X', F('r', U8), attrs=[fs(regex=cat('n', cap('r', star(DOT))))], ds='F'), p=['n1', 'nx', 'n', 'x'])
case('C19', enum('X', V('A', F('n', U8), attrs=[d('{n}')]), V('B', F('n', I8), attrs=[d('-{n}')])), p=['300', '-300', 'x', '1'])
case('C19 C20', struct('X', F('type', U8), F('fn', U8), attrs=[d('{type}-{fn}')]), p=['1-2', 'x-2', '1-x'])
case('C19 C06', struct('X', F('a', Opt(U8), d('<{}>', opt=True)), F('b', Opt(U8), d(opt=True)), attrs=[d('{a}{b}')]), p=['<x>', '<1>x', 'x', '<x>y'])
case('C19 C03', struct('X', F('a', U8), F('b', U8), attrs=[d('{b},{a}')]), p=['1,2', 'x,2', '1,x', 'x,y', ',', '1'])
case('C19 C10 C03', struct('B', F('d', U8), F('e', STR), ds='M'), struct('A', F('c', N('B')), F('q', STR), ds='M'), struct('I', F('b', N('A')), F('x', STR), ds='M'), struct('X', F('a', N('I'), fs(default=True)), F('k', STR), attrs=[d('{a.b.c.d}-{a.x}-{a.b.q};{k}-{a.b.c.e}')]), roots=[N('X')], v=[[]], x=[[]],
     p=[['1-a-b;c-d', 'x-a-b;c-d', '256-a-b;c-d', '1-\n-\n;\n-\n', '1-a\nb-;-', '1--;\r\n-\r\n', '-\n-b;c-', '1-a-b']])
case('C03 C10', struct('I', F('x', STR), F('y', STR), ds='M'), enum('X', V('A', F('i', N('I'), fs(default=True)), attrs=[d('<{i.x}>{i.y}')]), V('B', F(None, Tup(STR, STR), fs(default=True)), attrs=[d('[{0.1}]{0.0}')])), p=['<\n>\n', '<>\n', '<a\nb>', '[\n]\n', '[a]\n\n', '[\r\n]', '[]'])
case('C19 C10', struct('I', F(None, U8), F(None, Tup(U8, U8)), ds='M'), struct('X', F('a', N('I'), fs(default=True)), F('b', U8), attrs=[d('{a.1.0}|{a.0}|{b}')]), p=['1|2|3', 'x|2|3', '1|x|3', '1|2|x', 'x|x|x', '1|2'])

# ============ names ==============================================================================================
case('C20 C01 C05', enum('X', V('type', ident='r#type'), V('r_loop', ident='r_loop'), V('fn', ident='r#fn'), V('Self_')), p=['type', 'fn', 'r_loop', 'r#type', 'Self_'])
case('C20 C05', enum('X', V('type', ident='r#type'), V('async', ident='r#async'), V('plain', ident='r#plain'), attrs=[d(style='UPPERCASE')]), p=['TYPE', 'ASYNC', 'R#TYPE', 'RTYPE', 'PLAIN', 'R_PLAIN'])
case('C20 C01', struct('X', F('fn', U8), F('self_', U8), F('plain', U8, ident='r#plain'), attrs=[d('{fn},{r#self_},{plain}')]), p=['1,2,3', 'x,2,3'])
case('C20', struct('X', F('value', STR), F('f', STR), F('s', STR), F('p', STR), F('c', STR), attrs=[d('{value}{f}-{s}-{p}-{c}')]), p=['a-b-c-d', '---'])
case('C20', struct('X', F('field_value', N('I')), F('value', STR), attrs=[d('{field_value.x}-{value}'), fs(default=True)], ds='DFM'), struct('I', F('x', U8), ds='M'), roots=[N('X')], p=[['1-2', 'x-2', '1-']], v=[[[[T('1')], S('a')]]], x=[[]])
case('C20', enum('X', V('A', F('self_', STR), F('f', STR), F('s', STR), attrs=[d('{self_}{f}:{s}')]), V('B', F('value', U8), F('_formatter', STR), attrs=[d('{_formatter}={value}')]), V('PARSER', F('PARSER', STR), attrs=[d('P{PARSER}')])), p=['a:b', 'x=1', 'P', 'PQ', '='])
case('C20', struct('X', F('_0', U8), F('_1', U8), F('value_1', U8), attrs=[d('{_0} {_1} {value_1}')]), p=['1 2 3', '1 2 x'])
case('C20 C08', struct('X', F('empty', STR), F('value_2', STR), F('value_1', STR), attrs=[fs(regex=cat(cap('value_1', 'a'), cap('empty', 'b'), cap('value_2', 'c')))], ds='F'), p=['abc', 'ab'])
case('C20', struct('X', F('match', Opt(U8), d('<{}>', opt=True)), F('crate_', STR), attrs=[d('{match}{crate_}')]), p=['<1>a', 'a', '<x>'])
case('C20 C01', struct('I', F('type', U8), F('fn', Tup(U8, STR)), F('plain', STR), ds='M'), struct('J', F('loop', N('I')), ds='M'), struct('X', F('a', N('I')), F('match', N('J')), attrs=[d('{a.r#type},{a.type},{r#match.r#loop.r#fn.0},{match.loop.r#fn.1},{match.r#loop.r#plain},{a.r#plain}')], ds='D'), roots=[N('X')], p=[[]], x=[[]],
     v=[[[[T('1'), [T('2'), S('s')], S('p')], [[T('3'), [T('4'), S('t')], S('q')]]]]])
case('C20 C10 C19', struct('I', F('type', U8), F('fn', Tup(U8, STR)), F('plain', STR), ds='M'), struct('J', F('loop', N('I')), ds='M'), struct('X', F('a', N('I'), fs(default=True)), F('match', N('J'), fs(default=True)), attrs=[d('{a.r#type},{r#match.r#loop.r#fn.0},{match.loop.r#fn.1},{match.r#loop.r#plain},{a.r#plain}')]), roots=[N('X')], v=[[]], x=[[]],
     p=[['1,2,a,b,c', 'x,2,a,b,c', '1,x,a,b,c', ',,,,', '1,2,,,']])
case('C01 C07', struct('X', F('a', Ref(Ref(STR)), d(with_='brk')), F('b', Ref(Ref(Ref(U8))), d('<{}>', with_='brk')), F('c', Opt(Ref(Ref(U8))), d(opt=True, with_='brk')), F('k', Ref(Ref(Vec(U8))), d(with_=Delim(','))), attrs=[d('{a}-{b}-{c}-{k}')], ds='D'), v=[[S('x'), T('7'), [T('1')], [T('1'), T('2')]], [S(''), T('0'), [], []]])
# long lists
case('C21', struct('X', F('a', Vec(U8), d(with_=Delim(','))), F('b', U8), attrs=[d('{a};{b}')]), p=[','.join(['1'] * 257) + ';2'], v=[[[T('1')] * 260, T('3')]], auto=False)
case('C20 C11', struct('X', F('match', U8), F('type', U8), attrs=[d('{match} {r#type}'), fs(new=New([1, 0], 'opt', rej=(0, T('9'))))]), p=['1 2', '9 2', '1 x'])
case('C20', enum('X', V('None'), V('Some', F(None, U8), attrs=[d('Some({0})')]), V('Ok'), V('Err')), p=['None', 'Some(1)', 'Ok', 'Err', 'Some()'])
case('C20', enum('Option', V('None'), V('Some', F(None, U8), attrs=[d('Some({0})')])), p=['None', 'Some(1)'])
case('C20', enum('Result', V('Ok', F('Err', STR), attrs=[d('{Err}')])), p=['a', ''])
case('C20 C10', struct('Default', F('default', U8), F('String', STR), attrs=[d('{String}'), fs(default=True)], ds='DFm', dv=[T('5'), S('d')]), p=['x', ''])

# ============ generics =============================================================================================
case('C13 C14 C01', struct('X', F('a', Par('T')), F('b', Par('U')), attrs=[d('{a}/{b}')], params='T, U'), roots=[N('X', U8, STR), N('X', STR, U8), N('X', BOOL, CHAR)],
     p=[['1/x', 'x/1', '/'], ['1/x', 'x/1', '/'], ['true/x', 'x/true', '/']], v=[[], [], []], x=[['1/2'], [], []])
case('C13 C06', struct('X', F('a', Opt(Par('T')), d('<{}>', opt=True)), F('b', Par('T')), attrs=[d('{a}{b}')], params='T'), roots=[N('X', U8), N('X', STR)], p=[['<1>2', '2', '<x>2'], ['<1>2', '2', '<x>2', '']], v=[[], []], x=[[], []])
case('C13 C09', struct('I', F('x', Par('T')), F('y', U8), attrs=[d('{x}.{y}')], params='T'), struct('X', F('i', N('I', U8), fs(infer=True)), F('j', N('I', STR)), attrs=[d('{i}{j}')]), p=['1.2x.3', '1.2.3', 'x.2y.3'])
case('C13 C07', struct('X', F('a', Par('T'), d(with_='num')), F('b', STR), attrs=[d('{a}{b}')], params='T: std::fmt::Display + std::str::FromStr'), roots=[N('X', U8), N('X', STR), N('X', U64)], p=[['12x', '300x', 'x'], ['12x', '300x', 'x'], ['12x', '300x', 'x']], v=[[], [], []], x=[[], [], []])
case('C13 C04', enum('X', V('A', F(None, Par('T')), attrs=[d('{0}')]), V('B', F(None, STR), attrs=[d('b{0}')]), params='T'), roots=[N('X', U8), N('X', BOOL)], p=[['1', 'b', 'true', 'bx'], ['1', 'b', 'true', 'bx']], v=[[], []], x=[['1'], ['1']])
case('C13', struct('X', F('a', Par('T')), attrs=[d('<{a}>')], params='T'), roots=[N('X', N('X', U8)), N('X', U8), N('X', N('X', N('X', STR)))], p=[['<<1>>', '<1>'], ['<1>', '<<1>>'], ['<<<a>>>', '<<a>>']], v=[[], [], []], x=[[], [], []])

# ============ pointers, and a user's type that shows all its formatting parameters ======================================
case('C12 C01', struct('X', F('a', PRB), F('b', PRB, d('({:#x})')), F('c', Opt(PRB), d('[{:>9.3}]', opt=True)), F('d', Opt(PRB), d(opt=True)), attrs=[d('{a:*^+#012.4} {a:?} {a:x?} {a:#?} {b} {b:05} {c} {d:<-8E} {a:e} {a:o} {a:b} {a:p} {a:#012p}')]), v=[[S('q'), S('r'), [S('s')], [S('t')]], [S(''), S('r'), [], []]])
case('C12 C01', enum('E', V('A', F('a', PRB), attrs=[d('{a:_<9} {a}')]), V('B', F(None, PRB)), attrs=[d('{:^7}|{0:#X}')]), v=[E(1, S('x')), E(2, S('yz'))])
case('C12 C07', struct('X', F('a', PRB, d('{:>8}', with_='pad')), F('b', PRB, d('{:+8}', with_='fmt')), F('c', PRB, d(with_='pad')), attrs=[d('{a}|{b}|{c:-^9.2}|{c}')]), v=[[S('ab'), S('c'), S('de')]])
case('C12', struct('X', F(None, PRB)), v=[[S('x')]])
case('C03 C09 C04', struct('X', F('a', PRB), F('b', PRB), attrs=[d('{a}{b}')]), p=['aab', 'ab', 'a!b', '', 'abab', 'xay'], x=['aab', 'a!'])
case('C01 C07', struct('X', F('a', Ref(STR)), F('b', Ref(Ref(U8)), d('<{}>')), F('c', Ref(U8), d(with_='hex')), F('d', Ref(STR), d('{:>5}', with_='brk')), F('e', Opt(Ref(STR)), d('={}', opt=True)), F('f', Box(STR)), attrs=[d('{a:>4} {b:03} {b:#x} {c} {d:4} {e:.1} {f:*<3}')], ds='D'),
     v=[[S('p'), T('7'), T('255'), S('q'), [S('zz')], S('w')], [S(''), T('0'), T('0'), S(''), [], S('')]])
case('C01', struct('I', F('x', U8), F('y', Ref(STR)), ds=''), struct('J', F('i', Box(N('I'))), F('k', Ref(N('I'))), F('t', Box(Tup(U8, Ref(STR)))), ds=''), struct('X', F('j', Ref(N('J'))), F('l', Ref(Ref(N('J')))), attrs=[d('{j.i.x}/{j.k.y:>3}/{j.t.1}/{l.t.0:#x}{l.i.y}')], ds='D'), roots=[N('X')], p=[[]], x=[[]],
     v=[[[[[T('1'), S('a')], [T('2'), S('b')], [T('30'), S('c')]], [[T('4'), S('e')], [T('5'), S('f')], [T('60'), S('g')]]]]])
case('C10 C03', struct('I', F('x', U8), F('y', STR), ds='M'), struct('J', F('i', Box(N('I'))), F('n', U8), ds='M'), struct('X', F('j', Box(N('J')), fs(default=True)), F('k', U8), attrs=[d('{j.i.x}-{k}-{j.i.y}')]), roots=[N('X')], v=[[]], x=[[]], p=[['1-2-a', '1-2-', 'x-2-a', '1-2', '300-1-']])
case('C10', struct('X', F('t', Box(Tup(U8, Tup(STR, Box(U8)))), fs(default=True)), F('k', U8), attrs=[d('{k}:{t.1.0}:{t.0}')]), p=['1:a:2', '1::2', '1:a:', '1:a:b:2'])
# recursive types
case('C21 C07 C18', struct('Tr', F('kids', Vec(N('Tr')), d(with_=Delim(';'))), attrs=[d('({kids})')]), auto=False,
     v=[[[]], [[[[]]]], [[[[]], [[[[]]]]]]], p=['()', '(())', '(();())', '', '(', '(;)'])
case('C21 C07 C04 C13', enum('No', V('Leaf', F(None, U8), attrs=[d('{0}')]), V('List', F(None, Vec(N('No')), d(with_=Delim(' '))), attrs=[d('({0})')])), auto=False,
     v=[E(1, T('7')), E(2, []), E(2, [E(1, T('1')), E(1, T('2'))]), E(2, [E(2, [E(1, T('1'))]), E(1, T('2'))])], p=['7', '()', '(1)', '(1 2 3)', '(1 (2) 3)', '((1) (((4))))', '((1 2) 3)', '(1 256)', '(1', '1 2'])
case('C21 C06 C10', struct('Li', F('head', STR), F('tail', Vec(N('Li')), d('[{}]', with_=Delim('|'), opt=False)), F('n', Opt(U8), d('#{}', opt=True)), attrs=[d('{head}{tail}{n}')]), auto=False,
     v=[[S('a'), [], []], [S('a'), [[S('b'), [], [T('1')]], [S('c'), [], []]], [T('2')]]], p=['a[]', 'a[b[]]', 'a[b[]#1|c[]]#2', 'a[b[x[]]]#2', '[]', 'a[b[]#256]', 'a[]#'])
CASES = [c for c in CASES if c]
