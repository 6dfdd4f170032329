"""C13: histories, schedules and threads (spec/Machine.tla)."""
import itertools, json, os, random, re, subprocess, concurrent.futures as cf
from dsl import *
from runner import *
import gen

GS = As(STR, 'Gt<String>')
GU = As(U8, 'Gt<u8>')
GNUM = dict(n='num', rust='GNum')

# ---- programs of Machine.tla: declarations with stops, and who calls what ------------------
def programs():
    out = []
    def prog(id, types, roots, *script):
        c = Case('p_' + id, *types, roots=roots)
        c.script = [[dict(r=r + 1, s=T(x)) for r, x in calls] for calls in script]
        out.append(c)
    w = struct('W', F('a', Par('T')), attrs=[d('<{a}>')], params='T')
    prog('nested', [w], [N('W', GS), N('W', N('W', GS)), N('W', GU)], [(1, '<<x>>'), (0, '<>')], [(0, '<y>'), (2, '<7>')])
    prog('deep', [w], [N('W', GU), N('W', N('W', N('W', GU)))], [(1, '<<<5>>>')], [(1, '<<<x>>>')], [(0, '<1>')])
    s = struct('S', F('a', U8, d(with_=GNUM)), F('b', GS), attrs=[d('{a}-{b}')])
    prog('with', [s], [N('S')], [(0, '1-x'), (0, '300-x')], [(0, '2-y'), (0, 'z')])
    prog('with3', [s], [N('S')], [(0, '1-x')], [(0, '2-')], [(0, '-')])
    e = enum('E', V('A', F(None, GS), attrs=[d('a{0}')]), V('B', F(None, U8, d(with_=GNUM)), attrs=[d('b{0}')]), V('C'), V('D', F('x', GU), attrs=[d('{x}')]))
    prog('enum', [e], [N('E')], [(0, 'ax'), (0, 'C')], [(0, 'b12'), (0, '7')])
    prog('enumerr', [e], [N('E')], [(0, 'b300')], [(0, 'zz'), (0, 'C')], [(0, 'b1')])
    inner = struct('I', F('a', U8, d(with_=GNUM)), F('b', U8, fs(infer=True)), attrs=[d('{a}:{b}')])
    outer = struct('O', F('i', N('I'), fs(infer=True)), F('j', GS), attrs=[d('{i}{j}')])
    prog('infer', [inner, outer], [N('I'), N('O')], [(1, '1:2z')], [(0, '3:4'), (1, '5:')])
    a = struct('A', F('a', STR, d(with_=GNUM)), F('b', GS), attrs=[d('{a}{b}')])
    b = struct('B', F('a', GS), F('b', STR, d(with_=GNUM)), attrs=[d('{a}{b}')])
    prog('twins', [a, b], [N('A'), N('B')], [(0, '1x'), (1, '1x')], [(1, 'x1'), (0, 'x1')])
    m = struct('M', F('a', GU), F('b', GU), attrs=[d('{a},{b}'), fs(default=True)], ds='DFm', dv=[T('9'), T('9')])
    prog('newtype', [m, struct('N', F(None, N('M')))], [N('N'), N('M')], [(0, '1,2'), (1, '1')], [(1, '3,4'), (0, ',')])
    o = struct('Q', F('a', Opt(GU), d('-{}', opt=True)), F('b', GS, fs(regex='[a-c]*')), attrs=[d('{b}{a}')])
    o['vs'][0]['fs'][1]['attrs'][0]['rx'] = [star(cls('a-c'))]
    prog('opt', [o], [N('Q')], [(0, 'ab-1'), (0, 'ab')], [(0, '-x'), (0, '')])
    g2 = struct('G', F('a', Par('T')), F('b', Par('U')), attrs=[d('{a}|{b}')], params='T, U')
    prog('pairs', [g2, w], [N('G', GS, GU), N('G', N('W', GS), GU), N('G', GU, GU)], [(0, 'x|1'), (1, '<x>|2')], [(2, '1|2'), (1, 'x|2')])
    for t in range(len(out)):
        out[t].tags, out[t].auto, out[t].opts = set(), False, {}
    return out

# ---- pairs of types with the same format and different patterns ---------------------------------
PATS = [None, 'num', 'alt', 'brkr', 'rx1', 'rx2', 'cis']
def twins(fmt, id, enums=False):
    types, roots = [], []
    def f(key, p):
        if p is None:
            return F(key, STR)
        if p == 'rx1':
            return F(key, STR, fs(regex=plus(cls('a-c'))))
        if p == 'rx2':
            return F(key, STR, fs(regex=alt(plus(DIG), 'x')))
        return F(key, STR, d(with_=p))
    for i, (p, q) in enumerate(itertools.product(PATS, PATS)):
        if enums:
            types.append(enum('E%d' % i, V('A', f('a', p), f('b', q), attrs=[d(fmt)]), V('B', f('a', q), f('b', p), attrs=[d(fmt)])))
        else:
            types.append(struct('S%d' % i, f('a', p), f('b', q), attrs=[d(fmt)]))
        roots.append(N(types[-1]['name']))
    c = Case(id, *types, roots=roots)
    for r in range(len(roots)):
        for x in ['1-a', 'a-1', 'ab-12', '12-ab', 'x-[1]', '[a]-x', 'xy-', '-', 'AB-1'] if '-' in fmt else ['1a', 'a1', 'ab12', '[a]x', 'x[1]', 'xab', '']:
            c.parse(x, r)
    c.tags, c.auto, c.opts = {'C13'}, False, {}
    return c

# ---- one generic type, many instantiations; nested in itself ---------------------------------------
def generics():
    w = struct('W', F('a', Par('T')), attrs=[d('<{a}>')], params='T')
    e = enum('E', V('L', F(None, Par('T')), attrs=[d('l{0}')]), V('R', F('x', Par('T')), F('y', U8), attrs=[d('r{x}/{y}')]), V('Nil'), params='T')
    p = struct('P', F('a', Par('T')), F('b', Opt(Par('U')), d(opt=True)), attrs=[d('{a},{b}')], params='T, U')
    i = struct('I', F('a', Par('T'), d(with_='brkr')), F('b', STR, fs(regex=star(cls('a-c')))), attrs=[d('{a}{b}')], params='T: std::fmt::Display + std::str::FromStr')
    def c1(id, types, roots, texts):
        c = Case(id, *types, roots=roots)
        for r in range(len(roots)):
            for x in texts:
                c.parse(x, r)
        c.tags, c.auto, c.opts = {'C13'}, False, {}
        return c
    W_ = lambda t: N('W', t)
    yield c1('g_w', [w], [W_(U8), W_(W_(U8)), W_(W_(W_(I8))), W_(STR), W_(I8), W_(CHAR), W_(BOOL)], ['<1>', '<<1>>', '<<<-1>>>', '<true>', '<x>', '<>', '', '<<', '<300>'])
    E_ = lambda t: N('E', t)
    yield c1('g_e', [e], [E_(U8), E_(E_(U8)), E_(STR), E_(E_(E_(CHAR)))], ['l1', 'll1', 'lll1', 'Nil', 'lNil', 'llNil', 'r1/2', 'lr1/2', 'rl1/2', 'rr1/2/3', 'rr1/2', 'x', ''])
    yield c1('g_p', [p, w], [N('P', U8, U8), N('P', U8, STR), N('P', N('P', U8, U8), U8), N('P', W_(U8), N('P', CHAR, CHAR))], ['1,', '1,2', '1,2,3', '<1>,a,b', '<1>,a,', 'x,', ',', '1,,', '<1>,'])
    yield c1('g_i', [i], [N('I', As(STR, 'String')), N('I', CHAR)], ['[]', '[a]b', '[a]d', '[ab]', 'a', ''])
    a = struct('A', F('a', As(W_(U8), 'Away<W<u8>>')), attrs=[d('({a})')])
    v = struct('V', F('a', As(W_(W_(U8)), 'W<Away<W<u8>>>')), F('b', STR), attrs=[d('{a}{b}')])
    yield c1('g_away', [w, a, v], [N('A'), N('V'), W_(As(W_(STR), 'Away<W<String>>'))], ['(<1>)', '(<x>)', '<<1>>z', '<1>', '<<x>>', '()'])
    b = struct('B', F('a', As(STR, 'Boom')), F('b', U8), attrs=[d('{a}-{b}')])
    be = enum('BE', V('X', F(None, As(STR, 'Boom')), attrs=[d('x{0}')]), V('Y', F(None, N('B')), attrs=[d('{0}')]))
    c = c1('g_boom', [b, be], [N('B'), N('BE')], ['a-1', 'boo-1', 'a-x', 'xa', 'x', 'b-2'])
    c.disturb = [(0, 'parse', T('boom-1')), (1, 'parse', T('xboom')), (1, 'parse', T('boom-2')), (0, 'parse', T('boom-x'))]
    yield c

# ---- runs of the built harness ------------------------------------------------------------------------
def exe(h, i):
    return os.path.join(TARGET, 'debug', h.bin_name(h.bin_of(i)))
def history(h, name, lines, lockstep, timeout=40):
    """lines: [thread, id, case, root, op, arg]; results by id, and whether the process ended well"""
    path = os.path.join(h.dir, name + '.txt')
    with open(path, 'w') as f:
        f.write(''.join(json.dumps(x, separators=(',', ':')) + '\n' for x in lines))
    i = lines[0][2]
    p = subprocess.Popen([exe(h, i), 'hist', path, '1' if lockstep else '0'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    how = 'ended'
    try:
        so, _ = p.communicate(timeout=timeout)
        if p.returncode != 0:
            how = 'rc %s' % p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        so, _ = p.communicate()
        how = 'timeout'
    os.remove(path)
    out = {}
    for l in so.split('\n')[:-1]:
        k, r = json.loads(l)
        out[k] = r
    return out, how

def histories(rep, h, cases, results, seed):
    """The operations of the cases in other orders, repeated, and from several threads, every time in
    a new process: all results must be those of the first run."""
    jobs = []
    for b in range(h.nbins):
        ids = [i for i in range(len(cases)) if i in results and h.bin_of(i) == b]
        ops = [(i, k) for i in ids for k in range(len(cases[i].ops)) if cases[i].ops[k][1] in ('parse', 'rt', 'display', 'rx')]
        if not ops:
            continue
        dis = [(i, x) for i in ids for x in getattr(cases[i], 'disturb', [])]
        rng = random.Random('%s/%d' % (seed, b))
        def shuffled():
            x = list(ops)
            rng.shuffle(x)
            return x
        def lines(per):
            """a number for every operation; disturbing ones in between"""
            out, key = [], []
            for t, l in enumerate(per):
                for i, k in l:
                    if dis and rng.random() < .3:
                        j, (r, op, arg) = rng.choice(dis)
                        out.append([t, -1, j, r, op, arg])
                    r, op, arg = cases[i].ops[k]
                    out.append([t, len(key), i, r, op, arg])
                    key.append((i, k))
            return out, key
        jobs.append((b, 'reverse', lines([ops[::-1]]), False))
        jobs.append((b, 'shuffled', lines([shuffled() + shuffled()[:len(ops) // 2]]), False))
        jobs.append((b, 'backwards by case', lines([sorted(ops, key=lambda x: (x[0], -x[1]))]), False))
        jobs.append((b, 'lockstep', lines([ops] * 6), True))
        jobs.append((b, 'lockstep shuffled', lines([shuffled()] * 6), True))
        jobs.append((b, 'free threads', lines([shuffled() for _ in range(6)]), False))
    total = [0]
    def one(j):
        b, how, (ls, key), lock = j
        if len(rep.violations) > 2:
            return j, [], {}, ''
        # in lockstep all threads must have as many lines
        if lock:
            n = {}
            for l in ls:
                n.setdefault(l[0], []).append(l)
            m = min(map(len, n.values()))
            ls = [l for t in n for l in n[t][:m]]
        out, end = history(h, 'hist_%d_%s' % (b, how.replace(' ', '_')), ls, lock)
        return j, ls, out, end
    with cf.ThreadPoolExecutor(4) as ex:
        for (b, how, (_, key), lock), ls, out, end in ex.map(one, jobs):
            for l in ls:
                if l[1] < 0:
                    continue
                i, k = key[l[1]]
                total[0] += 1
                if l[1] not in out:
                    rep.violation('histories', '%s: a call of %s did not end (%s)' % (how, cases[i].id, end), case=cases[i].id, rust=cases[i].rust(), detail=str(cases[i].ops[k])[:300])
                    break
                if out[l[1]] != results[i][k]:
                    rep.violation('histories', '%s: a call of %s gave another result' % (how, cases[i].id), case=cases[i].id, rust=cases[i].rust(),
                                  event=dict(op=str(cases[i].ops[k])[:300], first=results[i][k], now=out[l[1]]))
                    break
    rep.suites.append(dict(suite='histories', processes=len(jobs), calls=total[0]))

def varying(rep, h, cases, idx, results, seed):
    """generic fields whose pattern varies: the documented panic, or the right result, never a stale one"""
    n = pan = 0
    for i in idx:
        c = cases[i]
        if i not in results:
            continue
        ops = list(range(len(c.ops)))
        # every call alone, in a process of its own
        alone = {}
        for k in ops:
            out, end = history(h, 'alone', [[0, 0, i] + list(c.ops[k])], False)
            alone[k] = out.get(0)
        for order in [ops, ops[::-1]] + [random.Random('%s/%d' % (seed, x)).sample(ops, len(ops)) for x in range(3)]:
            out, end = history(h, 'varying', [[0, x, i] + list(c.ops[k]) for x, k in enumerate(order)], False)
            for x, k in enumerate(order):
                n += 1
                r = out.get(x)
                if r is not None and 'panic' in r:
                    pan += 1
                elif r != alone[k]:
                    rep.violation('varying', 'a stale pattern was used in %s' % c.id, case=c.id, rust=c.rust(), event=dict(op=str(c.ops[k]), alone=alone[k], now=r))
                    break
        yield i, alone
    rep.suites.append(dict(suite='varying patterns', calls=n, documented_panics=pan))

def varying_cases():
    out = []
    def c1(id, types, roots, ops):
        c = Case(id, *types, roots=roots)
        for r, x in ops:
            c.parse(x, r)
        c.tags, c.auto, c.opts = {'C13'}, False, {}
        out.append(c)
    w = struct('W', F('a', Par('T'), fs(infer=True)), F('b', STR), attrs=[d('{a}{b}')], params='T: parse_display::FromStrRegex')
    c1('v_infer', [w], [N('W', U8), N('W', I8), N('W', BOOL), N('W', STR)], [(0, '1x'), (1, '-1x'), (2, 'truex'), (3, 'x'), (0, '-1'), (1, '1'), (3, '')])
    e = enum('E', V('A', F(None, Par('T'), fs(infer=True)), attrs=[d('a{0}')]), V('B', F(None, U8), attrs=[d('a{0}')]), params='T: parse_display::FromStrRegex')
    c1('v_enum', [e], [N('E', CHAR), N('E', BOOL)], [(0, 'a1'), (1, 'atrue'), (1, 'a12'), (0, 'a12')])
    return out

def scheduled(rep, cases, maxsched, seed, must_hold=True):
    """Machine.tla on the programs; the schedules it prints replayed on the real threads"""
    path = os.path.join(BUILD, 'programs.%s.json' % rep.pid)
    with open(path, 'w') as f:
        json.dump([dict(c.mono(), script=c.script) for c in cases], f, separators=(',', ':'))
    wd = os.path.join(BUILD, 'tlc-machine-' + rep.pid)
    rc, out = tlc('Machine.tla', 'Machine.cfg', env={'PROGS': path}, workdir=wd)
    if rc != 0 or 'No error has been found' not in out:
        raise ToolError('Machine fails:\n' + out[-3000:])
    g, dist = tlc_counts(out)
    rep.add_model('Machine (safety and termination)', g, dist, {'info': {k: int(v) for k, v in re.findall(r'<<\s*"INFO",\s*"([^"]*)",\s*(\d+)\s*>>', out)}})
    # the same machine with a fault must be refused
    rc, out = tlc('Machine.tla', 'Machine.cfg', env={'PROGS': path, 'HOLD': '1'}, workdir=wd)
    if rc == 0 or 'No error has been found' in out:
        raise ToolError('Machine does not notice a cell that stays reserved')
    rc, out = tlc('Machine.tla', 'MachineSched.cfg', env={'PROGS': path, 'SCHED': '1'}, workdir=wd)
    if rc != 0:
        raise ToolError('MachineSched fails:\n' + out[-3000:])
    g, dist = tlc_counts(out)
    rep.add_model('Machine (schedules)', g, dist)
    sch = {}
    for m in re.finditer(r'<<\s*"SCHEDULE",\s*(\d+),\s*<<([\d,\s]*)>>\s*>>', out):
        sch.setdefault(int(m.group(1)) - 1, []).append([int(x) for x in m.group(2).split(',')])
    if len(sch) != len(cases):
        raise ToolError('schedules of %d programs of %d' % (len(sch), len(cases)))
    h = Harness('h_%s_sched' % rep.pid.lower(), cases)
    # every root is parsed
    for c in cases:
        c.ops = [(x['r'] - 1, 'parse', x['s']) for t in c.script for x in t]
    h.build()
    results = {}
    rng = random.Random(seed)
    jobs = []
    for i in sch:
        if i in h.rejected:
            rep.violation('schedules', 'program %s is rejected' % cases[i].id, error=h.rejected[i], rust=cases[i].rust())
            continue
        l = sorted(sch[i])
        for s in (l if len(l) <= maxsched else rng.sample(l, maxsched)):
            jobs.append((i, s))
    def one(j):
        i, s = j
        script = [[[x['r'] - 1, x['s']] for x in t] for t in cases[i].script]
        try:
            p = subprocess.run([exe(h, i), 'sched', str(i), json.dumps(script, separators=(',', ':')), json.dumps(s)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=90)
            return i, s, [json.loads(x) for x in p.stdout.split('\n')[:-1]], p.returncode
        except subprocess.TimeoutExpired:
            return i, s, ['timeout'], -1
    stuck = 0
    rs = {}
    with cf.ThreadPoolExecutor(8) as ex:
        it = ex.map(one, jobs)
        for i, s, out, rc in it:
            if not out or out[-1] != 'end':
                stuck += 1
                if stuck <= 3:
                    rep.violation('schedules', 'calls of %s do not end under the schedule %s: %s' % (cases[i].id, s, out[-1] if out else 'rc %s' % rc), case=cases[i].id, rust=cases[i].rust(), detail=str(cases[i].script))
                if stuck == 3:
                    ex.shutdown(wait=False, cancel_futures=True)
                    break
                continue
            for t, k, r in out[:-1]:
                rs.setdefault((i, t, k), {}).setdefault(json.dumps(r), s)
    # what the calls gave, for TLC to judge: every different result of a call
    for (i, t, k), d_ in sorted(rs.items()):
        if len(d_) > 1:
            rep.violation('schedules', 'a call of %s gives different results under different schedules' % cases[i].id, case=cases[i].id, rust=cases[i].rust(), event=dict(call=str(cases[i].script[t][k]), results=d_))
    for i, c in enumerate(cases):
        if i in h.rejected:
            continue
        got = []
        ok = True
        for t, calls in enumerate(c.script):
            for k, _ in enumerate(calls):
                if (i, t, k) not in rs:
                    ok = False
                    continue
                got.append(json.loads(next(iter(rs[(i, t, k)]))))
        if ok:
            results[i] = got
        else:
            c.ops = []
            results[i] = []
    rep.suites.append(dict(suite='schedules', programs=len(cases), schedules=sum(map(len, sch.values())), replayed=len(jobs), stuck=stuck))
    return h, results
