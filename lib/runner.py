"""Builds harness crates from cases, runs them, validates the recorded traces with TLC."""
import json, os, shutil, subprocess, sys, time, re, concurrent.futures as cf
import pump

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(ROOT, '.build')
TARGET = os.path.join(BUILD, 'target')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=TARGET,
           CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
    ENV.pop(k, None)

class ToolError(Exception):
    pass

PROFILE = '''
[profile.dev]
debug = 0
incremental = false
opt-level = 0
[profile.dev.package."*"]
opt-level = 1
debug-assertions = true
[profile.dev.build-override]
opt-level = 1
debug-assertions = true
'''

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    with open(path, 'w') as f:
        f.write(text)

class Harness:
    """One crate with several binaries; cases are distributed over the binaries."""
    def __init__(self, name, cases, bins=8, extra_deps='', std=True, direct=True, edition='2021'):
        self.edition = edition
        self.name, self.cases = name, cases
        self.dir = os.path.join(BUILD, name)
        self.nbins = max(1, min(bins, (len(cases) + 3) // 4))
        self.extra_deps, self.std, self.direct = extra_deps, std, direct      # std: with the std feature of parse-display, in crates that have std
        self.built = False
        self.rejected = {}      # case index -> first error message
    def bin_of(self, i):
        return i % self.nbins
    def write_sources(self):
        src = os.path.join(self.dir, 'src')
        keep = set()
        for i, c in enumerate(self.cases):
            p = os.path.join(src, 'cases', 'c%d.rs' % i)
            write(p, c.rust())
            keep.add(p)
        self.write_bins()
        for d in (os.path.join(src, 'cases'), os.path.join(src, 'bin')):
            for f in os.listdir(d) if os.path.isdir(d) else []:
                p = os.path.join(d, f)
                if p not in keep and p not in self.bin_files:
                    os.remove(p)
        lock = os.path.join(self.dir, 'Cargo.lock')
        if not os.path.exists(lock):
            shutil.copy(os.path.join(ROOT, 'harness', 'Cargo.lock'), lock)
        feat = '' if self.std else ', default-features = false'
        write(os.path.join(self.dir, 'Cargo.toml'), '''[package]
name = "%s"
version = "0.0.0"
edition = "%s"
autobins = true

[dependencies]
harness_support = { path = "%s/harness/support"%s }
%s
parse-display-with = { path = "%s/parse-display-with"%s }
%s
[workspace]
%s''' % (self.name, self.edition, ROOT, feat, 'parse-display = { path = "%s/parse-display"%s }' % (REPO, feat) if self.direct else '', REPO, feat, self.extra_deps, PROFILE))
    def bin_name(self, b):
        return '%s_b%d' % (self.name, b)      # the target directory is shared by all crates
    def write_bins(self):
        self.bin_files = set()
        for b in range(self.nbins):
            ids = [i for i in range(len(self.cases)) if self.bin_of(i) == b and i not in self.rejected]
            t = '#![allow(warnings)]\n' if self.std else '#![no_std]\n#![allow(warnings)]\nextern crate std as not_here;\n'
            t += ''.join('#[path = "../cases/c%d.rs"]\nmod c%d;\n' % (i, i) for i in ids)
            t += 'fn run(c: usize, r: usize, op: &str, v: &harness_support::V) -> harness_support::String {\n    match c {\n'
            t += ''.join('        %d => c%d::run(r, op, v),\n' % (i, i) for i in ids)
            t += '        _ => unreachable!(),\n    }\n}\nfn main() { harness_support::main(run) }\n'
            f = os.path.join(self.dir, 'src', 'bin', self.bin_name(b) + '.rs')
            write(f, t)
            self.bin_files.add(f)
    def cargo(self):
        p = subprocess.run(['cargo', 'build', '--offline', '--bins', '--keep-going', '--message-format=json'], cwd=self.dir, env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
        errs, other = {}, []
        for line in p.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get('reason') != 'compiler-message' or m['message']['level'] not in ('error', 'error: internal compiler error'):
                continue
            msg = m['message']
            hit = None
            def look(sp):
                while sp:
                    g = re.search(r'cases/c(\d+)\.rs$', sp['file_name'])
                    if g:
                        return int(g.group(1))
                    sp = (sp.get('expansion') or {}).get('span')
            spans = list(msg['spans']) + [s for ch in msg['children'] for s in ch['spans']]
            for sp in sorted(spans, key=lambda s: not s['is_primary']):
                hit = look(sp)
                if hit is not None:
                    break
            if hit is None:
                if msg['spans'] or not re.match(r'aborting|could not compile|\d+ previous', msg['message']):
                    other.append(msg.get('rendered') or msg['message'])
            else:
                errs.setdefault(hit, msg.get('rendered') or msg['message'])
        return p.returncode, errs, other, p.stderr
    def build(self):
        self.write_sources()
        for _ in range(12):
            rc, errs, other, stderr = self.cargo()
            if rc == 0:
                self.built = True
                return
            if not errs:
                raise ToolError('cargo build failed:\n' + '\n'.join(other[:5]) + stderr[-3000:])
            self.rejected.update(errs)
            self.write_bins()
        raise ToolError('cargo build keeps failing')
    def run(self, timeout=60):
        """results[i] = list of result dicts parallel to cases[i].ops"""
        out = {i: [] for i in range(len(self.cases)) if i not in self.rejected}
        def one(b):
            ids = [i for i in out if self.bin_of(i) == b]
            ops = [(i, k) for i in ids for k in range(len(self.cases[i].ops))]
            if not ops:
                return
            path = os.path.join(self.dir, 'ops%d.txt' % b)
            with open(path, 'w') as f:
                for i, k in ops:
                    r, op, arg = (0, 'impl', k) if hasattr(self.cases[i], 'event') else self.cases[i].ops[k]
                    f.write(json.dumps([i, r, op, arg], separators=(',', ':')) + '\n')
            exe = os.path.join(TARGET, 'debug', self.bin_name(b))
            pos = 0
            crashes = hangs = 0
            while pos < len(ops):
                hung = False
                p = subprocess.Popen([exe, path, str(pos)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                try:
                    so, _ = p.communicate(timeout=timeout)
                except subprocess.TimeoutExpired:
                    p.kill()
                    so, _ = p.communicate()
                    hung = True
                lines = so.split('\n')
                done = lines[:-1]
                for l in done:
                    i, _ = ops[pos]
                    out[i].append(json.loads(l))
                    pos += 1
                if pos < len(ops):
                    i, _ = ops[pos]
                    out[i].append({'panic': True, 'crash': 'timeout' if hung else 'rc %s' % p.returncode})
                    pos += 1
                    crashes += 1
                    hangs += hung
                    if crashes > 20 or hangs > 0:
                        while pos < len(ops):
                            out[ops[pos][0]].append({'panic': True, 'crash': 'skipped'})
                            pos += 1
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, range(self.nbins)))
        return out

def event(case, k, res):
    r, op, arg = case.ops[k]
    if getattr(case, 'pump', False):
        arg, res = pump.collapse(arg), pump.collapse(res)
    e = {'op': op, 'r': r + 1}
    if op in ('display', 'padded'):
        e.update(v=arg, out=res.get('out', []), panic='panic' in res)
    elif op == 'short':
        e.update(v=arg, outs=res.get('outs', []), panic='panic' in res)
    elif op == 'parse':
        e.update(s=arg, ok=res.get('ok', False), v=res.get('v', []), msg=res.get('msg', []), panic='panic' in res)
    elif op == 'rt':
        e.update(v=arg, s=res.get('s', []), ok=res.get('ok', False), w=res.get('v', []), msg=res.get('msg', []), panic='panic' in res)
    elif op == 'rx':
        e.update(s=arg, m=res.get('m', False), panic='panic' in res or 'bad' in res)
    return e

def tlc(*args, **kw):
    """TLC, again if its workers got in each other's way: two that normalise one record at the same time can make
    it look malformed (a property that fails is reported in other words, and is never tried again)"""
    for last in (False, False, True):
        rc, out = tlc_once(*args, **kw)
        if last or rc == 0 or 'occurs multiple times in record' not in out:
            return rc, out

def tlc_once(spec, cfg, env=None, workers=8, timeout=800, extra=(), workdir=None, heap='6g'):
    wd = workdir or os.path.join(BUILD, 'tlc')
    os.makedirs(wd, exist_ok=True)
    meta, tmp = os.path.join(wd, 'states'), os.path.join(wd, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss512m', '-Xmx' + heap, '-Djava.io.tmpdir=' + tmp, '-cp', CLASSPATH, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [spec]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=os.path.join(ROOT, 'spec'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out: %s' % cfg)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
    return p.returncode, p.stdout

def _classpath():
    for line in open(shutil.which('tlc') or '/usr/local/bin/tlc'):
        m = re.search(r'-cp\s+"?([^"\s]+)', line)
        if m:
            return m.group(1)
    return '/opt/veriftools/tla/tla2tools.jar'
CLASSPATH = _classpath()

def tlc_counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
