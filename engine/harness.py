"""Builds harness crates from /repo's working tree and runs cases in them."""
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
CPUS = 8


class Inconclusive(Exception):
    """The check could not be carried out (build failure, watchdog, ...)."""


def sh(cmd, **kw):
    kw.setdefault('capture_output', True)
    kw.setdefault('text', True)
    return subprocess.run(cmd, **kw)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if text.startswith('symlink:'):
        if os.path.islink(path):
            os.unlink(path)
        return os.symlink(text[8:], path)
    try:
        with open(path, newline='') as f:
            if f.read() == text:
                return
    except (FileNotFoundError, UnicodeDecodeError):
        pass
    with open(path, 'w', newline='') as f:
        f.write(text)


CRATE_TOML = """[package]
name = "{name}"
version = "0.1.0"
edition = "{edition}"

[dependencies]
xsd = {{ path = "{repo}/xsd" }}
rust_decimal = {{ version = "1.6", default-features = false, features = ["std"] }}
"""
WS_TOML = """[workspace]
members = [{members}]
resolver = "2"

[profile.dev]
debug = 0
incremental = false
opt-level = 0
"""


def cargo_env(target):
    env = dict(os.environ)
    env.update(CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    env['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
    env.pop('RUSTFLAGS', None)
    env.pop('RUSTC_WRAPPER', None)
    return env


def sources_hash():
    """Content of everything in the repository that can influence a build."""
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git'))
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(p.encode() + b'\0')
            try:
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                pass
    return h.hexdigest()


def sync():
    """cargo trusts modification times; make it look at the content instead."""
    import glob
    stamp = os.path.join(BUILD, 'sources')
    h = sources_hash()
    try:
        with open(stamp) as f:
            old = f.read()
    except FileNotFoundError:
        old = None
    if old != h:
        for pat in ('debug', '*/debug', 'release', '*/release'):
            for d in glob.glob(os.path.join(BUILD, 'target*', pat, '.fingerprint', 'xsd-*')):
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(BUILD, exist_ok=True)
        with open(stamp, 'w') as f:
            f.write(h)


class Workspace:
    """A generated cargo workspace below BUILD."""
    profile = ''
    edition = '2021'

    def __init__(self, name):
        self.dir = os.path.join(BUILD, name)
        self.target = os.path.join(BUILD, 'target')
        os.makedirs(self.dir, exist_ok=True)

    def prepare(self, members, tomls=None):
        keep = set(members) | {'x'}
        for d in os.listdir(self.dir):
            p = os.path.join(self.dir, d)
            if os.path.isdir(p) and d not in keep:
                shutil.rmtree(p, ignore_errors=True)
        write(os.path.join(self.dir, 'Cargo.toml'),
              WS_TOML.format(members=', '.join('"%s"' % m for m in members)) + self.profile)
        for m in members:
            t = (tomls or {}).get(m) or CRATE_TOML.format(name=self.pkg(m), repo=REPO, edition=self.edition)
            write(os.path.join(self.dir, m, 'Cargo.toml'), t)
        shutil.copy(os.path.join(REPO, 'Cargo.lock'), os.path.join(self.dir, 'Cargo.lock'))

    def pkg(self, m):
        return (os.path.basename(self.dir) + '-' + m).lower()

    def build(self, extra=(), env=None, timeout=800):
        e = cargo_env(self.target)
        e.update(env or {})
        sync()
        tool = list(extra[:1]) if extra and extra[0].startswith('+') else []
        if tool:
            e.pop('RUSTUP_TOOLCHAIN', None)
        rest = list(extra[1:]) if tool else list(extra)
        try:
            p = subprocess.run(['cargo'] + tool + ['build', '--offline', '--message-format=json', '-q', '--keep-going']
                               + rest, cwd=self.dir, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Inconclusive('cargo build timed out')
        msgs = []
        for line in p.stdout.splitlines():
            if line.startswith('{'):
                try:
                    msgs.append(json.loads(line))
                except ValueError:
                    pass
        return p.returncode, msgs, p.stderr

    def bin(self, m, triple=None):
        return os.path.join(self.target, triple or '', 'debug', self.pkg(m))


def span_lines(msg):
    """All line numbers of main.rs an error message points at."""
    out = []

    def spans(m):
        for s in m.get('spans', []):
            while s is not None:
                if s.get('file_name', '').endswith('main.rs'):
                    out.append((s['is_primary'], s['line_start']))
                exp = s.get('expansion')
                s = exp['span'] | {'is_primary': s['is_primary']} if exp else None
        for c in m.get('children', []):
            spans(c)
    spans(msg)
    prim = [l for p, l in out if p]
    return prim or [l for _, l in out]


class Batch:
    """Schemas compiled through the real macro into harness crates.

    add() a schema -> key; build(); run([(key, doc)]).
    """
    def __init__(self, name, crates=8, instrument=None, edition='2021'):
        self.ws = Workspace(name)
        self.ws.edition = edition
        self.mods = []          # dicts: mod, schema files, types
        self.crates = crates
        self.broken = {}        # module -> compile error
        self.instrument = instrument
        self.extra_src = {}

    def add(self, files, types=('Root',), main='main.xsd', extra='', mod=None, handlers=()):
        """files: path -> text.  Returns module name."""
        h = hashlib.sha256(json.dumps(files, sort_keys=True).encode()).hexdigest()[:16]
        d = os.path.join(self.ws.dir, 'x', h)
        for p, t in files.items():
            write(os.path.join(d, p), t)
        mod = mod or 's%d' % len(self.mods)
        self.mods.append(dict(mod=mod, path=os.path.join(d, main), types=list(types), extra=extra, files=files,
                              handlers=list(handlers)))
        return mod

    def source(self, mods):
        lines = ['#![allow(warnings)]', '#[path = "%s/harness/rt.rs"] mod rt;' % VERIF]
        where = {}
        for m in mods:
            ex = m['extra'].replace('\n', ' ')
            lines.append('#[xsd::all(schema = "%s")] pub mod %s {} %s' % (m['path'], m['mod'], ex))
            where[len(lines)] = m['mod']
        lines.append('fn main() { rt::main(&[')
        for m in mods:
            for t in m['types']:
                lines.append('("%s:%s", |d, o| rt::exec::<%s::%s>(d, o, |d| %s::%s::from_xml(d), |v| v.to_xml())),'
                             % (m['mod'], t, m['mod'], t, m['mod'], t))
                where[len(lines)] = m['mod']
            for key, expr in m['handlers']:
                lines.append('("%s:%s", %s),' % (m['mod'], key, expr))
                where[len(lines)] = m['mod']
        lines.append(']) }')
        return '\n'.join(lines) + '\n', where

    def build(self, extra=(), env=None):
        t0 = time.time()
        alive = list(self.mods)
        rounds = 0
        while True:
            rounds += 1
            n = min(self.crates, max(1, len(alive)))
            groups = [alive[i::n] for i in range(n)]
            members = ['c%d' % i for i in range(n)]
            self.ws.prepare(members)
            wheres = []
            for m, g in zip(members, groups):
                src, where = self.source(g)
                write(os.path.join(self.ws.dir, m, 'src/main.rs'), src)
                wheres.append(where)
            rc, msgs, err = self.ws.build(extra, env)
            if rc == 0:
                break
            bad = {}
            fatal = None
            for msg in msgs:
                if msg.get('reason') != 'compiler-message' or msg['message'].get('level') not in ('error', 'failure-note'):
                    continue
                if msg['message'].get('level') != 'error':
                    continue
                pid = msg.get('package_id', '')
                gi = None
                for i, m in enumerate(members):
                    if ('/%s' % m) in pid and self.ws.dir in pid:
                        gi = i
                if gi is None:
                    fatal = msg['message'].get('rendered', '')
                    continue
                for l in span_lines(msg['message']):
                    if l in wheres[gi]:
                        bad.setdefault(wheres[gi][l], msg['message'].get('rendered', msg['message']['message']))
                        break
            if fatal and not bad:
                raise Inconclusive('xsd itself does not build: ' + fatal[:2000])
            if not bad:
                raise Inconclusive('harness does not build: ' + (err or '')[-2000:])
            self.broken.update(bad)
            alive = [m for m in alive if m['mod'] not in bad]
            if rounds > 12:
                alive = []      # other modules fail every time: what has been seen is in self.broken
            if not alive:
                break
        self.alive = {m['mod'] for m in alive}
        self.home = {m['mod']: members[i % len(members)] for i, m in enumerate(alive)} if alive else {}
        for gi, g in enumerate(groups if alive else []):
            for m in g:
                self.home[m['mod']] = members[gi]
        self.build_s = time.time() - t0
        self.triple = None
        for a, b in zip(extra, extra[1:]):
            if a == '--target':
                self.triple = b
        return self

    def run(self, cases, timeout=600, env=None, jobs=CPUS):
        """cases: [(key 'mod:Type', doc)] -> list of result dicts (None: module not available)."""
        res = [None] * len(cases)
        per = {}
        for i, (key, doc) in enumerate(cases):
            mod = key.split(':')[0]
            if mod in self.alive:
                per.setdefault(self.home[mod], []).append(i)
        # spread over processes
        chunks = []
        total = sum(len(v) for v in per.values())
        size = max(50, total // (jobs * 2) + 1)
        for home, ids in per.items():
            for k in range(0, len(ids), size):
                chunks.append((home, ids[k:k + size]))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(jobs) as ex:
            for part in ex.map(lambda c: run_cases(self.ws.bin(c[0], self.triple), [(i, cases[i][0], cases[i][1]) for i in c[1]],
                                                   timeout, env), chunks):
                for i, r in part:
                    res[i] = r
        return res


DRIVER_TOML = """[package]
name = "{name}"
version = "0.1.0"
edition = "2021"

[dependencies]
xsd = {{ path = "{repo}/xsd" }}
xsd-internal = {{ path = "{repo}/xsd-internal" }}
syn = {{ version = "2.0", features = ["full"] }}
quote = "1.0"
proc-macro2 = "1.0"
roxmltree = "0.20"
"""


class Driver:
    """The driver crate (harness/driver.rs)."""
    def __init__(self, src='driver'):
        self.src = src
        self.ws = Workspace(src)
        self.ws.profile = '[profile.dev.package."*"]\nopt-level = 1\n'
        self.triple = None

    def build(self, extra=(), env=None):
        self.ws.prepare(['d'], {'d': DRIVER_TOML.format(name=self.ws.pkg('d'), repo=REPO)})
        with open(os.path.join(VERIF, 'harness/%s.rs' % self.src)) as f:
            src = f.read().replace('/verif/', VERIF + '/')
        write(os.path.join(self.ws.dir, 'd/src/main.rs'), src)
        rc, msgs, err = self.ws.build(extra, env)
        if rc != 0:
            text = ''.join(m['message'].get('rendered', '') for m in msgs if m.get('reason') == 'compiler-message'
                           and m['message'].get('level') == 'error')
            raise Inconclusive(self.src + ' does not build: ' + (text or err)[:3000])
        for a, b in zip(extra, extra[1:]):
            if a == '--target':
                self.triple = b
        return self

    def run(self, cases, timeout=600, env=None, jobs=CPUS):
        """cases: [(op, input)]"""
        res = [None] * len(cases)
        size = max(20, len(cases) // (jobs * 2) + 1)
        chunks = [list(range(k, min(k + size, len(cases)))) for k in range(0, len(cases), size)]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(jobs) as ex:
            for part in ex.map(lambda ids: run_cases(self.ws.bin('d', self.triple),
                                                     [(i, cases[i][0], cases[i][1]) for i in ids], timeout, env), chunks):
                for i, r in part:
                    res[i] = r
        return res




CASE_SECS = 20


STACK = 256 * 2**20         # how much a property promises about the stack is not for every check to decide


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    n = STACK if hard == resource.RLIM_INFINITY else min(STACK, hard)
    resource.setrlimit(resource.RLIMIT_STACK, (n, n))


def run_cases(binary, cases, timeout=600, env=None):
    """Feeds cases to a runner process; restarts it behind a case that killed it."""
    out = []
    todo = list(cases)
    incidents = 0
    e = dict(os.environ)
    e['RT_CASE_SECS'] = str(CASE_SECS)
    e.update(env or {})
    while todo:
        data = b''.join(('%d %s %d\n' % (i, key, len(d.encode()))).encode() + d.encode() for i, key, d in todo)
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                             preexec_fn=limits)
        try:
            so, se = p.communicate(data, timeout=timeout)
            timed_out = False
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            timed_out = True
        done = set()
        last = None
        over = hang = False
        for line in so.decode('utf-8', 'replace').split('\n'):
            if line.startswith('BEGIN '):
                last = int(line[6:])
            elif line == 'OVERBUDGET':
                over = True
            elif line == 'HANG':
                hang = True
            elif line.startswith('{'):
                r = json.loads(line)
                out.append((r['id'], r))
                done.add(r['id'])
        rest = [c for c in todo if c[0] not in done]
        if not rest:
            break
        if last is None or last in done:
            if p.returncode == 0:
                break
            raise Inconclusive('runner failed without a case: rc=%s %s' % (p.returncode, se[-500:]))
        r = {'id': last}
        if timed_out:
            raise Inconclusive('runner did not finish within %d s of wall-clock time' % timeout)
        elif hang:
            r['hang'] = CASE_SECS
        elif over:
            r['overbudget'] = True
        else:
            r['crash'] = p.returncode
            r['stderr'] = se.decode('utf-8', 'replace')[-3000:]
        out.append((last, r))
        incidents += 1
        if incidents >= 4:
            break       # enough evidence; the remaining cases have no result
        todo = [c for c in rest if c[0] != last]
    return out
