#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: confirm planted bugs in a scratch copy of /repo and keep them in /verif/seeded.

SPEC.py defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], files {name: text}
(the demonstration crate: src/main.rs, *.xsd, ...). Kept only when the change builds, the existing tests pass, and the
demonstration passes on the unchanged tree and fails with the change.  Not used by any check."""
import json, os, re, shutil, subprocess, sys, runpy
SCR = '/tmp/pl'
REPO = SCR + '/repo'
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
DEMO = r'''#!/bin/bash
# cwd: the repository.  Builds the crate beside this file against it, in a scratch directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/crate/." "$tmp/"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
xsd = { path = "$repo/xsd" }
rust_decimal = "1"
proc-macro2 = "1"
roxmltree = "*"
[workspace]
TOML
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
export CARGO_TARGET_DIR=${DEMO_TARGET:-$tmp/target}
cd "$tmp" || exit 3
%s
'''
RUN = 'cargo build --offline -q || exit 1\ntimeout 60 "$CARGO_TARGET_DIR/debug/demo"'


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    return p.returncode, p.stdout


def main():
    spec = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    head = sh('git -C /repo rev-parse HEAD')[1].strip()
    if not os.path.exists(REPO):
        os.makedirs(SCR, exist_ok=True)
        sh('cp -a /repo %s' % REPO)
    if sh('git rev-parse HEAD', REPO)[1].strip() != head:
        sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', REPO)
    env = dict(CARGO_TARGET_DIR=SCR + '/target', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_INCREMENTAL='1')
    denv = dict(DEMO_TARGET=SCR + '/dtarget')
    for b in spec['BUGS']:
        if only and b['id'] not in only:
            continue
        out = os.path.join(SEEDED, b['id'])
        if not only and os.path.exists(out + '/patch.diff') and '--redo' not in sys.argv:
            continue
        print('==', b['id'], b['property'], flush=True)
        sh('git checkout -q -- . && git clean -qfd', REPO)
        tmp = SCR + '/demo'
        shutil.rmtree(tmp, ignore_errors=True)
        for n, t in b['files'].items():
            p = os.path.join(tmp, 'crate', n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(t)
        open(tmp + '/demo.sh', 'w').write(DEMO % b.get('run', RUN))
        # nothing cached between the two runs
        rc0, o0 = sh('rm -rf %s/dtarget/debug/.fingerprint/{xsd,demo}-* ; bash %s/demo.sh' % (SCR, tmp), REPO, denv)
        if rc0 != 0:
            print('  DEMO FAILS on the unchanged tree:', o0[-1500:]); continue
        bad = None
        orig = 0
        for f, old, new in b['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            if t.count(old) != b.get('count', 1):
                bad = '%s: %d matches of %r' % (f, t.count(old), old[:60]); break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            print('  ', bad); continue
        diff = sh('git diff', REPO)[1]
        # at least one removed line (or the neighbour of an inserted one) from the original repository
        base = sh('git rev-list --max-parents=0 HEAD', REPO)[1].strip()[:7]
        for f in {e[0] for e in b['edits']}:
            rem = []
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? \+\d+(?:,\d+)? @@.*\n((?:[ +\-\\].*\n)*)', sh('git diff -U0 -- ' + f, REPO)[1], re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                rem += list(range(a, a + max(n, 1)))
            bl = sh('git blame -s HEAD -- ' + f, REPO)[1].split('\n')
            orig += sum(1 for r in rem if bl[r - 1].startswith('^'))
        if not orig:
            print('  WARNING: no original line changed')
        rc, o = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', REPO, env)
        passed = len(re.findall(r'^test .* \.\.\. ok$', o, re.M))
        if rc != 0 or passed < 55:
            print('  TESTS: rc %d, %d passed\n%s' % (rc, passed, '\n'.join(l for l in o.split('\n') if 'FAILED' in l or 'error' in l or 'panicked' in l)[-2500:])); continue
        rc1, o1 = sh('rm -rf %s/dtarget/debug/.fingerprint/{xsd,demo}-* ; bash %s/demo.sh' % (SCR, tmp), REPO, denv)
        if rc1 == 0:
            print('  DEMO PASSES with the change'); continue
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        shutil.copytree(tmp, out, dirs_exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
        print('  kept (%d original lines); with the change: %s' % (orig, ' | '.join(o1.strip().split('\n'))[-200:]))
    sh('git checkout -q -- . && git clean -qfd', REPO)


main()
