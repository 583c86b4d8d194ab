#!/usr/bin/env python3
"""check.py <property id> <quick|thorough>: builds the check against /repo's working tree and runs it.
exit 0: held; exit 1 + VIOLATION line: broken; anything else: no answer."""
import os, re, subprocess, sys, json, time
VERIF = os.path.dirname(os.path.abspath(__file__))
CRATE = {'C23': 'few', 'C24': 'few', 'C25': 'few', 'C28': 'few', 'C30': 'few', 'C31': 'few', 'C32': 'few', 'C26': 'web'}

def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e.update(CARGO_TARGET_DIR=os.path.join(VERIF, 'target'), CARGO_NET_OFFLINE='true', VERIF_DIR=VERIF,
             RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_HOME=os.environ.get('CARGO_HOME', '/root/.cargo'),
             CARGO_TERM_COLOR='never', LANG='C.UTF-8')
    # the checks' own crates report what they reach (cov/src/lib.rs)
    e['RUSTC_WORKSPACE_WRAPPER'] = os.path.join(VERIF, 'tools', 'covrustc')
    e['PATH'] = '/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:' + e.get('PATH', '')
    return e

def cargo(crate, args, timeout=800):
    return subprocess.run(['cargo'] + args + ['--offline'], cwd=os.path.join(VERIF, crate), env=env(),
                          capture_output=True, text=True, timeout=timeout)

def build_problem(pid, crate, r):
    """The check does not compile. Either nothing can be said, or the tree rejects documented configurations."""
    log = r.stdout + r.stderr
    for bad in ('No space left', 'signal: 9', 'SIGKILL', 'Cannot allocate memory', 'SIGTERM'):
        if bad in log:
            sys.stderr.write(log[-3000:]); sys.exit(5)
    lib = cargo(crate, ['build', '-q', '-p', 'validators'])
    if lib.returncode != 0:
        sys.stderr.write('the library itself does not build\n' + lib.stderr[-3000:]); sys.exit(5)
    if not re.search(r'^error', log, re.M):
        sys.stderr.write(log[-3000:]); sys.exit(5)
    d = os.path.join(VERIF, 'replays', pid); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'build.log')
    open(p, 'w').write(log)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(dict(property=pid, tier=os.environ.get('VERIF_TIER', 'quick'), seed=int(os.environ.get('VERIF_SEED', '1') or 1),
                   level='exploration', coverage=dict(evaluations=1, distinct_nontrivial=1, samples=[log[:600]],
                   rule='compiling the configurations of this check: every one is built from documented parameters'),
                   wall_s=0.0, violations=1), open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'))
    m = re.search(r'^error.*(?:\n.*){0,6}', log, re.M)
    print('validators derived from documented attributes no longer compile although the library builds:')
    print(m.group(0) if m else log[:800])
    print(f'VIOLATION property={pid} replay={p}')
    sys.exit(1)

def main():
    pid, tier = sys.argv[1], sys.argv[2]
    os.environ['VERIF_TIER'] = tier
    script = os.path.join(VERIF, 'scripts', pid.lower() + '.py')
    if os.path.exists(script):
        os.environ.update(env())
        os.execv(sys.executable, [sys.executable, script] + sys.argv[1:])
    crate = CRATE.get(pid, 'harness')
    b = pid.lower()
    # the same check again with a search guided by what the cases reach
    g = 'g' + b[1:] if pid not in ('C26', 'C31', 'C32') else None
    r = cargo(crate, ['build', '--bin', b] + (['--bin', g] if g else []))
    if r.returncode != 0:
        build_problem(pid, crate, r)
    t0 = time.time()
    limit = 800 if tier == 'quick' else 6 * 3600
    def run(name, args):
        try:
            st = subprocess.run([os.path.join(VERIF, 'target', 'debug', name), '--tier', tier] + args + sys.argv[3:], env=env(), cwd=VERIF, timeout=limit - (time.time() - t0))
        except subprocess.TimeoutExpired:
            sys.stderr.write(name + ': time limit reached: no answer\n'); return 6
        return st.returncode if st.returncode >= 0 else 7
    code = run(b, [])
    # the search adds to an answer: without one of its own, the answer stays
    if code == 0 and g and not sys.argv[3:] and run(g, ['--guided']) == 1: code = 1
    sys.exit(code)

main()
