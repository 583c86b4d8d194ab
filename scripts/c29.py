#!/usr/bin/env python3
"""C29: feature subsets. Each generated package enables a subset of the features, is built with exactly these (features are
not unified between the packages), and prints what its validators do on given inputs; the full build of the same source is
the oracle.
Usage: c29.py C29 quick|thorough [--replay file] [--prebuild]"""
import os, sys, json, random, subprocess, time, re, shutil, threading
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c27
from c27 import ALL, KILLED, hash_
VERIF = os.environ['VERIF_DIR']
OUT = os.path.join(VERIF, 'target', 'c29')
PID = 'C29'
STD = {'domain', 'email', 'host', 'ip', 'ipv4', 'ipv6', 'url', 'http_url', 'http_ftp_url', 'phone', 'regex', 'rocket', 'axum'}
SERDE = {'json', 'axum'}

def no_answer(log):
    sys.stderr.write(log[-3000:] + '\n'); sys.exit(5)

HEAD = r'''
#![allow(unused, clippy::all)]
use alloc::{format, vec, string::{String, ToString}, vec::Vec};
use core::fmt::{Debug, Display};
use validators::prelude::*;
pub enum Input { Str(String), Bytes(Vec<u8>), I(i128), U(u128), F64(u64), F32(u32) }
type Fields = Vec<(&'static str, String)>;
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn opt_text<T: Display>(v: &Option<T>) -> String { match v { Some(x) => format!("{x}"), None => String::from("-") } }
mod vh { pub mod models { pub mod num { pub fn float_bits(x: f64) -> alloc::string::String { alloc::format!("{:x}", x.to_bits()) } } } }
fn is_error<E: core::error::Error + Debug + Display>(e: &E) -> String { format!("Err {e:?} {e}") }
fn show<T, E: core::error::Error>(r: core::result::Result<T, E>, f: fn(&T) -> Fields) -> String { match r { Ok(v) => format!("Ok {:?}", f(&v)), Err(e) => is_error(&e) } }
fn unit<E: core::error::Error>(r: core::result::Result<(), E>) -> String { match r { Ok(()) => String::from("Ok"), Err(e) => is_error(&e) } }
macro_rules! run_str { ($s:expr, $f:expr) => { vec![show(Vx::parse_str($s.as_str()), $f), show(Vx::parse_string($s.as_str()), $f), unit(Vx::validate_str($s.as_str()))] } }
macro_rules! run_bytes { ($s:expr, $f:expr) => { vec![show(Vx::parse_u8_slice($s), $f), show(Vx::parse_vec_u8($s.as_slice()), $f), unit(Vx::validate_u8_slice($s))] } }
macro_rules! run_signed { ($s:expr, $f:expr) => { vec![show(Vx::parse_i128($s), $f), unit(Vx::validate_i128($s)), show(Vx::parse_i16($s as i16), $f), show(Vx::parse_isize($s as isize), $f)] } }
macro_rules! run_unsigned { ($s:expr, $f:expr) => { vec![show(Vx::parse_u128($s), $f), unit(Vx::validate_u128($s)), show(Vx::parse_u16($s as u16), $f), show(Vx::parse_usize($s as usize), $f)] } }
macro_rules! run_f64 { ($s:expr, $f:expr) => { vec![show(Vx::parse_f64($s), $f), unit(Vx::validate_f64($s))] } }
macro_rules! run_f32 { ($s:expr, $f:expr) => { vec![show(Vx::parse_f32($s), $f), unit(Vx::validate_f32($s))] } }
'''
MAIN = r'''
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn main() {
    use std::io::Write;
    std::panic::set_hook(Box::new(|_| {}));
    let t = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let mut o = std::io::BufWriter::new(std::io::stdout().lock());
    for l in t.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        WHICH
        let i = match p[1] { "S" => B::Input::Str(String::from_utf8(unhex(p[2])).unwrap()), "B" => B::Input::Bytes(unhex(p[2])), "I" => B::Input::I(p[2].parse().unwrap()), "U" => B::Input::U(p[2].parse().unwrap()), "D" => B::Input::F64(p[2].parse().unwrap()), _ => B::Input::F32(p[2].parse().unwrap()) };
        match std::panic::catch_unwind(|| B::run(p[0].parse().unwrap(), &i)) { Ok(v) => writeln!(o, "{v:?}"), Err(_) => writeln!(o, "PANIC") }.unwrap();
    }
}
'''
PROFILE = '''[profile.dev]
opt-level = 0
debug = 0
incremental = false
[profile.dev.package.phonenumber]
opt-level = 1
[profile.dev.package.regex]
opt-level = 1
[profile.dev.package.regex-syntax]
opt-level = 1
[profile.dev.package.regex-automata]
opt-level = 1
'''

class Sub:
    def __init__(s, name, feats):
        s.name = name; s.feats = sorted(feats)
        f = set(feats)
        s.std = bool(f & (STD | {'std'}))
        s.serde = bool(f & (SERDE | {'serde'}))
        s.rocket = 'rocket' in f; s.axum = 'axum' in f; s.full = 'full' in f
        s.cases = []
        # k*: only compiled (cargo check), not run
        s.check = name[0] == 'k'

def length_case(g, s, c):
    """a collection type that exists under the features"""
    al = 'std' if s.std else 'alloc'
    T = [('Vec<u8>', 'b.clone()'), ('alloc::collections::BTreeSet<usize>', '(0..b.len()).collect::<alloc::collections::BTreeSet<usize>>()'), ('alloc::collections::BTreeMap<usize, u8>', 'b.iter().copied().enumerate().collect::<alloc::collections::BTreeMap<usize, u8>>()'), ('alloc::collections::BinaryHeap<u8>', 'b.iter().copied().collect::<alloc::collections::BinaryHeap<u8>>()')]
    if s.std: T += [('std::collections::HashSet<usize>', '(0..b.len()).collect::<std::collections::HashSet<usize>>()'), ('std::collections::HashMap<usize, u8>', 'b.iter().copied().enumerate().collect::<std::collections::HashMap<usize, u8>>()')]
    if 'json' in s.feats: T.append(('validators::serde_json::Map<String, validators::serde_json::Value>', 'b.iter().enumerate().map(|(i, x)| (format!("{i:08}"), (*x).into())).collect::<validators::serde_json::Map<String, validators::serde_json::Value>>()'))
    T, mk = g.one(*T)
    c.fields = [('', T)]
    c.get = '("len", CollectionLength::len(&v.0).to_string()), ("empty", CollectionLength::is_empty(&v.0).to_string())'
    c.run = 'match i { Input::Bytes(b) => { let c = %s; vec![unit(Vx::validate_collection(&c)), show(Vx::parse_collection(c), f)] }, _ => vec![] }' % mk

def case(g, s, v):
    while True:
        c = g.valid(v)
        a = c.attr_text()
        if not s.serde and re.search(r'\bserde\b', a): continue
        if not s.rocket and re.search(r'\brocket\b', a): continue
        if not s.full and '..' in a and v != 'regex': continue
        if not s.serde and re.search(r'\bserde_json\b', ''.join(t for _, t in c.fields)) and v != 'length': continue
        if v == 'length': length_case(g, s, c)
        return c

def module(i, c, s):
    run = c.run if c.v == 'length' else re.sub(r'run_(\w+)::<Vx>\(', r'run_\1!(', c.run).replace('bad_input()', 'vec![]')
    if c.v == 'length': run = c.run
    extra = []
    strin = c.v != 'length'
    E = '<Vx as ValidateString>::Error' if strin else '<Vx as ValidateLength<_>>::Error'
    if strin:
        extra.append('if let Input::Str(s) = i { let r: validators::Result<Vx, <Vx as ValidateString>::Error> = core::convert::From::from(s.as_str()); o.push(show(r.into_std_result(), f)); }')
        if s.serde and c.want[1]:
            q = 's.clone()' if c.v == 'json' else 'validators_json::to_string(s).unwrap()'
            extra.append('if let Input::Str(s) = i { let q = %s; match validators_json::from_str::<Vx>(&q) { Ok(v) => o.push(format!("de {:?}", f(&v))), Err(e) => o.push(format!("de error {e}")) } }' % q)
            extra.append('if let Input::Str(s) = i { let q = %s; match validators_json::from_str::<validators::Result<Vx, <Vx as ValidateString>::Error>>(&q) { Ok(v) => o.push(show(v.into_std_result(), f)), Err(e) => o.push(format!("res error {e}")) } }' % q)
        if s.serde and c.want[0] and c.v not in ('phone', 'number'):
            extra.append('if let Input::Str(s) = i { if let Ok(v) = Vx::parse_str(s) { o.push(format!("ser {:?}", validators_json::to_string(&v).map_err(|e| format!("{e}")))); } }')
        if s.rocket and c.want[3]:
            extra.append('if let Input::Str(s) = i { o.push(match <Vx as validators::rocket::request::FromParam>::from_param(s) { Ok(v) => format!("param {:?}", f(&v)), Err(e) => format!("param {e:?}") }); }')
        if s.rocket and c.want[2]:
            extra.append('if let Input::Str(s) = i { o.push(match <Vx as validators::rocket::form::FromFormField>::from_value(validators::rocket::form::ValueField { name: validators::rocket::form::name::NameView::new("n"), value: s }) { Ok(v) => format!("form {:?}", f(&v)), Err(e) => format!("form {e}") }); }')
        if s.axum:
            extra.append('if let Input::Str(s) = i { if let Err(e) = Vx::parse_str(s) { o.push(format!("{}", validators::axum::response::IntoResponse::into_response(e).status())); } }')
    re_x = 'pub static RE_X: std::sync::LazyLock<validators::regex::Regex> = std::sync::LazyLock::new(|| validators::regex::Regex::new("^[a-c]+$").unwrap());' if c.v == 'regex' else ''
    helper = ''
    if 'url_text' in c.get: helper += 'fn url_text(u: &validators::url::Url) -> String { format!("{u} {:?}", u.host()) } '
    if 'phone_text' in c.get: helper += 'fn phone_text(n: &validators::phonenumber::PhoneNumber) -> String { format!("{n} {:?}", n.country().id()) } '
    src, get = c.source(), c.get
    if not s.std:
        src = src.replace('std::collections', 'alloc::collections')
        get = get.replace('std::', 'core::')
    body = f'{src} {re_x} {helper} pub fn run(i: &Input) -> Vec<String> {{ let f: fn(&Vx) -> Fields = |v| vec![{get}]; let mut o: Vec<String> = {run}; {" ".join(extra)} o }}'
    return f'pub mod m{i} {{ use super::*; {body} }}\n'

def body(s):
    t = HEAD if not any(c.v == 'regex' for c in s.cases) else HEAD
    if s.serde: t += 'use serde_json as validators_json;\n'
    t += ''.join(module(i, c, s) for i, c in enumerate(s.cases))
    return t + 'pub fn run(c: usize, i: &Input) -> Vec<String> { match c { %s _ => vec![] } }\n' % ' '.join(f'{i} => m{i}::run(i),' for i in range(len(s.cases)))

def package(name, feats, serde, std, body_text, main, extra=''):
    d = os.path.join(OUT, 'ws', name)
    os.makedirs(os.path.join(d, 'src'))
    w = lambda p, t: open(os.path.join(d, p), 'w').write(t)
    deps = 'validators = { path = "/repo/validators", default-features = false, features = %s }\n' % json.dumps(feats)
    if serde: deps += 'serde_json = { version = "1", default-features = false, features = ["alloc"] }\n'
    w('Cargo.toml', f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2024"\npublish = false\n[dependencies]\n{deps}')
    w('src/lib.rs', ('' if std else '#![no_std]\n') + 'extern crate alloc;\n' + body_text)
    w('src/main.rs', main)

def workspace(subs):
    ws = os.path.join(OUT, 'ws')
    shutil.rmtree(ws, ignore_errors=True); os.makedirs(ws)
    for s in subs:
        package(s.name, s.feats + ['derive'], s.serde, s.std, 'pub mod body;\npub use body::*;\n', f'use {s.name} as B;\n' + MAIN.replace('WHICH', ''))
        open(os.path.join(ws, s.name, 'src', 'body.rs'), 'w').write(body(s))
    full = ['all-validators', 'std', 'derive', 'serde', 'test', 'full'] + (['rocket'] if any(s.rocket for s in subs) else []) + (['axum'] if any(s.axum for s in subs) else [])
    mods = ''.join(f'#[path = "../../{s.name}/src/body.rs"] pub mod {s.name};\n' for s in subs)
    checked = subs
    subs = [s for s in subs if not s.check]
    dispatch = 'match std::env::args().nth(2).unwrap().as_str() { %s _ => panic!() }' % ' '.join(f'"{s.name}" => {s.name}::main(&t),' for s in subs)
    m = MAIN.split('    for l in t.lines() {')[0].replace('    let mut o = std::io::BufWriter::new(std::io::stdout().lock());\n', '') + f'    {dispatch}\n}}\n'
    loop = '    for l in t.lines() {' + MAIN.split('    for l in t.lines() {')[1].replace('WHICH', '')
    m += ''.join(f'mod {s.name} {{ use full::{s.name} as B; use super::unhex; pub fn main(t: &str) {{ use std::io::Write; let mut o = std::io::BufWriter::new(std::io::stdout().lock());\n{loop} }}\n' for s in subs)
    package('full', full, True, True, mods, m)
    open(os.path.join(ws, 'Cargo.toml'), 'w').write('[workspace]\nresolver = "3"\nmembers = %s\n%s' % (json.dumps([s.name for s in checked] + ['full']), PROFILE))
    shutil.copy(os.path.join(VERIF, 'web', 'Cargo.lock'), os.path.join(ws, 'Cargo.lock'))

def build(subs):
    """{package: error text} of those that do not build"""
    done, errs, killed = set(), {}, []
    heavy = {'rocket', 'axum', 'regex', 'phone', 'url', 'http_url', 'http_ftp_url', 'domain', 'email', 'host'}
    lanes = [['full'], [], [], [], [], [], [], []]
    for i, s in enumerate(subs):
        h = bool(heavy & set(s.feats))
        s.lane = (5 + i % 3) if s.check else i % 2 if h else 2 + i % 3
        lanes[s.lane].append(s.name)
    def lane(k):
        e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(OUT, f'target{k}'))
        for name in lanes[k]:
            # one package at a time: its features are then exactly its own
            r = subprocess.run(['cargo', 'check' if name[0] == 'k' else 'build', '--offline', '-p', name, '--message-format=json'], cwd=os.path.join(OUT, 'ws'), env=e, capture_output=True, text=True)
            if any(x in r.stderr + r.stdout for x in KILLED): killed.append(r.stderr); return
            if r.returncode == 0: done.add(name); continue
            errs[name] = [r.stderr]
            for l in r.stdout.splitlines():
                try: j = json.loads(l)
                except ValueError: continue
                if j.get('reason') == 'compiler-message' and j['message']['level'] == 'error': errs[name].append(j['message']['rendered'] or j['message']['message'])
    # the first invocation writes the lock file
    subprocess.run(['cargo', 'metadata', '--offline', '--format-version=1'], cwd=os.path.join(OUT, 'ws'), capture_output=True)
    ts = [threading.Thread(target=lane, args=(k,)) for k in range(len(lanes))]
    for t in ts: t.start()
    for t in ts: t.join()
    if killed: no_answer(killed[0])
    if 'full' not in done: no_answer('the full build fails\n' + '\n'.join(errs['full'][:4]))
    for n, v in errs.items():
        if len(v) == 1: no_answer(n + '\n' + v[0])
    return {n: v[1] for n, v in errs.items()}

def dump(s, n, seed):
    spec = ''.join(json.dumps(dict(v=c.v, ty=c.ty, opts=c.opts, n=max(4, n // (12 if c.v in ('phone', 'regex') else 1)), seed=seed + i)) + '\n' for i, c in enumerate(s.cases))
    r = subprocess.run([os.path.join(VERIF, 'target', 'debug', 'dump')], input=spec, capture_output=True, text=True)
    if r.returncode != 0: no_answer(r.stderr)
    p = os.path.join(OUT, s.name + '.in'); open(p, 'w').write(r.stdout)
    return r.stdout.splitlines(), p

def outputs(lane, exe, *args):
    r = subprocess.run([os.path.join(OUT, f'target{lane}', 'debug', exe)] + list(args), capture_output=True, text=True, timeout=600)
    return r.returncode, r.stdout.splitlines()

def widened(s, c, a, b):
    """byte-unit-u128 gives the sizes more room: what fits without it does not change"""
    return 'byte-unit-u128' in s.feats and c.v in ('bit', 'byte') and not a.startswith('["Ok')

def draw(g, b):
    subs = []
    vs = list(ALL); g.r.shuffle(vs)
    n = 8
    for k in range(n):
        f = set(vs[k::n])
        if b % 3 == 1: f = set(g.r.sample(ALL, g.r.choice((1, 1, 2))))
        if b % 3 == 2: f |= set(g.r.sample(ALL, g.r.randrange(16)))
        for x, d in (('std', 2), ('serde', 2), ('test', 4), ('full', 4), ('byte-unit-u128', 5)):
            if g.p(1, d): f.add(x)
        subs.append(Sub(f's{k}', f))
    # the standard library is forced by many validators: three subsets share out those that live without it
    light = sorted(set(ALL) - STD); g.r.shuffle(light)
    for k in range(3):
        f = (set(subs[k].feats) - STD - {'std'}) | (set(light[k::3]) if b % 3 == 0 else set(g.r.sample(light, 3)))
        subs[k] = Sub(f's{k}', f)
    subs[3] = Sub('s3', set(subs[3].feats) | {'rocket'})
    subs[4] = Sub('s4', set(subs[4].feats) | {'axum'})
    if b % 2 == 1: subs[5] = Sub('s5', set(subs[5].feats) | {'rocket', 'axum'})
    if b % 3 == 0:
        # every validator alone, and with each of the frameworks alone
        for i, v in enumerate(ALL):
            subs.append(Sub(f'u{i}', {v} | {x for x, d in (('std', 4), ('serde', 3), ('full', 6)) if g.p(1, d)}))
            for x in ('serde', 'rocket', 'axum'): subs.append(Sub(f'k{i}{x}', {v, x}))
    for s in subs:
        s.cases = [case(g, s, v) for v in s.feats if v in ALL for _ in range(3 if s.name[0] in 'uk' else 2 if len(s.feats) > 3 else 4)]
    return subs

def report(s, data, msg):
    d = os.path.join(VERIF, 'replays', PID); os.makedirs(d, exist_ok=True)
    data = dict(property=PID, features=s.feats, message=msg, **data)
    p = os.path.join(d, f'{abs(hash_(json.dumps(data))):016x}.json')
    json.dump(data, open(p, 'w'), indent=1)
    print(f'features {s.feats}\n  {msg}')
    print(f'VIOLATION property={PID} replay={p}')

def evaluate(subs, n, seed, stats):
    """[(sub, data, message)]"""
    workspace(subs)
    bad = []
    for k, m in build(subs).items():
        s = next(s for s in subs if s.name == k)
        bad.append((s, dict(bodies={k: body(s)}, serde=s.serde, std=s.std), 'does not build, although the full build does:\n' + m[:1500]))
    failed = {s.name for s, _, _ in bad}
    for s in subs:
        stats['subsets'].append(' '.join(s.feats))
        if s.check or s.name in failed: continue
        lines, p = dump(s, n, seed)
        (c0, a), (c1, b) = outputs(s.lane, s.name, p), outputs(0, 'full', p, s.name)
        if c1 != 0 or len(b) != len(lines): no_answer('the full program stops')
        if c0 != 0 or len(a) != len(lines): bad.append((s, {}, 'the program stops')); continue
        for l, x, y in zip(lines, a, b):
            c = s.cases[int(l.split(' ')[0])]
            stats['evaluations'] += 1
            if '["Ok' in x: stats['nontrivial'] += 1
            if x != y and not widened(s, c, y, x):
                # the module alone, to replay
                one = Sub('s0', set(s.feats)); one.cases = [c]
                bad.append((s, dict(bodies={'s0': body(one)}, serde=s.serde, std=s.std, input='0 ' + l.split(' ', 1)[1]), f'{c.source()}\n  input {l}\n  this build: {x[:600]}\n  full build: {y[:600]}'))
                break
    return bad

def replay(path):
    d = json.load(open(path))
    s = Sub('s0', set(d['features']))
    text = list(d['bodies'].values())[0]
    global body
    body = lambda _: text
    workspace([s])
    b = build([s])
    if b:
        print(list(b.values())[0][:1500]); print(f'VIOLATION property={PID} replay={path}'); sys.exit(1)
    if 'input' in d:
        p = os.path.join(OUT, 'replay.in'); open(p, 'w').write(d['input'] + '\n')
        x, y = outputs(s.lane, 's0', p), outputs(0, 'full', p, 's0')
        print('this build', x); print('full build', y)
        if x != y:
            print(f'VIOLATION property={PID} replay={path}'); sys.exit(1)
    sys.exit(0)

def main():
    tier = sys.argv[2]; quick = tier == 'quick'
    os.makedirs(OUT, exist_ok=True)
    r = subprocess.run(['cargo', 'build', '-q', '--offline', '--bin', 'dump'], cwd=os.path.join(VERIF, 'few'), capture_output=True, text=True)
    if r.returncode != 0: no_answer('the full build fails\n' + r.stderr)
    if '--replay' in sys.argv: replay(sys.argv[sys.argv.index('--replay') + 1])
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    stats = dict(evaluations=0, nontrivial=0, subsets=[])
    samples, code, nviol = [], 0, 0
    for b in range(1 if quick else 20):
        g = c27.Gen(seed * 1000 + b + 7_000_000)
        subs = draw(g, b)
        if '--prebuild' in sys.argv:
            workspace(subs); build(subs); return
        for s, data, msg in evaluate(subs, 300 if quick else 2000, seed * 100 + b, stats):
            nviol += 1
            if nviol <= 3: report(s, data, msg)
            code = 1
        samples += [dict(features=s.feats, case=s.cases[0].source()) for s in subs[:4]]
        if code: break
        if not quick and b % 4 == 3:
            for k in range(8): shutil.rmtree(os.path.join(OUT, f'target{k}'), ignore_errors=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(dict(property=PID, tier=tier, seed=seed, level='exploration', coverage=dict(
        evaluations=stats['evaluations'], distinct_nontrivial=stats['nontrivial'], feature_subsets=len(stats['subsets']),
        rule='each evaluation runs one generated validator on one generated input in the subset build and in the full build of the same source and compares every entry point, the capturing result and, where the features are on, Serde, Rocket and Axum; non-trivial: accepted by the validator. Without std the generated source is a no_std library',
        subsets=stats['subsets'][:60], samples=samples[:8]), wall_s=round(time.time() - t0, 1), violations=nviol), open(os.path.join(VERIF, 'evidence', PID + '.json'), 'w'), indent=1)
    print(f'{PID} {tier}: {len(stats["subsets"])} feature subsets, {stats["evaluations"]} comparisons, {time.time() - t0:.0f}s')
    sys.exit(code)

if __name__ == "__main__": main()
