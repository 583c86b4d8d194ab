#!/usr/bin/env python3
"""C27: attributes over the documented grammar. Valid ones must compile, keep the shape and traits asked for and behave as
written (judged by the models in `cases`); mutated ones must be rejected by the compiler.
Usage: c27.py C27 quick|thorough [--replay file]"""
import glob, os, sys, json, random, subprocess, time, re, itertools
VERIF = os.environ['VERIF_DIR']
OUT = os.path.join(VERIF, 'target', 'c27')
PID = 'C27'
TRI = ('Must', 'Allow', 'Disallow')
STR = 'match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() }'
BASE = 'match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => bad_input() }'
INT = lambda s: 'match i { Input::Str(s) => run_str::<Vx>(s, f), %s, _ => bad_input() }' % ('Input::I(x) => run_signed::<Vx>(*x, f)' if s else 'Input::U(x) => run_unsigned::<Vx>(*x, f)')
COUNTRIES = ['TW', 'US', 'JP', 'GB', 'DE', 'FR', 'CN', 'KR', 'IN', 'BR', 'AU', 'IT', 'VA', 'CA']
ALL = ['base32', 'base64', 'base64_url', 'base32_decoded', 'base64_decoded', 'base64_url_decoded', 'bit', 'byte', 'boolean', 'domain', 'email', 'host',
       'http_url', 'http_ftp_url', 'ip', 'ipv4', 'ipv6', 'json', 'length', 'line', 'mac_address', 'number', 'phone', 'regex', 'semver', 'semver_req',
       'signed_integer', 'text', 'unsigned_integer', 'url', 'uuid']

def q(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'

class Case:
    """v, params [(name, text)], fields ('tuple'|'named', [(name, type)]), opts, ty, get (field closure), run"""
    def __init__(s, v):
        s.v, s.params, s.opts, s.ty, s.want = v, [], [], '', [True] * 4
        s.kind = 'struct'; s.shape = 'tuple'; s.fields = []; s.get = ''; s.run = ''
        s.outer = None  # replaces the whole attribute
        s.attr = None   # replaces what stands inside #[validator(..)]
        s.expr = None   # source of the body
        s.why = ''
        s.vis = 'pub '
        s.mut = ''      # the text put in by a mutation
        s.extra = ''
        s.derive = 'Debug, Clone, Validator'

    def attr_text(s):
        if s.attr is not None: return s.attr
        return s.v + ('(' + ', '.join(t for _, t in s.params) + s.trail + ')' if s.params else '')
    trail = ''

    def source(s):
        a = s.outer if s.outer is not None else f'#[validator({s.attr_text()})]'
        if s.expr is not None: body = s.expr
        elif s.kind == 'struct' and s.shape == 'tuple': body = 'pub struct Vx(%s);' % ', '.join(s.vis + t for _, t in s.fields)
        elif s.kind == 'struct': body = 'pub struct Vx { %s }' % ', '.join(f'{s.vis}{n}: {t}' for n, t in s.fields)
        return f'#[derive({s.derive})] {s.extra}{a} {body}'

def fresh_numbers():
    """integers that the sources have more often than when the dictionary was recorded (see harness/src/dict.rs): bounds worth trying"""
    base, now = {}, {}
    for l in open(os.path.join(VERIF, 'harness', 'src', 'dict_base.txt'), encoding='utf-8'):
        k, n = l.rstrip('\n').rsplit(' ', 1)
        base[k] = int(n)
    for d in ('validators', 'validators-derive'):
        for f in sorted(glob.glob(f'/repo/{d}/src/**/*.rs', recursive=True)):
            t, was = open(f, encoding='utf-8', errors='replace').read(), ''
            while t != was:
                was, t = t, re.sub(r'/\*(?:(?!/\*)[\s\S])*?\*/', ' ', t)
            t = re.sub(r"'(?:[^'\\]|\\.)'" r'|//[^\n]*|"(?:[^"\\]|\\.)*"', ' ', t)
            for x in re.findall(r'(?<![\w.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w]|\.[0-9])', t):
                k = f'i:{int(x.replace("_", ""), 16 if x.startswith("0x") else 10)}'
                now[k] = now.get(k, 0) + 1
    return sorted(int(k[2:]) for k, n in now.items() if n > base.get(k, 0))

class Gen:
    def __init__(s, seed):
        s.r = random.Random(seed)
        s.fresh = fresh_numbers()

    def near(s, lo, hi):
        """a number of the sources that was not there before, if there is one, for a bound"""
        ok = [m for n in s.fresh for m in (n - 1, n, n + 1, -n) if lo <= m <= hi]
        return s.r.choice(ok) if ok and s.p(1, 3) else None

    def one(s, *x): return s.r.choice(x)
    def p(s, n, d): return s.r.randrange(d) < n

    # ---- texts of single parameters
    def val(s, k, v): return s.one(f'{k}({v})', f'{k} = {v}', f'{k}({v})', f'{k}( {v} )')

    def num(s, n):
        """an integer literal in one of Rust's spellings"""
        if n < 0: return '-' + s.num(-n)
        t = str(n)
        k = s.r.randrange(8)
        if k == 0 and len(t) > 3: return t[:-3] + '_' + t[-3:]
        if k == 1 and n: return hex(n)
        if k == 2 and n < 1 << 20 and n: return bin(n)
        if k == 3 and len(t) > 1: return t[0] + '_' + t[1:]
        return t

    def nump(s, k, n):
        t = s.num(n)
        return f'{k} = {t}' if n < 0 or s.p(2, 3) else f'{k}({t})'

    def bounds(s, mn, mx, inc, text=None):
        ps = []
        f = text or s.nump
        if mn is not None: ps.append(f('min', mn))
        if mx is not None: ps.append(f('max', mx))
        if inc is False: ps.append(s.one('inclusive = false', 'inclusive(false)'))
        elif s.p(1, 3): ps.append(s.one('inclusive = true', 'inclusive(true)'))
        s.r.shuffle(ps)
        return ', '.join(ps)

    def pair(s, lo, hi, small=None):
        """two ordered integers (or None) in [lo, hi] and whether the upper one belongs"""
        def pt():
            n = s.near(lo, hi)
            if n is not None: return n
            k = s.r.randrange(6)
            if k == 0: return s.one(lo, hi)
            if k == 1: return s.one(lo + s.r.randrange(4), hi - s.r.randrange(4))
            m = small or 300
            a = max(lo, -m if lo < 0 else 0)
            return s.r.randint(a, min(hi, m))
        a, b = sorted((pt(), pt()))
        inc = s.p(2, 3)
        if s.p(1, 6): b = a
        if s.p(1, 8) and a < hi: b = a + 1; inc = False
        if not inc and a == b: inc = True
        k = s.r.randrange(6)
        if k == 0: a = None
        if k == 1: b = None
        return a, b, inc

    # ---- common options
    def flags(s, c, rocket=True):
        out = []
        for name, two, at in (('serde', ('Serialize', 'Deserialize'), 0), ('rocket', ('FromFormField', 'FromParam'), 2)):
            if name == 'rocket' and not rocket:
                c.want[2:] = [False, False]; continue
            if not s.p(1, 3): continue
            k = s.r.randrange(6)
            if k == 0: t, w = name, (True, True)
            elif k == 1: t, w = f'{name} = true', (True, True)
            elif k == 2: t, w = f'{name} = false', (False, False)
            elif k == 3: t, w = f'{name}({two[0]})', (True, False)
            elif k == 4: t, w = f'{name}({two[1]})', (False, True)
            else:
                x = list(two); s.r.shuffle(x)
                t, w = f'{name}({", ".join(x)})', (True, True)
            c.want[at], c.want[at + 1] = w
            c.params.append((name, t))

    def tris(s, c, names, two=()):
        d = {}
        for n in names:
            if s.p(1, 4): d[n] = None
            else:
                d[n] = s.one(*(('Allow', 'Disallow') if n in two else TRI))
                c.params.append((n, s.val(n, d[n])))
        c.opts += [(n, x or 'Allow') for n, x in d.items()]
        return {n: x or 'Allow' for n, x in d.items()}

    def finish(s, c):
        s.r.shuffle(c.params)
        if c.shape == 'named': s.r.shuffle(c.fields)
        if s.p(1, 4): c.trail = ','
        if s.p(1, 5): c.extra = s.one('#[allow(dead_code)] ', '/** documented */ ', '#[must_use] ')
        if s.p(1, 5): c.vis = s.one('', 'pub(crate) ')
        return c

    def port(s, port): return {'Must': [('port', 'u16')], 'Allow': [('port', 'Option<u16>')], 'Disallow': []}[port]
    def port_get(s, port): return {'Must': 'v.port.to_string()', 'Allow': 'opt_text(&v.port)', 'Disallow': 'String::new()'}[port]

    def valid(s, v):
        c = Case(v)
        rocket = True
        if v.startswith('base'):
            s.tris(c, ('padding',))
            if v.endswith('decoded'): c.fields = [('', 'Vec<u8>')]; c.get = '("bytes", hex(&v.0))'
            else: c.fields = [('', 'String')]; c.get = '("text", v.0.clone())'
            c.run = BASE
        elif v in ('bit', 'byte'):
            U = (1 << 64) - 1
            mn = mx = None; inc = True
            if s.p(4, 5):
                mn, mx, inc = s.pair(0, U, 4000)
                k = s.r.randrange(6)
                if k == 0:
                    t = f'{mn if mn is not None else ""}{".." if mx is not None and not inc else "..=" if mx is not None else ".."}{mx if mx is not None else ""}'
                    c.params.append(('range', s.one(f'range({t})', f'range = {t}')))
                else:
                    t = s.bounds(mn, mx, inc)
                    if t: c.params.append(('range', f'range({t})'))
                    else: mn = mx = None; inc = True
            ic = 'true'
            if v == 'byte' and s.p(2, 3):
                ic = s.one('true', 'false'); c.params.append(('ignore_case', s.one(f'ignore_case = {ic}', f'ignore_case({ic})')))
            c.opts = s.range_opts('Inside', mn, mx, inc) + [('ignore_case', ic)]
            T = {'bit': 'Bit', 'byte': 'Byte'}[v]
            c.fields = [('', f'validators::byte_unit::{T}')]; c.ty = T
            c.get = '("value", v.0.as_u128().to_string())'; c.run = INT(False)
        elif v == 'boolean':
            c.fields = [('', 'bool')]; c.get = '("value", v.0.to_string())'; c.run = STR
        elif v in ('signed_integer', 'unsigned_integer'):
            w = s.one(8, 16, 32, 64, 128, 'size'); bits = 64 if w == 'size' else w
            sg = v[0] == 's'
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
            kind = s.ranges(c, lambda: s.pair(lo, hi, 120), s.nump)
            T = ('i' if sg else 'u') + str(w)
            c.ty = T; c.fields = [('', T)]; c.get = '("value", v.0.to_string())'; c.run = INT(sg)
        elif v == 'number':
            T = s.one('f32', 'f64')
            def fp(k, n): return f'{k} = {n}' if str(n).startswith('-') or s.p(2, 3) else f'{k}({n})'
            def pair():
                l = s.r.sample(['-100', '-1.5', '-1', '0', '0.0', '0.25', '1', '1.5', '2', '10.0', '1_000', '1e3', '1.0e-3', '1000000.5'], 2)
                l.sort(key=lambda x: float(x.replace('_', '')))
                a, b = l
                if s.p(1, 8): b = a
                inc = s.p(2, 3) or float(a.replace('_', '')) == float(b.replace('_', ''))
                k = s.r.randrange(5)
                if k == 0: a = None
                if k == 1: b = None
                return a, b, inc
            kind = s.ranges(c, pair, fp)
            nan = s.one(None, *TRI)
            if nan: c.params.append(('nan', s.val('nan', nan)))
            c.opts.append(('nan', nan or 'Allow'))
            if nan == 'Must' and kind == 'Inside': c.params.append(('conflict', s.val('conflict', 'Allow')))
            elif s.p(1, 5): c.params.append(('conflict', s.val('conflict', s.one('Allow', 'Disallow'))))
            c.ty = T; c.fields = [('', T)]; c.get = '("value", vh::models::num::float_bits(v.0 as f64))'
            c.run = 'match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() }'
        elif v in ('line', 'text'):
            unit = s.one('none', 'char', 'byte', 'char', 'byte')
            mn = tm = mx = None
            if unit != 'none':
                tm, mn, mx = sorted(s.near(0, 4000) or s.r.randint(0, 12) for _ in range(3))
                if s.p(1, 5): tm = mn
                if s.p(1, 5): mx = mn
                if s.p(1, 3): tm = None
                if s.p(1, 3): mn = None
                if s.p(1, 3): mx = None
                elif s.p(1, 12): mx = 2 ** 64 - 1
                ps = [s.nump(k, n) for k, n in (('min', mn), ('trimmed_min', tm), ('max', mx)) if n is not None]
                s.r.shuffle(ps)
                if ps: c.params.append(('length', f'{unit}_length({", ".join(ps)})'))
                else: unit = 'none'
            z = lambda x: '' if x is None else str(x)
            c.opts = [('unit', unit), ('min', z(mn)), ('trimmed_min', z(tm)), ('max', z(mx))]
            c.fields = [('', 'String')]; c.get = '("text", v.0.clone())'; c.run = STR
        elif v == 'length':
            rocket = False
            a, b = sorted(s.near(0, 4000) or s.r.randint(0, 30) for _ in range(2))
            if s.p(1, 5): b = a
            if s.p(1, 3): a = None
            if s.p(1, 3): b = None
            for k, n in (('min', a), ('max', b)):
                if n is not None: c.params.append((k, s.nump(k, n)))
            c.opts = [('min', '' if a is None else str(a)), ('max', '' if b is None else str(b))]
            T, mk, it = s.one(('Vec<u8>', 'b.clone()', 'v.0.clone()'), ('std::collections::BTreeMap<usize, u8>', 'b.iter().copied().enumerate().collect::<std::collections::BTreeMap<usize, u8>>()', 'v.0.values().copied().collect::<Vec<u8>>()'), ('validators::serde_json::Map<String, validators::serde_json::Value>', 'b.iter().enumerate().map(|(i, x)| (format!("{i:08}"), (*x).into())).collect::<validators::serde_json::Map<String, validators::serde_json::Value>>()', '{ let mut k: Vec<_> = v.0.iter().collect(); k.sort_by(|a, b| a.0.cmp(b.0)); k.iter().map(|x| x.1.as_u64().unwrap() as u8).collect::<Vec<u8>>() }'))
            c.fields = [('', T)]; c.get = f'("items", hex(&{it})), ("len", CollectionLength::len(&v.0).to_string())'
            c.run = 'match i { Input::Bytes(b) => { let c = %s; let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() }' % mk
        elif v in ('mac_address', 'uuid'):
            case = s.one(None, 'Any', 'Upper', 'Lower'); db = ':' if v == 'mac_address' else '-'
            if case: c.params.append(('case', s.val('case', case)))
            sep = s.one(None, *TRI); b = s.one(':', '-', '_', '.', ' ', '/')
            if sep == 'Disallow': c.params.append(('separator', 'separator(Disallow)')); b = ''
            elif sep: c.params.append(('separator', s.one(f"separator({sep}(b'{b}'))", f"separator({sep} = b'{b}')")))
            else: b = db
            c.opts = [('case', case or 'Any'), ('separator', sep or 'Allow'), ('sepbyte', str(ord(b)) if b else '')]
            T, m = ('u64', 'to_mac_address_string') if v == 'mac_address' else ('u128', 'to_uuid_string')
            c.fields = [('', T)]; c.get = f'("value", v.0.to_string()), ("print", v.{m}())'; c.run = STR
        elif v in ('ip', 'ipv4', 'ipv6'):
            d = s.tris(c, ('local', 'port'))
            T = {'ip': 'std::net::IpAddr', 'ipv4': 'std::net::Ipv4Addr', 'ipv6': 'std::net::Ipv6Addr'}[v]
            acc = 'v.0' if d['port'] == 'Disallow' else f'v.{v}'
            c.fields = [(v, T)] + s.port(d['port']); c.shape = 'tuple' if d['port'] == 'Disallow' else 'named'
            c.get = f'("ip", {acc}.to_string()), ("port", {s.port_get(d["port"])}), ("auth", v.to_uri_authority_string().to_string())'; c.run = STR
        elif v == 'host':
            d = s.tris(c, ('local', 'port', 'at_least_two_labels'))
            loc = d['local'] == 'Allow' and d['at_least_two_labels'] != 'Allow'
            c.fields = [('host', 'validators::models::Host')] + ([('is_local', 'bool')] if loc else []) + s.port(d['port'])
            c.shape = 'tuple' if len(c.fields) == 1 else 'named'; acc = 'v.0' if c.shape == 'tuple' else 'v.host'
            c.get = f'("host", format!("{{:?}}", {acc})), ("port", {s.port_get(d["port"])}), ' + ('("is_local", v.is_local.to_string()), ' if loc else '') + '("auth", v.to_uri_authority_string().to_string())'; c.run = STR
        elif v == 'domain':
            d = s.tris(c, ('ipv4', 'local', 'port', 'at_least_two_labels'))
            if d['ipv4'] == 'Must' and d['at_least_two_labels'] == 'Disallow': c.params.append(('conflict', s.val('conflict', 'Allow')))
            elif s.p(1, 5): c.params.append(('conflict', s.val('conflict', s.one('Allow', 'Disallow'))))
            loc = d['local'] == 'Allow' and d['at_least_two_labels'] != 'Allow'; i4 = loc and d['ipv4'] == 'Allow'
            c.fields = [('domain', 'String')] + ([('is_ipv4', 'bool')] if i4 else []) + ([('is_local', 'bool')] if loc else []) + s.port(d['port'])
            c.shape = 'tuple' if len(c.fields) == 1 else 'named'; acc = 'v.0' if c.shape == 'tuple' else 'v.domain'
            c.get = f'("domain", {acc}.clone()), ("port", {s.port_get(d["port"])}), ' + ('("is_local", v.is_local.to_string()), ' if loc else '') + ('("is_ipv4", v.is_ipv4.to_string()), ' if i4 else '') + '("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())'; c.run = STR
        elif v == 'email':
            d = s.tris(c, ('comment', 'ip', 'local', 'at_least_two_labels', 'non_ascii'), ('comment', 'non_ascii'))
            if d['ip'] == 'Must' and d['at_least_two_labels'] == 'Disallow': c.params.append(('conflict', s.val('conflict', 'Allow')))
            elif s.p(1, 5): c.params.append(('conflict', s.val('conflict', s.one('Allow', 'Disallow'))))
            loc = d['local'] == 'Allow' and d['at_least_two_labels'] != 'Allow'
            T = {'Allow': 'validators::models::Host', 'Must': 'std::net::IpAddr', 'Disallow': 'String'}[d['ip']]
            c.shape = 'named'; c.fields = [('local_part', 'String'), ('need_quoted', 'bool'), ('domain_part', T)]
            cs = ('comment_before_local_part', 'comment_after_local_part', 'comment_before_domain_part', 'comment_after_domain_part')
            g = []
            if d['comment'] == 'Allow':
                c.fields += [(x, 'Option<String>') for x in cs]; g += [f'("{x}", format!("{{:?}}", v.{x}))' for x in cs]
            if loc: c.fields.append(('is_local', 'bool')); g.append('("is_local", v.is_local.to_string())')
            dp = {'Allow': 'format!("{:?}", v.domain_part)', 'Must': 'match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }', 'Disallow': 'format!("Domain({:?})", v.domain_part)'}[d['ip']]
            c.get = f'("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", {dp}), ' + ', '.join(g + ['("email", v.to_email_string())']); c.run = STR
        elif v in ('url', 'http_url', 'http_ftp_url'):
            U = 'validators::url::Url'
            if v == 'url': c.fields = [('', U)]; c.opts = [('local', 'Allow')]; c.get = '("url", url_text(&v.0))'
            else:
                s.tris(c, ('local',)); c.shape = 'named'
                if v == 'http_url': c.fields = [('url', U), ('is_https', 'bool')]; c.get = '("url", url_text(&v.url)), ("is_https", v.is_https.to_string())'
                else: c.fields = [('url', U), ('protocol', 'validators::models::Protocol')]; c.get = '("url", url_text(&v.url)), ("protocol", format!("{:?}", v.protocol))'
            c.run = STR
        elif v == 'phone':
            n = s.one(0, 1, 1, 2, 2, 3, 5)
            cs = s.r.sample(COUNTRIES, n)
            if n: c.params.append(('countries', f'countries({", ".join(cs)})'))
            c.opts = [('countries', ','.join(cs))]
            if n > 1:
                c.fields = [('', 'std::collections::HashMap<validators::phonenumber::country::Id, validators::phonenumber::PhoneNumber>')]
                c.get = '("number", { let mut l: Vec<String> = v.0.iter().map(|(k, n)| format!("{k:?} {}", phone_text(n))).collect(); l.sort(); l.join("|") })'
            else: c.fields = [('', 'validators::phonenumber::PhoneNumber')]; c.get = '("number", phone_text(&v.0))'
            c.run = STR
        elif v == 'regex':
            pat = s.one('^[a-c]+$', '^a', 'b$', '[^a]', '^$', '(?i)^[A-B]*$', 'a{2,3}', '^(a|bc)+d?$', '\\\\n')
            k = s.r.randrange(4)
            if k == 0: c.params.append(('regex', s.one('regex(RE_X)', 'regex = RE_X'))); pat = '^[a-c]+$'
            else: c.params.append(('regex', s.one(f'regex("{pat}")', f'regex = "{pat}"')))
            c.opts = [('regex', pat.replace('\\\\', '\\'))]
            c.fields = [('', 'String')]; c.get = '("text", v.0.clone())'; c.run = STR
        elif v in ('semver', 'semver_req'):
            c.fields = [('', 'validators::semver::Version' + ('Req' if v == 'semver_req' else ''))]; c.get = '("text", v.0.to_string())'; c.run = STR
        elif v == 'json':
            T = s.one('u8', 'i64', 'bool', 'String', 'Vec<u8>', 'Option<f64>', 'std::collections::BTreeMap<String, u32>', 'validators::serde_json::Value')
            c.fields = [('', T)]; c.get = '("text", format!("{:?}", v.0))'; c.run = STR
        else: raise Exception(v)
        s.flags(c, rocket)
        return s.finish(c)

    def range_opts(s, kind, mn, mx, inc):
        f = lambda x: '' if x is None else str(x).replace('_', '')
        return [('kind', kind), ('min', f(mn)), ('max', f(mx)), ('inclusive', 'true' if inc else 'false')]

    def ranges(s, c, pair, text):
        kind = s.one(None, 'Unlimited', 'Inside', 'Inside', 'Outside', 'Outside')
        mn = mx = None; inc = True
        if kind == 'Unlimited': c.params.append(('range', 'range(Unlimited)'))
        elif kind:
            mn, mx, inc = pair()
            if mx is None: inc = True
            t = s.bounds(mn, mx, inc, text)
            c.params.append(('range', f'range({kind}({t}))'))
            c.bounds = (kind, mn, mx, inc)
        c.opts += s.range_opts(kind or 'Unlimited', mn, mx, inc)
        return kind

    # ---- attributes that must be rejected
    def invalid(s):
        while True:
            c = s.mutate(s.valid(s.r.choice(ALL)))
            if c is not None: return c

    def mutate(s, c):
        c.derive = 'Validator'; c.extra = ''
        k = s.r.randrange(15)
        has = {n for n, _ in c.params}
        def setp(name, text):
            """put `text` in place of parameter `name`"""
            c.mut = re.sub(r'\d+', '0', text)
            c.params = [(n, t) for n, t in c.params if n != name]
            c.params.insert(s.r.randrange(len(c.params) + 1), (name, text))
        def drop(name): c.params = [(n, t) for n, t in c.params if n != name]
        tri = {n for n, x in c.opts if x in TRI and n not in ('separator', 'case') and not (c.v == 'url')}
        if k == 0:  # the same parameter twice
            if not c.params: return None
            n, t = s.r.choice(c.params)
            if n in tri and s.p(1, 2): t = f'{n}({s.one("Allow", "Disallow")})'
            if n == 'length' and s.p(1, 2): t = ('byte' if t.startswith('char') else 'char') + t[4:]
            c.params.insert(s.r.randrange(len(c.params) + 1), (n, t)); c.why = f'{n} given twice'
            return c
        if k == 1:  # a parameter this validator does not have
            known = has | {'serde', 'rocket', 'padding' if c.v.startswith('base') else ''} | {n for n, _ in c.opts}
            if 'number' == c.v or c.v in ('domain', 'email'): known |= {'conflict'}
            if c.v in ('mac_address', 'uuid'): known |= {'separator', 'case'}
            if c.v in ('bit', 'byte', 'number', 'signed_integer', 'unsigned_integer'): known |= {'range'}
            if c.v in ('line', 'text'): known |= {'char_length', 'byte_length'}; known -= {'min', 'max', 'trimmed_min', 'unit'}
            else: known -= {'kind', 'inclusive'}
            if c.v in ('bit', 'byte', 'number', 'signed_integer', 'unsigned_integer'): known -= {'min', 'max'}
            if c.v == 'bit': known -= {'ignore_case'}
            if c.v == 'url': known -= {'local'}
            pool = [('padding', 'padding(Allow)'), ('local', 'local(Allow)'), ('port', 'port(Disallow)'), ('range', 'range(Unlimited)'), ('nan', 'nan(Allow)'), ('case', 'case(Any)'), ('separator', 'separator(Disallow)'), ('char_length', 'char_length(max = 5)'), ('min', 'min = 1'), ('ignore_case', 'ignore_case = true'), ('conflict', 'conflict(Allow)'), ('countries', 'countries(TW)'), ('regex', 'regex("a")'), ('ipv4', 'ipv4(Allow)'), ('comment', 'comment(Allow)'), ('Padding', 'Padding(Must)'), ('locals', 'locals(Allow)'), ('serde_json', 'serde_json = true'), ('at_least_two_label', 'at_least_two_label(Must)'), ('axum', 'axum'), ('Must', 'Must'), ('ip', 'ip(Allow)'), ('inclusive', 'inclusive = true')]
            if c.v == 'length': pool = [('rocket', 'rocket'), ('rocket', 'rocket = false'), ('trimmed_min', 'trimmed_min = 0'), ('char_length', 'char_length(min = 1)'), ('range', 'range(min = 1)')]; known -= {'rocket'}
            if c.v == 'phone': known |= {'countries'}
            n, t = s.r.choice(pool)
            if n in known: return None
            setp(n, t); c.why = f'unknown parameter {n}'
            return c
        if k == 2:  # a value the option does not have
            if not tri: return None
            n = s.r.choice(sorted(tri))
            bad = ['Maybe', 'must', 'ALLOW', '"Must"', 'true', '1', 'Must(Allow)', 'TriAllow::Must', 'Forbid']
            if n in ('comment', 'non_ascii') or s.p(1, 12): pass
            if n in ('comment', 'non_ascii'): bad += ['Must', 'Must', 'Must']
            b = s.r.choice(bad)
            setp(n, s.one(f'{n}({b})', f'{n} = {b}') if '(' not in b else f'{n}({b})'); c.why = f'{n} cannot be {b}'
            if n == 'padding' or n == 'local' and s.p(1, 3): setp(n, f'{n}(Must, Allow)'); c.why = f'{n} has two values'
            return c
        if k == 3:  # no value
            if not tri: return None
            n = s.r.choice(sorted(tri)); setp(n, n); c.why = f'{n} has no value'
            return c
        if k == 4:  # case, separator, ignore_case, conflict
            if c.v in ('mac_address', 'uuid'):
                n, t = s.one(('case', 'case(upper)'), ('case', 'case(Allow)'), ('case', 'case'), ('case', 'case = "Upper"'), ('separator', 'separator(Must)'), ('separator', "separator(Must(':'))"), ('separator', 'separator(Allow(":"))'), ('separator', 'separator(Allow(58))'), ('separator', 'separator(Any)'), ('separator', 'separator'), ('separator', "separator(Must(b':', b'-'))"), ('separator', "separator(b':')"), ('separator', "separator(Optional(b'-'))"))
            elif c.v == 'byte': n, t = s.one(('ignore_case', 'ignore_case = 1'), ('ignore_case', 'ignore_case = "true"'), ('ignore_case', 'ignore_case(Allow)'), ('ignore_case', 'ignore_case = Any'))
            elif c.v in ('number', 'domain', 'email'): n, t = s.one(('conflict', 'conflict(Must)'), ('conflict', 'conflict = true'), ('conflict', 'conflict'), ('conflict', 'conflict(allow)'))
            else: return None
            setp(n, t); c.why = f'bad {t}'
            return c
        if k == 5:  # ranges
            W = {'bit': 'range(%s)', 'byte': 'range(%s)'}.get(c.v)
            if c.v in ('signed_integer', 'unsigned_integer', 'number'):
                kind = s.one('Inside', 'Outside'); W = f'range({kind}(%s))'
                t = s.one('range', 'range(Between(min = 1, max = 2))', 'range(inside(min = 1))', 'range = Unlimited', 'range(min = 1, max = 2)', 'range(1)', f'range({kind})', f'range({kind} = 5)', f'range({kind}(min = 1), {kind}(max = 5))', None, None, None, None, None, None, None, None, None, None)
                if t: drop('conflict'); setp('range', t); c.why = 'malformed range'; return c
            if not W: return None
            if c.v in ('bit', 'byte') and s.p(1, 6):
                setp('range', s.one('range', 'range = 5', 'range(Inside(min = 1))', 'range(Unlimited)', 'range("1..2")')); c.why = 'malformed range'; return c
            if c.v == 'number': drop('conflict'); drop('nan')
            lo, hi = {'bit': (0, 200), 'byte': (0, 200), 'unsigned_integer': (0, 100), 'signed_integer': (-100, 100), 'number': (-100, 100)}[c.v]
            a = s.r.randint(lo, hi - 1); b = s.r.randint(a + 1, hi)
            if s.p(1, 3): b = a + 1
            inc = s.one('', ', inclusive = true', '')
            full = lambda x, y, op: W % f'{x}{op}{y}'
            opts = [('minimum above maximum', W % f'min = {b}, max = {a}{inc}'), ('minimum above maximum', W % f'max = {a}, min = {b}{inc}'), ('minimum above maximum, exclusive', W % f'min = {b}, max = {a}, inclusive = false'), ('empty exclusive range', W % f'min = {a}, max = {a}, inclusive = false'), ('empty exclusive range', W % f'inclusive = false, max = {b}, min = {b}'),
                    ('min twice', W % f'min = {a}, min = {a}'), ('max twice', W % f'max = {a}, min = {a}, max = {b}'), ('inclusive twice', W % f'min = {a}, inclusive = true, inclusive = true'), ('unknown bound', W % f'minimum = {a}'), ('unknown bound', W % f'min = {a}, trimmed_min = {a}'), ('unknown bound', W % f'lower = {a}, max = {b}'),
                    ('bound is not a number', W % s.one('min = "1"', 'min = true', "min = 'a'", 'min = MIN', 'max = 1 + 1', 'min', 'max = u8::MAX', 'min = "0", max = 5')), ('inclusive is not a bool', W % f'max = {b}, inclusive = {s.one("1", chr(34) + "true" + chr(34), "yes")}')]
            if a >= 0:
                opts += [('minimum above maximum, written as a range', full(b, a, '..=')), ('empty range', full(a, a, '..')), ('minimum above maximum, written as a range', full(b, a, '..'))]
            if c.v != 'number': opts += [('fractional bound', W % f'min = {abs(a)}.5'), ('fractional bound', W % f'max = 1.0')]
            if c.v in ('bit', 'byte', 'unsigned_integer'): opts += [('negative bound', W % f'min = -{b}'), ('negative bound', W % f'max = -1'), ('negative bound', W % 'min = -0x10, max = 5')]
            if 'integer' in c.v:
                w = c.ty[1:]; bits = 64 if w == 'size' else int(w)
                H = (1 << bits - 1) - 1 if c.ty[0] == 'i' else (1 << bits) - 1
                opts += [('bound beyond the type', W % f'max = {H + 1}'), ('bound beyond the type', W % f'min = 0, max = {H + 1 + s.r.randrange(1000)}'), ('bound beyond the type', W % f'min = {hex(H + 1)}')]
                if c.ty[0] == 'i': opts += [('bound beyond the type', W % f'min = {-H - 2}'), ('bound beyond the type', W % f'min = {-H - 2 - s.r.randrange(1000)}, max = 0')]
            c.why, t = s.r.choice(opts)
            setp('range', t)
            return c
        if k == 6:  # lengths
            a = s.r.randint(0, 10); b = s.r.randint(a + 1, 20)
            if s.p(1, 2): b = a + 1
            if c.v in ('line', 'text'):
                u = s.one('char', 'byte'); W = f'{u}_length(%s)'
                o = [('minimum above maximum', W % f'min = {b}, max = {a}'), ('minimum above maximum', W % f'max = {a}, min = {b}'), ('trimmed minimum above minimum', W % f'trimmed_min = {b}, min = {a}'), ('trimmed minimum above minimum', W % f'trimmed_min = {b}, min = {a}, max = {b}'), ('trimmed minimum above maximum', W % f'trimmed_min = {b}, max = {a}'), ('min twice', W % f'min = {a}, min = {b}'), ('max twice', W % f'max = {b}, max = {b}'), ('trimmed_min twice', W % f'trimmed_min = {a}, trimmed_min = {a}'), ('unknown bound', W % f'trimmed_max = {b}'), ('unknown bound', W % f'min = {a}, inclusive = true'), ('negative bound', W % 'min = -1'), ('fractional bound', W % 'max = 5.5'), ('not a number', W % 'max = "5"'), ('bound beyond usize', W % f'max = {1 << 64}'), ('no bounds', f'{u}_length'), ('a value', f'{u}_length = 5'), ('unknown length', 'length(min = 1)'), ('unknown length', 'word_length(min = 1)')]
                c.why, t = s.r.choice(o)
                drop('length'); setp('length', t)
            elif c.v == 'length':
                o = [('minimum above maximum', [f'min = {b}', f'max = {a}']), ('negative bound', ['min = -1']), ('fractional bound', ['max = 1.5']), ('not a number', ['min = "1"']), ('bound beyond usize', [f'max = {1 << 64}']), ('no value', ['min']), ('min twice', [f'min = {a}', f'min = {a}']), ('max twice', [f'max = {a}', f'max = {b}'])]
                c.why, ts = s.r.choice(o); drop('min'); drop('max')
                s.r.shuffle(ts)
                for t in ts: c.params.insert(s.r.randrange(len(c.params) + 1), (t, t))
            else: return None
            return c
        if k == 7:  # requirements that exclude each other
            drop('conflict')
            if c.v == 'domain': d = {'ipv4': 'Must', 'at_least_two_labels': 'Disallow'}
            elif c.v == 'email': d = {'ip': 'Must', 'at_least_two_labels': 'Disallow'}
            elif c.v == 'number':
                d = {'nan': 'Must'}; setp('range', 'range(%s)' % s.one('Inside(min = 0)', 'Inside(max = 1.5)', 'Inside(min = 0, max = 1)', 'Inside(min = -1, max = 1, inclusive = false)', 'Inside(0.0..=1.0)'))
            elif c.v in ('line', 'text'):
                drop('length'); c.params += [('a', f'char_length(min = {s.r.randrange(3)})'), ('b', f'byte_length(max = {s.r.randrange(3, 9)})')]; s.r.shuffle(c.params); c.why = 'both char_length and byte_length'
                return c
            else: return None
            for n, x in d.items(): setp(n, s.val(n, x))
            if s.p(1, 2): setp('conflict', s.val('conflict', 'Disallow'))
            c.why = 'requirements that exclude each other: ' + str(d)
            # the fields still fit: what is wrong is the contradiction alone
            o = dict(c.opts); o.update({n: x for n, x in d.items()})
            if c.v == 'domain':
                loc = o['local'] == 'Allow'
                c.fields = [('domain', 'String')] + ([('is_local', 'bool')] if loc else []) + s.port(o['port']); c.shape = 'tuple' if len(c.fields) == 1 else 'named'
            if c.v == 'email':
                loc = o['local'] == 'Allow'
                c.fields = [(n, 'std::net::IpAddr' if n == 'domain_part' else t) for n, t in c.fields if n != 'is_local'] + ([('is_local', 'bool')] if loc else [])
            return c
        if k in (8, 9, 10):  # the fields
            j = s.r.randrange(9); T = [t for _, t in c.fields]
            if j == 0:
                if c.shape == 'tuple': c.shape = 'named'; c.fields = [(n or s.one('value', 'text', 'inner', c.v), t) for n, t in c.fields]; c.why = 'named instead of tuple field'
                else: c.shape = 'tuple'; c.why = 'tuple instead of named fields'
            elif j == 1: c.fields = c.fields + [('extra', s.one('bool', 'String', 'u16'))]; c.why = 'a field too many'
            elif j == 2:
                if c.shape == 'tuple': c.expr = s.one('pub struct Vx;', 'pub struct Vx();', 'pub struct Vx {}'); c.why = 'no field'
                else: c.fields = list(c.fields); x = c.fields.pop(s.r.randrange(len(c.fields))); c.why = f'field {x[0]} missing'
            elif j == 3:
                if c.shape == 'tuple': return None
                i = s.r.randrange(len(c.fields)); n, t = c.fields[i]
                c.fields = list(c.fields); c.fields[i] = (n + s.one('s', '_', 'x') if s.p(1, 2) else s.one('value', 'domain_name', 'addr', 'islocal'), t); c.why = f'field {n} misnamed'
            elif j == 4: c.expr = s.one('pub enum Vx { A(%s) }' % T[0], 'pub enum Vx { A, B }', 'pub union Vx { pub a: u32, pub b: f32 }'); c.why = 'not a struct'
            elif j == 5:
                if c.shape != 'tuple': return None
                if c.v == 'json': return None
                bad = s.one('()', "&'static str", 'char', 'Option<%s>' % T[0], 'Box<u8>', '(u8, u8)', '[u8; 4]')
                if c.v == 'length': bad = s.one('()', 'u8', 'char', '(u8, u8)', 'bool')
                c.fields = [('', bad)]; c.why = f'field of type {bad}'
            elif j == 6:
                swap = {'u16': 'Option<u16>', 'Option<u16>': s.one('u16', 'Option<u32>'), 'bool': 'u8', 'String': 'Vec<u8>', 'Option<String>': 'String', 'Vec<u8>': 'String', 'f32': 'i32', 'f64': 'u64', 'std::net::IpAddr': 'std::net::Ipv4Addr', 'std::net::Ipv4Addr': 'std::net::IpAddr', 'std::net::Ipv6Addr': 'std::net::Ipv4Addr', 'validators::models::Host': 'String', 'validators::url::Url': 'String', 'validators::models::Protocol': 'String', 'validators::phonenumber::PhoneNumber': 'String', 'validators::semver::Version': 'validators::semver::VersionReq', 'validators::semver::VersionReq': 'validators::semver::Version', 'validators::byte_unit::Bit': 'validators::byte_unit::Byte', 'validators::byte_unit::Byte': 'validators::byte_unit::Bit'}
                if c.v in ('mac_address', 'uuid'): swap = {'u64': s.one('u128', 'u32', 'i64'), 'u128': s.one('u64', 'i128')}
                if c.v == 'signed_integer': swap = {c.ty: s.one('u8', 'u64', 'f64', 'bool', 'NonZero')}
                if c.v == 'unsigned_integer': swap = {c.ty: s.one('i8', 'i128', 'f32', 'bool')}
                if c.v in ('json', 'length'): return None
                ok = [i for i, t in enumerate(T) if t in swap]
                if not ok: return None
                i = s.r.choice(ok); c.fields = list(c.fields); c.fields[i] = (c.fields[i][0], swap[T[i]]); c.why = f'field of type {swap[T[i]]} instead of {T[i]}'
            elif j == 7:
                if c.shape == 'tuple': return None
                i = s.r.randrange(len(c.fields)); c.fields = list(c.fields); c.fields[i] = c.fields[i][:1] + ('()',); c.why = f'field {c.fields[i][0]} of type ()'
            else:
                c.fields = [('a', T[0]), ('b', T[0])]; c.shape = 'tuple'; c.why = 'two tuple fields'
            return c
        if k in (11, 12):  # serde and rocket
            n, two = s.one(('serde', ('Serialize', 'Deserialize')), ('rocket', ('FromFormField', 'FromParam')))
            if c.v == 'length' and n == 'rocket': return None
            o = ('FromParam' if n == 'serde' else 'Serialize')
            t = s.one(f'{n}({o})', f'{n}({two[0]}, {two[0]})', f'{n}({two[1]}, {two[0]}, {two[1]})', f'{n} = 1', f'{n} = "true"', f'{n}({two[0].lower()})', f'{n}("{two[0]}")', f'{n}(true)', f'{n} = {two[0]}', f'{n}({two[0]}, {o})', f'{n}()')
            setp(n, t); c.why = f'bad {t}'
            return c
        if k == 13:  # the attribute itself
            a = c.attr_text(); j = s.r.randrange(8)
            if j == 0: c.outer = ''; c.why = 'no attribute'
            elif j == 1: c.outer = '#[validator]'; c.why = 'empty attribute'
            elif j == 2: c.outer = f'#[validator = "{c.v}"]'; c.why = 'attribute with a value'
            elif j == 3: o = s.r.choice([x for x in ALL if x != c.v]); c.outer = f'#[validator({a})] #[validator({o})]'; c.why = 'two validators'
            elif j == 4: c.attr = s.one('base16', 'ipv5', 'integer', c.v + 's', c.v.capitalize(), 'validators::' + c.v, 'string', c.v.upper()); c.why = 'no such validator'
            elif j == 5: c.attr = c.v + s.one(' = true', ' = "x"', ' = Allow'); c.why = 'validator name with a value'
            elif j == 6: c.attr = s.one('', a + ', ' + s.r.choice(ALL), '"' + c.v + '"', a + ' ' + a); c.why = 'not one validator'
            else: c.outer = f'#[validator({a})] #[validator({a})]'; c.why = 'the same validator twice'
            return c
        # phone and regex
        if c.v == 'phone':
            t = s.one('countries(XX)', 'countries(tw)', 'countries(TW, US, TW)', 'countries(US, US)', 'countries("TW")', 'countries = TW', 'countries', 'countries()', 'countries(TW US)', 'countries(Taiwan)', 'countries(886)', 'countries(TW, ZZ, US)')
            setp('countries', t); c.why = f'bad {t}'
            n = 2 if ',' in t else 1
            return c
        if c.v == 'regex':
            t = s.one(None, 'regex("[")', 'regex("(a")', 'regex("a{2,1}")', 'regex', 'regex = 5', "regex('a')", 'regex = "*"', 'regex(b"a")', 'regex("a", "b")')
            if t is None: drop('regex'); c.why = 'no regular expression'
            else: setp('regex', t); c.why = f'bad {t}'
            return c
        return None

def module(i, c, valid):
    """one case on one line"""
    src = c.source()
    if not valid: return f'pub mod m{i} {{ use super::*; use validators::prelude::*; {src} }}\n'
    run = f'let f: fn(&Vx) -> Fields = |v| vec![{c.get}]; {c.run}'
    opts = ', '.join(f'({q(k)}, {q(x)})' for k, x in c.opts)
    name = f'{i}: {c.attr_text()} {c.ty or c.fields[0][1]}'
    w = ', '.join(str(x).lower() for x in c.want)
    return (f'pub mod m{i} {{ #![allow(unused)] use super::*; use validators::prelude::*; {src} '
            f'pub fn run(i: &Input) -> Out {{ {run} }} '
            f'pub fn has() -> [bool; 4] {{ [Probe::<Vx>::SER, Probe::<Vx>::DE, Probe::<Vx>::FIELD, Probe::<Vx>::PARAM] }} '
            f'pub static CASE: Case = Case {{ cfg: Cfg {{ name: {q(name)}, v: {q(c.v)}, attr: {q(c.attr_text())}, opts: &[{opts}], ty: {q(c.ty)}, run }}, has, want: [{w}] }}; }}\n')

def cargo(args, timeout=800):
    try:
        return subprocess.run(['cargo'] + args + ['--offline', '--features', 'cases'], cwd=os.path.join(VERIF, 'web'), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        sys.stderr.write('time limit reached: no answer\n'); sys.exit(6)

def no_answer(msg):
    sys.stderr.write(msg[-3000:] + '\n'); sys.exit(5)

def errors(r, path):
    """(line -> first message, messages without a place in the file)"""
    at, other = {}, []
    for l in r.stdout.splitlines():
        if not l.startswith('{'): continue
        m = json.loads(l)
        if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error': continue
        m = m['message']
        lines = set()
        def walk(sp):
            if os.path.basename(sp['file_name']) == os.path.basename(path) and sp['file_name'].endswith('c27/' + os.path.basename(path)): lines.add(sp['line_start'])
            if sp.get('expansion'): walk(sp['expansion']['span'])
        for sp in m['spans']:
            if sp['is_primary']: walk(sp)
        if not lines:
            for sp in m['spans']: walk(sp)
        if lines:
            for x in lines: at.setdefault(x, m['message'])
        elif m['spans'] or m['code']: other.append(m['rendered'])
    return at, other

def write(name, text):
    os.makedirs(OUT, exist_ok=True)
    p = os.path.join(OUT, name)
    open(p, 'w').write(text)
    return p

KILLED = ('No space left', 'signal: 9', 'SIGKILL', 'Cannot allocate memory', 'SIGTERM')

def compile_file(name, text):
    p = write(name + '.rs', text)
    r = cargo(['build', '--bin', name, '--message-format=json'])
    if any(k in r.stderr + r.stdout for k in KILLED): no_answer(r.stderr)
    at, other = errors(r, p)
    if r.returncode != 0 and not at:
        if not other: no_answer('the generated file does not compile for a reason outside it\n' + r.stderr)
        # the library builds, but not the validators every other check derives from documented attributes
        d = os.path.join(VERIF, 'replays', PID); os.makedirs(d, exist_ok=True)
        log = os.path.join(d, 'build.log'); open(log, 'w').write(''.join(other))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(dict(property=PID, tier=sys.argv[2], seed=1, level='exploration', coverage=dict(evaluations=1, distinct_nontrivial=1, rule='building the set of documented validators', samples=[other[0][:600]]), wall_s=0, violations=1), open(os.path.join(VERIF, 'evidence', PID + '.json'), 'w'))
        print(other[0][:1500])
        print(f'VIOLATION property={PID} replay={log}')
        sys.exit(1)
    return r.returncode == 0, at

def report(c, expect, msg):
    d = os.path.join(VERIF, 'replays', PID); os.makedirs(d, exist_ok=True)
    src = c.source()
    p = os.path.join(d, f'{abs(hash_(src + expect)):016x}.json')
    json.dump(dict(property=PID, source=src, expect=expect, message=msg), open(p, 'w'), indent=1)
    print(f'{expect}: {src}\n  {msg}')
    print(f'VIOLATION property={PID} replay={p}')

def hash_(s):
    h = 0xcbf29ce484222325
    for b in s.encode(): h = (h ^ b) * 0x100000001b3 % (1 << 64)
    return h

def check_invalid(cases):
    """the cases the compiler accepts"""
    todo = list(cases)
    while todo:
        text = ''.join(module(i, c, False) for i, c in enumerate(todo))
        ok, at = compile_file('badcases', text)
        if ok: return todo
        if not at: no_answer('no error position')
        rest = [c for i, c in enumerate(todo) if i + 1 not in at]
        if len(rest) == len(todo): no_answer('errors outside of the cases')
        todo = rest
    return []

def check_valid(cases):
    """[(case, message)] of the cases the compiler rejects"""
    todo, bad = list(cases), []
    while todo:
        text = ''.join(module(i, c, True) for i, c in enumerate(todo)) + 'pub static CASES: &[&Case] = &[%s];\n' % ', '.join(f'&m{i}::CASE' for i in range(len(todo)))
        ok, at = compile_file('cases', text)
        if ok: return todo, bad
        n = [(c, at[i + 1]) for i, c in enumerate(todo) if i + 1 in at]
        if not n: no_answer('errors outside of the cases')
        bad += n
        if len(bad) >= 40: return [], bad
        todo = [c for i, c in enumerate(todo) if i + 1 not in at]
    return todo, bad

def library():
    r = subprocess.run(['cargo', 'build', '-q', '--offline', '-p', 'validators'], cwd=os.path.join(VERIF, 'web'), capture_output=True, text=True)
    if r.returncode != 0: no_answer('the library itself does not build\n' + r.stderr)

def batch(seed, nv, ni):
    g = Gen(seed)
    valid, seen = [], set()
    while len(valid) < nv:
        c = g.valid(ALL[len(valid) % len(ALL)] if g.p(1, 2) else g.r.choice(ALL))
        k = c.source()
        if k in seen and g.p(9, 10): continue
        seen.add(k); valid.append(c)
    # the pool is thinned so that every kind of mutation comes up, then every kind on every validator, then any
    pool, seen = [g.invalid() for _ in range(30000)], set()
    why = lambda c: re.sub(r'\d+', '0', c.why)
    order = []
    for key in (lambda c: ('a', why(c), c.mut), lambda c: ('b', c.v, why(c)), lambda c: ('c', c.source())):
        left = []
        for c in pool:
            k = key(c)
            if k in seen: left.append(c)
            else: seen.add(k); order.append(c)
        pool = left
    out, seen = [], set()
    for c in order:
        k = c.source()
        if k not in seen: seen.add(k); out.append(c)
        if len(out) == ni: break
    return valid, out

def main():
    tier = sys.argv[2]; quick = tier == 'quick'
    if len(sys.argv) > 3 and sys.argv[3] == '--replay':
        d = json.load(open(sys.argv[4]))
        if 'source' not in d: sys.exit(subprocess.run([os.path.join(VERIF, 'target', 'debug', 'cases'), '--replay', sys.argv[4]]).returncode)
        write('badcases.rs', 'pub mod m0 { use super::*; use validators::prelude::*; %s }\n' % d['source'])
        r = cargo(['build', '--bin', 'badcases'])
        bad = (r.returncode == 0) != (d['expect'] == 'must compile')
        print('compiles' if r.returncode == 0 else r.stderr[-1500:])
        if bad: print(f'VIOLATION property={PID} replay={sys.argv[4]}')
        sys.exit(1 if bad else 0)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    library()
    counts = dict(valid=0, invalid=0, by_mutation={}, validators=len(ALL))
    samples, code, ev = [], 0, None
    for b in range(1 if quick else 20):
        valid, invalid = batch(seed * 1000 + b, 420, 3000)
        counts['valid'] += len(valid); counts['invalid'] += len(invalid)
        for c in invalid:
            k = re.sub(r'[^a-zA-Z ].*', '', c.why).strip() or c.why; counts['by_mutation'][k] = counts['by_mutation'].get(k, 0) + 1
        samples += [c.source() for c in valid[:40:8]] + [f'{c.source()}  // {c.why}' for c in invalid[:40:8]]
        for c in check_invalid(invalid)[:3]:
            report(c, 'must be rejected', c.why); code = 1
        good, bad = check_valid(valid)
        for c, m in bad[:3]:
            report(c, 'must compile', m); code = 1
        if good:
            st = subprocess.run([os.path.join(VERIF, 'target', 'debug', 'cases'), '--tier', tier])
            if st.returncode not in (0, 1): sys.exit(st.returncode if st.returncode > 0 else 7)
            code = code or st.returncode
            e = json.load(open(os.path.join(VERIF, 'evidence', PID + '.json')))
            if ev is None: ev = e
            else:
                for k in ('evaluations', 'distinct_nontrivial', 'configurations'): ev['coverage'][k] += e['coverage'][k]
                ev['violations'] += e['violations']
        if code: break
    if ev is None: ev = dict(property=PID, tier=tier, seed=seed, level='exploration', coverage=dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[]), wall_s=0, violations=0, assumptions=[])
    c = ev['coverage']
    c['compile_cases'] = counts
    c['evaluations'] += counts['valid'] + counts['invalid']; c['distinct_nontrivial'] += counts['valid'] + counts['invalid']
    c['rule'] = 'attributes drawn over the documented parameter grammar of all 31 validators (order, both spellings, number notations, ranges, flags, field order) and compiled; single mutations of them (duplicate, unknown, misspelled, misvalued, contradictory, out of order, wrong fields) that must not compile; each distinct attribute counts as non-trivial. ' + c['rule']
    c['samples'] = samples[:10] + c['samples'][:4]
    ev['wall_s'] = round(time.time() - t0, 1)
    ev['violations'] = max(ev['violations'], code)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', PID + '.json'), 'w'), indent=1)
    print(f'{PID} {tier}: {counts["valid"]} valid and {counts["invalid"]} invalid attributes, {time.time() - t0:.0f}s')
    sys.exit(code)

if __name__ == "__main__": main()
