#!/usr/bin/env python3
"""Emits src/gen/<validator>.rs: real derived validators for many attribute configurations.
Run by hand; the output is committed."""
import os, itertools
HERE=os.path.dirname(os.path.abspath(__file__))
OUT=os.path.join(HERE,'src','gen')
def q(s): return '"'+s.replace('\\','\\\\').replace('"','\\"')+'"'
def emit(fname, entries, pre=''):
    """entries: (name, validator, attr, opts[(k,v)], ty, struct_body, run_body)"""
    o=['// generated by gen.py\n#![allow(dead_code, unused_imports, clippy::all)]\nuse vh::*;\nuse validators::prelude::*;\nuse std::collections::*;\n'+pre+'\n']
    tab=[]
    for i,(name,v,attr,opts,ty,body,run) in enumerate(entries):
        der='Debug, Clone, PartialEq, Validator'
        if body.startswith('!'): der,body=body[1:].split('!',1)
        o.append(f'#[derive({der})]\n#[validator({v}{"("+attr+")" if attr else ""})]\npub struct V{i}x{body}\nfn run_{i}(i: &Input) -> Out {{ type Vx = V{i}x; {run} }}\n')
        os_=', '.join(f'({q(k)}, {q(x)})' for k,x in opts)
        tab.append(f'    Cfg {{ name: {q(name)}, v: {q(v)}, attr: {q(attr)}, opts: &[{os_}], ty: {q(ty)}, run: run_{i} }},\n')
    o.append('pub static CFGS: &[Cfg] = &[\n'+''.join(tab)+'];\n')
    p=os.path.join(OUT,fname+'.rs')
    new=''.join(o)
    if not os.path.exists(p) or open(p).read()!=new: open(p,'w').write(new)
    print(fname,len(entries))
BASE='match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") }'
def basen():
    e=[]
    for v in ('base32','base64','base64_url'):
        for p in ('Must','Allow','Disallow',None):
            at='' if p is None else f'padding({p})'
            e.append((f'{v}({at})',v,at,[('padding',p or 'Allow')],'String','(pub String);','let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; '+BASE))
    emit('basen',e)
    e=[]
    for v in ('base32_decoded','base64_decoded','base64_url_decoded'):
        for p in ('Must','Allow','Disallow',None):
            at='' if p is None else f'padding({p})'
            e.append((f'{v}({at})',v,at,[('padding',p or 'Allow')],'Vec<u8>','(pub Vec<u8>);','let f: fn(&Vx) -> Fields = |v| vec![("bytes", hex(&v.0)), ("len", CollectionLength::len(v).to_string()), ("empty", CollectionLength::is_empty(v).to_string())]; '+BASE))
    emit('basen_decoded',e)

def boolean():
    emit('boolean',[('boolean','boolean','',[],'bool','(pub bool);',
     'let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Char(c) => run_char::<Vx>(*c, f), Input::Bool(b) => run_bool::<Vx>(*b, f), Input::I(x) => run_signed::<Vx>(*x, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() }')])
def rng_attr(kind,mn,mx,inc,full=False):
    if kind is None: return ''
    if kind=='Unlimited': return 'range(Unlimited)'
    if full:
        return f'range({kind}({mn or ""}{"..=" if inc and mx else ".."}{mx or ""}))'
    ps=[]
    if mn is not None: ps.append(f'min = {mn}')
    if mx is not None: ps.append(f'max = {mx}')
    if inc is False: ps.append('inclusive = false')
    if inc == 'explicit': ps.append('inclusive = true')
    return f'range({kind}({", ".join(ps)}))'
def opts_range(kind,mn,mx,inc):
    return [('kind',kind or 'Unlimited'),('min','' if mn is None else str(mn)),('max','' if mx is None else str(mx)),('inclusive','false' if inc is False else 'true')]
def shapes(lo,hi,mid):
    """lo<hi ordinary bounds"""
    for kind in ('Inside','Outside'):
        yield kind,lo,None,True
        yield kind,lo,None,False
        yield kind,None,hi,True
        yield kind,None,hi,False
        yield kind,lo,hi,True
        yield kind,lo,hi,'explicit'
        yield kind,lo,hi,False
        yield kind,mid,mid,True
        yield kind,mid,mid+1,False
def integers():
    e=[]
    for sgn,v in (('i','signed_integer'),('u','unsigned_integer')):
        for w in (8,16,32,64,128,'size'):
            ty=f'{sgn}{w}'; bits=64 if w=='size' else w
            MIN=-(1<<(bits-1)) if sgn=='i' else 0
            MAX=(1<<(bits-1))-1 if sgn=='i' else (1<<bits)-1
            sh=[(None,None,None,True,False),('Unlimited',None,None,True,False),('Inside',None,None,True,False),('Outside',None,None,True,False)]
            sh+=[x+(False,) for x in shapes(-7 if sgn=='i' else 3,100,42)]
            for kind in ('Inside','Outside'):
                sh+=[(kind,MIN,MIN+2,True,False),(kind,MAX-2,MAX,True,False),(kind,MAX-3,MAX,False,False),(kind,MIN,MAX,True,False),(kind,MAX,None,True,False),(kind,None,MIN,True,False),(kind,MAX,MAX,True,False)]
                sh+=[(kind,3,77,True,True),(kind,3,77,False,True),(kind,None,77,True,True),(kind,None,77,False,True),(kind,3,None,True,True)]
            if sgn=='i': sh+=[('Inside',-100,-50,True,False),('Outside',-100,-50,False,False),('Outside',0,0,True,False)]
            seen=set()
            for kind,mn,mx,inc,full in sh:
                if not full or sgn=='u' or True:
                    at=rng_attr(kind,mn,mx,inc,full)
                    name=f'{ty} {v}({at})'
                    if name in seen: continue
                    seen.add(name)
                    run='let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), %s, _ => bad_input() }'%('Input::I(x) => run_signed::<Vx>(*x, f)' if sgn=='i' else 'Input::U(x) => run_unsigned::<Vx>(*x, f)')
                    e.append((name,v,at,opts_range(kind,mn,mx,inc),ty,f'(pub {ty});',run))
    emit('integers',e)
def numbers():
    e=[]
    for ty in ('f32','f64'):
        sh=[(None,None,None,True,False),('Unlimited',None,None,True,False),('Inside',None,None,True,False)]
        for lo,hi,mid in (('-1.5','2.25',None),('0','1.0',None),('0.1','0.3',None),('-1e30','1e30',None)):
            for kind in ('Inside','Outside'):
                sh+=[(kind,lo,None,True,False),(kind,None,hi,True,False),(kind,None,hi,False,False),(kind,lo,hi,True,False),(kind,lo,hi,False,False)]
        for kind in ('Inside','Outside'):
            sh+=[(kind,'0','0',True,False),(kind,'0.5','0.5',True,False),(kind,'5','6',False,False),(kind,'0.0','1.0',True,True),(kind,'0.0','1.0',False,True),(kind,'1.5',None,True,True),(kind,None,'1.5',False,True)]
        for nan in (None,'Allow','Must','Disallow'):
            for kind,mn,mx,inc,full in sh:
                at=rng_attr(kind,mn,mx,inc,full)
                ps=[x for x in ((f'nan({nan})' if nan else ''),at) if x]
                if nan=='Must' and kind=='Inside': ps.append('conflict(Allow)')
                at=', '.join(ps)
                run='let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() }'
                e.append((f'{ty} number({at})','number',at,opts_range(kind,mn,mx,inc)+[('nan',nan or 'Allow')],ty,f'(pub {ty});',run))
    emit('numbers',e)
def sizes():
    e=[]
    U64=(1<<64)-1
    for v,T in (('bit','Bit'),('byte','Byte')):
        sh=[(None,None,None,True,False),('',None,None,True,False)]
        for lo,hi in ((1,1000),(1500,1000000),(1000,1<<20),(10**9,10**12)):
            sh+=[('',lo,None,True,False),('',None,hi,True,False),('',None,hi,False,False),('',lo,hi,True,False),('',lo,hi,False,False)]
        sh+=[('',1024,1024,True,False),('',1024,1025,False,False),('',0,None,True,False),('',U64,None,True,False),('',None,U64,False,False),('',U64+1,None,True,False),('',None,U64+5,True,False),('',8,800,True,True),('',8,800,False,True),('',8,None,True,True),('',None,800,True,True)]
        for ic in ((None,) if v=='bit' else (None,True,False)):
            for kind,mn,mx,inc,full in sh:
                if kind is None: at=''
                elif full: at=f'range({mn if mn is not None else ""}{"..=" if inc and mx is not None else ".."}{mx if mx is not None else ""})'
                else:
                    ps=[]
                    if mn is not None: ps.append(f'min = {mn}')
                    if mx is not None: ps.append(f'max = {mx}')
                    if not inc: ps.append('inclusive = false')
                    at=f'range({", ".join(ps)})'
                ps=[x for x in (at,'' if ic is None else f'ignore_case = {str(ic).lower()}') if x]
                at=', '.join(ps)
                run='let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() }'
                if v=='bit': run=run.replace('as_u128','as_u128')
                e.append((f'{v}({at})',v,at,opts_range('Inside',mn,mx,inc)+[('ignore_case','false' if ic is False else 'true')],T,f'(pub validators::byte_unit::{T});',run))
    emit('sizes',e)
BIG=2**64-1
def lengths():
    e=[]
    tys=[('Vec<u8>','vec'),('VecDeque',None),('BinaryHeap<u32>','heap'),('BTreeSet<u32>','bset'),('BTreeMap<u32, String>','bmap'),('HashSet<u32>','hset'),('HashMap<u32, String>','hmap'),('validators::serde_json::Map<String, validators::serde_json::Value>','jmap'),('Inner','nested'),('B64','b64'),('Vec<()>','units'),('Own','own')]
    sh=[(None,None),(0,None),(1,None),(3,None),(None,0),(None,3),(1,3),(2,2),(0,0),(1,1),(0,5),(7,8),(300,400),(None,255),(256,None),(256,256),(65535,65536),(None,BIG),(BIG,None),(BIG,BIG),(1,BIG)]
    huge=[(None,2**31),(2**31-1,2**31),(2**32,None),(None,2**32-1),(2**32,2**32),(2**32+3,2**33),(2**63,None),(None,2**63-1),(2**63,2**63),(BIG-1,BIG),(BIG-1,BIG-1),(12,2**40)]
    for ty,k in tys:
        if not k: continue
        for mn,mx in sh+(huge if k in ('units','own') else []):
            at=', '.join(x for x in (f'min = {mn}' if mn is not None else '',f'max = {mx}' if mx is not None else '') if x)
            der='Debug, Clone, Validator'
            mk={'vec':'b.clone().past(b)','heap':'keys(b).collect::<BinaryHeap<u32>>().past(b)','bset':'keys(b).collect::<BTreeSet<u32>>().past(b)','bmap':'keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b)','hset':'keys(b).collect::<HashSet<u32>>().past(b)','hmap':'keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b)','jmap':'keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b)','nested':'Inner(b.clone().past(b))','b64':'B64(b.clone().past(b))'}.get(k)
            show={'vec':'digest(v.0.iter().map(|x| *x as u32), false)','heap':'digest(v.0.iter().copied(), true)','bset':'digest(v.0.iter().copied(), true)','bmap':'digest(v.0.keys().copied(), true)','hset':'digest(v.0.iter().copied(), true)','hmap':'digest(v.0.keys().copied(), true)','jmap':'digest(v.0.keys().map(|x| x.parse().unwrap()), true)','nested':'digest(v.0.0.iter().map(|x| *x as u32), false)','b64':'digest(v.0.0.iter().map(|x| *x as u32), false)'}.get(k)
            if k in ('units','own'):
                run='let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = %s; let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() }'%({'units':'units(*n as usize)','own':'Own(*n as usize)'}[k])
                e.append((f'{k} length({at})','length',at,[('min','' if mn is None else str(mn)),('max','' if mx is None else str(mx))],k,'!%s!(pub %s);'%(der,ty),run))
                continue
            run='let f: fn(&Vx) -> Fields = |v| vec![("items", %s), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = %s; let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() }'%(show,mk)
            e.append((f'{k} length({at})','length',at,[('min','' if mn is None else str(mn)),('max','' if mx is None else str(mx))],k,'!%s!(pub %s);'%(der,ty),run))
    emit('lengths',e,pre='#[derive(Debug, Clone, Validator)]\n#[validator(length(max = 350))]\npub struct Inner(pub Vec<u8>);\nimpl CollectionLength for Inner { fn len(&self) -> usize { self.0.len() } }\n#[derive(Debug, Clone, Validator)]\n#[validator(base64_decoded)]\npub struct B64(pub Vec<u8>);\n/// a collection of the user\n#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]\npub struct Own(pub usize);\nimpl CollectionLength for Own { fn len(&self) -> usize { self.0 } }\n/// items without a size: any number of them\nfn units(n: usize) -> Vec<()> {\n    let mut v = Vec::new();\n    unsafe { v.set_len(n) };\n    v\n}\n')
def texts():
    for v in ('line','text'):
        e=[]
        sh=[('none',None,None,None)]
        for unit in ('char','byte'):
            for mn in (None,0,1,3):
                for tm in (None,0,1,2):
                    for mx in (None,0,1,3,4,6):
                        if mn is not None and tm is not None and tm>mn: continue
                        if mx is not None and ((mn or 0)>mx or (tm or 0)>mx): continue
                        if (mn,tm,mx)==(None,None,None): continue
                        sh.append((unit,mn,tm,mx))
            sh+=[(unit,mn,tm,mx) for mn,tm,mx in ((None,None,BIG),(1,None,BIG),(None,1,BIG),(3,2,BIG),(BIG,None,BIG),(BIG,None,None),(None,BIG,None),(BIG,BIG,None),(BIG,BIG,BIG),(None,BIG,BIG),(None,None,BIG-1))]
            sh+=[(unit,None,None,256),(unit,None,256,None),(unit,256,None,None),(unit,300,257,600),(unit,None,255,256),(unit,None,65536,None),(unit,65536,None,65537),(unit,None,None,65535)]
            sh+=[(unit,20,12,60),(unit,None,12,60),(unit,20,None,60),(unit,20,12,None)]
        for unit,mn,tm,mx in sh:
            ps=', '.join(x for x in (f'trimmed_min = {tm}' if tm is not None else '',f'min = {mn}' if mn is not None else '',f'max = {mx}' if mx is not None else '') if x)
            at='' if unit=='none' else f'{unit}_length({ps})'
            run='let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() }'
            e.append((f'{v}({at})',v,at,[('unit',unit),('min','' if mn is None else str(mn)),('trimmed_min','' if tm is None else str(tm)),('max','' if mx is None else str(mx))],'String','(pub String);',run))
        emit(v+'s',e)
def hexid():
    for v,T,tr,m in (('mac_address','u64','ToMacAddressString','to_mac_address_string'),('uuid','u128','ToUuidString','to_uuid_string')):
        e=[]
        for case in (None,'Any','Upper','Lower'):
            for sep,b in ((None,None),('Disallow',None),('Must',':'),('Allow',':'),('Must','-'),('Allow','-'),('Must',' '),('Allow','_'),('Must','z'),('Allow','G'),('Allow','@'),('Must','.')):
                db=':' if v=='mac_address' else '-'
                ps=[x for x in (f'case({case})' if case else '', '' if sep is None else 'separator(Disallow)' if sep=='Disallow' else f"separator({sep}(b'{b}'))") if x]
                at=', '.join(ps)
                run='let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.%s())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V@x(*x as %s))), _ => bad_input() }'%(m,T)
                run=run.replace('V@x',f'V{len(e)}x')
                e.append((f'{v}({at})',v,at,[('case',case or 'Any'),('separator',sep or 'Allow'),('sepbyte',str(ord(b)) if b else (str(ord(db)) if sep is None else ''))],T,f'(pub {T});',run))
        emit(v,e)

TRI=('Must','Allow','Disallow')
def tri(ps): return ', '.join(f'{k}({x})' for k,x in ps)
STR='match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() }'
def port_field(port): return {'Must':', pub port: u16','Allow':', pub port: Option<u16>','Disallow':''}[port]
def port_get(port): return {'Must':'v.port.to_string()','Allow':'opt_text(&v.port)','Disallow':'String::new()'}[port]
def variants(names):
    """all full combinations, the bare form, and each option alone"""
    yield [(n,None) for n in names]
    for n in names:
        for t in TRI: yield [(m,t if m==n else None) for m in names]
    for c in itertools.product(TRI,repeat=len(names)): yield list(zip(names,c))
def ips():
    for v,f,T in (('ip','ip','std::net::IpAddr'),('ipv4','ipv4','std::net::Ipv4Addr'),('ipv6','ipv6','std::net::Ipv6Addr')):
        e=[]
        for c in variants(('local','port')):
            at=tri([(k,x) for k,x in c if x]); d=dict((k,x or 'Allow') for k,x in c); port=d['port']
            if port=='Disallow': body,acc=f'(pub {T});','v.0'
            else: body,acc=f' {{ pub {f}: {T}{port_field(port)} }}',f'v.{f}'
            run=f'let f: fn(&Vx) -> Fields = |v| vec![("ip", {acc}.to_string()), ("port", {port_get(port)}), ("auth", v.to_uri_authority_string().to_string())]; '+STR
            e.append((f'{v}({at})',v,at,list(d.items()),'',body,run))
        emit(v,e)
def hosts():
    e=[]
    for c in variants(('local','port','at_least_two_labels')):
        at=tri([(k,x) for k,x in c if x]); d=dict((k,x or 'Allow') for k,x in c); port=d['port']
        loc=d['local']=='Allow' and d['at_least_two_labels']!='Allow'
        fs='pub host: validators::models::Host'+(', pub is_local: bool' if loc else '')
        if port=='Disallow' and not loc: body,acc='(pub validators::models::Host);','v.0'
        else: body,acc=f' {{ {fs}{port_field(port)} }}','v.host'
        run=f'let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{{:?}}", {acc})), ("port", {port_get(port)}), {"(%sis_local%s, v.is_local.to_string()), "%(chr(34),chr(34)) if loc else ""}("auth", v.to_uri_authority_string().to_string())]; '+STR
        e.append((f'host({at})','host',at,list(d.items()),'',body,run))
    emit('host',e)
def domains():
    e=[]
    for c in variants(('ipv4','local','port','at_least_two_labels')):
        d=dict((k,x or 'Allow') for k,x in c); port=d['port']
        conf=d['ipv4']=='Must' and d['at_least_two_labels']=='Disallow'
        at=tri([(k,x) for k,x in c if x]+([('conflict','Allow')] if conf else []))
        loc=d['local']=='Allow' and d['at_least_two_labels']!='Allow'
        i4=loc and d['ipv4']=='Allow'
        fs='pub domain: String'+(', pub is_ipv4: bool' if i4 else '')+(', pub is_local: bool' if loc else '')
        if port=='Disallow' and not loc: body,acc='(pub String);','v.0'
        else: body,acc=f' {{ {fs}{port_field(port)} }}','v.domain'
        q='"'
        run=f'let f: fn(&Vx) -> Fields = |v| vec![("domain", {acc}.clone()), ("port", {port_get(port)}), {"(%sis_local%s, v.is_local.to_string()), "%(q,q) if loc else ""}{"(%sis_ipv4%s, v.is_ipv4.to_string()), "%(q,q) if i4 else ""}("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; '+STR
        e.append((f'domain({at})','domain',at,list(d.items()),'',body,run))
    emit('domain',e)
def emails():
    e=[]
    combos=[]
    names=('comment','ip','local','at_least_two_labels','non_ascii')
    two=('Allow','Disallow')
    combos.append({})
    for n in names:
        for t in (two if n in ('comment','non_ascii') else TRI): combos.append({n:t})
    for c in itertools.product(two,TRI,TRI,TRI,two): combos.append(dict(zip(names,c)))
    for c in combos:
        d={n:c.get(n,'Allow') for n in names}
        conf=d['ip']=='Must' and d['at_least_two_labels'] in ('Disallow',)
        at=tri([(k,c[k]) for k in names if k in c]+([('conflict','Allow')] if conf else []))
        loc=d['local']=='Allow' and d['at_least_two_labels']!='Allow'
        T={'Allow':'validators::models::Host','Must':'std::net::IpAddr','Disallow':'String'}[d['ip']]
        fs=f'pub local_part: String, pub need_quoted: bool, pub domain_part: {T}'
        cs=('comment_before_local_part','comment_after_local_part','comment_before_domain_part','comment_after_domain_part')
        g=[]
        if d['comment']=='Allow':
            fs+=''.join(f', pub {x}: Option<String>' for x in cs)
            g+=[f'("{x}", format!("{{:?}}", v.{x}))' for x in cs]
        if loc: fs+=', pub is_local: bool'; g.append('("is_local", v.is_local.to_string())')
        dp={'Allow':'format!("{:?}", v.domain_part)','Must':'match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }','Disallow':'format!("Domain({:?})", v.domain_part)'}[d['ip']]
        run=f'let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", {dp}), {", ".join(g+[chr(40)+chr(34)+"email"+chr(34)+", v.to_email_string())"])}]; '+STR
        e.append((f'email({at})','email',at,list(d.items()),'',f' {{ {fs} }}',run))
    emit('email',e)
def urls():
    for v,body,extra in (('url','(pub validators::url::Url);',''),('http_url',' { pub url: validators::url::Url, pub is_https: bool }','("is_https", v.is_https.to_string())'),('http_ftp_url',' { pub url: validators::url::Url, pub protocol: validators::models::Protocol }','("protocol", format!("{:?}", v.protocol))')):
        e=[]
        for t in (None,)+(TRI if v!='url' else ()):
            at=f'local({t})' if t else ''
            acc='v.0' if v=='url' else 'v.url'
            run=f'let f: fn(&Vx) -> Fields = |v| vec![("url", url_text(&{acc})), {extra}]; '+STR
            e.append((f'{v}({at})',v,at,[('local',t or 'Allow')],'',body,run))
        emit(v,e,pre='fn url_text(u: &validators::url::Url) -> String { format!("{u} {:?}", u.host()) }')
if __name__=='__main__':
    basen(); boolean(); integers(); numbers(); sizes(); lengths(); texts(); hexid(); ips(); hosts(); domains(); emails(); urls()
