//! C21: phone.
use phonenumber::{PhoneNumber, country::Id};
use std::collections::HashMap;
use validators::prelude::*;
use vh::*;

fn num(n: &PhoneNumber) -> String {
    format!("{n} {n:?}")
}
trait Text {
    fn text(&self) -> String;
}
impl Text for PhoneNumber {
    fn text(&self) -> String {
        num(self)
    }
}
impl Text for HashMap<Id, PhoneNumber> {
    fn text(&self) -> String {
        let mut v: Vec<String> = self.iter().map(|(k, n)| format!("{k:?}: {}", num(n))).collect();
        v.sort();
        v.join(" | ")
    }
}

macro_rules! table {
    ($($n:ident, ($($attr:tt)*), $t:ty, [$($c:ident),*];)*) => {
        mod ty { use super::*; $(#[derive(Debug, Clone, Validator)] #[validator(phone $($attr)*)] pub struct $n(pub $t);)* }
        mod runs { #![allow(non_snake_case)] use super::*; $(
            pub fn $n(i: &Input) -> Out {
                match i { Input::Str(s) => run_str::<ty::$n>(s, |v| vec![("number", v.0.text())]), _ => bad_input() }
            }
        )* }
        static CFGS: &[Cfg] = &[ $(Cfg { name: concat!("phone ", stringify!($($attr)*)), v: "phone", attr: stringify!($($attr)*), opts: &[], ty: stringify!($n), run: runs::$n },)* ];
        static COUNTRIES: &[&[Id]] = &[ $(&[$(Id::$c),*],)* ];
    };
}
type Many = HashMap<Id, PhoneNumber>;
table! {
    Any, (), PhoneNumber, [];
    SUS, ((countries(US))), PhoneNumber, [US];
    SCA, ((countries(CA))), PhoneNumber, [CA];
    STW, ((countries(TW))), PhoneNumber, [TW];
    SGB, ((countries(GB))), PhoneNumber, [GB];
    SGG, ((countries(GG))), PhoneNumber, [GG];
    SJP, ((countries(JP))), PhoneNumber, [JP];
    SDE, ((countries(DE))), PhoneNumber, [DE];
    SIT, ((countries(IT))), PhoneNumber, [IT];
    SVA, ((countries(VA))), PhoneNumber, [VA];
    SRU, ((countries(RU))), PhoneNumber, [RU];
    SKZ, ((countries(KZ))), PhoneNumber, [KZ];
    SAU, ((countries(AU))), PhoneNumber, [AU];
    SCX, ((countries(CX))), PhoneNumber, [CX];
    SFR, ((countries(FR))), PhoneNumber, [FR];
    SBR, ((countries(BR))), PhoneNumber, [BR];
    SCN, ((countries(CN))), PhoneNumber, [CN];
    SHK, ((countries(HK))), PhoneNumber, [HK];
    SNO, ((countries(NO))), PhoneNumber, [NO];
    SSJ, ((countries(SJ))), PhoneNumber, [SJ];
    SBS, ((countries(BS))), PhoneNumber, [BS];
    SAR, ((countries(AR))), PhoneNumber, [AR];
    SMX, ((countries(MX))), PhoneNumber, [MX];
    SIN, ((countries(IN))), PhoneNumber, [IN];
    SKR, ((countries(KR))), PhoneNumber, [KR];
    SAC, ((countries(AC))), PhoneNumber, [AC];
    SZA, ((countries(ZA))), PhoneNumber, [ZA];
    SFI, ((countries(FI))), PhoneNumber, [FI];
    SAX, ((countries(AX))), PhoneNumber, [AX];
    SSE, ((countries(SE))), PhoneNumber, [SE];
    SCH, ((countries(CH))), PhoneNumber, [CH];
    SIE, ((countries(IE))), PhoneNumber, [IE];
    SNZ, ((countries(NZ))), PhoneNumber, [NZ];
    SSG, ((countries(SG))), PhoneNumber, [SG];
    STR, ((countries(TR))), PhoneNumber, [TR];
    SUA, ((countries(UA))), PhoneNumber, [UA];
    SES, ((countries(ES))), PhoneNumber, [ES];
    SPT, ((countries(PT))), PhoneNumber, [PT];
    SAT, ((countries(AT))), PhoneNumber, [AT];
    SBY, ((countries(BY))), PhoneNumber, [BY];
    SIL, ((countries(IL))), PhoneNumber, [IL];
    M0, ((countries(TW, US))), Many, [TW, US];
    M1, ((countries(US, TW))), Many, [US, TW];
    M2, ((countries(US, CA))), Many, [US, CA];
    M3, ((countries(GB, US))), Many, [GB, US];
    M4, ((countries(US, GB))), Many, [US, GB];
    M5, ((countries(GB, GG, JE, IM))), Many, [GB, GG, JE, IM];
    M6, ((countries(RU, KZ))), Many, [RU, KZ];
    M7, ((countries(IT, VA))), Many, [IT, VA];
    M8, ((countries(AU, CX, CC))), Many, [AU, CX, CC];
    M9, ((countries(TW, JP, CN, HK, MO, KR))), Many, [TW, JP, CN, HK, MO, KR];
    M10, ((countries(NO, SJ))), Many, [NO, SJ];
    M11, ((countries(FR, RE, GP, MQ))), Many, [FR, RE, GP, MQ];
    M12, ((countries(BR, AR, MX))), Many, [BR, AR, MX];
    M13, ((countries(DE, AT, CH))), Many, [DE, AT, CH];
    M14, ((countries(FI, AX))), Many, [FI, AX];
    M15, ((countries(ZA, IN, NG, KE))), Many, [ZA, IN, NG, KE];
    M16, ((countries(US, CA, BS, JM, PR, DO, TT))), Many, [US, CA, BS, JM, PR, DO, TT];
    M17, ((countries(MA, EH))), Many, [MA, EH];
    M18, ((countries(SH, TA))), Many, [SH, TA];
    M19, ((countries(CW, BQ))), Many, [CW, BQ];
    M20, ((countries(AC, SG, AD))), Many, [AC, SG, AD];
    M21, ((countries(GB, US, TW, JP, DE, FR, AU, RU, CN, BR, IN, ZA))), Many, [GB, US, TW, JP, DE, FR, AU, RU, CN, BR, IN, ZA];
    M22, ((countries(BY, KZ, RU, UA))), Many, [BY, KZ, RU, UA];
}

fn expect(k: usize, s: &str) -> Result<String, &'static str> {
    let ids = COUNTRIES[k];
    let read = |id: Option<Id>| -> Result<PhoneNumber, &'static str> {
        let n = phonenumber::parse(id, s).map_err(|_| "Failure")?;
        let mine = match id {
            None => true,
            id => n.country().id() == id,
        };
        if mine && phonenumber::is_valid(&n) { Ok(n) } else { Err("Invalid") }
    };
    match ids {
        [] => read(None).map(|n| n.text()),
        [id] => read(Some(*id)).map(|n| n.text()),
        _ => {
            let m: HashMap<Id, PhoneNumber> = ids.iter().filter_map(|id| read(Some(*id)).ok().map(|n| (*id, n))).collect();
            if m.is_empty() { Err("") } else { Ok(m.text()) }
        }
    }
}

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    // the example numbers of every country in its configurations
    let mut k = 0;
    for x in phonegen::REGIONS.values() {
        k += 1;
        if k % plan.shards != plan.shard {
            continue;
        }
        for e in &x.examples {
            for s in [format!("+{}{e}", x.code), format!("{}{e}", x.prefix.as_deref().unwrap_or("")), e.clone(), format!("00{}{e}", x.code), format!("011 {} {e}", x.code)] {
                for ci in 0..CFGS.len() {
                    let own = COUNTRIES[ci].iter().any(|c| c.as_ref() == x.id);
                    if (own && (COUNTRIES[ci].len() < 5 || !plan.quick()) || ci == 0 && s.starts_with('+')) && !emit(ci, s.as_str().into()) {
                        return;
                    }
                }
            }
        }
    }
    // batches per configuration: the library compiles its patterns lazily and keeps only a hundred of them
    let batches = if plan.quick() { 4 } else { 20 };
    for b in 0..batches {
        let ci = (plan.shard + b * 37) % CFGS.len();
        let pref: Vec<&str> = COUNTRIES[ci].iter().map(|c| c.as_ref()).collect();
        let n = plan.n(48_000, 3_000_000) / batches / if pref.len() > 3 { 6 } else { 1 };
        for _ in 0..n {
            let s = if r.chance(1, 30) { genstr::random(r, 16) } else { phonegen::number(r, &pref) };
            if !emit(ci, s.into()) {
                return;
            }
        }
    }
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    let Input::Str(s) = i else { return Ok(()) };
    let k = CFGS.iter().position(|x| x.name == c.name).unwrap();
    let o = c.exec(i);
    let w = expect(k, s);
    note.class = match &w {
        Ok(t) if t.contains(" | ") => "valid in several countries",
        Ok(_) => "valid",
        Err("Failure") => "not a phone number",
        Err(_) => "not valid here",
    };
    note.nontrivial = note.class != "not a phone number";
    match w {
        Ok(t) => models::Exp::Ok(vec![("number", t)]).judge(&o),
        Err("") => models::Exp::any_err().judge(&o),
        Err(n) => models::Exp::err(n).judge(&o),
    }
}

/// one thread: the library's pattern cache is behind one lock
struct OneThread(Simple);

impl Property for OneThread {
    fn id(&self) -> &'static str {
        self.0.id()
    }
    fn rule(&self) -> String {
        self.0.rule()
    }
    fn assumptions(&self) -> Vec<String> {
        self.0.assumptions()
    }
    fn cfg_names(&self) -> Vec<String> {
        self.0.cfg_names()
    }
    fn threads(&self) -> usize {
        1
    }
    fn generate(&self, plan: &Plan, rng: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
        self.0.generate(plan, rng, emit)
    }
    fn check(&self, cfg: usize, input: &Input, note: &mut Note) -> Result<(), String> {
        self.0.check(cfg, input, note)
    }
}

fn main() {
    vh::main(&OneThread(Simple {
        long: LONG,
        id: "C21",
        rule: "the example numbers of all countries in five spellings, and generated numbers (examples with varied digits, national, international and dialled-out prefixes, separators, extensions, other digits, mutated) aimed at the countries of 64 configurations: none, one, and several countries, many sharing a calling code. Non-trivial: a phone number for some reading",
        assumptions: &["the phonenumber crate decides which number a text is in a country and whether it is valid"],
        cfgs: CFGS,
        generate,
        check,
    }))
}
