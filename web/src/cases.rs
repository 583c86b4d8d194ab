//! C27: the behaviour of the validators in the generated file, against the models.
use std::marker::PhantomData;
use vf::byattr::input;
use vh::models::{Exp, any};
use vh::*;

/// which traits a generated type has: an inherent constant wins over the trait's when its bound holds
pub struct Probe<T>(pub PhantomData<T>);
pub trait Lacks {
    const SER: bool = false;
    const DE: bool = false;
    const FIELD: bool = false;
    const PARAM: bool = false;
}
impl<T> Lacks for Probe<T> {}
impl<T: serde::Serialize> Probe<T> {
    pub const SER: bool = true;
}
impl<T: serde::de::DeserializeOwned> Probe<T> {
    pub const DE: bool = true;
}
impl<T: for<'r> rocket::form::FromFormField<'r>> Probe<T> {
    pub const FIELD: bool = true;
}
impl<T: for<'r> rocket::request::FromParam<'r>> Probe<T> {
    pub const PARAM: bool = true;
}

pub struct Case {
    pub cfg: Cfg,
    pub has: fn() -> [bool; 4],
    pub want: [bool; 4],
}

pub fn url_text(u: &validators::url::Url) -> String {
    format!("{u} {:?}", u.host())
}
pub fn phone_text(n: &phonenumber::PhoneNumber) -> String {
    format!("{n} {:?}", n.country().id())
}
pub static RE_X: std::sync::LazyLock<validators::regex::Regex> = std::sync::LazyLock::new(|| validators::regex::Regex::new("^[a-c]+$").unwrap());

mod generated {
    use super::*;
    include!(concat!(env!("VERIF_DIR"), "/target/c27/cases.rs"));
}
use generated::CASES;

struct P;

fn phone(c: &Cfg, s: &str) -> Exp {
    use phonenumber::country::Id;
    let cs: Vec<Id> = c.opt("countries").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("HARNESS: country")).collect();
    let good = |id: Option<Id>| phonenumber::parse(id, s).ok().filter(|n| n.is_valid() && (id.is_none() || n.country().id() == id));
    if cs.is_empty() {
        return match good(None) {
            Some(n) => Exp::Ok(vec![("number", phone_text(&n))]),
            None => Exp::any_err(),
        };
    }
    let mut v: Vec<String> = cs.iter().filter_map(|id| good(Some(*id)).map(|n| if cs.len() > 1 { format!("{id:?} {}", phone_text(&n)) } else { phone_text(&n) })).collect();
    v.sort();
    if v.is_empty() { Exp::any_err() } else { Exp::Ok(vec![("number", v.join("|"))]) }
}

impl Property for P {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> String {
        "see compile_cases for the attributes; the compiled validators then meet texts and numbers around their own bounds and options, judged by the models with the options the attribute spells out or, where it is silent, the documented defaults. Non-trivial: accepted, or rejected because of an option or bound".into()
    }
    fn cfg_names(&self) -> Vec<String> {
        CASES.iter().map(|c| c.cfg.name.to_string()).collect()
    }
    fn generate(&self, plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
        for ci in 0..CASES.len() {
            if ci % plan.shards == plan.shard && !emit(ci, Input::List(vec![])) {
                return;
            }
        }
        for _ in 0..plan.n(CASES.len() * 1500, CASES.len() * 20_000) {
            let ci = r.below(CASES.len());
            // a pattern given as text is compiled at every use, and the phone-number library takes a lock for each
            if matches!(CASES[ci].cfg.v, "regex" | "phone") && !r.chance(1, 25) {
                continue;
            }
            let i = input(r, &CASES[ci].cfg);
            if !emit(ci, i) {
                return;
            }
        }
    }
    fn check(&self, ci: usize, i: &Input, note: &mut Note) -> Result<(), String> {
        let k = &CASES[ci];
        let c = &k.cfg;
        if let Input::List(_) = i {
            note.class = "traits";
            note.nontrivial = true;
            let names = ["Serialize", "Deserialize", "FromFormField", "FromParam"];
            for (j, n) in names.iter().enumerate() {
                let (has, want) = ((k.has)()[j], k.want[j]);
                if has != want {
                    return Err(format!("{n} is {}implemented, but the attribute asks for the opposite", if has { "" } else { "not " }));
                }
            }
            return Ok(());
        }
        let e = match (c.v, i) {
            ("phone", Input::Str(s)) => Some(phone(c, s)),
            ("regex", Input::Str(s)) => Some(if regex::Regex::new(c.opt("regex")).expect("HARNESS: regex").is_match(s) { Exp::Ok(vec![("text", s.clone())]) } else { Exp::any_err() }),
            ("semver", Input::Str(s)) => Some(match semver::Version::parse(s) {
                Ok(v) => Exp::Ok(vec![("text", v.to_string())]),
                Err(_) => Exp::any_err(),
            }),
            ("semver_req", Input::Str(s)) => Some(match semver::VersionReq::parse(s) {
                Ok(v) => Exp::Ok(vec![("text", v.to_string())]),
                Err(_) => Exp::any_err(),
            }),
            _ => any::judge(c, i),
        };
        let out = c.exec(i);
        match e {
            Some(e) => {
                note.nontrivial = match &e {
                    Exp::Ok(_) => true,
                    Exp::Err(v) => !v.is_empty(),
                };
                note.class = match &e {
                    Exp::Ok(_) => "accept",
                    Exp::Err(v) if v.is_empty() => "reject",
                    _ => "rejected by an option or bound",
                };
                e.judge(&out)
            }
            None => {
                note.class = "entry points only";
                match out {
                    Out::Panic(m) | Out::Broken(m) => Err(m),
                    _ => Ok(()),
                }
            }
        }
    }
}

fn main() {
    vh::main(&P)
}
