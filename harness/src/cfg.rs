//! What running one configured validator on one input gives.
use crate::Input;
use std::fmt::Debug;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub type Fields = Vec<(&'static str, String)>;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Fields),
    /// Debug text of the error
    Err(String),
    /// the entry points disagree / post-conditions checked in the adapter failed
    Broken(String),
    Panic(String),
}

impl Out {
    /// the variant name of the error
    pub fn err_name(&self) -> Option<&str> {
        match self {
            Out::Err(e) => Some(e.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("")),
            _ => None,
        }
    }

    pub fn field(&self, n: &str) -> Option<&str> {
        match self {
            Out::Ok(f) => f.iter().find(|x| x.0 == n).map(|x| x.1.as_str()),
            _ => None,
        }
    }

    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
}

/// One validator configuration under test.
#[derive(Clone, Copy)]
pub struct Cfg {
    /// unique, stable
    pub name: &'static str,
    /// validator name
    pub v: &'static str,
    /// attribute text
    pub attr: &'static str,
    /// option values (explicit, after defaults)
    pub opts: &'static [(&'static str, &'static str)],
    /// kind of the field type, when it matters
    pub ty: &'static str,
    pub run: fn(&Input) -> Out,
}

impl Cfg {
    pub fn opt(&self, n: &str) -> &'static str {
        self.opts.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or("")
    }

    pub fn tri(&self, n: &str) -> Tri {
        match self.opt(n) {
            "Must" => Tri::Must,
            "Disallow" => Tri::Disallow,
            _ => Tri::Allow,
        }
    }

    pub fn exec(&self, i: &Input) -> Out {
        guard(|| (self.run)(i))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tri {
    Must,
    Allow,
    Disallow,
}

impl Tri {
    pub const ALL: [Tri; 3] = [Tri::Must, Tri::Allow, Tri::Disallow];

    pub fn permits(self, present: bool) -> bool {
        match self {
            Tri::Must => present,
            Tri::Allow => true,
            Tri::Disallow => !present,
        }
    }
}

pub fn guard(f: impl FnOnce() -> Out) -> Out {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            if m.starts_with("HARNESS") {
                panic!("{m}");
            }
            Out::Panic(m)
        }
    }
}

/// Combine the results of several entry points that must agree.
pub fn agree<T>(
    what: &str,
    first: Out,
    others: impl IntoIterator<Item = (T, Out)>,
) -> Out
where
    T: std::fmt::Display,
{
    for (n, o) in others {
        if o != first {
            return Out::Broken(format!("{what} gives {first:?} but {n} gives {o:?}"));
        }
    }
    first
}

pub fn res<T, E: Debug>(r: Result<T, E>, f: impl FnOnce(&T) -> Fields) -> Out {
    match r {
        Ok(v) => Out::Ok(f(&v)),
        Err(e) => Out::Err(format!("{e:?}")),
    }
}

/// the decoding validators look at the padding and decode in either order, and may name either problem
fn same_error(a: &str, b: &str) -> bool {
    const BASE: &[&str] = &["Invalid", "PaddingMust", "PaddingDisallow", "Decode"];
    a == b || BASE.contains(&a) && BASE.contains(&b)
}

/// validate_* against the result of parse_*: same verdict and same error
pub fn with_validate<E: Debug>(o: Out, v: Result<(), E>) -> Out {
    match (&o, v) {
        (Out::Ok(_), Ok(())) => o,
        (Out::Err(a), Err(b)) if same_error(a, &format!("{b:?}")) => o,
        (o, v) => Out::Broken(format!("parsing gives {o:?} but validating gives {v:?}")),
    }
}

/// All string entry points.
pub fn run_str<T: validators::traits::ValidateString>(s: &str, f: fn(&T) -> Fields) -> Out
where
    T::Error: Debug,
{
    let a = res(T::parse_str(s), f);
    let b = res(T::parse_string(s), f);
    if a != b {
        return Out::Broken(format!("parse_str gives {a:?} but parse_string gives {b:?}"));
    }
    with_validate(a, T::validate_str(s))
}

/// All byte entry points.
pub fn run_bytes<T: validators::traits::ValidateBytes>(s: &[u8], f: fn(&T) -> Fields) -> Out
where
    T::Error: Debug,
{
    let a = res(T::parse_u8_slice(s), f);
    let b = res(T::parse_vec_u8(s), f);
    if a != b {
        return Out::Broken(format!("parse_u8_slice gives {a:?} but parse_vec_u8 gives {b:?}"));
    }
    with_validate(a, T::validate_u8_slice(s))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// cfg lookup by validator and options
pub fn find(cfgs: &'static [Cfg], f: impl Fn(&Cfg) -> bool) -> Vec<usize> {
    (0..cfgs.len()).filter(|i| f(&cfgs[*i])).collect()
}

/// All signed-integer entry points wide enough for the value.
pub fn run_signed<T: validators::traits::ValidateSignedInteger>(v: i128, f: fn(&T) -> Fields) -> Out
where
    T::Error: Debug,
{
    let a = with_validate(res(T::parse_i128(v), f), T::validate_i128(v));
    macro_rules! w {
        ($($t:ty, $p:ident, $q:ident;)*) => { $(
            if let Ok(x) = <$t>::try_from(v) {
                let b = with_validate(res(T::$p(x), f), T::$q(x));
                if b != a {
                    return Out::Broken(format!("parse_i128 gives {a:?} but {} gives {b:?}", stringify!($p)));
                }
            }
        )* };
    }
    w! { i8, parse_i8, validate_i8; i16, parse_i16, validate_i16; i32, parse_i32, validate_i32; i64, parse_i64, validate_i64; isize, parse_isize, validate_isize; }
    a
}

/// All unsigned-integer entry points wide enough for the value.
pub fn run_unsigned<T: validators::traits::ValidateUnsignedInteger>(v: u128, f: fn(&T) -> Fields) -> Out
where
    T::Error: Debug,
{
    let a = with_validate(res(T::parse_u128(v), f), T::validate_u128(v));
    macro_rules! w {
        ($($t:ty, $p:ident, $q:ident;)*) => { $(
            if let Ok(x) = <$t>::try_from(v) {
                let b = with_validate(res(T::$p(x), f), T::$q(x));
                if b != a {
                    return Out::Broken(format!("parse_u128 gives {a:?} but {} gives {b:?}", stringify!($p)));
                }
            }
        )* };
    }
    w! { u8, parse_u8, validate_u8; u16, parse_u16, validate_u16; u32, parse_u32, validate_u32; u64, parse_u64, validate_u64; usize, parse_usize, validate_usize; }
    a
}

pub fn run_f64<T: validators::traits::ValidateNumber>(v: f64, f: fn(&T) -> Fields) -> Out
where
    T::Error: Debug,
{
    with_validate(res(T::parse_f64(v), f), T::validate_f64(v))
}

pub fn run_f32<T: validators::traits::ValidateNumber>(v: f32, f: fn(&T) -> Fields) -> Out
where
    T::Error: Debug,
{
    with_validate(res(T::parse_f32(v), f), T::validate_f32(v))
}

pub fn run_bool<T: validators::traits::ValidateBoolean>(v: bool, f: fn(&T) -> Fields) -> Out
where
    T::Error: Debug,
{
    with_validate(res(T::parse_bool(v), f), T::validate_bool(v))
}

pub fn run_char<T: validators::traits::ValidateChar>(v: char, f: fn(&T) -> Fields) -> Out
where
    T::Error: Debug,
{
    with_validate(res(T::parse_char(v), f), T::validate_char(v))
}

pub fn bad_input() -> Out {
    panic!("HARNESS: input kind")
}

pub fn opt_text<T: std::fmt::Display>(o: &Option<T>) -> String {
    o.as_ref().map(|x| x.to_string()).unwrap_or_default()
}

/// several tables as one
pub fn join(tables: &[&'static [Cfg]]) -> &'static [Cfg] {
    let v: Vec<Cfg> = tables.iter().flat_map(|t| t.iter().copied()).collect();
    Box::leak(v.into_boxed_slice())
}

/// distinct keys beyond 256 elements, too: the position in steps of 256 is part of the key
pub fn keys(b: &[u8]) -> impl Iterator<Item = u32> + '_ {
    b.iter().enumerate().map(|(i, x)| ((i as u32 >> 8) << 8) | *x as u32)
}

/// a collection with a past: for some inputs it had more elements, which were taken out again, so that it has room to spare
pub trait Past: Sized {
    fn grow(&mut self);
    fn past(mut self, b: &[u8]) -> Self {
        if b.len() < 400 && b.first().unwrap_or(&1) % 2 == 1 {
            self.grow();
        }
        self
    }
}

const EXTRA: std::ops::Range<u32> = 0xffff_ff00..0xffff_ff05;

impl Past for Vec<u8> {
    fn grow(&mut self) {
        self.reserve(100);
        self.push(7);
        self.pop();
    }
}

impl Past for std::collections::BinaryHeap<u32> {
    fn grow(&mut self) {
        self.extend(EXTRA);
        EXTRA.for_each(|_| {
            self.pop();
        });
    }
}

macro_rules! past_set {
    ($($t: ty),*) => {$(
        impl Past for $t {
            fn grow(&mut self) {
                self.extend(EXTRA);
                self.retain(|k| !EXTRA.contains(k));
            }
        }
    )*};
}
past_set!(std::collections::BTreeSet<u32>, std::collections::HashSet<u32>);

macro_rules! past_map {
    ($($t: ty),*) => {$(
        impl Past for $t {
            fn grow(&mut self) {
                self.extend(EXTRA.map(|k| (k, String::new())));
                self.retain(|k, _| !EXTRA.contains(k));
            }
        }
    )*};
}
past_map!(std::collections::BTreeMap<u32, String>, std::collections::HashMap<u32, String>);

impl Past for serde_json::Map<String, serde_json::Value> {
    fn grow(&mut self) {
        EXTRA.for_each(|k| {
            self.insert(k.to_string(), 1.into());
        });
        EXTRA.for_each(|k| {
            self.remove(&k.to_string());
        });
    }
}

/// the elements, as far as they can be shown
pub fn digest(it: impl Iterator<Item = u32>, sort: bool) -> String {
    let mut v: Vec<u32> = it.collect();
    if sort {
        v.sort_unstable();
    }
    if v.len() <= 40 {
        return format!("{v:?}");
    }
    let h = v.iter().fold(7u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100_0000_01b3));
    format!("{} elements, {h:016x}", v.len())
}
