//! The serde data model as values: a self-describing format with selectable readability and string ownership,
//! used to feed deserialisers anything a format can offer and to record what serialisers write.
use crate::{Input, Rng};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<D>),
    Map(Vec<(D, D)>),
    None,
    Some(Box<D>),
    Unit,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Own {
    Borrowed,
    Transient,
    Owned,
}

#[derive(Debug, Clone, PartialEq)]
pub struct DErr(pub String);
impl fmt::Display for DErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for DErr {}
impl de::Error for DErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        DErr(m.to_string())
    }
}
impl ser::Error for DErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        DErr(m.to_string())
    }
}

impl D {
    pub fn int(&self) -> Option<Result<i128, u128>> {
        Some(match self {
            D::I8(x) => Ok(*x as i128),
            D::I16(x) => Ok(*x as i128),
            D::I32(x) => Ok(*x as i128),
            D::I64(x) => Ok(*x as i128),
            D::I128(x) => Ok(*x),
            D::U8(x) => Ok(*x as i128),
            D::U16(x) => Ok(*x as i128),
            D::U32(x) => Ok(*x as i128),
            D::U64(x) => Ok(*x as i128),
            D::U128(x) => i128::try_from(*x).map_err(|_| *x),
            _ => return None,
        })
    }

    pub fn to_input(&self) -> Input {
        let l = |k: &str, v: Input| Input::List(vec![k.into(), v]);
        match self {
            D::Bool(b) => l("bool", Input::Bool(*b)),
            D::I8(x) => l("i8", Input::I(*x as i128)),
            D::I16(x) => l("i16", Input::I(*x as i128)),
            D::I32(x) => l("i32", Input::I(*x as i128)),
            D::I64(x) => l("i64", Input::I(*x as i128)),
            D::I128(x) => l("i128", Input::I(*x)),
            D::U8(x) => l("u8", Input::U(*x as u128)),
            D::U16(x) => l("u16", Input::U(*x as u128)),
            D::U32(x) => l("u32", Input::U(*x as u128)),
            D::U64(x) => l("u64", Input::U(*x as u128)),
            D::U128(x) => l("u128", Input::U(*x)),
            D::F32(x) => l("f32", Input::F32(*x)),
            D::F64(x) => l("f64", Input::F64(*x)),
            D::Char(x) => l("char", Input::Char(*x)),
            D::Str(x) => l("str", Input::Str(x.clone())),
            D::Bytes(x) => l("bytes", Input::Bytes(x.clone())),
            D::Seq(x) => l("seq", Input::List(x.iter().map(|e| e.to_input()).collect())),
            D::Map(x) => l("map", Input::List(x.iter().flat_map(|e| [e.0.to_input(), e.1.to_input()]).collect())),
            D::None => Input::List(vec!["none".into()]),
            D::Some(x) => l("some", x.to_input()),
            D::Unit => Input::List(vec!["unit".into()]),
        }
    }

    /// None for what shrinking may have turned into nonsense
    pub fn from_input(i: &Input) -> Option<D> {
        let Input::List(l) = i else { return None };
        let Input::Str(k) = l.first()? else { return None };
        match k.as_str() {
            "none" => return Some(D::None),
            "unit" => return Some(D::Unit),
            _ => {}
        }
        Some(match (k.as_str(), l.get(1)?) {
            ("bool", Input::Bool(b)) => D::Bool(*b),
            ("i8", Input::I(x)) => D::I8((*x).try_into().ok()?),
            ("i16", Input::I(x)) => D::I16((*x).try_into().ok()?),
            ("i32", Input::I(x)) => D::I32((*x).try_into().ok()?),
            ("i64", Input::I(x)) => D::I64((*x).try_into().ok()?),
            ("i128", Input::I(x)) => D::I128(*x),
            ("u8", Input::U(x)) => D::U8((*x).try_into().ok()?),
            ("u16", Input::U(x)) => D::U16((*x).try_into().ok()?),
            ("u32", Input::U(x)) => D::U32((*x).try_into().ok()?),
            ("u64", Input::U(x)) => D::U64((*x).try_into().ok()?),
            ("u128", Input::U(x)) => D::U128(*x),
            ("f32", Input::F32(x)) => D::F32(*x),
            ("f64", Input::F64(x)) => D::F64(*x),
            ("char", Input::Char(x)) => D::Char(*x),
            ("str", Input::Str(x)) => D::Str(x.clone()),
            ("bytes", Input::Bytes(x)) => D::Bytes(x.clone()),
            ("seq", Input::List(v)) => D::Seq(v.iter().map(D::from_input).collect::<Option<_>>()?),
            ("map", Input::List(v)) if v.len() % 2 == 0 => {
                let w: Vec<D> = v.iter().map(D::from_input).collect::<Option<_>>()?;
                D::Map(w.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect())
            }
            ("some", x) => D::Some(Box::new(D::from_input(x)?)),
            _ => return None,
        })
    }

    /// the JSON document that offers this, where JSON has one
    pub fn json(&self) -> Option<serde_json::Value> {
        use serde_json::Value as V;
        Some(match self {
            D::Bool(b) => V::Bool(*b),
            D::F32(x) if f32::from_bits(*x).is_finite() => V::from(f32::from_bits(*x) as f64),
            D::F64(x) if f64::from_bits(*x).is_finite() => V::from(f64::from_bits(*x)),
            D::Str(s) => V::from(s.as_str()),
            D::Seq(v) => V::Array(v.iter().map(|x| x.json()).collect::<Option<_>>()?),
            D::Map(v) => {
                let mut m = serde_json::Map::new();
                for (k, x) in v {
                    let D::Str(k) = k else { return None };
                    m.insert(k.clone(), x.json()?);
                }
                V::Object(m)
            }
            D::None | D::Unit => V::Null,
            d => match d.int()? {
                Ok(i) => i64::try_from(i).map(V::from).or(u64::try_from(i).map(V::from)).ok()?,
                Err(_) => return None,
            },
        })
    }
}

/// an integer in a random representation that holds it
pub fn int(r: &mut Rng, v: i128) -> D {
    for _ in 0..20 {
        let d = match r.below(10) {
            0 => i8::try_from(v).ok().map(D::I8),
            1 => i16::try_from(v).ok().map(D::I16),
            2 => i32::try_from(v).ok().map(D::I32),
            3 => i64::try_from(v).ok().map(D::I64),
            4 => Some(D::I128(v)),
            5 => u8::try_from(v).ok().map(D::U8),
            6 => u16::try_from(v).ok().map(D::U16),
            7 => u32::try_from(v).ok().map(D::U32),
            8 => u64::try_from(v).ok().map(D::U64),
            _ => u128::try_from(v).ok().map(D::U128),
        };
        if let Some(d) = d {
            return d;
        }
    }
    D::I128(v)
}

/// feeds `d`; the flags hold for everything inside
#[derive(Clone, Copy)]
pub struct De<'a> {
    pub d: &'a D,
    pub human: bool,
    pub own: Own,
}

impl<'de> De<'de> {
    fn with(&self, d: &'de D) -> De<'de> {
        De { d, human: self.human, own: self.own }
    }
}

impl<'de> IntoDeserializer<'de, DErr> for De<'de> {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}

struct Seq<'a>(De<'a>, std::slice::Iter<'a, D>);
impl<'de> SeqAccess<'de> for Seq<'de> {
    type Error = DErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, DErr> {
        match self.1.next() {
            Some(d) => s.deserialize(self.0.with(d)).map(Some),
            None => Ok(None),
        }
    }
}
struct Map<'a>(De<'a>, std::slice::Iter<'a, (D, D)>, Option<&'a D>);
impl<'de> MapAccess<'de> for Map<'de> {
    type Error = DErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, DErr> {
        match self.1.next() {
            Some((k, v)) => {
                self.2 = Some(v);
                s.deserialize(self.0.with(k)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, DErr> {
        s.deserialize(self.0.with(self.2.expect("HARNESS: value")))
    }
}
struct En<'a>(De<'a>);
impl<'de> EnumAccess<'de> for En<'de> {
    type Error = DErr;
    type Variant = Va<'de>;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Va<'de>), DErr> {
        match self.0.d {
            D::Map(m) if m.len() == 1 => Ok((s.deserialize(self.0.with(&m[0].0))?, Va(Some(self.0.with(&m[0].1))))),
            _ => Ok((s.deserialize(self.0)?, Va(None))),
        }
    }
}
struct Va<'a>(Option<De<'a>>);
impl<'de> VariantAccess<'de> for Va<'de> {
    type Error = DErr;
    fn unit_variant(self) -> Result<(), DErr> {
        if self.0.is_none() { Ok(()) } else { Err(DErr("unexpected content".into())) }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, DErr> {
        s.deserialize(self.0.ok_or(DErr("no content".into()))?)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, DErr> {
        self.0.ok_or(DErr("no content".into()))?.deserialize_any(v)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, DErr> {
        self.0.ok_or(DErr("no content".into()))?.deserialize_any(v)
    }
}

impl<'de> Deserializer<'de> for De<'de> {
    type Error = DErr;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DErr> {
        match self.d {
            D::Bool(x) => v.visit_bool(*x),
            D::I8(x) => v.visit_i8(*x),
            D::I16(x) => v.visit_i16(*x),
            D::I32(x) => v.visit_i32(*x),
            D::I64(x) => v.visit_i64(*x),
            D::I128(x) => v.visit_i128(*x),
            D::U8(x) => v.visit_u8(*x),
            D::U16(x) => v.visit_u16(*x),
            D::U32(x) => v.visit_u32(*x),
            D::U64(x) => v.visit_u64(*x),
            D::U128(x) => v.visit_u128(*x),
            D::F32(x) => v.visit_f32(f32::from_bits(*x)),
            D::F64(x) => v.visit_f64(f64::from_bits(*x)),
            D::Char(x) => v.visit_char(*x),
            D::Str(x) => match self.own {
                Own::Borrowed => v.visit_borrowed_str(x),
                Own::Transient => {
                    let t = x.clone();
                    v.visit_str(&t)
                }
                Own::Owned => v.visit_string(x.clone()),
            },
            D::Bytes(x) => match self.own {
                Own::Borrowed => v.visit_borrowed_bytes(x),
                Own::Transient => {
                    let t = x.clone();
                    v.visit_bytes(&t)
                }
                Own::Owned => v.visit_byte_buf(x.clone()),
            },
            D::Seq(x) => v.visit_seq(Seq(self, x.iter())),
            D::Map(x) => v.visit_map(Map(self, x.iter(), None)),
            D::None => v.visit_none(),
            D::Some(x) => v.visit_some(self.with(x)),
            D::Unit => v.visit_unit(),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DErr> {
        match self.d {
            D::None | D::Unit => v.visit_none(),
            D::Some(x) => v.visit_some(self.with(x)),
            _ => v.visit_some(self),
        }
    }
    /// as the formats with 128-bit integers do
    fn deserialize_u128<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DErr> {
        match self.d.int() {
            Some(Ok(i)) if i >= 0 => v.visit_u128(i as u128),
            Some(Err(u)) => v.visit_u128(u),
            _ => self.deserialize_any(v),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, DErr> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, DErr> {
        v.visit_enum(En(self))
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}

/// records what is serialised
#[derive(Clone, Copy)]
pub struct Rec(pub bool);

pub struct RecSeq(bool, Vec<D>, Option<&'static str>);
pub struct RecMap(bool, Vec<(D, D)>, Option<D>, Option<&'static str>);

fn wrap(n: Option<&'static str>, d: D) -> D {
    match n {
        None => d,
        Some(n) => D::Map(vec![(D::Str(n.into()), d)]),
    }
}

impl Serializer for Rec {
    type Ok = D;
    type Error = DErr;
    type SerializeSeq = RecSeq;
    type SerializeTuple = RecSeq;
    type SerializeTupleStruct = RecSeq;
    type SerializeTupleVariant = RecSeq;
    type SerializeMap = RecMap;
    type SerializeStruct = RecMap;
    type SerializeStructVariant = RecMap;
    fn is_human_readable(&self) -> bool {
        self.0
    }
    fn serialize_bool(self, v: bool) -> Result<D, DErr> {
        Ok(D::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<D, DErr> {
        Ok(D::I8(v))
    }
    fn serialize_i16(self, v: i16) -> Result<D, DErr> {
        Ok(D::I16(v))
    }
    fn serialize_i32(self, v: i32) -> Result<D, DErr> {
        Ok(D::I32(v))
    }
    fn serialize_i64(self, v: i64) -> Result<D, DErr> {
        Ok(D::I64(v))
    }
    fn serialize_i128(self, v: i128) -> Result<D, DErr> {
        Ok(D::I128(v))
    }
    fn serialize_u8(self, v: u8) -> Result<D, DErr> {
        Ok(D::U8(v))
    }
    fn serialize_u16(self, v: u16) -> Result<D, DErr> {
        Ok(D::U16(v))
    }
    fn serialize_u32(self, v: u32) -> Result<D, DErr> {
        Ok(D::U32(v))
    }
    fn serialize_u64(self, v: u64) -> Result<D, DErr> {
        Ok(D::U64(v))
    }
    fn serialize_u128(self, v: u128) -> Result<D, DErr> {
        Ok(D::U128(v))
    }
    fn serialize_f32(self, v: f32) -> Result<D, DErr> {
        Ok(D::F32(v.to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<D, DErr> {
        Ok(D::F64(v.to_bits()))
    }
    fn serialize_char(self, v: char) -> Result<D, DErr> {
        Ok(D::Char(v))
    }
    fn serialize_str(self, v: &str) -> Result<D, DErr> {
        Ok(D::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<D, DErr> {
        Ok(D::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<D, DErr> {
        Ok(D::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<D, DErr> {
        Ok(D::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<D, DErr> {
        Ok(D::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<D, DErr> {
        Ok(D::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<D, DErr> {
        Ok(D::Str(n.into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<D, DErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<D, DErr> {
        Ok(wrap(Some(n), v.serialize(self)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<RecSeq, DErr> {
        Ok(RecSeq(self.0, vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> Result<RecSeq, DErr> {
        Ok(RecSeq(self.0, vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<RecSeq, DErr> {
        Ok(RecSeq(self.0, vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<RecSeq, DErr> {
        Ok(RecSeq(self.0, vec![], Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<RecMap, DErr> {
        Ok(RecMap(self.0, vec![], None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<RecMap, DErr> {
        Ok(RecMap(self.0, vec![], None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<RecMap, DErr> {
        Ok(RecMap(self.0, vec![], None, Some(n)))
    }
}

macro_rules! seqs {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for RecSeq {
        type Ok = D;
        type Error = DErr;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), DErr> {
            self.1.push(v.serialize(Rec(self.0))?);
            Ok(())
        }
        fn end(self) -> Result<D, DErr> {
            Ok(wrap(self.2, D::Seq(self.1)))
        }
    })* };
}
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

impl ser::SerializeMap for RecMap {
    type Ok = D;
    type Error = DErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), DErr> {
        self.2 = Some(k.serialize(Rec(self.0))?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), DErr> {
        let k = self.2.take().expect("HARNESS: key");
        self.1.push((k, v.serialize(Rec(self.0))?));
        Ok(())
    }
    fn end(self) -> Result<D, DErr> {
        Ok(wrap(self.3, D::Map(self.1)))
    }
}
macro_rules! structs {
    ($($t:ident),*) => { $(impl ser::$t for RecMap {
        type Ok = D;
        type Error = DErr;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), DErr> {
            self.1.push((D::Str(k.into()), v.serialize(Rec(self.0))?));
            Ok(())
        }
        fn end(self) -> Result<D, DErr> {
            Ok(wrap(self.3, D::Map(self.1)))
        }
    })* };
}
structs!(SerializeStruct, SerializeStructVariant);

/// the data kinds with contents, besides the numbers
pub(crate) const KINDS: &[&str] = &["bool", "char", "str", "bytes", "seq", "map", "some"];
