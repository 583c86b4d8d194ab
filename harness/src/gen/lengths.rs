// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 350))]
pub struct Inner(pub Vec<u8>);
impl CollectionLength for Inner { fn len(&self) -> usize { self.0.len() } }
#[derive(Debug, Clone, Validator)]
#[validator(base64_decoded)]
pub struct B64(pub Vec<u8>);
/// a collection of the user
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Own(pub usize);
impl CollectionLength for Own { fn len(&self) -> usize { self.0 } }
/// items without a size: any number of them
fn units(n: usize) -> Vec<()> {
    let mut v = Vec::new();
    unsafe { v.set_len(n) };
    v
}

#[derive(Debug, Clone, Validator)]
#[validator(length)]
pub struct V0x(pub Vec<u8>);
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0))]
pub struct V1x(pub Vec<u8>);
fn run_1(i: &Input) -> Out { type Vx = V1x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct V2x(pub Vec<u8>);
fn run_2(i: &Input) -> Out { type Vx = V2x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 3))]
pub struct V3x(pub Vec<u8>);
fn run_3(i: &Input) -> Out { type Vx = V3x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 0))]
pub struct V4x(pub Vec<u8>);
fn run_4(i: &Input) -> Out { type Vx = V4x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 3))]
pub struct V5x(pub Vec<u8>);
fn run_5(i: &Input) -> Out { type Vx = V5x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 3))]
pub struct V6x(pub Vec<u8>);
fn run_6(i: &Input) -> Out { type Vx = V6x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 2))]
pub struct V7x(pub Vec<u8>);
fn run_7(i: &Input) -> Out { type Vx = V7x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 0))]
pub struct V8x(pub Vec<u8>);
fn run_8(i: &Input) -> Out { type Vx = V8x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 1))]
pub struct V9x(pub Vec<u8>);
fn run_9(i: &Input) -> Out { type Vx = V9x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 5))]
pub struct V10x(pub Vec<u8>);
fn run_10(i: &Input) -> Out { type Vx = V10x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 7, max = 8))]
pub struct V11x(pub Vec<u8>);
fn run_11(i: &Input) -> Out { type Vx = V11x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 300, max = 400))]
pub struct V12x(pub Vec<u8>);
fn run_12(i: &Input) -> Out { type Vx = V12x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 255))]
pub struct V13x(pub Vec<u8>);
fn run_13(i: &Input) -> Out { type Vx = V13x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256))]
pub struct V14x(pub Vec<u8>);
fn run_14(i: &Input) -> Out { type Vx = V14x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256, max = 256))]
pub struct V15x(pub Vec<u8>);
fn run_15(i: &Input) -> Out { type Vx = V15x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 65535, max = 65536))]
pub struct V16x(pub Vec<u8>);
fn run_16(i: &Input) -> Out { type Vx = V16x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 18446744073709551615))]
pub struct V17x(pub Vec<u8>);
fn run_17(i: &Input) -> Out { type Vx = V17x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615))]
pub struct V18x(pub Vec<u8>);
fn run_18(i: &Input) -> Out { type Vx = V18x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615, max = 18446744073709551615))]
pub struct V19x(pub Vec<u8>);
fn run_19(i: &Input) -> Out { type Vx = V19x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 18446744073709551615))]
pub struct V20x(pub Vec<u8>);
fn run_20(i: &Input) -> Out { type Vx = V20x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = b.clone().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length)]
pub struct V21x(pub BinaryHeap<u32>);
fn run_21(i: &Input) -> Out { type Vx = V21x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0))]
pub struct V22x(pub BinaryHeap<u32>);
fn run_22(i: &Input) -> Out { type Vx = V22x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct V23x(pub BinaryHeap<u32>);
fn run_23(i: &Input) -> Out { type Vx = V23x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 3))]
pub struct V24x(pub BinaryHeap<u32>);
fn run_24(i: &Input) -> Out { type Vx = V24x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 0))]
pub struct V25x(pub BinaryHeap<u32>);
fn run_25(i: &Input) -> Out { type Vx = V25x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 3))]
pub struct V26x(pub BinaryHeap<u32>);
fn run_26(i: &Input) -> Out { type Vx = V26x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 3))]
pub struct V27x(pub BinaryHeap<u32>);
fn run_27(i: &Input) -> Out { type Vx = V27x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 2))]
pub struct V28x(pub BinaryHeap<u32>);
fn run_28(i: &Input) -> Out { type Vx = V28x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 0))]
pub struct V29x(pub BinaryHeap<u32>);
fn run_29(i: &Input) -> Out { type Vx = V29x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 1))]
pub struct V30x(pub BinaryHeap<u32>);
fn run_30(i: &Input) -> Out { type Vx = V30x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 5))]
pub struct V31x(pub BinaryHeap<u32>);
fn run_31(i: &Input) -> Out { type Vx = V31x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 7, max = 8))]
pub struct V32x(pub BinaryHeap<u32>);
fn run_32(i: &Input) -> Out { type Vx = V32x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 300, max = 400))]
pub struct V33x(pub BinaryHeap<u32>);
fn run_33(i: &Input) -> Out { type Vx = V33x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 255))]
pub struct V34x(pub BinaryHeap<u32>);
fn run_34(i: &Input) -> Out { type Vx = V34x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256))]
pub struct V35x(pub BinaryHeap<u32>);
fn run_35(i: &Input) -> Out { type Vx = V35x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256, max = 256))]
pub struct V36x(pub BinaryHeap<u32>);
fn run_36(i: &Input) -> Out { type Vx = V36x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 65535, max = 65536))]
pub struct V37x(pub BinaryHeap<u32>);
fn run_37(i: &Input) -> Out { type Vx = V37x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 18446744073709551615))]
pub struct V38x(pub BinaryHeap<u32>);
fn run_38(i: &Input) -> Out { type Vx = V38x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615))]
pub struct V39x(pub BinaryHeap<u32>);
fn run_39(i: &Input) -> Out { type Vx = V39x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615, max = 18446744073709551615))]
pub struct V40x(pub BinaryHeap<u32>);
fn run_40(i: &Input) -> Out { type Vx = V40x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 18446744073709551615))]
pub struct V41x(pub BinaryHeap<u32>);
fn run_41(i: &Input) -> Out { type Vx = V41x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BinaryHeap<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length)]
pub struct V42x(pub BTreeSet<u32>);
fn run_42(i: &Input) -> Out { type Vx = V42x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0))]
pub struct V43x(pub BTreeSet<u32>);
fn run_43(i: &Input) -> Out { type Vx = V43x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct V44x(pub BTreeSet<u32>);
fn run_44(i: &Input) -> Out { type Vx = V44x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 3))]
pub struct V45x(pub BTreeSet<u32>);
fn run_45(i: &Input) -> Out { type Vx = V45x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 0))]
pub struct V46x(pub BTreeSet<u32>);
fn run_46(i: &Input) -> Out { type Vx = V46x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 3))]
pub struct V47x(pub BTreeSet<u32>);
fn run_47(i: &Input) -> Out { type Vx = V47x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 3))]
pub struct V48x(pub BTreeSet<u32>);
fn run_48(i: &Input) -> Out { type Vx = V48x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 2))]
pub struct V49x(pub BTreeSet<u32>);
fn run_49(i: &Input) -> Out { type Vx = V49x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 0))]
pub struct V50x(pub BTreeSet<u32>);
fn run_50(i: &Input) -> Out { type Vx = V50x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 1))]
pub struct V51x(pub BTreeSet<u32>);
fn run_51(i: &Input) -> Out { type Vx = V51x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 5))]
pub struct V52x(pub BTreeSet<u32>);
fn run_52(i: &Input) -> Out { type Vx = V52x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 7, max = 8))]
pub struct V53x(pub BTreeSet<u32>);
fn run_53(i: &Input) -> Out { type Vx = V53x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 300, max = 400))]
pub struct V54x(pub BTreeSet<u32>);
fn run_54(i: &Input) -> Out { type Vx = V54x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 255))]
pub struct V55x(pub BTreeSet<u32>);
fn run_55(i: &Input) -> Out { type Vx = V55x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256))]
pub struct V56x(pub BTreeSet<u32>);
fn run_56(i: &Input) -> Out { type Vx = V56x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256, max = 256))]
pub struct V57x(pub BTreeSet<u32>);
fn run_57(i: &Input) -> Out { type Vx = V57x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 65535, max = 65536))]
pub struct V58x(pub BTreeSet<u32>);
fn run_58(i: &Input) -> Out { type Vx = V58x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 18446744073709551615))]
pub struct V59x(pub BTreeSet<u32>);
fn run_59(i: &Input) -> Out { type Vx = V59x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615))]
pub struct V60x(pub BTreeSet<u32>);
fn run_60(i: &Input) -> Out { type Vx = V60x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615, max = 18446744073709551615))]
pub struct V61x(pub BTreeSet<u32>);
fn run_61(i: &Input) -> Out { type Vx = V61x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 18446744073709551615))]
pub struct V62x(pub BTreeSet<u32>);
fn run_62(i: &Input) -> Out { type Vx = V62x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<BTreeSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length)]
pub struct V63x(pub BTreeMap<u32, String>);
fn run_63(i: &Input) -> Out { type Vx = V63x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0))]
pub struct V64x(pub BTreeMap<u32, String>);
fn run_64(i: &Input) -> Out { type Vx = V64x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct V65x(pub BTreeMap<u32, String>);
fn run_65(i: &Input) -> Out { type Vx = V65x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 3))]
pub struct V66x(pub BTreeMap<u32, String>);
fn run_66(i: &Input) -> Out { type Vx = V66x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 0))]
pub struct V67x(pub BTreeMap<u32, String>);
fn run_67(i: &Input) -> Out { type Vx = V67x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 3))]
pub struct V68x(pub BTreeMap<u32, String>);
fn run_68(i: &Input) -> Out { type Vx = V68x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 3))]
pub struct V69x(pub BTreeMap<u32, String>);
fn run_69(i: &Input) -> Out { type Vx = V69x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 2))]
pub struct V70x(pub BTreeMap<u32, String>);
fn run_70(i: &Input) -> Out { type Vx = V70x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 0))]
pub struct V71x(pub BTreeMap<u32, String>);
fn run_71(i: &Input) -> Out { type Vx = V71x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 1))]
pub struct V72x(pub BTreeMap<u32, String>);
fn run_72(i: &Input) -> Out { type Vx = V72x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 5))]
pub struct V73x(pub BTreeMap<u32, String>);
fn run_73(i: &Input) -> Out { type Vx = V73x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 7, max = 8))]
pub struct V74x(pub BTreeMap<u32, String>);
fn run_74(i: &Input) -> Out { type Vx = V74x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 300, max = 400))]
pub struct V75x(pub BTreeMap<u32, String>);
fn run_75(i: &Input) -> Out { type Vx = V75x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 255))]
pub struct V76x(pub BTreeMap<u32, String>);
fn run_76(i: &Input) -> Out { type Vx = V76x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256))]
pub struct V77x(pub BTreeMap<u32, String>);
fn run_77(i: &Input) -> Out { type Vx = V77x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256, max = 256))]
pub struct V78x(pub BTreeMap<u32, String>);
fn run_78(i: &Input) -> Out { type Vx = V78x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 65535, max = 65536))]
pub struct V79x(pub BTreeMap<u32, String>);
fn run_79(i: &Input) -> Out { type Vx = V79x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 18446744073709551615))]
pub struct V80x(pub BTreeMap<u32, String>);
fn run_80(i: &Input) -> Out { type Vx = V80x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615))]
pub struct V81x(pub BTreeMap<u32, String>);
fn run_81(i: &Input) -> Out { type Vx = V81x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615, max = 18446744073709551615))]
pub struct V82x(pub BTreeMap<u32, String>);
fn run_82(i: &Input) -> Out { type Vx = V82x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 18446744073709551615))]
pub struct V83x(pub BTreeMap<u32, String>);
fn run_83(i: &Input) -> Out { type Vx = V83x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<BTreeMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length)]
pub struct V84x(pub HashSet<u32>);
fn run_84(i: &Input) -> Out { type Vx = V84x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0))]
pub struct V85x(pub HashSet<u32>);
fn run_85(i: &Input) -> Out { type Vx = V85x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct V86x(pub HashSet<u32>);
fn run_86(i: &Input) -> Out { type Vx = V86x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 3))]
pub struct V87x(pub HashSet<u32>);
fn run_87(i: &Input) -> Out { type Vx = V87x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 0))]
pub struct V88x(pub HashSet<u32>);
fn run_88(i: &Input) -> Out { type Vx = V88x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 3))]
pub struct V89x(pub HashSet<u32>);
fn run_89(i: &Input) -> Out { type Vx = V89x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 3))]
pub struct V90x(pub HashSet<u32>);
fn run_90(i: &Input) -> Out { type Vx = V90x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 2))]
pub struct V91x(pub HashSet<u32>);
fn run_91(i: &Input) -> Out { type Vx = V91x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 0))]
pub struct V92x(pub HashSet<u32>);
fn run_92(i: &Input) -> Out { type Vx = V92x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 1))]
pub struct V93x(pub HashSet<u32>);
fn run_93(i: &Input) -> Out { type Vx = V93x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 5))]
pub struct V94x(pub HashSet<u32>);
fn run_94(i: &Input) -> Out { type Vx = V94x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 7, max = 8))]
pub struct V95x(pub HashSet<u32>);
fn run_95(i: &Input) -> Out { type Vx = V95x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 300, max = 400))]
pub struct V96x(pub HashSet<u32>);
fn run_96(i: &Input) -> Out { type Vx = V96x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 255))]
pub struct V97x(pub HashSet<u32>);
fn run_97(i: &Input) -> Out { type Vx = V97x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256))]
pub struct V98x(pub HashSet<u32>);
fn run_98(i: &Input) -> Out { type Vx = V98x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256, max = 256))]
pub struct V99x(pub HashSet<u32>);
fn run_99(i: &Input) -> Out { type Vx = V99x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 65535, max = 65536))]
pub struct V100x(pub HashSet<u32>);
fn run_100(i: &Input) -> Out { type Vx = V100x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 18446744073709551615))]
pub struct V101x(pub HashSet<u32>);
fn run_101(i: &Input) -> Out { type Vx = V101x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615))]
pub struct V102x(pub HashSet<u32>);
fn run_102(i: &Input) -> Out { type Vx = V102x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615, max = 18446744073709551615))]
pub struct V103x(pub HashSet<u32>);
fn run_103(i: &Input) -> Out { type Vx = V103x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 18446744073709551615))]
pub struct V104x(pub HashSet<u32>);
fn run_104(i: &Input) -> Out { type Vx = V104x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.iter().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).collect::<HashSet<u32>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length)]
pub struct V105x(pub HashMap<u32, String>);
fn run_105(i: &Input) -> Out { type Vx = V105x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0))]
pub struct V106x(pub HashMap<u32, String>);
fn run_106(i: &Input) -> Out { type Vx = V106x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct V107x(pub HashMap<u32, String>);
fn run_107(i: &Input) -> Out { type Vx = V107x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 3))]
pub struct V108x(pub HashMap<u32, String>);
fn run_108(i: &Input) -> Out { type Vx = V108x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 0))]
pub struct V109x(pub HashMap<u32, String>);
fn run_109(i: &Input) -> Out { type Vx = V109x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 3))]
pub struct V110x(pub HashMap<u32, String>);
fn run_110(i: &Input) -> Out { type Vx = V110x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 3))]
pub struct V111x(pub HashMap<u32, String>);
fn run_111(i: &Input) -> Out { type Vx = V111x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 2))]
pub struct V112x(pub HashMap<u32, String>);
fn run_112(i: &Input) -> Out { type Vx = V112x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 0))]
pub struct V113x(pub HashMap<u32, String>);
fn run_113(i: &Input) -> Out { type Vx = V113x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 1))]
pub struct V114x(pub HashMap<u32, String>);
fn run_114(i: &Input) -> Out { type Vx = V114x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 5))]
pub struct V115x(pub HashMap<u32, String>);
fn run_115(i: &Input) -> Out { type Vx = V115x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 7, max = 8))]
pub struct V116x(pub HashMap<u32, String>);
fn run_116(i: &Input) -> Out { type Vx = V116x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 300, max = 400))]
pub struct V117x(pub HashMap<u32, String>);
fn run_117(i: &Input) -> Out { type Vx = V117x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 255))]
pub struct V118x(pub HashMap<u32, String>);
fn run_118(i: &Input) -> Out { type Vx = V118x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256))]
pub struct V119x(pub HashMap<u32, String>);
fn run_119(i: &Input) -> Out { type Vx = V119x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256, max = 256))]
pub struct V120x(pub HashMap<u32, String>);
fn run_120(i: &Input) -> Out { type Vx = V120x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 65535, max = 65536))]
pub struct V121x(pub HashMap<u32, String>);
fn run_121(i: &Input) -> Out { type Vx = V121x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 18446744073709551615))]
pub struct V122x(pub HashMap<u32, String>);
fn run_122(i: &Input) -> Out { type Vx = V122x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615))]
pub struct V123x(pub HashMap<u32, String>);
fn run_123(i: &Input) -> Out { type Vx = V123x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615, max = 18446744073709551615))]
pub struct V124x(pub HashMap<u32, String>);
fn run_124(i: &Input) -> Out { type Vx = V124x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 18446744073709551615))]
pub struct V125x(pub HashMap<u32, String>);
fn run_125(i: &Input) -> Out { type Vx = V125x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().copied(), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x, "v".to_string())).collect::<HashMap<u32, String>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length)]
pub struct V126x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_126(i: &Input) -> Out { type Vx = V126x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0))]
pub struct V127x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_127(i: &Input) -> Out { type Vx = V127x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct V128x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_128(i: &Input) -> Out { type Vx = V128x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 3))]
pub struct V129x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_129(i: &Input) -> Out { type Vx = V129x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 0))]
pub struct V130x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_130(i: &Input) -> Out { type Vx = V130x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 3))]
pub struct V131x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_131(i: &Input) -> Out { type Vx = V131x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 3))]
pub struct V132x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_132(i: &Input) -> Out { type Vx = V132x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 2))]
pub struct V133x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_133(i: &Input) -> Out { type Vx = V133x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 0))]
pub struct V134x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_134(i: &Input) -> Out { type Vx = V134x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 1))]
pub struct V135x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_135(i: &Input) -> Out { type Vx = V135x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 5))]
pub struct V136x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_136(i: &Input) -> Out { type Vx = V136x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 7, max = 8))]
pub struct V137x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_137(i: &Input) -> Out { type Vx = V137x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 300, max = 400))]
pub struct V138x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_138(i: &Input) -> Out { type Vx = V138x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 255))]
pub struct V139x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_139(i: &Input) -> Out { type Vx = V139x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256))]
pub struct V140x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_140(i: &Input) -> Out { type Vx = V140x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256, max = 256))]
pub struct V141x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_141(i: &Input) -> Out { type Vx = V141x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 65535, max = 65536))]
pub struct V142x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_142(i: &Input) -> Out { type Vx = V142x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 18446744073709551615))]
pub struct V143x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_143(i: &Input) -> Out { type Vx = V143x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615))]
pub struct V144x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_144(i: &Input) -> Out { type Vx = V144x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615, max = 18446744073709551615))]
pub struct V145x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_145(i: &Input) -> Out { type Vx = V145x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 18446744073709551615))]
pub struct V146x(pub validators::serde_json::Map<String, validators::serde_json::Value>);
fn run_146(i: &Input) -> Out { type Vx = V146x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.keys().map(|x| x.parse().unwrap()), true)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = keys(b).map(|x| (x.to_string(), validators::serde_json::Value::Null)).collect::<validators::serde_json::Map<_, _>>().past(b); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length)]
pub struct V147x(pub Inner);
fn run_147(i: &Input) -> Out { type Vx = V147x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0))]
pub struct V148x(pub Inner);
fn run_148(i: &Input) -> Out { type Vx = V148x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct V149x(pub Inner);
fn run_149(i: &Input) -> Out { type Vx = V149x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 3))]
pub struct V150x(pub Inner);
fn run_150(i: &Input) -> Out { type Vx = V150x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 0))]
pub struct V151x(pub Inner);
fn run_151(i: &Input) -> Out { type Vx = V151x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 3))]
pub struct V152x(pub Inner);
fn run_152(i: &Input) -> Out { type Vx = V152x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 3))]
pub struct V153x(pub Inner);
fn run_153(i: &Input) -> Out { type Vx = V153x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 2))]
pub struct V154x(pub Inner);
fn run_154(i: &Input) -> Out { type Vx = V154x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 0))]
pub struct V155x(pub Inner);
fn run_155(i: &Input) -> Out { type Vx = V155x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 1))]
pub struct V156x(pub Inner);
fn run_156(i: &Input) -> Out { type Vx = V156x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 5))]
pub struct V157x(pub Inner);
fn run_157(i: &Input) -> Out { type Vx = V157x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 7, max = 8))]
pub struct V158x(pub Inner);
fn run_158(i: &Input) -> Out { type Vx = V158x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 300, max = 400))]
pub struct V159x(pub Inner);
fn run_159(i: &Input) -> Out { type Vx = V159x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 255))]
pub struct V160x(pub Inner);
fn run_160(i: &Input) -> Out { type Vx = V160x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256))]
pub struct V161x(pub Inner);
fn run_161(i: &Input) -> Out { type Vx = V161x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256, max = 256))]
pub struct V162x(pub Inner);
fn run_162(i: &Input) -> Out { type Vx = V162x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 65535, max = 65536))]
pub struct V163x(pub Inner);
fn run_163(i: &Input) -> Out { type Vx = V163x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 18446744073709551615))]
pub struct V164x(pub Inner);
fn run_164(i: &Input) -> Out { type Vx = V164x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615))]
pub struct V165x(pub Inner);
fn run_165(i: &Input) -> Out { type Vx = V165x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615, max = 18446744073709551615))]
pub struct V166x(pub Inner);
fn run_166(i: &Input) -> Out { type Vx = V166x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 18446744073709551615))]
pub struct V167x(pub Inner);
fn run_167(i: &Input) -> Out { type Vx = V167x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = Inner(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length)]
pub struct V168x(pub B64);
fn run_168(i: &Input) -> Out { type Vx = V168x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0))]
pub struct V169x(pub B64);
fn run_169(i: &Input) -> Out { type Vx = V169x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct V170x(pub B64);
fn run_170(i: &Input) -> Out { type Vx = V170x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 3))]
pub struct V171x(pub B64);
fn run_171(i: &Input) -> Out { type Vx = V171x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 0))]
pub struct V172x(pub B64);
fn run_172(i: &Input) -> Out { type Vx = V172x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 3))]
pub struct V173x(pub B64);
fn run_173(i: &Input) -> Out { type Vx = V173x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 3))]
pub struct V174x(pub B64);
fn run_174(i: &Input) -> Out { type Vx = V174x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 2))]
pub struct V175x(pub B64);
fn run_175(i: &Input) -> Out { type Vx = V175x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 0))]
pub struct V176x(pub B64);
fn run_176(i: &Input) -> Out { type Vx = V176x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 1))]
pub struct V177x(pub B64);
fn run_177(i: &Input) -> Out { type Vx = V177x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 5))]
pub struct V178x(pub B64);
fn run_178(i: &Input) -> Out { type Vx = V178x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 7, max = 8))]
pub struct V179x(pub B64);
fn run_179(i: &Input) -> Out { type Vx = V179x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 300, max = 400))]
pub struct V180x(pub B64);
fn run_180(i: &Input) -> Out { type Vx = V180x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 255))]
pub struct V181x(pub B64);
fn run_181(i: &Input) -> Out { type Vx = V181x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256))]
pub struct V182x(pub B64);
fn run_182(i: &Input) -> Out { type Vx = V182x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256, max = 256))]
pub struct V183x(pub B64);
fn run_183(i: &Input) -> Out { type Vx = V183x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 65535, max = 65536))]
pub struct V184x(pub B64);
fn run_184(i: &Input) -> Out { type Vx = V184x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 18446744073709551615))]
pub struct V185x(pub B64);
fn run_185(i: &Input) -> Out { type Vx = V185x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615))]
pub struct V186x(pub B64);
fn run_186(i: &Input) -> Out { type Vx = V186x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615, max = 18446744073709551615))]
pub struct V187x(pub B64);
fn run_187(i: &Input) -> Out { type Vx = V187x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 18446744073709551615))]
pub struct V188x(pub B64);
fn run_188(i: &Input) -> Out { type Vx = V188x; let f: fn(&Vx) -> Fields = |v| vec![("items", digest(v.0.0.iter().map(|x| *x as u32), false)), ("len", CollectionLength::len(&v.0).to_string())]; match i { Input::Bytes(b) => { let c = B64(b.clone().past(b)); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length)]
pub struct V189x(pub Vec<()>);
fn run_189(i: &Input) -> Out { type Vx = V189x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0))]
pub struct V190x(pub Vec<()>);
fn run_190(i: &Input) -> Out { type Vx = V190x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct V191x(pub Vec<()>);
fn run_191(i: &Input) -> Out { type Vx = V191x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 3))]
pub struct V192x(pub Vec<()>);
fn run_192(i: &Input) -> Out { type Vx = V192x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 0))]
pub struct V193x(pub Vec<()>);
fn run_193(i: &Input) -> Out { type Vx = V193x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 3))]
pub struct V194x(pub Vec<()>);
fn run_194(i: &Input) -> Out { type Vx = V194x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 3))]
pub struct V195x(pub Vec<()>);
fn run_195(i: &Input) -> Out { type Vx = V195x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 2))]
pub struct V196x(pub Vec<()>);
fn run_196(i: &Input) -> Out { type Vx = V196x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 0))]
pub struct V197x(pub Vec<()>);
fn run_197(i: &Input) -> Out { type Vx = V197x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 1))]
pub struct V198x(pub Vec<()>);
fn run_198(i: &Input) -> Out { type Vx = V198x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 5))]
pub struct V199x(pub Vec<()>);
fn run_199(i: &Input) -> Out { type Vx = V199x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 7, max = 8))]
pub struct V200x(pub Vec<()>);
fn run_200(i: &Input) -> Out { type Vx = V200x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 300, max = 400))]
pub struct V201x(pub Vec<()>);
fn run_201(i: &Input) -> Out { type Vx = V201x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 255))]
pub struct V202x(pub Vec<()>);
fn run_202(i: &Input) -> Out { type Vx = V202x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256))]
pub struct V203x(pub Vec<()>);
fn run_203(i: &Input) -> Out { type Vx = V203x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256, max = 256))]
pub struct V204x(pub Vec<()>);
fn run_204(i: &Input) -> Out { type Vx = V204x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 65535, max = 65536))]
pub struct V205x(pub Vec<()>);
fn run_205(i: &Input) -> Out { type Vx = V205x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 18446744073709551615))]
pub struct V206x(pub Vec<()>);
fn run_206(i: &Input) -> Out { type Vx = V206x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615))]
pub struct V207x(pub Vec<()>);
fn run_207(i: &Input) -> Out { type Vx = V207x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615, max = 18446744073709551615))]
pub struct V208x(pub Vec<()>);
fn run_208(i: &Input) -> Out { type Vx = V208x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 18446744073709551615))]
pub struct V209x(pub Vec<()>);
fn run_209(i: &Input) -> Out { type Vx = V209x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 2147483648))]
pub struct V210x(pub Vec<()>);
fn run_210(i: &Input) -> Out { type Vx = V210x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2147483647, max = 2147483648))]
pub struct V211x(pub Vec<()>);
fn run_211(i: &Input) -> Out { type Vx = V211x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 4294967296))]
pub struct V212x(pub Vec<()>);
fn run_212(i: &Input) -> Out { type Vx = V212x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 4294967295))]
pub struct V213x(pub Vec<()>);
fn run_213(i: &Input) -> Out { type Vx = V213x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 4294967296, max = 4294967296))]
pub struct V214x(pub Vec<()>);
fn run_214(i: &Input) -> Out { type Vx = V214x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 4294967299, max = 8589934592))]
pub struct V215x(pub Vec<()>);
fn run_215(i: &Input) -> Out { type Vx = V215x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 9223372036854775808))]
pub struct V216x(pub Vec<()>);
fn run_216(i: &Input) -> Out { type Vx = V216x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 9223372036854775807))]
pub struct V217x(pub Vec<()>);
fn run_217(i: &Input) -> Out { type Vx = V217x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 9223372036854775808, max = 9223372036854775808))]
pub struct V218x(pub Vec<()>);
fn run_218(i: &Input) -> Out { type Vx = V218x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551614, max = 18446744073709551615))]
pub struct V219x(pub Vec<()>);
fn run_219(i: &Input) -> Out { type Vx = V219x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551614, max = 18446744073709551614))]
pub struct V220x(pub Vec<()>);
fn run_220(i: &Input) -> Out { type Vx = V220x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 12, max = 1099511627776))]
pub struct V221x(pub Vec<()>);
fn run_221(i: &Input) -> Out { type Vx = V221x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = units(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length)]
pub struct V222x(pub Own);
fn run_222(i: &Input) -> Out { type Vx = V222x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0))]
pub struct V223x(pub Own);
fn run_223(i: &Input) -> Out { type Vx = V223x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct V224x(pub Own);
fn run_224(i: &Input) -> Out { type Vx = V224x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 3))]
pub struct V225x(pub Own);
fn run_225(i: &Input) -> Out { type Vx = V225x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 0))]
pub struct V226x(pub Own);
fn run_226(i: &Input) -> Out { type Vx = V226x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 3))]
pub struct V227x(pub Own);
fn run_227(i: &Input) -> Out { type Vx = V227x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 3))]
pub struct V228x(pub Own);
fn run_228(i: &Input) -> Out { type Vx = V228x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 2))]
pub struct V229x(pub Own);
fn run_229(i: &Input) -> Out { type Vx = V229x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 0))]
pub struct V230x(pub Own);
fn run_230(i: &Input) -> Out { type Vx = V230x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 1))]
pub struct V231x(pub Own);
fn run_231(i: &Input) -> Out { type Vx = V231x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 5))]
pub struct V232x(pub Own);
fn run_232(i: &Input) -> Out { type Vx = V232x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 7, max = 8))]
pub struct V233x(pub Own);
fn run_233(i: &Input) -> Out { type Vx = V233x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 300, max = 400))]
pub struct V234x(pub Own);
fn run_234(i: &Input) -> Out { type Vx = V234x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 255))]
pub struct V235x(pub Own);
fn run_235(i: &Input) -> Out { type Vx = V235x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256))]
pub struct V236x(pub Own);
fn run_236(i: &Input) -> Out { type Vx = V236x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 256, max = 256))]
pub struct V237x(pub Own);
fn run_237(i: &Input) -> Out { type Vx = V237x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 65535, max = 65536))]
pub struct V238x(pub Own);
fn run_238(i: &Input) -> Out { type Vx = V238x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 18446744073709551615))]
pub struct V239x(pub Own);
fn run_239(i: &Input) -> Out { type Vx = V239x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615))]
pub struct V240x(pub Own);
fn run_240(i: &Input) -> Out { type Vx = V240x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551615, max = 18446744073709551615))]
pub struct V241x(pub Own);
fn run_241(i: &Input) -> Out { type Vx = V241x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 18446744073709551615))]
pub struct V242x(pub Own);
fn run_242(i: &Input) -> Out { type Vx = V242x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 2147483648))]
pub struct V243x(pub Own);
fn run_243(i: &Input) -> Out { type Vx = V243x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2147483647, max = 2147483648))]
pub struct V244x(pub Own);
fn run_244(i: &Input) -> Out { type Vx = V244x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 4294967296))]
pub struct V245x(pub Own);
fn run_245(i: &Input) -> Out { type Vx = V245x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 4294967295))]
pub struct V246x(pub Own);
fn run_246(i: &Input) -> Out { type Vx = V246x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 4294967296, max = 4294967296))]
pub struct V247x(pub Own);
fn run_247(i: &Input) -> Out { type Vx = V247x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 4294967299, max = 8589934592))]
pub struct V248x(pub Own);
fn run_248(i: &Input) -> Out { type Vx = V248x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 9223372036854775808))]
pub struct V249x(pub Own);
fn run_249(i: &Input) -> Out { type Vx = V249x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 9223372036854775807))]
pub struct V250x(pub Own);
fn run_250(i: &Input) -> Out { type Vx = V250x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 9223372036854775808, max = 9223372036854775808))]
pub struct V251x(pub Own);
fn run_251(i: &Input) -> Out { type Vx = V251x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551614, max = 18446744073709551615))]
pub struct V252x(pub Own);
fn run_252(i: &Input) -> Out { type Vx = V252x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 18446744073709551614, max = 18446744073709551614))]
pub struct V253x(pub Own);
fn run_253(i: &Input) -> Out { type Vx = V253x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 12, max = 1099511627776))]
pub struct V254x(pub Own);
fn run_254(i: &Input) -> Out { type Vx = V254x; let f: fn(&Vx) -> Fields = |v| vec![("len", CollectionLength::len(&v.0).to_string())]; match i { Input::U(n) => { let c = Own(*n as usize); let w = Vx::validate_collection(&c); with_validate(res(Vx::parse_collection(c), f), w) }, _ => bad_input() } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "vec length()", v: "length", attr: "", opts: &[("min", ""), ("max", "")], ty: "vec", run: run_0 },
    Cfg { name: "vec length(min = 0)", v: "length", attr: "min = 0", opts: &[("min", "0"), ("max", "")], ty: "vec", run: run_1 },
    Cfg { name: "vec length(min = 1)", v: "length", attr: "min = 1", opts: &[("min", "1"), ("max", "")], ty: "vec", run: run_2 },
    Cfg { name: "vec length(min = 3)", v: "length", attr: "min = 3", opts: &[("min", "3"), ("max", "")], ty: "vec", run: run_3 },
    Cfg { name: "vec length(max = 0)", v: "length", attr: "max = 0", opts: &[("min", ""), ("max", "0")], ty: "vec", run: run_4 },
    Cfg { name: "vec length(max = 3)", v: "length", attr: "max = 3", opts: &[("min", ""), ("max", "3")], ty: "vec", run: run_5 },
    Cfg { name: "vec length(min = 1, max = 3)", v: "length", attr: "min = 1, max = 3", opts: &[("min", "1"), ("max", "3")], ty: "vec", run: run_6 },
    Cfg { name: "vec length(min = 2, max = 2)", v: "length", attr: "min = 2, max = 2", opts: &[("min", "2"), ("max", "2")], ty: "vec", run: run_7 },
    Cfg { name: "vec length(min = 0, max = 0)", v: "length", attr: "min = 0, max = 0", opts: &[("min", "0"), ("max", "0")], ty: "vec", run: run_8 },
    Cfg { name: "vec length(min = 1, max = 1)", v: "length", attr: "min = 1, max = 1", opts: &[("min", "1"), ("max", "1")], ty: "vec", run: run_9 },
    Cfg { name: "vec length(min = 0, max = 5)", v: "length", attr: "min = 0, max = 5", opts: &[("min", "0"), ("max", "5")], ty: "vec", run: run_10 },
    Cfg { name: "vec length(min = 7, max = 8)", v: "length", attr: "min = 7, max = 8", opts: &[("min", "7"), ("max", "8")], ty: "vec", run: run_11 },
    Cfg { name: "vec length(min = 300, max = 400)", v: "length", attr: "min = 300, max = 400", opts: &[("min", "300"), ("max", "400")], ty: "vec", run: run_12 },
    Cfg { name: "vec length(max = 255)", v: "length", attr: "max = 255", opts: &[("min", ""), ("max", "255")], ty: "vec", run: run_13 },
    Cfg { name: "vec length(min = 256)", v: "length", attr: "min = 256", opts: &[("min", "256"), ("max", "")], ty: "vec", run: run_14 },
    Cfg { name: "vec length(min = 256, max = 256)", v: "length", attr: "min = 256, max = 256", opts: &[("min", "256"), ("max", "256")], ty: "vec", run: run_15 },
    Cfg { name: "vec length(min = 65535, max = 65536)", v: "length", attr: "min = 65535, max = 65536", opts: &[("min", "65535"), ("max", "65536")], ty: "vec", run: run_16 },
    Cfg { name: "vec length(max = 18446744073709551615)", v: "length", attr: "max = 18446744073709551615", opts: &[("min", ""), ("max", "18446744073709551615")], ty: "vec", run: run_17 },
    Cfg { name: "vec length(min = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "")], ty: "vec", run: run_18 },
    Cfg { name: "vec length(min = 18446744073709551615, max = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615, max = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "vec", run: run_19 },
    Cfg { name: "vec length(min = 1, max = 18446744073709551615)", v: "length", attr: "min = 1, max = 18446744073709551615", opts: &[("min", "1"), ("max", "18446744073709551615")], ty: "vec", run: run_20 },
    Cfg { name: "heap length()", v: "length", attr: "", opts: &[("min", ""), ("max", "")], ty: "heap", run: run_21 },
    Cfg { name: "heap length(min = 0)", v: "length", attr: "min = 0", opts: &[("min", "0"), ("max", "")], ty: "heap", run: run_22 },
    Cfg { name: "heap length(min = 1)", v: "length", attr: "min = 1", opts: &[("min", "1"), ("max", "")], ty: "heap", run: run_23 },
    Cfg { name: "heap length(min = 3)", v: "length", attr: "min = 3", opts: &[("min", "3"), ("max", "")], ty: "heap", run: run_24 },
    Cfg { name: "heap length(max = 0)", v: "length", attr: "max = 0", opts: &[("min", ""), ("max", "0")], ty: "heap", run: run_25 },
    Cfg { name: "heap length(max = 3)", v: "length", attr: "max = 3", opts: &[("min", ""), ("max", "3")], ty: "heap", run: run_26 },
    Cfg { name: "heap length(min = 1, max = 3)", v: "length", attr: "min = 1, max = 3", opts: &[("min", "1"), ("max", "3")], ty: "heap", run: run_27 },
    Cfg { name: "heap length(min = 2, max = 2)", v: "length", attr: "min = 2, max = 2", opts: &[("min", "2"), ("max", "2")], ty: "heap", run: run_28 },
    Cfg { name: "heap length(min = 0, max = 0)", v: "length", attr: "min = 0, max = 0", opts: &[("min", "0"), ("max", "0")], ty: "heap", run: run_29 },
    Cfg { name: "heap length(min = 1, max = 1)", v: "length", attr: "min = 1, max = 1", opts: &[("min", "1"), ("max", "1")], ty: "heap", run: run_30 },
    Cfg { name: "heap length(min = 0, max = 5)", v: "length", attr: "min = 0, max = 5", opts: &[("min", "0"), ("max", "5")], ty: "heap", run: run_31 },
    Cfg { name: "heap length(min = 7, max = 8)", v: "length", attr: "min = 7, max = 8", opts: &[("min", "7"), ("max", "8")], ty: "heap", run: run_32 },
    Cfg { name: "heap length(min = 300, max = 400)", v: "length", attr: "min = 300, max = 400", opts: &[("min", "300"), ("max", "400")], ty: "heap", run: run_33 },
    Cfg { name: "heap length(max = 255)", v: "length", attr: "max = 255", opts: &[("min", ""), ("max", "255")], ty: "heap", run: run_34 },
    Cfg { name: "heap length(min = 256)", v: "length", attr: "min = 256", opts: &[("min", "256"), ("max", "")], ty: "heap", run: run_35 },
    Cfg { name: "heap length(min = 256, max = 256)", v: "length", attr: "min = 256, max = 256", opts: &[("min", "256"), ("max", "256")], ty: "heap", run: run_36 },
    Cfg { name: "heap length(min = 65535, max = 65536)", v: "length", attr: "min = 65535, max = 65536", opts: &[("min", "65535"), ("max", "65536")], ty: "heap", run: run_37 },
    Cfg { name: "heap length(max = 18446744073709551615)", v: "length", attr: "max = 18446744073709551615", opts: &[("min", ""), ("max", "18446744073709551615")], ty: "heap", run: run_38 },
    Cfg { name: "heap length(min = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "")], ty: "heap", run: run_39 },
    Cfg { name: "heap length(min = 18446744073709551615, max = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615, max = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "heap", run: run_40 },
    Cfg { name: "heap length(min = 1, max = 18446744073709551615)", v: "length", attr: "min = 1, max = 18446744073709551615", opts: &[("min", "1"), ("max", "18446744073709551615")], ty: "heap", run: run_41 },
    Cfg { name: "bset length()", v: "length", attr: "", opts: &[("min", ""), ("max", "")], ty: "bset", run: run_42 },
    Cfg { name: "bset length(min = 0)", v: "length", attr: "min = 0", opts: &[("min", "0"), ("max", "")], ty: "bset", run: run_43 },
    Cfg { name: "bset length(min = 1)", v: "length", attr: "min = 1", opts: &[("min", "1"), ("max", "")], ty: "bset", run: run_44 },
    Cfg { name: "bset length(min = 3)", v: "length", attr: "min = 3", opts: &[("min", "3"), ("max", "")], ty: "bset", run: run_45 },
    Cfg { name: "bset length(max = 0)", v: "length", attr: "max = 0", opts: &[("min", ""), ("max", "0")], ty: "bset", run: run_46 },
    Cfg { name: "bset length(max = 3)", v: "length", attr: "max = 3", opts: &[("min", ""), ("max", "3")], ty: "bset", run: run_47 },
    Cfg { name: "bset length(min = 1, max = 3)", v: "length", attr: "min = 1, max = 3", opts: &[("min", "1"), ("max", "3")], ty: "bset", run: run_48 },
    Cfg { name: "bset length(min = 2, max = 2)", v: "length", attr: "min = 2, max = 2", opts: &[("min", "2"), ("max", "2")], ty: "bset", run: run_49 },
    Cfg { name: "bset length(min = 0, max = 0)", v: "length", attr: "min = 0, max = 0", opts: &[("min", "0"), ("max", "0")], ty: "bset", run: run_50 },
    Cfg { name: "bset length(min = 1, max = 1)", v: "length", attr: "min = 1, max = 1", opts: &[("min", "1"), ("max", "1")], ty: "bset", run: run_51 },
    Cfg { name: "bset length(min = 0, max = 5)", v: "length", attr: "min = 0, max = 5", opts: &[("min", "0"), ("max", "5")], ty: "bset", run: run_52 },
    Cfg { name: "bset length(min = 7, max = 8)", v: "length", attr: "min = 7, max = 8", opts: &[("min", "7"), ("max", "8")], ty: "bset", run: run_53 },
    Cfg { name: "bset length(min = 300, max = 400)", v: "length", attr: "min = 300, max = 400", opts: &[("min", "300"), ("max", "400")], ty: "bset", run: run_54 },
    Cfg { name: "bset length(max = 255)", v: "length", attr: "max = 255", opts: &[("min", ""), ("max", "255")], ty: "bset", run: run_55 },
    Cfg { name: "bset length(min = 256)", v: "length", attr: "min = 256", opts: &[("min", "256"), ("max", "")], ty: "bset", run: run_56 },
    Cfg { name: "bset length(min = 256, max = 256)", v: "length", attr: "min = 256, max = 256", opts: &[("min", "256"), ("max", "256")], ty: "bset", run: run_57 },
    Cfg { name: "bset length(min = 65535, max = 65536)", v: "length", attr: "min = 65535, max = 65536", opts: &[("min", "65535"), ("max", "65536")], ty: "bset", run: run_58 },
    Cfg { name: "bset length(max = 18446744073709551615)", v: "length", attr: "max = 18446744073709551615", opts: &[("min", ""), ("max", "18446744073709551615")], ty: "bset", run: run_59 },
    Cfg { name: "bset length(min = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "")], ty: "bset", run: run_60 },
    Cfg { name: "bset length(min = 18446744073709551615, max = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615, max = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "bset", run: run_61 },
    Cfg { name: "bset length(min = 1, max = 18446744073709551615)", v: "length", attr: "min = 1, max = 18446744073709551615", opts: &[("min", "1"), ("max", "18446744073709551615")], ty: "bset", run: run_62 },
    Cfg { name: "bmap length()", v: "length", attr: "", opts: &[("min", ""), ("max", "")], ty: "bmap", run: run_63 },
    Cfg { name: "bmap length(min = 0)", v: "length", attr: "min = 0", opts: &[("min", "0"), ("max", "")], ty: "bmap", run: run_64 },
    Cfg { name: "bmap length(min = 1)", v: "length", attr: "min = 1", opts: &[("min", "1"), ("max", "")], ty: "bmap", run: run_65 },
    Cfg { name: "bmap length(min = 3)", v: "length", attr: "min = 3", opts: &[("min", "3"), ("max", "")], ty: "bmap", run: run_66 },
    Cfg { name: "bmap length(max = 0)", v: "length", attr: "max = 0", opts: &[("min", ""), ("max", "0")], ty: "bmap", run: run_67 },
    Cfg { name: "bmap length(max = 3)", v: "length", attr: "max = 3", opts: &[("min", ""), ("max", "3")], ty: "bmap", run: run_68 },
    Cfg { name: "bmap length(min = 1, max = 3)", v: "length", attr: "min = 1, max = 3", opts: &[("min", "1"), ("max", "3")], ty: "bmap", run: run_69 },
    Cfg { name: "bmap length(min = 2, max = 2)", v: "length", attr: "min = 2, max = 2", opts: &[("min", "2"), ("max", "2")], ty: "bmap", run: run_70 },
    Cfg { name: "bmap length(min = 0, max = 0)", v: "length", attr: "min = 0, max = 0", opts: &[("min", "0"), ("max", "0")], ty: "bmap", run: run_71 },
    Cfg { name: "bmap length(min = 1, max = 1)", v: "length", attr: "min = 1, max = 1", opts: &[("min", "1"), ("max", "1")], ty: "bmap", run: run_72 },
    Cfg { name: "bmap length(min = 0, max = 5)", v: "length", attr: "min = 0, max = 5", opts: &[("min", "0"), ("max", "5")], ty: "bmap", run: run_73 },
    Cfg { name: "bmap length(min = 7, max = 8)", v: "length", attr: "min = 7, max = 8", opts: &[("min", "7"), ("max", "8")], ty: "bmap", run: run_74 },
    Cfg { name: "bmap length(min = 300, max = 400)", v: "length", attr: "min = 300, max = 400", opts: &[("min", "300"), ("max", "400")], ty: "bmap", run: run_75 },
    Cfg { name: "bmap length(max = 255)", v: "length", attr: "max = 255", opts: &[("min", ""), ("max", "255")], ty: "bmap", run: run_76 },
    Cfg { name: "bmap length(min = 256)", v: "length", attr: "min = 256", opts: &[("min", "256"), ("max", "")], ty: "bmap", run: run_77 },
    Cfg { name: "bmap length(min = 256, max = 256)", v: "length", attr: "min = 256, max = 256", opts: &[("min", "256"), ("max", "256")], ty: "bmap", run: run_78 },
    Cfg { name: "bmap length(min = 65535, max = 65536)", v: "length", attr: "min = 65535, max = 65536", opts: &[("min", "65535"), ("max", "65536")], ty: "bmap", run: run_79 },
    Cfg { name: "bmap length(max = 18446744073709551615)", v: "length", attr: "max = 18446744073709551615", opts: &[("min", ""), ("max", "18446744073709551615")], ty: "bmap", run: run_80 },
    Cfg { name: "bmap length(min = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "")], ty: "bmap", run: run_81 },
    Cfg { name: "bmap length(min = 18446744073709551615, max = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615, max = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "bmap", run: run_82 },
    Cfg { name: "bmap length(min = 1, max = 18446744073709551615)", v: "length", attr: "min = 1, max = 18446744073709551615", opts: &[("min", "1"), ("max", "18446744073709551615")], ty: "bmap", run: run_83 },
    Cfg { name: "hset length()", v: "length", attr: "", opts: &[("min", ""), ("max", "")], ty: "hset", run: run_84 },
    Cfg { name: "hset length(min = 0)", v: "length", attr: "min = 0", opts: &[("min", "0"), ("max", "")], ty: "hset", run: run_85 },
    Cfg { name: "hset length(min = 1)", v: "length", attr: "min = 1", opts: &[("min", "1"), ("max", "")], ty: "hset", run: run_86 },
    Cfg { name: "hset length(min = 3)", v: "length", attr: "min = 3", opts: &[("min", "3"), ("max", "")], ty: "hset", run: run_87 },
    Cfg { name: "hset length(max = 0)", v: "length", attr: "max = 0", opts: &[("min", ""), ("max", "0")], ty: "hset", run: run_88 },
    Cfg { name: "hset length(max = 3)", v: "length", attr: "max = 3", opts: &[("min", ""), ("max", "3")], ty: "hset", run: run_89 },
    Cfg { name: "hset length(min = 1, max = 3)", v: "length", attr: "min = 1, max = 3", opts: &[("min", "1"), ("max", "3")], ty: "hset", run: run_90 },
    Cfg { name: "hset length(min = 2, max = 2)", v: "length", attr: "min = 2, max = 2", opts: &[("min", "2"), ("max", "2")], ty: "hset", run: run_91 },
    Cfg { name: "hset length(min = 0, max = 0)", v: "length", attr: "min = 0, max = 0", opts: &[("min", "0"), ("max", "0")], ty: "hset", run: run_92 },
    Cfg { name: "hset length(min = 1, max = 1)", v: "length", attr: "min = 1, max = 1", opts: &[("min", "1"), ("max", "1")], ty: "hset", run: run_93 },
    Cfg { name: "hset length(min = 0, max = 5)", v: "length", attr: "min = 0, max = 5", opts: &[("min", "0"), ("max", "5")], ty: "hset", run: run_94 },
    Cfg { name: "hset length(min = 7, max = 8)", v: "length", attr: "min = 7, max = 8", opts: &[("min", "7"), ("max", "8")], ty: "hset", run: run_95 },
    Cfg { name: "hset length(min = 300, max = 400)", v: "length", attr: "min = 300, max = 400", opts: &[("min", "300"), ("max", "400")], ty: "hset", run: run_96 },
    Cfg { name: "hset length(max = 255)", v: "length", attr: "max = 255", opts: &[("min", ""), ("max", "255")], ty: "hset", run: run_97 },
    Cfg { name: "hset length(min = 256)", v: "length", attr: "min = 256", opts: &[("min", "256"), ("max", "")], ty: "hset", run: run_98 },
    Cfg { name: "hset length(min = 256, max = 256)", v: "length", attr: "min = 256, max = 256", opts: &[("min", "256"), ("max", "256")], ty: "hset", run: run_99 },
    Cfg { name: "hset length(min = 65535, max = 65536)", v: "length", attr: "min = 65535, max = 65536", opts: &[("min", "65535"), ("max", "65536")], ty: "hset", run: run_100 },
    Cfg { name: "hset length(max = 18446744073709551615)", v: "length", attr: "max = 18446744073709551615", opts: &[("min", ""), ("max", "18446744073709551615")], ty: "hset", run: run_101 },
    Cfg { name: "hset length(min = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "")], ty: "hset", run: run_102 },
    Cfg { name: "hset length(min = 18446744073709551615, max = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615, max = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "hset", run: run_103 },
    Cfg { name: "hset length(min = 1, max = 18446744073709551615)", v: "length", attr: "min = 1, max = 18446744073709551615", opts: &[("min", "1"), ("max", "18446744073709551615")], ty: "hset", run: run_104 },
    Cfg { name: "hmap length()", v: "length", attr: "", opts: &[("min", ""), ("max", "")], ty: "hmap", run: run_105 },
    Cfg { name: "hmap length(min = 0)", v: "length", attr: "min = 0", opts: &[("min", "0"), ("max", "")], ty: "hmap", run: run_106 },
    Cfg { name: "hmap length(min = 1)", v: "length", attr: "min = 1", opts: &[("min", "1"), ("max", "")], ty: "hmap", run: run_107 },
    Cfg { name: "hmap length(min = 3)", v: "length", attr: "min = 3", opts: &[("min", "3"), ("max", "")], ty: "hmap", run: run_108 },
    Cfg { name: "hmap length(max = 0)", v: "length", attr: "max = 0", opts: &[("min", ""), ("max", "0")], ty: "hmap", run: run_109 },
    Cfg { name: "hmap length(max = 3)", v: "length", attr: "max = 3", opts: &[("min", ""), ("max", "3")], ty: "hmap", run: run_110 },
    Cfg { name: "hmap length(min = 1, max = 3)", v: "length", attr: "min = 1, max = 3", opts: &[("min", "1"), ("max", "3")], ty: "hmap", run: run_111 },
    Cfg { name: "hmap length(min = 2, max = 2)", v: "length", attr: "min = 2, max = 2", opts: &[("min", "2"), ("max", "2")], ty: "hmap", run: run_112 },
    Cfg { name: "hmap length(min = 0, max = 0)", v: "length", attr: "min = 0, max = 0", opts: &[("min", "0"), ("max", "0")], ty: "hmap", run: run_113 },
    Cfg { name: "hmap length(min = 1, max = 1)", v: "length", attr: "min = 1, max = 1", opts: &[("min", "1"), ("max", "1")], ty: "hmap", run: run_114 },
    Cfg { name: "hmap length(min = 0, max = 5)", v: "length", attr: "min = 0, max = 5", opts: &[("min", "0"), ("max", "5")], ty: "hmap", run: run_115 },
    Cfg { name: "hmap length(min = 7, max = 8)", v: "length", attr: "min = 7, max = 8", opts: &[("min", "7"), ("max", "8")], ty: "hmap", run: run_116 },
    Cfg { name: "hmap length(min = 300, max = 400)", v: "length", attr: "min = 300, max = 400", opts: &[("min", "300"), ("max", "400")], ty: "hmap", run: run_117 },
    Cfg { name: "hmap length(max = 255)", v: "length", attr: "max = 255", opts: &[("min", ""), ("max", "255")], ty: "hmap", run: run_118 },
    Cfg { name: "hmap length(min = 256)", v: "length", attr: "min = 256", opts: &[("min", "256"), ("max", "")], ty: "hmap", run: run_119 },
    Cfg { name: "hmap length(min = 256, max = 256)", v: "length", attr: "min = 256, max = 256", opts: &[("min", "256"), ("max", "256")], ty: "hmap", run: run_120 },
    Cfg { name: "hmap length(min = 65535, max = 65536)", v: "length", attr: "min = 65535, max = 65536", opts: &[("min", "65535"), ("max", "65536")], ty: "hmap", run: run_121 },
    Cfg { name: "hmap length(max = 18446744073709551615)", v: "length", attr: "max = 18446744073709551615", opts: &[("min", ""), ("max", "18446744073709551615")], ty: "hmap", run: run_122 },
    Cfg { name: "hmap length(min = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "")], ty: "hmap", run: run_123 },
    Cfg { name: "hmap length(min = 18446744073709551615, max = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615, max = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "hmap", run: run_124 },
    Cfg { name: "hmap length(min = 1, max = 18446744073709551615)", v: "length", attr: "min = 1, max = 18446744073709551615", opts: &[("min", "1"), ("max", "18446744073709551615")], ty: "hmap", run: run_125 },
    Cfg { name: "jmap length()", v: "length", attr: "", opts: &[("min", ""), ("max", "")], ty: "jmap", run: run_126 },
    Cfg { name: "jmap length(min = 0)", v: "length", attr: "min = 0", opts: &[("min", "0"), ("max", "")], ty: "jmap", run: run_127 },
    Cfg { name: "jmap length(min = 1)", v: "length", attr: "min = 1", opts: &[("min", "1"), ("max", "")], ty: "jmap", run: run_128 },
    Cfg { name: "jmap length(min = 3)", v: "length", attr: "min = 3", opts: &[("min", "3"), ("max", "")], ty: "jmap", run: run_129 },
    Cfg { name: "jmap length(max = 0)", v: "length", attr: "max = 0", opts: &[("min", ""), ("max", "0")], ty: "jmap", run: run_130 },
    Cfg { name: "jmap length(max = 3)", v: "length", attr: "max = 3", opts: &[("min", ""), ("max", "3")], ty: "jmap", run: run_131 },
    Cfg { name: "jmap length(min = 1, max = 3)", v: "length", attr: "min = 1, max = 3", opts: &[("min", "1"), ("max", "3")], ty: "jmap", run: run_132 },
    Cfg { name: "jmap length(min = 2, max = 2)", v: "length", attr: "min = 2, max = 2", opts: &[("min", "2"), ("max", "2")], ty: "jmap", run: run_133 },
    Cfg { name: "jmap length(min = 0, max = 0)", v: "length", attr: "min = 0, max = 0", opts: &[("min", "0"), ("max", "0")], ty: "jmap", run: run_134 },
    Cfg { name: "jmap length(min = 1, max = 1)", v: "length", attr: "min = 1, max = 1", opts: &[("min", "1"), ("max", "1")], ty: "jmap", run: run_135 },
    Cfg { name: "jmap length(min = 0, max = 5)", v: "length", attr: "min = 0, max = 5", opts: &[("min", "0"), ("max", "5")], ty: "jmap", run: run_136 },
    Cfg { name: "jmap length(min = 7, max = 8)", v: "length", attr: "min = 7, max = 8", opts: &[("min", "7"), ("max", "8")], ty: "jmap", run: run_137 },
    Cfg { name: "jmap length(min = 300, max = 400)", v: "length", attr: "min = 300, max = 400", opts: &[("min", "300"), ("max", "400")], ty: "jmap", run: run_138 },
    Cfg { name: "jmap length(max = 255)", v: "length", attr: "max = 255", opts: &[("min", ""), ("max", "255")], ty: "jmap", run: run_139 },
    Cfg { name: "jmap length(min = 256)", v: "length", attr: "min = 256", opts: &[("min", "256"), ("max", "")], ty: "jmap", run: run_140 },
    Cfg { name: "jmap length(min = 256, max = 256)", v: "length", attr: "min = 256, max = 256", opts: &[("min", "256"), ("max", "256")], ty: "jmap", run: run_141 },
    Cfg { name: "jmap length(min = 65535, max = 65536)", v: "length", attr: "min = 65535, max = 65536", opts: &[("min", "65535"), ("max", "65536")], ty: "jmap", run: run_142 },
    Cfg { name: "jmap length(max = 18446744073709551615)", v: "length", attr: "max = 18446744073709551615", opts: &[("min", ""), ("max", "18446744073709551615")], ty: "jmap", run: run_143 },
    Cfg { name: "jmap length(min = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "")], ty: "jmap", run: run_144 },
    Cfg { name: "jmap length(min = 18446744073709551615, max = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615, max = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "jmap", run: run_145 },
    Cfg { name: "jmap length(min = 1, max = 18446744073709551615)", v: "length", attr: "min = 1, max = 18446744073709551615", opts: &[("min", "1"), ("max", "18446744073709551615")], ty: "jmap", run: run_146 },
    Cfg { name: "nested length()", v: "length", attr: "", opts: &[("min", ""), ("max", "")], ty: "nested", run: run_147 },
    Cfg { name: "nested length(min = 0)", v: "length", attr: "min = 0", opts: &[("min", "0"), ("max", "")], ty: "nested", run: run_148 },
    Cfg { name: "nested length(min = 1)", v: "length", attr: "min = 1", opts: &[("min", "1"), ("max", "")], ty: "nested", run: run_149 },
    Cfg { name: "nested length(min = 3)", v: "length", attr: "min = 3", opts: &[("min", "3"), ("max", "")], ty: "nested", run: run_150 },
    Cfg { name: "nested length(max = 0)", v: "length", attr: "max = 0", opts: &[("min", ""), ("max", "0")], ty: "nested", run: run_151 },
    Cfg { name: "nested length(max = 3)", v: "length", attr: "max = 3", opts: &[("min", ""), ("max", "3")], ty: "nested", run: run_152 },
    Cfg { name: "nested length(min = 1, max = 3)", v: "length", attr: "min = 1, max = 3", opts: &[("min", "1"), ("max", "3")], ty: "nested", run: run_153 },
    Cfg { name: "nested length(min = 2, max = 2)", v: "length", attr: "min = 2, max = 2", opts: &[("min", "2"), ("max", "2")], ty: "nested", run: run_154 },
    Cfg { name: "nested length(min = 0, max = 0)", v: "length", attr: "min = 0, max = 0", opts: &[("min", "0"), ("max", "0")], ty: "nested", run: run_155 },
    Cfg { name: "nested length(min = 1, max = 1)", v: "length", attr: "min = 1, max = 1", opts: &[("min", "1"), ("max", "1")], ty: "nested", run: run_156 },
    Cfg { name: "nested length(min = 0, max = 5)", v: "length", attr: "min = 0, max = 5", opts: &[("min", "0"), ("max", "5")], ty: "nested", run: run_157 },
    Cfg { name: "nested length(min = 7, max = 8)", v: "length", attr: "min = 7, max = 8", opts: &[("min", "7"), ("max", "8")], ty: "nested", run: run_158 },
    Cfg { name: "nested length(min = 300, max = 400)", v: "length", attr: "min = 300, max = 400", opts: &[("min", "300"), ("max", "400")], ty: "nested", run: run_159 },
    Cfg { name: "nested length(max = 255)", v: "length", attr: "max = 255", opts: &[("min", ""), ("max", "255")], ty: "nested", run: run_160 },
    Cfg { name: "nested length(min = 256)", v: "length", attr: "min = 256", opts: &[("min", "256"), ("max", "")], ty: "nested", run: run_161 },
    Cfg { name: "nested length(min = 256, max = 256)", v: "length", attr: "min = 256, max = 256", opts: &[("min", "256"), ("max", "256")], ty: "nested", run: run_162 },
    Cfg { name: "nested length(min = 65535, max = 65536)", v: "length", attr: "min = 65535, max = 65536", opts: &[("min", "65535"), ("max", "65536")], ty: "nested", run: run_163 },
    Cfg { name: "nested length(max = 18446744073709551615)", v: "length", attr: "max = 18446744073709551615", opts: &[("min", ""), ("max", "18446744073709551615")], ty: "nested", run: run_164 },
    Cfg { name: "nested length(min = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "")], ty: "nested", run: run_165 },
    Cfg { name: "nested length(min = 18446744073709551615, max = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615, max = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "nested", run: run_166 },
    Cfg { name: "nested length(min = 1, max = 18446744073709551615)", v: "length", attr: "min = 1, max = 18446744073709551615", opts: &[("min", "1"), ("max", "18446744073709551615")], ty: "nested", run: run_167 },
    Cfg { name: "b64 length()", v: "length", attr: "", opts: &[("min", ""), ("max", "")], ty: "b64", run: run_168 },
    Cfg { name: "b64 length(min = 0)", v: "length", attr: "min = 0", opts: &[("min", "0"), ("max", "")], ty: "b64", run: run_169 },
    Cfg { name: "b64 length(min = 1)", v: "length", attr: "min = 1", opts: &[("min", "1"), ("max", "")], ty: "b64", run: run_170 },
    Cfg { name: "b64 length(min = 3)", v: "length", attr: "min = 3", opts: &[("min", "3"), ("max", "")], ty: "b64", run: run_171 },
    Cfg { name: "b64 length(max = 0)", v: "length", attr: "max = 0", opts: &[("min", ""), ("max", "0")], ty: "b64", run: run_172 },
    Cfg { name: "b64 length(max = 3)", v: "length", attr: "max = 3", opts: &[("min", ""), ("max", "3")], ty: "b64", run: run_173 },
    Cfg { name: "b64 length(min = 1, max = 3)", v: "length", attr: "min = 1, max = 3", opts: &[("min", "1"), ("max", "3")], ty: "b64", run: run_174 },
    Cfg { name: "b64 length(min = 2, max = 2)", v: "length", attr: "min = 2, max = 2", opts: &[("min", "2"), ("max", "2")], ty: "b64", run: run_175 },
    Cfg { name: "b64 length(min = 0, max = 0)", v: "length", attr: "min = 0, max = 0", opts: &[("min", "0"), ("max", "0")], ty: "b64", run: run_176 },
    Cfg { name: "b64 length(min = 1, max = 1)", v: "length", attr: "min = 1, max = 1", opts: &[("min", "1"), ("max", "1")], ty: "b64", run: run_177 },
    Cfg { name: "b64 length(min = 0, max = 5)", v: "length", attr: "min = 0, max = 5", opts: &[("min", "0"), ("max", "5")], ty: "b64", run: run_178 },
    Cfg { name: "b64 length(min = 7, max = 8)", v: "length", attr: "min = 7, max = 8", opts: &[("min", "7"), ("max", "8")], ty: "b64", run: run_179 },
    Cfg { name: "b64 length(min = 300, max = 400)", v: "length", attr: "min = 300, max = 400", opts: &[("min", "300"), ("max", "400")], ty: "b64", run: run_180 },
    Cfg { name: "b64 length(max = 255)", v: "length", attr: "max = 255", opts: &[("min", ""), ("max", "255")], ty: "b64", run: run_181 },
    Cfg { name: "b64 length(min = 256)", v: "length", attr: "min = 256", opts: &[("min", "256"), ("max", "")], ty: "b64", run: run_182 },
    Cfg { name: "b64 length(min = 256, max = 256)", v: "length", attr: "min = 256, max = 256", opts: &[("min", "256"), ("max", "256")], ty: "b64", run: run_183 },
    Cfg { name: "b64 length(min = 65535, max = 65536)", v: "length", attr: "min = 65535, max = 65536", opts: &[("min", "65535"), ("max", "65536")], ty: "b64", run: run_184 },
    Cfg { name: "b64 length(max = 18446744073709551615)", v: "length", attr: "max = 18446744073709551615", opts: &[("min", ""), ("max", "18446744073709551615")], ty: "b64", run: run_185 },
    Cfg { name: "b64 length(min = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "")], ty: "b64", run: run_186 },
    Cfg { name: "b64 length(min = 18446744073709551615, max = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615, max = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "b64", run: run_187 },
    Cfg { name: "b64 length(min = 1, max = 18446744073709551615)", v: "length", attr: "min = 1, max = 18446744073709551615", opts: &[("min", "1"), ("max", "18446744073709551615")], ty: "b64", run: run_188 },
    Cfg { name: "units length()", v: "length", attr: "", opts: &[("min", ""), ("max", "")], ty: "units", run: run_189 },
    Cfg { name: "units length(min = 0)", v: "length", attr: "min = 0", opts: &[("min", "0"), ("max", "")], ty: "units", run: run_190 },
    Cfg { name: "units length(min = 1)", v: "length", attr: "min = 1", opts: &[("min", "1"), ("max", "")], ty: "units", run: run_191 },
    Cfg { name: "units length(min = 3)", v: "length", attr: "min = 3", opts: &[("min", "3"), ("max", "")], ty: "units", run: run_192 },
    Cfg { name: "units length(max = 0)", v: "length", attr: "max = 0", opts: &[("min", ""), ("max", "0")], ty: "units", run: run_193 },
    Cfg { name: "units length(max = 3)", v: "length", attr: "max = 3", opts: &[("min", ""), ("max", "3")], ty: "units", run: run_194 },
    Cfg { name: "units length(min = 1, max = 3)", v: "length", attr: "min = 1, max = 3", opts: &[("min", "1"), ("max", "3")], ty: "units", run: run_195 },
    Cfg { name: "units length(min = 2, max = 2)", v: "length", attr: "min = 2, max = 2", opts: &[("min", "2"), ("max", "2")], ty: "units", run: run_196 },
    Cfg { name: "units length(min = 0, max = 0)", v: "length", attr: "min = 0, max = 0", opts: &[("min", "0"), ("max", "0")], ty: "units", run: run_197 },
    Cfg { name: "units length(min = 1, max = 1)", v: "length", attr: "min = 1, max = 1", opts: &[("min", "1"), ("max", "1")], ty: "units", run: run_198 },
    Cfg { name: "units length(min = 0, max = 5)", v: "length", attr: "min = 0, max = 5", opts: &[("min", "0"), ("max", "5")], ty: "units", run: run_199 },
    Cfg { name: "units length(min = 7, max = 8)", v: "length", attr: "min = 7, max = 8", opts: &[("min", "7"), ("max", "8")], ty: "units", run: run_200 },
    Cfg { name: "units length(min = 300, max = 400)", v: "length", attr: "min = 300, max = 400", opts: &[("min", "300"), ("max", "400")], ty: "units", run: run_201 },
    Cfg { name: "units length(max = 255)", v: "length", attr: "max = 255", opts: &[("min", ""), ("max", "255")], ty: "units", run: run_202 },
    Cfg { name: "units length(min = 256)", v: "length", attr: "min = 256", opts: &[("min", "256"), ("max", "")], ty: "units", run: run_203 },
    Cfg { name: "units length(min = 256, max = 256)", v: "length", attr: "min = 256, max = 256", opts: &[("min", "256"), ("max", "256")], ty: "units", run: run_204 },
    Cfg { name: "units length(min = 65535, max = 65536)", v: "length", attr: "min = 65535, max = 65536", opts: &[("min", "65535"), ("max", "65536")], ty: "units", run: run_205 },
    Cfg { name: "units length(max = 18446744073709551615)", v: "length", attr: "max = 18446744073709551615", opts: &[("min", ""), ("max", "18446744073709551615")], ty: "units", run: run_206 },
    Cfg { name: "units length(min = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "")], ty: "units", run: run_207 },
    Cfg { name: "units length(min = 18446744073709551615, max = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615, max = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "units", run: run_208 },
    Cfg { name: "units length(min = 1, max = 18446744073709551615)", v: "length", attr: "min = 1, max = 18446744073709551615", opts: &[("min", "1"), ("max", "18446744073709551615")], ty: "units", run: run_209 },
    Cfg { name: "units length(max = 2147483648)", v: "length", attr: "max = 2147483648", opts: &[("min", ""), ("max", "2147483648")], ty: "units", run: run_210 },
    Cfg { name: "units length(min = 2147483647, max = 2147483648)", v: "length", attr: "min = 2147483647, max = 2147483648", opts: &[("min", "2147483647"), ("max", "2147483648")], ty: "units", run: run_211 },
    Cfg { name: "units length(min = 4294967296)", v: "length", attr: "min = 4294967296", opts: &[("min", "4294967296"), ("max", "")], ty: "units", run: run_212 },
    Cfg { name: "units length(max = 4294967295)", v: "length", attr: "max = 4294967295", opts: &[("min", ""), ("max", "4294967295")], ty: "units", run: run_213 },
    Cfg { name: "units length(min = 4294967296, max = 4294967296)", v: "length", attr: "min = 4294967296, max = 4294967296", opts: &[("min", "4294967296"), ("max", "4294967296")], ty: "units", run: run_214 },
    Cfg { name: "units length(min = 4294967299, max = 8589934592)", v: "length", attr: "min = 4294967299, max = 8589934592", opts: &[("min", "4294967299"), ("max", "8589934592")], ty: "units", run: run_215 },
    Cfg { name: "units length(min = 9223372036854775808)", v: "length", attr: "min = 9223372036854775808", opts: &[("min", "9223372036854775808"), ("max", "")], ty: "units", run: run_216 },
    Cfg { name: "units length(max = 9223372036854775807)", v: "length", attr: "max = 9223372036854775807", opts: &[("min", ""), ("max", "9223372036854775807")], ty: "units", run: run_217 },
    Cfg { name: "units length(min = 9223372036854775808, max = 9223372036854775808)", v: "length", attr: "min = 9223372036854775808, max = 9223372036854775808", opts: &[("min", "9223372036854775808"), ("max", "9223372036854775808")], ty: "units", run: run_218 },
    Cfg { name: "units length(min = 18446744073709551614, max = 18446744073709551615)", v: "length", attr: "min = 18446744073709551614, max = 18446744073709551615", opts: &[("min", "18446744073709551614"), ("max", "18446744073709551615")], ty: "units", run: run_219 },
    Cfg { name: "units length(min = 18446744073709551614, max = 18446744073709551614)", v: "length", attr: "min = 18446744073709551614, max = 18446744073709551614", opts: &[("min", "18446744073709551614"), ("max", "18446744073709551614")], ty: "units", run: run_220 },
    Cfg { name: "units length(min = 12, max = 1099511627776)", v: "length", attr: "min = 12, max = 1099511627776", opts: &[("min", "12"), ("max", "1099511627776")], ty: "units", run: run_221 },
    Cfg { name: "own length()", v: "length", attr: "", opts: &[("min", ""), ("max", "")], ty: "own", run: run_222 },
    Cfg { name: "own length(min = 0)", v: "length", attr: "min = 0", opts: &[("min", "0"), ("max", "")], ty: "own", run: run_223 },
    Cfg { name: "own length(min = 1)", v: "length", attr: "min = 1", opts: &[("min", "1"), ("max", "")], ty: "own", run: run_224 },
    Cfg { name: "own length(min = 3)", v: "length", attr: "min = 3", opts: &[("min", "3"), ("max", "")], ty: "own", run: run_225 },
    Cfg { name: "own length(max = 0)", v: "length", attr: "max = 0", opts: &[("min", ""), ("max", "0")], ty: "own", run: run_226 },
    Cfg { name: "own length(max = 3)", v: "length", attr: "max = 3", opts: &[("min", ""), ("max", "3")], ty: "own", run: run_227 },
    Cfg { name: "own length(min = 1, max = 3)", v: "length", attr: "min = 1, max = 3", opts: &[("min", "1"), ("max", "3")], ty: "own", run: run_228 },
    Cfg { name: "own length(min = 2, max = 2)", v: "length", attr: "min = 2, max = 2", opts: &[("min", "2"), ("max", "2")], ty: "own", run: run_229 },
    Cfg { name: "own length(min = 0, max = 0)", v: "length", attr: "min = 0, max = 0", opts: &[("min", "0"), ("max", "0")], ty: "own", run: run_230 },
    Cfg { name: "own length(min = 1, max = 1)", v: "length", attr: "min = 1, max = 1", opts: &[("min", "1"), ("max", "1")], ty: "own", run: run_231 },
    Cfg { name: "own length(min = 0, max = 5)", v: "length", attr: "min = 0, max = 5", opts: &[("min", "0"), ("max", "5")], ty: "own", run: run_232 },
    Cfg { name: "own length(min = 7, max = 8)", v: "length", attr: "min = 7, max = 8", opts: &[("min", "7"), ("max", "8")], ty: "own", run: run_233 },
    Cfg { name: "own length(min = 300, max = 400)", v: "length", attr: "min = 300, max = 400", opts: &[("min", "300"), ("max", "400")], ty: "own", run: run_234 },
    Cfg { name: "own length(max = 255)", v: "length", attr: "max = 255", opts: &[("min", ""), ("max", "255")], ty: "own", run: run_235 },
    Cfg { name: "own length(min = 256)", v: "length", attr: "min = 256", opts: &[("min", "256"), ("max", "")], ty: "own", run: run_236 },
    Cfg { name: "own length(min = 256, max = 256)", v: "length", attr: "min = 256, max = 256", opts: &[("min", "256"), ("max", "256")], ty: "own", run: run_237 },
    Cfg { name: "own length(min = 65535, max = 65536)", v: "length", attr: "min = 65535, max = 65536", opts: &[("min", "65535"), ("max", "65536")], ty: "own", run: run_238 },
    Cfg { name: "own length(max = 18446744073709551615)", v: "length", attr: "max = 18446744073709551615", opts: &[("min", ""), ("max", "18446744073709551615")], ty: "own", run: run_239 },
    Cfg { name: "own length(min = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "")], ty: "own", run: run_240 },
    Cfg { name: "own length(min = 18446744073709551615, max = 18446744073709551615)", v: "length", attr: "min = 18446744073709551615, max = 18446744073709551615", opts: &[("min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "own", run: run_241 },
    Cfg { name: "own length(min = 1, max = 18446744073709551615)", v: "length", attr: "min = 1, max = 18446744073709551615", opts: &[("min", "1"), ("max", "18446744073709551615")], ty: "own", run: run_242 },
    Cfg { name: "own length(max = 2147483648)", v: "length", attr: "max = 2147483648", opts: &[("min", ""), ("max", "2147483648")], ty: "own", run: run_243 },
    Cfg { name: "own length(min = 2147483647, max = 2147483648)", v: "length", attr: "min = 2147483647, max = 2147483648", opts: &[("min", "2147483647"), ("max", "2147483648")], ty: "own", run: run_244 },
    Cfg { name: "own length(min = 4294967296)", v: "length", attr: "min = 4294967296", opts: &[("min", "4294967296"), ("max", "")], ty: "own", run: run_245 },
    Cfg { name: "own length(max = 4294967295)", v: "length", attr: "max = 4294967295", opts: &[("min", ""), ("max", "4294967295")], ty: "own", run: run_246 },
    Cfg { name: "own length(min = 4294967296, max = 4294967296)", v: "length", attr: "min = 4294967296, max = 4294967296", opts: &[("min", "4294967296"), ("max", "4294967296")], ty: "own", run: run_247 },
    Cfg { name: "own length(min = 4294967299, max = 8589934592)", v: "length", attr: "min = 4294967299, max = 8589934592", opts: &[("min", "4294967299"), ("max", "8589934592")], ty: "own", run: run_248 },
    Cfg { name: "own length(min = 9223372036854775808)", v: "length", attr: "min = 9223372036854775808", opts: &[("min", "9223372036854775808"), ("max", "")], ty: "own", run: run_249 },
    Cfg { name: "own length(max = 9223372036854775807)", v: "length", attr: "max = 9223372036854775807", opts: &[("min", ""), ("max", "9223372036854775807")], ty: "own", run: run_250 },
    Cfg { name: "own length(min = 9223372036854775808, max = 9223372036854775808)", v: "length", attr: "min = 9223372036854775808, max = 9223372036854775808", opts: &[("min", "9223372036854775808"), ("max", "9223372036854775808")], ty: "own", run: run_251 },
    Cfg { name: "own length(min = 18446744073709551614, max = 18446744073709551615)", v: "length", attr: "min = 18446744073709551614, max = 18446744073709551615", opts: &[("min", "18446744073709551614"), ("max", "18446744073709551615")], ty: "own", run: run_252 },
    Cfg { name: "own length(min = 18446744073709551614, max = 18446744073709551614)", v: "length", attr: "min = 18446744073709551614, max = 18446744073709551614", opts: &[("min", "18446744073709551614"), ("max", "18446744073709551614")], ty: "own", run: run_253 },
    Cfg { name: "own length(min = 12, max = 1099511627776)", v: "length", attr: "min = 12, max = 1099511627776", opts: &[("min", "12"), ("max", "1099511627776")], ty: "own", run: run_254 },
];
