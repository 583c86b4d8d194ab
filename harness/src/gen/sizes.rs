// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit)]
pub struct V0x(pub validators::byte_unit::Bit);
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range()))]
pub struct V1x(pub validators::byte_unit::Bit);
fn run_1(i: &Input) -> Out { type Vx = V1x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1)))]
pub struct V2x(pub validators::byte_unit::Bit);
fn run_2(i: &Input) -> Out { type Vx = V2x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 1000)))]
pub struct V3x(pub validators::byte_unit::Bit);
fn run_3(i: &Input) -> Out { type Vx = V3x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 1000, inclusive = false)))]
pub struct V4x(pub validators::byte_unit::Bit);
fn run_4(i: &Input) -> Out { type Vx = V4x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1, max = 1000)))]
pub struct V5x(pub validators::byte_unit::Bit);
fn run_5(i: &Input) -> Out { type Vx = V5x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1, max = 1000, inclusive = false)))]
pub struct V6x(pub validators::byte_unit::Bit);
fn run_6(i: &Input) -> Out { type Vx = V6x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1500)))]
pub struct V7x(pub validators::byte_unit::Bit);
fn run_7(i: &Input) -> Out { type Vx = V7x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 1000000)))]
pub struct V8x(pub validators::byte_unit::Bit);
fn run_8(i: &Input) -> Out { type Vx = V8x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 1000000, inclusive = false)))]
pub struct V9x(pub validators::byte_unit::Bit);
fn run_9(i: &Input) -> Out { type Vx = V9x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1500, max = 1000000)))]
pub struct V10x(pub validators::byte_unit::Bit);
fn run_10(i: &Input) -> Out { type Vx = V10x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1500, max = 1000000, inclusive = false)))]
pub struct V11x(pub validators::byte_unit::Bit);
fn run_11(i: &Input) -> Out { type Vx = V11x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1000)))]
pub struct V12x(pub validators::byte_unit::Bit);
fn run_12(i: &Input) -> Out { type Vx = V12x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 1048576)))]
pub struct V13x(pub validators::byte_unit::Bit);
fn run_13(i: &Input) -> Out { type Vx = V13x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 1048576, inclusive = false)))]
pub struct V14x(pub validators::byte_unit::Bit);
fn run_14(i: &Input) -> Out { type Vx = V14x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1000, max = 1048576)))]
pub struct V15x(pub validators::byte_unit::Bit);
fn run_15(i: &Input) -> Out { type Vx = V15x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1000, max = 1048576, inclusive = false)))]
pub struct V16x(pub validators::byte_unit::Bit);
fn run_16(i: &Input) -> Out { type Vx = V16x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1000000000)))]
pub struct V17x(pub validators::byte_unit::Bit);
fn run_17(i: &Input) -> Out { type Vx = V17x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 1000000000000)))]
pub struct V18x(pub validators::byte_unit::Bit);
fn run_18(i: &Input) -> Out { type Vx = V18x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 1000000000000, inclusive = false)))]
pub struct V19x(pub validators::byte_unit::Bit);
fn run_19(i: &Input) -> Out { type Vx = V19x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1000000000, max = 1000000000000)))]
pub struct V20x(pub validators::byte_unit::Bit);
fn run_20(i: &Input) -> Out { type Vx = V20x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1000000000, max = 1000000000000, inclusive = false)))]
pub struct V21x(pub validators::byte_unit::Bit);
fn run_21(i: &Input) -> Out { type Vx = V21x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1024, max = 1024)))]
pub struct V22x(pub validators::byte_unit::Bit);
fn run_22(i: &Input) -> Out { type Vx = V22x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1024, max = 1025, inclusive = false)))]
pub struct V23x(pub validators::byte_unit::Bit);
fn run_23(i: &Input) -> Out { type Vx = V23x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 0)))]
pub struct V24x(pub validators::byte_unit::Bit);
fn run_24(i: &Input) -> Out { type Vx = V24x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 18446744073709551615)))]
pub struct V25x(pub validators::byte_unit::Bit);
fn run_25(i: &Input) -> Out { type Vx = V25x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 18446744073709551615, inclusive = false)))]
pub struct V26x(pub validators::byte_unit::Bit);
fn run_26(i: &Input) -> Out { type Vx = V26x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 18446744073709551616)))]
pub struct V27x(pub validators::byte_unit::Bit);
fn run_27(i: &Input) -> Out { type Vx = V27x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 18446744073709551620)))]
pub struct V28x(pub validators::byte_unit::Bit);
fn run_28(i: &Input) -> Out { type Vx = V28x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(8..=800)))]
pub struct V29x(pub validators::byte_unit::Bit);
fn run_29(i: &Input) -> Out { type Vx = V29x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(8..800)))]
pub struct V30x(pub validators::byte_unit::Bit);
fn run_30(i: &Input) -> Out { type Vx = V30x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(8..)))]
pub struct V31x(pub validators::byte_unit::Bit);
fn run_31(i: &Input) -> Out { type Vx = V31x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(..=800)))]
pub struct V32x(pub validators::byte_unit::Bit);
fn run_32(i: &Input) -> Out { type Vx = V32x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte)]
pub struct V33x(pub validators::byte_unit::Byte);
fn run_33(i: &Input) -> Out { type Vx = V33x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range()))]
pub struct V34x(pub validators::byte_unit::Byte);
fn run_34(i: &Input) -> Out { type Vx = V34x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1)))]
pub struct V35x(pub validators::byte_unit::Byte);
fn run_35(i: &Input) -> Out { type Vx = V35x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000)))]
pub struct V36x(pub validators::byte_unit::Byte);
fn run_36(i: &Input) -> Out { type Vx = V36x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000, inclusive = false)))]
pub struct V37x(pub validators::byte_unit::Byte);
fn run_37(i: &Input) -> Out { type Vx = V37x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1, max = 1000)))]
pub struct V38x(pub validators::byte_unit::Byte);
fn run_38(i: &Input) -> Out { type Vx = V38x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1, max = 1000, inclusive = false)))]
pub struct V39x(pub validators::byte_unit::Byte);
fn run_39(i: &Input) -> Out { type Vx = V39x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1500)))]
pub struct V40x(pub validators::byte_unit::Byte);
fn run_40(i: &Input) -> Out { type Vx = V40x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000000)))]
pub struct V41x(pub validators::byte_unit::Byte);
fn run_41(i: &Input) -> Out { type Vx = V41x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000000, inclusive = false)))]
pub struct V42x(pub validators::byte_unit::Byte);
fn run_42(i: &Input) -> Out { type Vx = V42x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1500, max = 1000000)))]
pub struct V43x(pub validators::byte_unit::Byte);
fn run_43(i: &Input) -> Out { type Vx = V43x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1500, max = 1000000, inclusive = false)))]
pub struct V44x(pub validators::byte_unit::Byte);
fn run_44(i: &Input) -> Out { type Vx = V44x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000)))]
pub struct V45x(pub validators::byte_unit::Byte);
fn run_45(i: &Input) -> Out { type Vx = V45x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1048576)))]
pub struct V46x(pub validators::byte_unit::Byte);
fn run_46(i: &Input) -> Out { type Vx = V46x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1048576, inclusive = false)))]
pub struct V47x(pub validators::byte_unit::Byte);
fn run_47(i: &Input) -> Out { type Vx = V47x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000, max = 1048576)))]
pub struct V48x(pub validators::byte_unit::Byte);
fn run_48(i: &Input) -> Out { type Vx = V48x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000, max = 1048576, inclusive = false)))]
pub struct V49x(pub validators::byte_unit::Byte);
fn run_49(i: &Input) -> Out { type Vx = V49x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000000000)))]
pub struct V50x(pub validators::byte_unit::Byte);
fn run_50(i: &Input) -> Out { type Vx = V50x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000000000000)))]
pub struct V51x(pub validators::byte_unit::Byte);
fn run_51(i: &Input) -> Out { type Vx = V51x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000000000000, inclusive = false)))]
pub struct V52x(pub validators::byte_unit::Byte);
fn run_52(i: &Input) -> Out { type Vx = V52x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000000000, max = 1000000000000)))]
pub struct V53x(pub validators::byte_unit::Byte);
fn run_53(i: &Input) -> Out { type Vx = V53x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000000000, max = 1000000000000, inclusive = false)))]
pub struct V54x(pub validators::byte_unit::Byte);
fn run_54(i: &Input) -> Out { type Vx = V54x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1024, max = 1024)))]
pub struct V55x(pub validators::byte_unit::Byte);
fn run_55(i: &Input) -> Out { type Vx = V55x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1024, max = 1025, inclusive = false)))]
pub struct V56x(pub validators::byte_unit::Byte);
fn run_56(i: &Input) -> Out { type Vx = V56x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 0)))]
pub struct V57x(pub validators::byte_unit::Byte);
fn run_57(i: &Input) -> Out { type Vx = V57x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 18446744073709551615)))]
pub struct V58x(pub validators::byte_unit::Byte);
fn run_58(i: &Input) -> Out { type Vx = V58x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 18446744073709551615, inclusive = false)))]
pub struct V59x(pub validators::byte_unit::Byte);
fn run_59(i: &Input) -> Out { type Vx = V59x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 18446744073709551616)))]
pub struct V60x(pub validators::byte_unit::Byte);
fn run_60(i: &Input) -> Out { type Vx = V60x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 18446744073709551620)))]
pub struct V61x(pub validators::byte_unit::Byte);
fn run_61(i: &Input) -> Out { type Vx = V61x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(8..=800)))]
pub struct V62x(pub validators::byte_unit::Byte);
fn run_62(i: &Input) -> Out { type Vx = V62x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(8..800)))]
pub struct V63x(pub validators::byte_unit::Byte);
fn run_63(i: &Input) -> Out { type Vx = V63x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(8..)))]
pub struct V64x(pub validators::byte_unit::Byte);
fn run_64(i: &Input) -> Out { type Vx = V64x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(..=800)))]
pub struct V65x(pub validators::byte_unit::Byte);
fn run_65(i: &Input) -> Out { type Vx = V65x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(ignore_case = true))]
pub struct V66x(pub validators::byte_unit::Byte);
fn run_66(i: &Input) -> Out { type Vx = V66x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(), ignore_case = true))]
pub struct V67x(pub validators::byte_unit::Byte);
fn run_67(i: &Input) -> Out { type Vx = V67x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1), ignore_case = true))]
pub struct V68x(pub validators::byte_unit::Byte);
fn run_68(i: &Input) -> Out { type Vx = V68x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000), ignore_case = true))]
pub struct V69x(pub validators::byte_unit::Byte);
fn run_69(i: &Input) -> Out { type Vx = V69x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000, inclusive = false), ignore_case = true))]
pub struct V70x(pub validators::byte_unit::Byte);
fn run_70(i: &Input) -> Out { type Vx = V70x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1, max = 1000), ignore_case = true))]
pub struct V71x(pub validators::byte_unit::Byte);
fn run_71(i: &Input) -> Out { type Vx = V71x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1, max = 1000, inclusive = false), ignore_case = true))]
pub struct V72x(pub validators::byte_unit::Byte);
fn run_72(i: &Input) -> Out { type Vx = V72x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1500), ignore_case = true))]
pub struct V73x(pub validators::byte_unit::Byte);
fn run_73(i: &Input) -> Out { type Vx = V73x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000000), ignore_case = true))]
pub struct V74x(pub validators::byte_unit::Byte);
fn run_74(i: &Input) -> Out { type Vx = V74x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000000, inclusive = false), ignore_case = true))]
pub struct V75x(pub validators::byte_unit::Byte);
fn run_75(i: &Input) -> Out { type Vx = V75x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1500, max = 1000000), ignore_case = true))]
pub struct V76x(pub validators::byte_unit::Byte);
fn run_76(i: &Input) -> Out { type Vx = V76x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1500, max = 1000000, inclusive = false), ignore_case = true))]
pub struct V77x(pub validators::byte_unit::Byte);
fn run_77(i: &Input) -> Out { type Vx = V77x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000), ignore_case = true))]
pub struct V78x(pub validators::byte_unit::Byte);
fn run_78(i: &Input) -> Out { type Vx = V78x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1048576), ignore_case = true))]
pub struct V79x(pub validators::byte_unit::Byte);
fn run_79(i: &Input) -> Out { type Vx = V79x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1048576, inclusive = false), ignore_case = true))]
pub struct V80x(pub validators::byte_unit::Byte);
fn run_80(i: &Input) -> Out { type Vx = V80x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000, max = 1048576), ignore_case = true))]
pub struct V81x(pub validators::byte_unit::Byte);
fn run_81(i: &Input) -> Out { type Vx = V81x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000, max = 1048576, inclusive = false), ignore_case = true))]
pub struct V82x(pub validators::byte_unit::Byte);
fn run_82(i: &Input) -> Out { type Vx = V82x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000000000), ignore_case = true))]
pub struct V83x(pub validators::byte_unit::Byte);
fn run_83(i: &Input) -> Out { type Vx = V83x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000000000000), ignore_case = true))]
pub struct V84x(pub validators::byte_unit::Byte);
fn run_84(i: &Input) -> Out { type Vx = V84x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000000000000, inclusive = false), ignore_case = true))]
pub struct V85x(pub validators::byte_unit::Byte);
fn run_85(i: &Input) -> Out { type Vx = V85x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000000000, max = 1000000000000), ignore_case = true))]
pub struct V86x(pub validators::byte_unit::Byte);
fn run_86(i: &Input) -> Out { type Vx = V86x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000000000, max = 1000000000000, inclusive = false), ignore_case = true))]
pub struct V87x(pub validators::byte_unit::Byte);
fn run_87(i: &Input) -> Out { type Vx = V87x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1024, max = 1024), ignore_case = true))]
pub struct V88x(pub validators::byte_unit::Byte);
fn run_88(i: &Input) -> Out { type Vx = V88x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1024, max = 1025, inclusive = false), ignore_case = true))]
pub struct V89x(pub validators::byte_unit::Byte);
fn run_89(i: &Input) -> Out { type Vx = V89x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 0), ignore_case = true))]
pub struct V90x(pub validators::byte_unit::Byte);
fn run_90(i: &Input) -> Out { type Vx = V90x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 18446744073709551615), ignore_case = true))]
pub struct V91x(pub validators::byte_unit::Byte);
fn run_91(i: &Input) -> Out { type Vx = V91x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 18446744073709551615, inclusive = false), ignore_case = true))]
pub struct V92x(pub validators::byte_unit::Byte);
fn run_92(i: &Input) -> Out { type Vx = V92x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 18446744073709551616), ignore_case = true))]
pub struct V93x(pub validators::byte_unit::Byte);
fn run_93(i: &Input) -> Out { type Vx = V93x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 18446744073709551620), ignore_case = true))]
pub struct V94x(pub validators::byte_unit::Byte);
fn run_94(i: &Input) -> Out { type Vx = V94x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(8..=800), ignore_case = true))]
pub struct V95x(pub validators::byte_unit::Byte);
fn run_95(i: &Input) -> Out { type Vx = V95x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(8..800), ignore_case = true))]
pub struct V96x(pub validators::byte_unit::Byte);
fn run_96(i: &Input) -> Out { type Vx = V96x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(8..), ignore_case = true))]
pub struct V97x(pub validators::byte_unit::Byte);
fn run_97(i: &Input) -> Out { type Vx = V97x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(..=800), ignore_case = true))]
pub struct V98x(pub validators::byte_unit::Byte);
fn run_98(i: &Input) -> Out { type Vx = V98x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(ignore_case = false))]
pub struct V99x(pub validators::byte_unit::Byte);
fn run_99(i: &Input) -> Out { type Vx = V99x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(), ignore_case = false))]
pub struct V100x(pub validators::byte_unit::Byte);
fn run_100(i: &Input) -> Out { type Vx = V100x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1), ignore_case = false))]
pub struct V101x(pub validators::byte_unit::Byte);
fn run_101(i: &Input) -> Out { type Vx = V101x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000), ignore_case = false))]
pub struct V102x(pub validators::byte_unit::Byte);
fn run_102(i: &Input) -> Out { type Vx = V102x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000, inclusive = false), ignore_case = false))]
pub struct V103x(pub validators::byte_unit::Byte);
fn run_103(i: &Input) -> Out { type Vx = V103x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1, max = 1000), ignore_case = false))]
pub struct V104x(pub validators::byte_unit::Byte);
fn run_104(i: &Input) -> Out { type Vx = V104x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1, max = 1000, inclusive = false), ignore_case = false))]
pub struct V105x(pub validators::byte_unit::Byte);
fn run_105(i: &Input) -> Out { type Vx = V105x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1500), ignore_case = false))]
pub struct V106x(pub validators::byte_unit::Byte);
fn run_106(i: &Input) -> Out { type Vx = V106x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000000), ignore_case = false))]
pub struct V107x(pub validators::byte_unit::Byte);
fn run_107(i: &Input) -> Out { type Vx = V107x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000000, inclusive = false), ignore_case = false))]
pub struct V108x(pub validators::byte_unit::Byte);
fn run_108(i: &Input) -> Out { type Vx = V108x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1500, max = 1000000), ignore_case = false))]
pub struct V109x(pub validators::byte_unit::Byte);
fn run_109(i: &Input) -> Out { type Vx = V109x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1500, max = 1000000, inclusive = false), ignore_case = false))]
pub struct V110x(pub validators::byte_unit::Byte);
fn run_110(i: &Input) -> Out { type Vx = V110x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000), ignore_case = false))]
pub struct V111x(pub validators::byte_unit::Byte);
fn run_111(i: &Input) -> Out { type Vx = V111x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1048576), ignore_case = false))]
pub struct V112x(pub validators::byte_unit::Byte);
fn run_112(i: &Input) -> Out { type Vx = V112x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1048576, inclusive = false), ignore_case = false))]
pub struct V113x(pub validators::byte_unit::Byte);
fn run_113(i: &Input) -> Out { type Vx = V113x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000, max = 1048576), ignore_case = false))]
pub struct V114x(pub validators::byte_unit::Byte);
fn run_114(i: &Input) -> Out { type Vx = V114x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000, max = 1048576, inclusive = false), ignore_case = false))]
pub struct V115x(pub validators::byte_unit::Byte);
fn run_115(i: &Input) -> Out { type Vx = V115x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000000000), ignore_case = false))]
pub struct V116x(pub validators::byte_unit::Byte);
fn run_116(i: &Input) -> Out { type Vx = V116x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000000000000), ignore_case = false))]
pub struct V117x(pub validators::byte_unit::Byte);
fn run_117(i: &Input) -> Out { type Vx = V117x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000000000000, inclusive = false), ignore_case = false))]
pub struct V118x(pub validators::byte_unit::Byte);
fn run_118(i: &Input) -> Out { type Vx = V118x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000000000, max = 1000000000000), ignore_case = false))]
pub struct V119x(pub validators::byte_unit::Byte);
fn run_119(i: &Input) -> Out { type Vx = V119x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000000000, max = 1000000000000, inclusive = false), ignore_case = false))]
pub struct V120x(pub validators::byte_unit::Byte);
fn run_120(i: &Input) -> Out { type Vx = V120x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1024, max = 1024), ignore_case = false))]
pub struct V121x(pub validators::byte_unit::Byte);
fn run_121(i: &Input) -> Out { type Vx = V121x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1024, max = 1025, inclusive = false), ignore_case = false))]
pub struct V122x(pub validators::byte_unit::Byte);
fn run_122(i: &Input) -> Out { type Vx = V122x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 0), ignore_case = false))]
pub struct V123x(pub validators::byte_unit::Byte);
fn run_123(i: &Input) -> Out { type Vx = V123x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 18446744073709551615), ignore_case = false))]
pub struct V124x(pub validators::byte_unit::Byte);
fn run_124(i: &Input) -> Out { type Vx = V124x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 18446744073709551615, inclusive = false), ignore_case = false))]
pub struct V125x(pub validators::byte_unit::Byte);
fn run_125(i: &Input) -> Out { type Vx = V125x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 18446744073709551616), ignore_case = false))]
pub struct V126x(pub validators::byte_unit::Byte);
fn run_126(i: &Input) -> Out { type Vx = V126x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 18446744073709551620), ignore_case = false))]
pub struct V127x(pub validators::byte_unit::Byte);
fn run_127(i: &Input) -> Out { type Vx = V127x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(8..=800), ignore_case = false))]
pub struct V128x(pub validators::byte_unit::Byte);
fn run_128(i: &Input) -> Out { type Vx = V128x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(8..800), ignore_case = false))]
pub struct V129x(pub validators::byte_unit::Byte);
fn run_129(i: &Input) -> Out { type Vx = V129x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(8..), ignore_case = false))]
pub struct V130x(pub validators::byte_unit::Byte);
fn run_130(i: &Input) -> Out { type Vx = V130x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(..=800), ignore_case = false))]
pub struct V131x(pub validators::byte_unit::Byte);
fn run_131(i: &Input) -> Out { type Vx = V131x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.as_u128().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "bit()", v: "bit", attr: "", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_0 },
    Cfg { name: "bit(range())", v: "bit", attr: "range()", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_1 },
    Cfg { name: "bit(range(min = 1))", v: "bit", attr: "range(min = 1)", opts: &[("kind", "Inside"), ("min", "1"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_2 },
    Cfg { name: "bit(range(max = 1000))", v: "bit", attr: "range(max = 1000)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_3 },
    Cfg { name: "bit(range(max = 1000, inclusive = false))", v: "bit", attr: "range(max = 1000, inclusive = false)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Bit", run: run_4 },
    Cfg { name: "bit(range(min = 1, max = 1000))", v: "bit", attr: "range(min = 1, max = 1000)", opts: &[("kind", "Inside"), ("min", "1"), ("max", "1000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_5 },
    Cfg { name: "bit(range(min = 1, max = 1000, inclusive = false))", v: "bit", attr: "range(min = 1, max = 1000, inclusive = false)", opts: &[("kind", "Inside"), ("min", "1"), ("max", "1000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Bit", run: run_6 },
    Cfg { name: "bit(range(min = 1500))", v: "bit", attr: "range(min = 1500)", opts: &[("kind", "Inside"), ("min", "1500"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_7 },
    Cfg { name: "bit(range(max = 1000000))", v: "bit", attr: "range(max = 1000000)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_8 },
    Cfg { name: "bit(range(max = 1000000, inclusive = false))", v: "bit", attr: "range(max = 1000000, inclusive = false)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Bit", run: run_9 },
    Cfg { name: "bit(range(min = 1500, max = 1000000))", v: "bit", attr: "range(min = 1500, max = 1000000)", opts: &[("kind", "Inside"), ("min", "1500"), ("max", "1000000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_10 },
    Cfg { name: "bit(range(min = 1500, max = 1000000, inclusive = false))", v: "bit", attr: "range(min = 1500, max = 1000000, inclusive = false)", opts: &[("kind", "Inside"), ("min", "1500"), ("max", "1000000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Bit", run: run_11 },
    Cfg { name: "bit(range(min = 1000))", v: "bit", attr: "range(min = 1000)", opts: &[("kind", "Inside"), ("min", "1000"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_12 },
    Cfg { name: "bit(range(max = 1048576))", v: "bit", attr: "range(max = 1048576)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1048576"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_13 },
    Cfg { name: "bit(range(max = 1048576, inclusive = false))", v: "bit", attr: "range(max = 1048576, inclusive = false)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1048576"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Bit", run: run_14 },
    Cfg { name: "bit(range(min = 1000, max = 1048576))", v: "bit", attr: "range(min = 1000, max = 1048576)", opts: &[("kind", "Inside"), ("min", "1000"), ("max", "1048576"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_15 },
    Cfg { name: "bit(range(min = 1000, max = 1048576, inclusive = false))", v: "bit", attr: "range(min = 1000, max = 1048576, inclusive = false)", opts: &[("kind", "Inside"), ("min", "1000"), ("max", "1048576"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Bit", run: run_16 },
    Cfg { name: "bit(range(min = 1000000000))", v: "bit", attr: "range(min = 1000000000)", opts: &[("kind", "Inside"), ("min", "1000000000"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_17 },
    Cfg { name: "bit(range(max = 1000000000000))", v: "bit", attr: "range(max = 1000000000000)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000000000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_18 },
    Cfg { name: "bit(range(max = 1000000000000, inclusive = false))", v: "bit", attr: "range(max = 1000000000000, inclusive = false)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000000000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Bit", run: run_19 },
    Cfg { name: "bit(range(min = 1000000000, max = 1000000000000))", v: "bit", attr: "range(min = 1000000000, max = 1000000000000)", opts: &[("kind", "Inside"), ("min", "1000000000"), ("max", "1000000000000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_20 },
    Cfg { name: "bit(range(min = 1000000000, max = 1000000000000, inclusive = false))", v: "bit", attr: "range(min = 1000000000, max = 1000000000000, inclusive = false)", opts: &[("kind", "Inside"), ("min", "1000000000"), ("max", "1000000000000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Bit", run: run_21 },
    Cfg { name: "bit(range(min = 1024, max = 1024))", v: "bit", attr: "range(min = 1024, max = 1024)", opts: &[("kind", "Inside"), ("min", "1024"), ("max", "1024"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_22 },
    Cfg { name: "bit(range(min = 1024, max = 1025, inclusive = false))", v: "bit", attr: "range(min = 1024, max = 1025, inclusive = false)", opts: &[("kind", "Inside"), ("min", "1024"), ("max", "1025"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Bit", run: run_23 },
    Cfg { name: "bit(range(min = 0))", v: "bit", attr: "range(min = 0)", opts: &[("kind", "Inside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_24 },
    Cfg { name: "bit(range(min = 18446744073709551615))", v: "bit", attr: "range(min = 18446744073709551615)", opts: &[("kind", "Inside"), ("min", "18446744073709551615"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_25 },
    Cfg { name: "bit(range(max = 18446744073709551615, inclusive = false))", v: "bit", attr: "range(max = 18446744073709551615, inclusive = false)", opts: &[("kind", "Inside"), ("min", ""), ("max", "18446744073709551615"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Bit", run: run_26 },
    Cfg { name: "bit(range(min = 18446744073709551616))", v: "bit", attr: "range(min = 18446744073709551616)", opts: &[("kind", "Inside"), ("min", "18446744073709551616"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_27 },
    Cfg { name: "bit(range(max = 18446744073709551620))", v: "bit", attr: "range(max = 18446744073709551620)", opts: &[("kind", "Inside"), ("min", ""), ("max", "18446744073709551620"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_28 },
    Cfg { name: "bit(range(8..=800))", v: "bit", attr: "range(8..=800)", opts: &[("kind", "Inside"), ("min", "8"), ("max", "800"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_29 },
    Cfg { name: "bit(range(8..800))", v: "bit", attr: "range(8..800)", opts: &[("kind", "Inside"), ("min", "8"), ("max", "800"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Bit", run: run_30 },
    Cfg { name: "bit(range(8..))", v: "bit", attr: "range(8..)", opts: &[("kind", "Inside"), ("min", "8"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_31 },
    Cfg { name: "bit(range(..=800))", v: "bit", attr: "range(..=800)", opts: &[("kind", "Inside"), ("min", ""), ("max", "800"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Bit", run: run_32 },
    Cfg { name: "byte()", v: "byte", attr: "", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_33 },
    Cfg { name: "byte(range())", v: "byte", attr: "range()", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_34 },
    Cfg { name: "byte(range(min = 1))", v: "byte", attr: "range(min = 1)", opts: &[("kind", "Inside"), ("min", "1"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_35 },
    Cfg { name: "byte(range(max = 1000))", v: "byte", attr: "range(max = 1000)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_36 },
    Cfg { name: "byte(range(max = 1000, inclusive = false))", v: "byte", attr: "range(max = 1000, inclusive = false)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_37 },
    Cfg { name: "byte(range(min = 1, max = 1000))", v: "byte", attr: "range(min = 1, max = 1000)", opts: &[("kind", "Inside"), ("min", "1"), ("max", "1000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_38 },
    Cfg { name: "byte(range(min = 1, max = 1000, inclusive = false))", v: "byte", attr: "range(min = 1, max = 1000, inclusive = false)", opts: &[("kind", "Inside"), ("min", "1"), ("max", "1000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_39 },
    Cfg { name: "byte(range(min = 1500))", v: "byte", attr: "range(min = 1500)", opts: &[("kind", "Inside"), ("min", "1500"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_40 },
    Cfg { name: "byte(range(max = 1000000))", v: "byte", attr: "range(max = 1000000)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_41 },
    Cfg { name: "byte(range(max = 1000000, inclusive = false))", v: "byte", attr: "range(max = 1000000, inclusive = false)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_42 },
    Cfg { name: "byte(range(min = 1500, max = 1000000))", v: "byte", attr: "range(min = 1500, max = 1000000)", opts: &[("kind", "Inside"), ("min", "1500"), ("max", "1000000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_43 },
    Cfg { name: "byte(range(min = 1500, max = 1000000, inclusive = false))", v: "byte", attr: "range(min = 1500, max = 1000000, inclusive = false)", opts: &[("kind", "Inside"), ("min", "1500"), ("max", "1000000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_44 },
    Cfg { name: "byte(range(min = 1000))", v: "byte", attr: "range(min = 1000)", opts: &[("kind", "Inside"), ("min", "1000"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_45 },
    Cfg { name: "byte(range(max = 1048576))", v: "byte", attr: "range(max = 1048576)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1048576"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_46 },
    Cfg { name: "byte(range(max = 1048576, inclusive = false))", v: "byte", attr: "range(max = 1048576, inclusive = false)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1048576"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_47 },
    Cfg { name: "byte(range(min = 1000, max = 1048576))", v: "byte", attr: "range(min = 1000, max = 1048576)", opts: &[("kind", "Inside"), ("min", "1000"), ("max", "1048576"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_48 },
    Cfg { name: "byte(range(min = 1000, max = 1048576, inclusive = false))", v: "byte", attr: "range(min = 1000, max = 1048576, inclusive = false)", opts: &[("kind", "Inside"), ("min", "1000"), ("max", "1048576"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_49 },
    Cfg { name: "byte(range(min = 1000000000))", v: "byte", attr: "range(min = 1000000000)", opts: &[("kind", "Inside"), ("min", "1000000000"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_50 },
    Cfg { name: "byte(range(max = 1000000000000))", v: "byte", attr: "range(max = 1000000000000)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000000000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_51 },
    Cfg { name: "byte(range(max = 1000000000000, inclusive = false))", v: "byte", attr: "range(max = 1000000000000, inclusive = false)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000000000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_52 },
    Cfg { name: "byte(range(min = 1000000000, max = 1000000000000))", v: "byte", attr: "range(min = 1000000000, max = 1000000000000)", opts: &[("kind", "Inside"), ("min", "1000000000"), ("max", "1000000000000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_53 },
    Cfg { name: "byte(range(min = 1000000000, max = 1000000000000, inclusive = false))", v: "byte", attr: "range(min = 1000000000, max = 1000000000000, inclusive = false)", opts: &[("kind", "Inside"), ("min", "1000000000"), ("max", "1000000000000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_54 },
    Cfg { name: "byte(range(min = 1024, max = 1024))", v: "byte", attr: "range(min = 1024, max = 1024)", opts: &[("kind", "Inside"), ("min", "1024"), ("max", "1024"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_55 },
    Cfg { name: "byte(range(min = 1024, max = 1025, inclusive = false))", v: "byte", attr: "range(min = 1024, max = 1025, inclusive = false)", opts: &[("kind", "Inside"), ("min", "1024"), ("max", "1025"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_56 },
    Cfg { name: "byte(range(min = 0))", v: "byte", attr: "range(min = 0)", opts: &[("kind", "Inside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_57 },
    Cfg { name: "byte(range(min = 18446744073709551615))", v: "byte", attr: "range(min = 18446744073709551615)", opts: &[("kind", "Inside"), ("min", "18446744073709551615"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_58 },
    Cfg { name: "byte(range(max = 18446744073709551615, inclusive = false))", v: "byte", attr: "range(max = 18446744073709551615, inclusive = false)", opts: &[("kind", "Inside"), ("min", ""), ("max", "18446744073709551615"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_59 },
    Cfg { name: "byte(range(min = 18446744073709551616))", v: "byte", attr: "range(min = 18446744073709551616)", opts: &[("kind", "Inside"), ("min", "18446744073709551616"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_60 },
    Cfg { name: "byte(range(max = 18446744073709551620))", v: "byte", attr: "range(max = 18446744073709551620)", opts: &[("kind", "Inside"), ("min", ""), ("max", "18446744073709551620"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_61 },
    Cfg { name: "byte(range(8..=800))", v: "byte", attr: "range(8..=800)", opts: &[("kind", "Inside"), ("min", "8"), ("max", "800"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_62 },
    Cfg { name: "byte(range(8..800))", v: "byte", attr: "range(8..800)", opts: &[("kind", "Inside"), ("min", "8"), ("max", "800"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_63 },
    Cfg { name: "byte(range(8..))", v: "byte", attr: "range(8..)", opts: &[("kind", "Inside"), ("min", "8"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_64 },
    Cfg { name: "byte(range(..=800))", v: "byte", attr: "range(..=800)", opts: &[("kind", "Inside"), ("min", ""), ("max", "800"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_65 },
    Cfg { name: "byte(ignore_case = true)", v: "byte", attr: "ignore_case = true", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_66 },
    Cfg { name: "byte(range(), ignore_case = true)", v: "byte", attr: "range(), ignore_case = true", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_67 },
    Cfg { name: "byte(range(min = 1), ignore_case = true)", v: "byte", attr: "range(min = 1), ignore_case = true", opts: &[("kind", "Inside"), ("min", "1"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_68 },
    Cfg { name: "byte(range(max = 1000), ignore_case = true)", v: "byte", attr: "range(max = 1000), ignore_case = true", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_69 },
    Cfg { name: "byte(range(max = 1000, inclusive = false), ignore_case = true)", v: "byte", attr: "range(max = 1000, inclusive = false), ignore_case = true", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_70 },
    Cfg { name: "byte(range(min = 1, max = 1000), ignore_case = true)", v: "byte", attr: "range(min = 1, max = 1000), ignore_case = true", opts: &[("kind", "Inside"), ("min", "1"), ("max", "1000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_71 },
    Cfg { name: "byte(range(min = 1, max = 1000, inclusive = false), ignore_case = true)", v: "byte", attr: "range(min = 1, max = 1000, inclusive = false), ignore_case = true", opts: &[("kind", "Inside"), ("min", "1"), ("max", "1000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_72 },
    Cfg { name: "byte(range(min = 1500), ignore_case = true)", v: "byte", attr: "range(min = 1500), ignore_case = true", opts: &[("kind", "Inside"), ("min", "1500"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_73 },
    Cfg { name: "byte(range(max = 1000000), ignore_case = true)", v: "byte", attr: "range(max = 1000000), ignore_case = true", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_74 },
    Cfg { name: "byte(range(max = 1000000, inclusive = false), ignore_case = true)", v: "byte", attr: "range(max = 1000000, inclusive = false), ignore_case = true", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_75 },
    Cfg { name: "byte(range(min = 1500, max = 1000000), ignore_case = true)", v: "byte", attr: "range(min = 1500, max = 1000000), ignore_case = true", opts: &[("kind", "Inside"), ("min", "1500"), ("max", "1000000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_76 },
    Cfg { name: "byte(range(min = 1500, max = 1000000, inclusive = false), ignore_case = true)", v: "byte", attr: "range(min = 1500, max = 1000000, inclusive = false), ignore_case = true", opts: &[("kind", "Inside"), ("min", "1500"), ("max", "1000000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_77 },
    Cfg { name: "byte(range(min = 1000), ignore_case = true)", v: "byte", attr: "range(min = 1000), ignore_case = true", opts: &[("kind", "Inside"), ("min", "1000"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_78 },
    Cfg { name: "byte(range(max = 1048576), ignore_case = true)", v: "byte", attr: "range(max = 1048576), ignore_case = true", opts: &[("kind", "Inside"), ("min", ""), ("max", "1048576"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_79 },
    Cfg { name: "byte(range(max = 1048576, inclusive = false), ignore_case = true)", v: "byte", attr: "range(max = 1048576, inclusive = false), ignore_case = true", opts: &[("kind", "Inside"), ("min", ""), ("max", "1048576"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_80 },
    Cfg { name: "byte(range(min = 1000, max = 1048576), ignore_case = true)", v: "byte", attr: "range(min = 1000, max = 1048576), ignore_case = true", opts: &[("kind", "Inside"), ("min", "1000"), ("max", "1048576"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_81 },
    Cfg { name: "byte(range(min = 1000, max = 1048576, inclusive = false), ignore_case = true)", v: "byte", attr: "range(min = 1000, max = 1048576, inclusive = false), ignore_case = true", opts: &[("kind", "Inside"), ("min", "1000"), ("max", "1048576"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_82 },
    Cfg { name: "byte(range(min = 1000000000), ignore_case = true)", v: "byte", attr: "range(min = 1000000000), ignore_case = true", opts: &[("kind", "Inside"), ("min", "1000000000"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_83 },
    Cfg { name: "byte(range(max = 1000000000000), ignore_case = true)", v: "byte", attr: "range(max = 1000000000000), ignore_case = true", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000000000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_84 },
    Cfg { name: "byte(range(max = 1000000000000, inclusive = false), ignore_case = true)", v: "byte", attr: "range(max = 1000000000000, inclusive = false), ignore_case = true", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000000000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_85 },
    Cfg { name: "byte(range(min = 1000000000, max = 1000000000000), ignore_case = true)", v: "byte", attr: "range(min = 1000000000, max = 1000000000000), ignore_case = true", opts: &[("kind", "Inside"), ("min", "1000000000"), ("max", "1000000000000"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_86 },
    Cfg { name: "byte(range(min = 1000000000, max = 1000000000000, inclusive = false), ignore_case = true)", v: "byte", attr: "range(min = 1000000000, max = 1000000000000, inclusive = false), ignore_case = true", opts: &[("kind", "Inside"), ("min", "1000000000"), ("max", "1000000000000"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_87 },
    Cfg { name: "byte(range(min = 1024, max = 1024), ignore_case = true)", v: "byte", attr: "range(min = 1024, max = 1024), ignore_case = true", opts: &[("kind", "Inside"), ("min", "1024"), ("max", "1024"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_88 },
    Cfg { name: "byte(range(min = 1024, max = 1025, inclusive = false), ignore_case = true)", v: "byte", attr: "range(min = 1024, max = 1025, inclusive = false), ignore_case = true", opts: &[("kind", "Inside"), ("min", "1024"), ("max", "1025"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_89 },
    Cfg { name: "byte(range(min = 0), ignore_case = true)", v: "byte", attr: "range(min = 0), ignore_case = true", opts: &[("kind", "Inside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_90 },
    Cfg { name: "byte(range(min = 18446744073709551615), ignore_case = true)", v: "byte", attr: "range(min = 18446744073709551615), ignore_case = true", opts: &[("kind", "Inside"), ("min", "18446744073709551615"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_91 },
    Cfg { name: "byte(range(max = 18446744073709551615, inclusive = false), ignore_case = true)", v: "byte", attr: "range(max = 18446744073709551615, inclusive = false), ignore_case = true", opts: &[("kind", "Inside"), ("min", ""), ("max", "18446744073709551615"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_92 },
    Cfg { name: "byte(range(min = 18446744073709551616), ignore_case = true)", v: "byte", attr: "range(min = 18446744073709551616), ignore_case = true", opts: &[("kind", "Inside"), ("min", "18446744073709551616"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_93 },
    Cfg { name: "byte(range(max = 18446744073709551620), ignore_case = true)", v: "byte", attr: "range(max = 18446744073709551620), ignore_case = true", opts: &[("kind", "Inside"), ("min", ""), ("max", "18446744073709551620"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_94 },
    Cfg { name: "byte(range(8..=800), ignore_case = true)", v: "byte", attr: "range(8..=800), ignore_case = true", opts: &[("kind", "Inside"), ("min", "8"), ("max", "800"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_95 },
    Cfg { name: "byte(range(8..800), ignore_case = true)", v: "byte", attr: "range(8..800), ignore_case = true", opts: &[("kind", "Inside"), ("min", "8"), ("max", "800"), ("inclusive", "false"), ("ignore_case", "true")], ty: "Byte", run: run_96 },
    Cfg { name: "byte(range(8..), ignore_case = true)", v: "byte", attr: "range(8..), ignore_case = true", opts: &[("kind", "Inside"), ("min", "8"), ("max", ""), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_97 },
    Cfg { name: "byte(range(..=800), ignore_case = true)", v: "byte", attr: "range(..=800), ignore_case = true", opts: &[("kind", "Inside"), ("min", ""), ("max", "800"), ("inclusive", "true"), ("ignore_case", "true")], ty: "Byte", run: run_98 },
    Cfg { name: "byte(ignore_case = false)", v: "byte", attr: "ignore_case = false", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_99 },
    Cfg { name: "byte(range(), ignore_case = false)", v: "byte", attr: "range(), ignore_case = false", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_100 },
    Cfg { name: "byte(range(min = 1), ignore_case = false)", v: "byte", attr: "range(min = 1), ignore_case = false", opts: &[("kind", "Inside"), ("min", "1"), ("max", ""), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_101 },
    Cfg { name: "byte(range(max = 1000), ignore_case = false)", v: "byte", attr: "range(max = 1000), ignore_case = false", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000"), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_102 },
    Cfg { name: "byte(range(max = 1000, inclusive = false), ignore_case = false)", v: "byte", attr: "range(max = 1000, inclusive = false), ignore_case = false", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000"), ("inclusive", "false"), ("ignore_case", "false")], ty: "Byte", run: run_103 },
    Cfg { name: "byte(range(min = 1, max = 1000), ignore_case = false)", v: "byte", attr: "range(min = 1, max = 1000), ignore_case = false", opts: &[("kind", "Inside"), ("min", "1"), ("max", "1000"), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_104 },
    Cfg { name: "byte(range(min = 1, max = 1000, inclusive = false), ignore_case = false)", v: "byte", attr: "range(min = 1, max = 1000, inclusive = false), ignore_case = false", opts: &[("kind", "Inside"), ("min", "1"), ("max", "1000"), ("inclusive", "false"), ("ignore_case", "false")], ty: "Byte", run: run_105 },
    Cfg { name: "byte(range(min = 1500), ignore_case = false)", v: "byte", attr: "range(min = 1500), ignore_case = false", opts: &[("kind", "Inside"), ("min", "1500"), ("max", ""), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_106 },
    Cfg { name: "byte(range(max = 1000000), ignore_case = false)", v: "byte", attr: "range(max = 1000000), ignore_case = false", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000"), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_107 },
    Cfg { name: "byte(range(max = 1000000, inclusive = false), ignore_case = false)", v: "byte", attr: "range(max = 1000000, inclusive = false), ignore_case = false", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000"), ("inclusive", "false"), ("ignore_case", "false")], ty: "Byte", run: run_108 },
    Cfg { name: "byte(range(min = 1500, max = 1000000), ignore_case = false)", v: "byte", attr: "range(min = 1500, max = 1000000), ignore_case = false", opts: &[("kind", "Inside"), ("min", "1500"), ("max", "1000000"), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_109 },
    Cfg { name: "byte(range(min = 1500, max = 1000000, inclusive = false), ignore_case = false)", v: "byte", attr: "range(min = 1500, max = 1000000, inclusive = false), ignore_case = false", opts: &[("kind", "Inside"), ("min", "1500"), ("max", "1000000"), ("inclusive", "false"), ("ignore_case", "false")], ty: "Byte", run: run_110 },
    Cfg { name: "byte(range(min = 1000), ignore_case = false)", v: "byte", attr: "range(min = 1000), ignore_case = false", opts: &[("kind", "Inside"), ("min", "1000"), ("max", ""), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_111 },
    Cfg { name: "byte(range(max = 1048576), ignore_case = false)", v: "byte", attr: "range(max = 1048576), ignore_case = false", opts: &[("kind", "Inside"), ("min", ""), ("max", "1048576"), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_112 },
    Cfg { name: "byte(range(max = 1048576, inclusive = false), ignore_case = false)", v: "byte", attr: "range(max = 1048576, inclusive = false), ignore_case = false", opts: &[("kind", "Inside"), ("min", ""), ("max", "1048576"), ("inclusive", "false"), ("ignore_case", "false")], ty: "Byte", run: run_113 },
    Cfg { name: "byte(range(min = 1000, max = 1048576), ignore_case = false)", v: "byte", attr: "range(min = 1000, max = 1048576), ignore_case = false", opts: &[("kind", "Inside"), ("min", "1000"), ("max", "1048576"), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_114 },
    Cfg { name: "byte(range(min = 1000, max = 1048576, inclusive = false), ignore_case = false)", v: "byte", attr: "range(min = 1000, max = 1048576, inclusive = false), ignore_case = false", opts: &[("kind", "Inside"), ("min", "1000"), ("max", "1048576"), ("inclusive", "false"), ("ignore_case", "false")], ty: "Byte", run: run_115 },
    Cfg { name: "byte(range(min = 1000000000), ignore_case = false)", v: "byte", attr: "range(min = 1000000000), ignore_case = false", opts: &[("kind", "Inside"), ("min", "1000000000"), ("max", ""), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_116 },
    Cfg { name: "byte(range(max = 1000000000000), ignore_case = false)", v: "byte", attr: "range(max = 1000000000000), ignore_case = false", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000000000"), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_117 },
    Cfg { name: "byte(range(max = 1000000000000, inclusive = false), ignore_case = false)", v: "byte", attr: "range(max = 1000000000000, inclusive = false), ignore_case = false", opts: &[("kind", "Inside"), ("min", ""), ("max", "1000000000000"), ("inclusive", "false"), ("ignore_case", "false")], ty: "Byte", run: run_118 },
    Cfg { name: "byte(range(min = 1000000000, max = 1000000000000), ignore_case = false)", v: "byte", attr: "range(min = 1000000000, max = 1000000000000), ignore_case = false", opts: &[("kind", "Inside"), ("min", "1000000000"), ("max", "1000000000000"), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_119 },
    Cfg { name: "byte(range(min = 1000000000, max = 1000000000000, inclusive = false), ignore_case = false)", v: "byte", attr: "range(min = 1000000000, max = 1000000000000, inclusive = false), ignore_case = false", opts: &[("kind", "Inside"), ("min", "1000000000"), ("max", "1000000000000"), ("inclusive", "false"), ("ignore_case", "false")], ty: "Byte", run: run_120 },
    Cfg { name: "byte(range(min = 1024, max = 1024), ignore_case = false)", v: "byte", attr: "range(min = 1024, max = 1024), ignore_case = false", opts: &[("kind", "Inside"), ("min", "1024"), ("max", "1024"), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_121 },
    Cfg { name: "byte(range(min = 1024, max = 1025, inclusive = false), ignore_case = false)", v: "byte", attr: "range(min = 1024, max = 1025, inclusive = false), ignore_case = false", opts: &[("kind", "Inside"), ("min", "1024"), ("max", "1025"), ("inclusive", "false"), ("ignore_case", "false")], ty: "Byte", run: run_122 },
    Cfg { name: "byte(range(min = 0), ignore_case = false)", v: "byte", attr: "range(min = 0), ignore_case = false", opts: &[("kind", "Inside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_123 },
    Cfg { name: "byte(range(min = 18446744073709551615), ignore_case = false)", v: "byte", attr: "range(min = 18446744073709551615), ignore_case = false", opts: &[("kind", "Inside"), ("min", "18446744073709551615"), ("max", ""), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_124 },
    Cfg { name: "byte(range(max = 18446744073709551615, inclusive = false), ignore_case = false)", v: "byte", attr: "range(max = 18446744073709551615, inclusive = false), ignore_case = false", opts: &[("kind", "Inside"), ("min", ""), ("max", "18446744073709551615"), ("inclusive", "false"), ("ignore_case", "false")], ty: "Byte", run: run_125 },
    Cfg { name: "byte(range(min = 18446744073709551616), ignore_case = false)", v: "byte", attr: "range(min = 18446744073709551616), ignore_case = false", opts: &[("kind", "Inside"), ("min", "18446744073709551616"), ("max", ""), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_126 },
    Cfg { name: "byte(range(max = 18446744073709551620), ignore_case = false)", v: "byte", attr: "range(max = 18446744073709551620), ignore_case = false", opts: &[("kind", "Inside"), ("min", ""), ("max", "18446744073709551620"), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_127 },
    Cfg { name: "byte(range(8..=800), ignore_case = false)", v: "byte", attr: "range(8..=800), ignore_case = false", opts: &[("kind", "Inside"), ("min", "8"), ("max", "800"), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_128 },
    Cfg { name: "byte(range(8..800), ignore_case = false)", v: "byte", attr: "range(8..800), ignore_case = false", opts: &[("kind", "Inside"), ("min", "8"), ("max", "800"), ("inclusive", "false"), ("ignore_case", "false")], ty: "Byte", run: run_129 },
    Cfg { name: "byte(range(8..), ignore_case = false)", v: "byte", attr: "range(8..), ignore_case = false", opts: &[("kind", "Inside"), ("min", "8"), ("max", ""), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_130 },
    Cfg { name: "byte(range(..=800), ignore_case = false)", v: "byte", attr: "range(..=800), ignore_case = false", opts: &[("kind", "Inside"), ("min", ""), ("max", "800"), ("inclusive", "true"), ("ignore_case", "false")], ty: "Byte", run: run_131 },
];
