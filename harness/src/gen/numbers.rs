// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number)]
pub struct V0x(pub f32);
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Unlimited)))]
pub struct V1x(pub f32);
fn run_1(i: &Input) -> Out { type Vx = V1x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside())))]
pub struct V2x(pub f32);
fn run_2(i: &Input) -> Out { type Vx = V2x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = -1.5))))]
pub struct V3x(pub f32);
fn run_3(i: &Input) -> Out { type Vx = V3x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 2.25))))]
pub struct V4x(pub f32);
fn run_4(i: &Input) -> Out { type Vx = V4x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 2.25, inclusive = false))))]
pub struct V5x(pub f32);
fn run_5(i: &Input) -> Out { type Vx = V5x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = -1.5, max = 2.25))))]
pub struct V6x(pub f32);
fn run_6(i: &Input) -> Out { type Vx = V6x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = -1.5, max = 2.25, inclusive = false))))]
pub struct V7x(pub f32);
fn run_7(i: &Input) -> Out { type Vx = V7x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = -1.5))))]
pub struct V8x(pub f32);
fn run_8(i: &Input) -> Out { type Vx = V8x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 2.25))))]
pub struct V9x(pub f32);
fn run_9(i: &Input) -> Out { type Vx = V9x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 2.25, inclusive = false))))]
pub struct V10x(pub f32);
fn run_10(i: &Input) -> Out { type Vx = V10x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = -1.5, max = 2.25))))]
pub struct V11x(pub f32);
fn run_11(i: &Input) -> Out { type Vx = V11x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = -1.5, max = 2.25, inclusive = false))))]
pub struct V12x(pub f32);
fn run_12(i: &Input) -> Out { type Vx = V12x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0))))]
pub struct V13x(pub f32);
fn run_13(i: &Input) -> Out { type Vx = V13x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 1.0))))]
pub struct V14x(pub f32);
fn run_14(i: &Input) -> Out { type Vx = V14x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 1.0, inclusive = false))))]
pub struct V15x(pub f32);
fn run_15(i: &Input) -> Out { type Vx = V15x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0, max = 1.0))))]
pub struct V16x(pub f32);
fn run_16(i: &Input) -> Out { type Vx = V16x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0, max = 1.0, inclusive = false))))]
pub struct V17x(pub f32);
fn run_17(i: &Input) -> Out { type Vx = V17x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0))))]
pub struct V18x(pub f32);
fn run_18(i: &Input) -> Out { type Vx = V18x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 1.0))))]
pub struct V19x(pub f32);
fn run_19(i: &Input) -> Out { type Vx = V19x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 1.0, inclusive = false))))]
pub struct V20x(pub f32);
fn run_20(i: &Input) -> Out { type Vx = V20x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0, max = 1.0))))]
pub struct V21x(pub f32);
fn run_21(i: &Input) -> Out { type Vx = V21x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0, max = 1.0, inclusive = false))))]
pub struct V22x(pub f32);
fn run_22(i: &Input) -> Out { type Vx = V22x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0.1))))]
pub struct V23x(pub f32);
fn run_23(i: &Input) -> Out { type Vx = V23x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 0.3))))]
pub struct V24x(pub f32);
fn run_24(i: &Input) -> Out { type Vx = V24x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 0.3, inclusive = false))))]
pub struct V25x(pub f32);
fn run_25(i: &Input) -> Out { type Vx = V25x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0.1, max = 0.3))))]
pub struct V26x(pub f32);
fn run_26(i: &Input) -> Out { type Vx = V26x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0.1, max = 0.3, inclusive = false))))]
pub struct V27x(pub f32);
fn run_27(i: &Input) -> Out { type Vx = V27x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0.1))))]
pub struct V28x(pub f32);
fn run_28(i: &Input) -> Out { type Vx = V28x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 0.3))))]
pub struct V29x(pub f32);
fn run_29(i: &Input) -> Out { type Vx = V29x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 0.3, inclusive = false))))]
pub struct V30x(pub f32);
fn run_30(i: &Input) -> Out { type Vx = V30x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0.1, max = 0.3))))]
pub struct V31x(pub f32);
fn run_31(i: &Input) -> Out { type Vx = V31x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0.1, max = 0.3, inclusive = false))))]
pub struct V32x(pub f32);
fn run_32(i: &Input) -> Out { type Vx = V32x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = -1e30))))]
pub struct V33x(pub f32);
fn run_33(i: &Input) -> Out { type Vx = V33x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 1e30))))]
pub struct V34x(pub f32);
fn run_34(i: &Input) -> Out { type Vx = V34x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 1e30, inclusive = false))))]
pub struct V35x(pub f32);
fn run_35(i: &Input) -> Out { type Vx = V35x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = -1e30, max = 1e30))))]
pub struct V36x(pub f32);
fn run_36(i: &Input) -> Out { type Vx = V36x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = -1e30, max = 1e30, inclusive = false))))]
pub struct V37x(pub f32);
fn run_37(i: &Input) -> Out { type Vx = V37x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = -1e30))))]
pub struct V38x(pub f32);
fn run_38(i: &Input) -> Out { type Vx = V38x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 1e30))))]
pub struct V39x(pub f32);
fn run_39(i: &Input) -> Out { type Vx = V39x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 1e30, inclusive = false))))]
pub struct V40x(pub f32);
fn run_40(i: &Input) -> Out { type Vx = V40x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = -1e30, max = 1e30))))]
pub struct V41x(pub f32);
fn run_41(i: &Input) -> Out { type Vx = V41x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = -1e30, max = 1e30, inclusive = false))))]
pub struct V42x(pub f32);
fn run_42(i: &Input) -> Out { type Vx = V42x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0, max = 0))))]
pub struct V43x(pub f32);
fn run_43(i: &Input) -> Out { type Vx = V43x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0.5, max = 0.5))))]
pub struct V44x(pub f32);
fn run_44(i: &Input) -> Out { type Vx = V44x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 5, max = 6, inclusive = false))))]
pub struct V45x(pub f32);
fn run_45(i: &Input) -> Out { type Vx = V45x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(0.0..=1.0))))]
pub struct V46x(pub f32);
fn run_46(i: &Input) -> Out { type Vx = V46x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(0.0..1.0))))]
pub struct V47x(pub f32);
fn run_47(i: &Input) -> Out { type Vx = V47x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(1.5..))))]
pub struct V48x(pub f32);
fn run_48(i: &Input) -> Out { type Vx = V48x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(..1.5))))]
pub struct V49x(pub f32);
fn run_49(i: &Input) -> Out { type Vx = V49x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0, max = 0))))]
pub struct V50x(pub f32);
fn run_50(i: &Input) -> Out { type Vx = V50x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0.5, max = 0.5))))]
pub struct V51x(pub f32);
fn run_51(i: &Input) -> Out { type Vx = V51x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 5, max = 6, inclusive = false))))]
pub struct V52x(pub f32);
fn run_52(i: &Input) -> Out { type Vx = V52x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(0.0..=1.0))))]
pub struct V53x(pub f32);
fn run_53(i: &Input) -> Out { type Vx = V53x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(0.0..1.0))))]
pub struct V54x(pub f32);
fn run_54(i: &Input) -> Out { type Vx = V54x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(1.5..))))]
pub struct V55x(pub f32);
fn run_55(i: &Input) -> Out { type Vx = V55x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(..1.5))))]
pub struct V56x(pub f32);
fn run_56(i: &Input) -> Out { type Vx = V56x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow)))]
pub struct V57x(pub f32);
fn run_57(i: &Input) -> Out { type Vx = V57x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Unlimited)))]
pub struct V58x(pub f32);
fn run_58(i: &Input) -> Out { type Vx = V58x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside())))]
pub struct V59x(pub f32);
fn run_59(i: &Input) -> Out { type Vx = V59x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1.5))))]
pub struct V60x(pub f32);
fn run_60(i: &Input) -> Out { type Vx = V60x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 2.25))))]
pub struct V61x(pub f32);
fn run_61(i: &Input) -> Out { type Vx = V61x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 2.25, inclusive = false))))]
pub struct V62x(pub f32);
fn run_62(i: &Input) -> Out { type Vx = V62x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1.5, max = 2.25))))]
pub struct V63x(pub f32);
fn run_63(i: &Input) -> Out { type Vx = V63x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1.5, max = 2.25, inclusive = false))))]
pub struct V64x(pub f32);
fn run_64(i: &Input) -> Out { type Vx = V64x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1.5))))]
pub struct V65x(pub f32);
fn run_65(i: &Input) -> Out { type Vx = V65x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 2.25))))]
pub struct V66x(pub f32);
fn run_66(i: &Input) -> Out { type Vx = V66x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 2.25, inclusive = false))))]
pub struct V67x(pub f32);
fn run_67(i: &Input) -> Out { type Vx = V67x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1.5, max = 2.25))))]
pub struct V68x(pub f32);
fn run_68(i: &Input) -> Out { type Vx = V68x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1.5, max = 2.25, inclusive = false))))]
pub struct V69x(pub f32);
fn run_69(i: &Input) -> Out { type Vx = V69x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0))))]
pub struct V70x(pub f32);
fn run_70(i: &Input) -> Out { type Vx = V70x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 1.0))))]
pub struct V71x(pub f32);
fn run_71(i: &Input) -> Out { type Vx = V71x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 1.0, inclusive = false))))]
pub struct V72x(pub f32);
fn run_72(i: &Input) -> Out { type Vx = V72x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0, max = 1.0))))]
pub struct V73x(pub f32);
fn run_73(i: &Input) -> Out { type Vx = V73x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0, max = 1.0, inclusive = false))))]
pub struct V74x(pub f32);
fn run_74(i: &Input) -> Out { type Vx = V74x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0))))]
pub struct V75x(pub f32);
fn run_75(i: &Input) -> Out { type Vx = V75x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 1.0))))]
pub struct V76x(pub f32);
fn run_76(i: &Input) -> Out { type Vx = V76x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 1.0, inclusive = false))))]
pub struct V77x(pub f32);
fn run_77(i: &Input) -> Out { type Vx = V77x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0, max = 1.0))))]
pub struct V78x(pub f32);
fn run_78(i: &Input) -> Out { type Vx = V78x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0, max = 1.0, inclusive = false))))]
pub struct V79x(pub f32);
fn run_79(i: &Input) -> Out { type Vx = V79x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0.1))))]
pub struct V80x(pub f32);
fn run_80(i: &Input) -> Out { type Vx = V80x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 0.3))))]
pub struct V81x(pub f32);
fn run_81(i: &Input) -> Out { type Vx = V81x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 0.3, inclusive = false))))]
pub struct V82x(pub f32);
fn run_82(i: &Input) -> Out { type Vx = V82x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0.1, max = 0.3))))]
pub struct V83x(pub f32);
fn run_83(i: &Input) -> Out { type Vx = V83x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0.1, max = 0.3, inclusive = false))))]
pub struct V84x(pub f32);
fn run_84(i: &Input) -> Out { type Vx = V84x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0.1))))]
pub struct V85x(pub f32);
fn run_85(i: &Input) -> Out { type Vx = V85x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 0.3))))]
pub struct V86x(pub f32);
fn run_86(i: &Input) -> Out { type Vx = V86x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 0.3, inclusive = false))))]
pub struct V87x(pub f32);
fn run_87(i: &Input) -> Out { type Vx = V87x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0.1, max = 0.3))))]
pub struct V88x(pub f32);
fn run_88(i: &Input) -> Out { type Vx = V88x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0.1, max = 0.3, inclusive = false))))]
pub struct V89x(pub f32);
fn run_89(i: &Input) -> Out { type Vx = V89x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1e30))))]
pub struct V90x(pub f32);
fn run_90(i: &Input) -> Out { type Vx = V90x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 1e30))))]
pub struct V91x(pub f32);
fn run_91(i: &Input) -> Out { type Vx = V91x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 1e30, inclusive = false))))]
pub struct V92x(pub f32);
fn run_92(i: &Input) -> Out { type Vx = V92x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1e30, max = 1e30))))]
pub struct V93x(pub f32);
fn run_93(i: &Input) -> Out { type Vx = V93x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1e30, max = 1e30, inclusive = false))))]
pub struct V94x(pub f32);
fn run_94(i: &Input) -> Out { type Vx = V94x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1e30))))]
pub struct V95x(pub f32);
fn run_95(i: &Input) -> Out { type Vx = V95x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 1e30))))]
pub struct V96x(pub f32);
fn run_96(i: &Input) -> Out { type Vx = V96x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 1e30, inclusive = false))))]
pub struct V97x(pub f32);
fn run_97(i: &Input) -> Out { type Vx = V97x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1e30, max = 1e30))))]
pub struct V98x(pub f32);
fn run_98(i: &Input) -> Out { type Vx = V98x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1e30, max = 1e30, inclusive = false))))]
pub struct V99x(pub f32);
fn run_99(i: &Input) -> Out { type Vx = V99x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0, max = 0))))]
pub struct V100x(pub f32);
fn run_100(i: &Input) -> Out { type Vx = V100x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0.5, max = 0.5))))]
pub struct V101x(pub f32);
fn run_101(i: &Input) -> Out { type Vx = V101x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 5, max = 6, inclusive = false))))]
pub struct V102x(pub f32);
fn run_102(i: &Input) -> Out { type Vx = V102x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(0.0..=1.0))))]
pub struct V103x(pub f32);
fn run_103(i: &Input) -> Out { type Vx = V103x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(0.0..1.0))))]
pub struct V104x(pub f32);
fn run_104(i: &Input) -> Out { type Vx = V104x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(1.5..))))]
pub struct V105x(pub f32);
fn run_105(i: &Input) -> Out { type Vx = V105x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(..1.5))))]
pub struct V106x(pub f32);
fn run_106(i: &Input) -> Out { type Vx = V106x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0, max = 0))))]
pub struct V107x(pub f32);
fn run_107(i: &Input) -> Out { type Vx = V107x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0.5, max = 0.5))))]
pub struct V108x(pub f32);
fn run_108(i: &Input) -> Out { type Vx = V108x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 5, max = 6, inclusive = false))))]
pub struct V109x(pub f32);
fn run_109(i: &Input) -> Out { type Vx = V109x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(0.0..=1.0))))]
pub struct V110x(pub f32);
fn run_110(i: &Input) -> Out { type Vx = V110x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(0.0..1.0))))]
pub struct V111x(pub f32);
fn run_111(i: &Input) -> Out { type Vx = V111x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(1.5..))))]
pub struct V112x(pub f32);
fn run_112(i: &Input) -> Out { type Vx = V112x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(..1.5))))]
pub struct V113x(pub f32);
fn run_113(i: &Input) -> Out { type Vx = V113x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must)))]
pub struct V114x(pub f32);
fn run_114(i: &Input) -> Out { type Vx = V114x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Unlimited)))]
pub struct V115x(pub f32);
fn run_115(i: &Input) -> Out { type Vx = V115x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside()), conflict(Allow)))]
pub struct V116x(pub f32);
fn run_116(i: &Input) -> Out { type Vx = V116x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1.5)), conflict(Allow)))]
pub struct V117x(pub f32);
fn run_117(i: &Input) -> Out { type Vx = V117x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 2.25)), conflict(Allow)))]
pub struct V118x(pub f32);
fn run_118(i: &Input) -> Out { type Vx = V118x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 2.25, inclusive = false)), conflict(Allow)))]
pub struct V119x(pub f32);
fn run_119(i: &Input) -> Out { type Vx = V119x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1.5, max = 2.25)), conflict(Allow)))]
pub struct V120x(pub f32);
fn run_120(i: &Input) -> Out { type Vx = V120x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1.5, max = 2.25, inclusive = false)), conflict(Allow)))]
pub struct V121x(pub f32);
fn run_121(i: &Input) -> Out { type Vx = V121x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1.5))))]
pub struct V122x(pub f32);
fn run_122(i: &Input) -> Out { type Vx = V122x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 2.25))))]
pub struct V123x(pub f32);
fn run_123(i: &Input) -> Out { type Vx = V123x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 2.25, inclusive = false))))]
pub struct V124x(pub f32);
fn run_124(i: &Input) -> Out { type Vx = V124x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1.5, max = 2.25))))]
pub struct V125x(pub f32);
fn run_125(i: &Input) -> Out { type Vx = V125x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1.5, max = 2.25, inclusive = false))))]
pub struct V126x(pub f32);
fn run_126(i: &Input) -> Out { type Vx = V126x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0)), conflict(Allow)))]
pub struct V127x(pub f32);
fn run_127(i: &Input) -> Out { type Vx = V127x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 1.0)), conflict(Allow)))]
pub struct V128x(pub f32);
fn run_128(i: &Input) -> Out { type Vx = V128x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 1.0, inclusive = false)), conflict(Allow)))]
pub struct V129x(pub f32);
fn run_129(i: &Input) -> Out { type Vx = V129x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0, max = 1.0)), conflict(Allow)))]
pub struct V130x(pub f32);
fn run_130(i: &Input) -> Out { type Vx = V130x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0, max = 1.0, inclusive = false)), conflict(Allow)))]
pub struct V131x(pub f32);
fn run_131(i: &Input) -> Out { type Vx = V131x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0))))]
pub struct V132x(pub f32);
fn run_132(i: &Input) -> Out { type Vx = V132x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 1.0))))]
pub struct V133x(pub f32);
fn run_133(i: &Input) -> Out { type Vx = V133x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 1.0, inclusive = false))))]
pub struct V134x(pub f32);
fn run_134(i: &Input) -> Out { type Vx = V134x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0, max = 1.0))))]
pub struct V135x(pub f32);
fn run_135(i: &Input) -> Out { type Vx = V135x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0, max = 1.0, inclusive = false))))]
pub struct V136x(pub f32);
fn run_136(i: &Input) -> Out { type Vx = V136x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0.1)), conflict(Allow)))]
pub struct V137x(pub f32);
fn run_137(i: &Input) -> Out { type Vx = V137x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 0.3)), conflict(Allow)))]
pub struct V138x(pub f32);
fn run_138(i: &Input) -> Out { type Vx = V138x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 0.3, inclusive = false)), conflict(Allow)))]
pub struct V139x(pub f32);
fn run_139(i: &Input) -> Out { type Vx = V139x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0.1, max = 0.3)), conflict(Allow)))]
pub struct V140x(pub f32);
fn run_140(i: &Input) -> Out { type Vx = V140x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0.1, max = 0.3, inclusive = false)), conflict(Allow)))]
pub struct V141x(pub f32);
fn run_141(i: &Input) -> Out { type Vx = V141x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0.1))))]
pub struct V142x(pub f32);
fn run_142(i: &Input) -> Out { type Vx = V142x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 0.3))))]
pub struct V143x(pub f32);
fn run_143(i: &Input) -> Out { type Vx = V143x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 0.3, inclusive = false))))]
pub struct V144x(pub f32);
fn run_144(i: &Input) -> Out { type Vx = V144x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0.1, max = 0.3))))]
pub struct V145x(pub f32);
fn run_145(i: &Input) -> Out { type Vx = V145x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0.1, max = 0.3, inclusive = false))))]
pub struct V146x(pub f32);
fn run_146(i: &Input) -> Out { type Vx = V146x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1e30)), conflict(Allow)))]
pub struct V147x(pub f32);
fn run_147(i: &Input) -> Out { type Vx = V147x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 1e30)), conflict(Allow)))]
pub struct V148x(pub f32);
fn run_148(i: &Input) -> Out { type Vx = V148x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 1e30, inclusive = false)), conflict(Allow)))]
pub struct V149x(pub f32);
fn run_149(i: &Input) -> Out { type Vx = V149x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1e30, max = 1e30)), conflict(Allow)))]
pub struct V150x(pub f32);
fn run_150(i: &Input) -> Out { type Vx = V150x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1e30, max = 1e30, inclusive = false)), conflict(Allow)))]
pub struct V151x(pub f32);
fn run_151(i: &Input) -> Out { type Vx = V151x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1e30))))]
pub struct V152x(pub f32);
fn run_152(i: &Input) -> Out { type Vx = V152x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 1e30))))]
pub struct V153x(pub f32);
fn run_153(i: &Input) -> Out { type Vx = V153x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 1e30, inclusive = false))))]
pub struct V154x(pub f32);
fn run_154(i: &Input) -> Out { type Vx = V154x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1e30, max = 1e30))))]
pub struct V155x(pub f32);
fn run_155(i: &Input) -> Out { type Vx = V155x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1e30, max = 1e30, inclusive = false))))]
pub struct V156x(pub f32);
fn run_156(i: &Input) -> Out { type Vx = V156x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0, max = 0)), conflict(Allow)))]
pub struct V157x(pub f32);
fn run_157(i: &Input) -> Out { type Vx = V157x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0.5, max = 0.5)), conflict(Allow)))]
pub struct V158x(pub f32);
fn run_158(i: &Input) -> Out { type Vx = V158x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 5, max = 6, inclusive = false)), conflict(Allow)))]
pub struct V159x(pub f32);
fn run_159(i: &Input) -> Out { type Vx = V159x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(0.0..=1.0)), conflict(Allow)))]
pub struct V160x(pub f32);
fn run_160(i: &Input) -> Out { type Vx = V160x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(0.0..1.0)), conflict(Allow)))]
pub struct V161x(pub f32);
fn run_161(i: &Input) -> Out { type Vx = V161x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(1.5..)), conflict(Allow)))]
pub struct V162x(pub f32);
fn run_162(i: &Input) -> Out { type Vx = V162x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(..1.5)), conflict(Allow)))]
pub struct V163x(pub f32);
fn run_163(i: &Input) -> Out { type Vx = V163x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0, max = 0))))]
pub struct V164x(pub f32);
fn run_164(i: &Input) -> Out { type Vx = V164x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0.5, max = 0.5))))]
pub struct V165x(pub f32);
fn run_165(i: &Input) -> Out { type Vx = V165x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 5, max = 6, inclusive = false))))]
pub struct V166x(pub f32);
fn run_166(i: &Input) -> Out { type Vx = V166x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(0.0..=1.0))))]
pub struct V167x(pub f32);
fn run_167(i: &Input) -> Out { type Vx = V167x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(0.0..1.0))))]
pub struct V168x(pub f32);
fn run_168(i: &Input) -> Out { type Vx = V168x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(1.5..))))]
pub struct V169x(pub f32);
fn run_169(i: &Input) -> Out { type Vx = V169x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(..1.5))))]
pub struct V170x(pub f32);
fn run_170(i: &Input) -> Out { type Vx = V170x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow)))]
pub struct V171x(pub f32);
fn run_171(i: &Input) -> Out { type Vx = V171x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Unlimited)))]
pub struct V172x(pub f32);
fn run_172(i: &Input) -> Out { type Vx = V172x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside())))]
pub struct V173x(pub f32);
fn run_173(i: &Input) -> Out { type Vx = V173x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1.5))))]
pub struct V174x(pub f32);
fn run_174(i: &Input) -> Out { type Vx = V174x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 2.25))))]
pub struct V175x(pub f32);
fn run_175(i: &Input) -> Out { type Vx = V175x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 2.25, inclusive = false))))]
pub struct V176x(pub f32);
fn run_176(i: &Input) -> Out { type Vx = V176x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1.5, max = 2.25))))]
pub struct V177x(pub f32);
fn run_177(i: &Input) -> Out { type Vx = V177x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1.5, max = 2.25, inclusive = false))))]
pub struct V178x(pub f32);
fn run_178(i: &Input) -> Out { type Vx = V178x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1.5))))]
pub struct V179x(pub f32);
fn run_179(i: &Input) -> Out { type Vx = V179x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 2.25))))]
pub struct V180x(pub f32);
fn run_180(i: &Input) -> Out { type Vx = V180x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 2.25, inclusive = false))))]
pub struct V181x(pub f32);
fn run_181(i: &Input) -> Out { type Vx = V181x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1.5, max = 2.25))))]
pub struct V182x(pub f32);
fn run_182(i: &Input) -> Out { type Vx = V182x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1.5, max = 2.25, inclusive = false))))]
pub struct V183x(pub f32);
fn run_183(i: &Input) -> Out { type Vx = V183x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0))))]
pub struct V184x(pub f32);
fn run_184(i: &Input) -> Out { type Vx = V184x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 1.0))))]
pub struct V185x(pub f32);
fn run_185(i: &Input) -> Out { type Vx = V185x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 1.0, inclusive = false))))]
pub struct V186x(pub f32);
fn run_186(i: &Input) -> Out { type Vx = V186x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0, max = 1.0))))]
pub struct V187x(pub f32);
fn run_187(i: &Input) -> Out { type Vx = V187x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0, max = 1.0, inclusive = false))))]
pub struct V188x(pub f32);
fn run_188(i: &Input) -> Out { type Vx = V188x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0))))]
pub struct V189x(pub f32);
fn run_189(i: &Input) -> Out { type Vx = V189x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 1.0))))]
pub struct V190x(pub f32);
fn run_190(i: &Input) -> Out { type Vx = V190x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 1.0, inclusive = false))))]
pub struct V191x(pub f32);
fn run_191(i: &Input) -> Out { type Vx = V191x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0, max = 1.0))))]
pub struct V192x(pub f32);
fn run_192(i: &Input) -> Out { type Vx = V192x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0, max = 1.0, inclusive = false))))]
pub struct V193x(pub f32);
fn run_193(i: &Input) -> Out { type Vx = V193x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0.1))))]
pub struct V194x(pub f32);
fn run_194(i: &Input) -> Out { type Vx = V194x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 0.3))))]
pub struct V195x(pub f32);
fn run_195(i: &Input) -> Out { type Vx = V195x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 0.3, inclusive = false))))]
pub struct V196x(pub f32);
fn run_196(i: &Input) -> Out { type Vx = V196x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0.1, max = 0.3))))]
pub struct V197x(pub f32);
fn run_197(i: &Input) -> Out { type Vx = V197x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0.1, max = 0.3, inclusive = false))))]
pub struct V198x(pub f32);
fn run_198(i: &Input) -> Out { type Vx = V198x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0.1))))]
pub struct V199x(pub f32);
fn run_199(i: &Input) -> Out { type Vx = V199x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 0.3))))]
pub struct V200x(pub f32);
fn run_200(i: &Input) -> Out { type Vx = V200x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 0.3, inclusive = false))))]
pub struct V201x(pub f32);
fn run_201(i: &Input) -> Out { type Vx = V201x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0.1, max = 0.3))))]
pub struct V202x(pub f32);
fn run_202(i: &Input) -> Out { type Vx = V202x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0.1, max = 0.3, inclusive = false))))]
pub struct V203x(pub f32);
fn run_203(i: &Input) -> Out { type Vx = V203x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1e30))))]
pub struct V204x(pub f32);
fn run_204(i: &Input) -> Out { type Vx = V204x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 1e30))))]
pub struct V205x(pub f32);
fn run_205(i: &Input) -> Out { type Vx = V205x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 1e30, inclusive = false))))]
pub struct V206x(pub f32);
fn run_206(i: &Input) -> Out { type Vx = V206x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1e30, max = 1e30))))]
pub struct V207x(pub f32);
fn run_207(i: &Input) -> Out { type Vx = V207x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1e30, max = 1e30, inclusive = false))))]
pub struct V208x(pub f32);
fn run_208(i: &Input) -> Out { type Vx = V208x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1e30))))]
pub struct V209x(pub f32);
fn run_209(i: &Input) -> Out { type Vx = V209x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 1e30))))]
pub struct V210x(pub f32);
fn run_210(i: &Input) -> Out { type Vx = V210x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 1e30, inclusive = false))))]
pub struct V211x(pub f32);
fn run_211(i: &Input) -> Out { type Vx = V211x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1e30, max = 1e30))))]
pub struct V212x(pub f32);
fn run_212(i: &Input) -> Out { type Vx = V212x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1e30, max = 1e30, inclusive = false))))]
pub struct V213x(pub f32);
fn run_213(i: &Input) -> Out { type Vx = V213x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0, max = 0))))]
pub struct V214x(pub f32);
fn run_214(i: &Input) -> Out { type Vx = V214x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0.5, max = 0.5))))]
pub struct V215x(pub f32);
fn run_215(i: &Input) -> Out { type Vx = V215x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 5, max = 6, inclusive = false))))]
pub struct V216x(pub f32);
fn run_216(i: &Input) -> Out { type Vx = V216x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(0.0..=1.0))))]
pub struct V217x(pub f32);
fn run_217(i: &Input) -> Out { type Vx = V217x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(0.0..1.0))))]
pub struct V218x(pub f32);
fn run_218(i: &Input) -> Out { type Vx = V218x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(1.5..))))]
pub struct V219x(pub f32);
fn run_219(i: &Input) -> Out { type Vx = V219x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(..1.5))))]
pub struct V220x(pub f32);
fn run_220(i: &Input) -> Out { type Vx = V220x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0, max = 0))))]
pub struct V221x(pub f32);
fn run_221(i: &Input) -> Out { type Vx = V221x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0.5, max = 0.5))))]
pub struct V222x(pub f32);
fn run_222(i: &Input) -> Out { type Vx = V222x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 5, max = 6, inclusive = false))))]
pub struct V223x(pub f32);
fn run_223(i: &Input) -> Out { type Vx = V223x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(0.0..=1.0))))]
pub struct V224x(pub f32);
fn run_224(i: &Input) -> Out { type Vx = V224x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(0.0..1.0))))]
pub struct V225x(pub f32);
fn run_225(i: &Input) -> Out { type Vx = V225x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(1.5..))))]
pub struct V226x(pub f32);
fn run_226(i: &Input) -> Out { type Vx = V226x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(..1.5))))]
pub struct V227x(pub f32);
fn run_227(i: &Input) -> Out { type Vx = V227x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number)]
pub struct V228x(pub f64);
fn run_228(i: &Input) -> Out { type Vx = V228x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Unlimited)))]
pub struct V229x(pub f64);
fn run_229(i: &Input) -> Out { type Vx = V229x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside())))]
pub struct V230x(pub f64);
fn run_230(i: &Input) -> Out { type Vx = V230x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = -1.5))))]
pub struct V231x(pub f64);
fn run_231(i: &Input) -> Out { type Vx = V231x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 2.25))))]
pub struct V232x(pub f64);
fn run_232(i: &Input) -> Out { type Vx = V232x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 2.25, inclusive = false))))]
pub struct V233x(pub f64);
fn run_233(i: &Input) -> Out { type Vx = V233x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = -1.5, max = 2.25))))]
pub struct V234x(pub f64);
fn run_234(i: &Input) -> Out { type Vx = V234x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = -1.5, max = 2.25, inclusive = false))))]
pub struct V235x(pub f64);
fn run_235(i: &Input) -> Out { type Vx = V235x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = -1.5))))]
pub struct V236x(pub f64);
fn run_236(i: &Input) -> Out { type Vx = V236x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 2.25))))]
pub struct V237x(pub f64);
fn run_237(i: &Input) -> Out { type Vx = V237x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 2.25, inclusive = false))))]
pub struct V238x(pub f64);
fn run_238(i: &Input) -> Out { type Vx = V238x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = -1.5, max = 2.25))))]
pub struct V239x(pub f64);
fn run_239(i: &Input) -> Out { type Vx = V239x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = -1.5, max = 2.25, inclusive = false))))]
pub struct V240x(pub f64);
fn run_240(i: &Input) -> Out { type Vx = V240x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0))))]
pub struct V241x(pub f64);
fn run_241(i: &Input) -> Out { type Vx = V241x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 1.0))))]
pub struct V242x(pub f64);
fn run_242(i: &Input) -> Out { type Vx = V242x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 1.0, inclusive = false))))]
pub struct V243x(pub f64);
fn run_243(i: &Input) -> Out { type Vx = V243x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0, max = 1.0))))]
pub struct V244x(pub f64);
fn run_244(i: &Input) -> Out { type Vx = V244x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0, max = 1.0, inclusive = false))))]
pub struct V245x(pub f64);
fn run_245(i: &Input) -> Out { type Vx = V245x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0))))]
pub struct V246x(pub f64);
fn run_246(i: &Input) -> Out { type Vx = V246x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 1.0))))]
pub struct V247x(pub f64);
fn run_247(i: &Input) -> Out { type Vx = V247x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 1.0, inclusive = false))))]
pub struct V248x(pub f64);
fn run_248(i: &Input) -> Out { type Vx = V248x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0, max = 1.0))))]
pub struct V249x(pub f64);
fn run_249(i: &Input) -> Out { type Vx = V249x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0, max = 1.0, inclusive = false))))]
pub struct V250x(pub f64);
fn run_250(i: &Input) -> Out { type Vx = V250x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0.1))))]
pub struct V251x(pub f64);
fn run_251(i: &Input) -> Out { type Vx = V251x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 0.3))))]
pub struct V252x(pub f64);
fn run_252(i: &Input) -> Out { type Vx = V252x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 0.3, inclusive = false))))]
pub struct V253x(pub f64);
fn run_253(i: &Input) -> Out { type Vx = V253x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0.1, max = 0.3))))]
pub struct V254x(pub f64);
fn run_254(i: &Input) -> Out { type Vx = V254x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0.1, max = 0.3, inclusive = false))))]
pub struct V255x(pub f64);
fn run_255(i: &Input) -> Out { type Vx = V255x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0.1))))]
pub struct V256x(pub f64);
fn run_256(i: &Input) -> Out { type Vx = V256x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 0.3))))]
pub struct V257x(pub f64);
fn run_257(i: &Input) -> Out { type Vx = V257x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 0.3, inclusive = false))))]
pub struct V258x(pub f64);
fn run_258(i: &Input) -> Out { type Vx = V258x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0.1, max = 0.3))))]
pub struct V259x(pub f64);
fn run_259(i: &Input) -> Out { type Vx = V259x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0.1, max = 0.3, inclusive = false))))]
pub struct V260x(pub f64);
fn run_260(i: &Input) -> Out { type Vx = V260x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = -1e30))))]
pub struct V261x(pub f64);
fn run_261(i: &Input) -> Out { type Vx = V261x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 1e30))))]
pub struct V262x(pub f64);
fn run_262(i: &Input) -> Out { type Vx = V262x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(max = 1e30, inclusive = false))))]
pub struct V263x(pub f64);
fn run_263(i: &Input) -> Out { type Vx = V263x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = -1e30, max = 1e30))))]
pub struct V264x(pub f64);
fn run_264(i: &Input) -> Out { type Vx = V264x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = -1e30, max = 1e30, inclusive = false))))]
pub struct V265x(pub f64);
fn run_265(i: &Input) -> Out { type Vx = V265x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = -1e30))))]
pub struct V266x(pub f64);
fn run_266(i: &Input) -> Out { type Vx = V266x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 1e30))))]
pub struct V267x(pub f64);
fn run_267(i: &Input) -> Out { type Vx = V267x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(max = 1e30, inclusive = false))))]
pub struct V268x(pub f64);
fn run_268(i: &Input) -> Out { type Vx = V268x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = -1e30, max = 1e30))))]
pub struct V269x(pub f64);
fn run_269(i: &Input) -> Out { type Vx = V269x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = -1e30, max = 1e30, inclusive = false))))]
pub struct V270x(pub f64);
fn run_270(i: &Input) -> Out { type Vx = V270x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0, max = 0))))]
pub struct V271x(pub f64);
fn run_271(i: &Input) -> Out { type Vx = V271x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 0.5, max = 0.5))))]
pub struct V272x(pub f64);
fn run_272(i: &Input) -> Out { type Vx = V272x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(min = 5, max = 6, inclusive = false))))]
pub struct V273x(pub f64);
fn run_273(i: &Input) -> Out { type Vx = V273x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(0.0..=1.0))))]
pub struct V274x(pub f64);
fn run_274(i: &Input) -> Out { type Vx = V274x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(0.0..1.0))))]
pub struct V275x(pub f64);
fn run_275(i: &Input) -> Out { type Vx = V275x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(1.5..))))]
pub struct V276x(pub f64);
fn run_276(i: &Input) -> Out { type Vx = V276x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Inside(..1.5))))]
pub struct V277x(pub f64);
fn run_277(i: &Input) -> Out { type Vx = V277x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0, max = 0))))]
pub struct V278x(pub f64);
fn run_278(i: &Input) -> Out { type Vx = V278x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 0.5, max = 0.5))))]
pub struct V279x(pub f64);
fn run_279(i: &Input) -> Out { type Vx = V279x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(min = 5, max = 6, inclusive = false))))]
pub struct V280x(pub f64);
fn run_280(i: &Input) -> Out { type Vx = V280x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(0.0..=1.0))))]
pub struct V281x(pub f64);
fn run_281(i: &Input) -> Out { type Vx = V281x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(0.0..1.0))))]
pub struct V282x(pub f64);
fn run_282(i: &Input) -> Out { type Vx = V282x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(1.5..))))]
pub struct V283x(pub f64);
fn run_283(i: &Input) -> Out { type Vx = V283x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(range(Outside(..1.5))))]
pub struct V284x(pub f64);
fn run_284(i: &Input) -> Out { type Vx = V284x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow)))]
pub struct V285x(pub f64);
fn run_285(i: &Input) -> Out { type Vx = V285x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Unlimited)))]
pub struct V286x(pub f64);
fn run_286(i: &Input) -> Out { type Vx = V286x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside())))]
pub struct V287x(pub f64);
fn run_287(i: &Input) -> Out { type Vx = V287x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1.5))))]
pub struct V288x(pub f64);
fn run_288(i: &Input) -> Out { type Vx = V288x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 2.25))))]
pub struct V289x(pub f64);
fn run_289(i: &Input) -> Out { type Vx = V289x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 2.25, inclusive = false))))]
pub struct V290x(pub f64);
fn run_290(i: &Input) -> Out { type Vx = V290x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1.5, max = 2.25))))]
pub struct V291x(pub f64);
fn run_291(i: &Input) -> Out { type Vx = V291x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1.5, max = 2.25, inclusive = false))))]
pub struct V292x(pub f64);
fn run_292(i: &Input) -> Out { type Vx = V292x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1.5))))]
pub struct V293x(pub f64);
fn run_293(i: &Input) -> Out { type Vx = V293x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 2.25))))]
pub struct V294x(pub f64);
fn run_294(i: &Input) -> Out { type Vx = V294x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 2.25, inclusive = false))))]
pub struct V295x(pub f64);
fn run_295(i: &Input) -> Out { type Vx = V295x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1.5, max = 2.25))))]
pub struct V296x(pub f64);
fn run_296(i: &Input) -> Out { type Vx = V296x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1.5, max = 2.25, inclusive = false))))]
pub struct V297x(pub f64);
fn run_297(i: &Input) -> Out { type Vx = V297x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0))))]
pub struct V298x(pub f64);
fn run_298(i: &Input) -> Out { type Vx = V298x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 1.0))))]
pub struct V299x(pub f64);
fn run_299(i: &Input) -> Out { type Vx = V299x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 1.0, inclusive = false))))]
pub struct V300x(pub f64);
fn run_300(i: &Input) -> Out { type Vx = V300x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0, max = 1.0))))]
pub struct V301x(pub f64);
fn run_301(i: &Input) -> Out { type Vx = V301x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0, max = 1.0, inclusive = false))))]
pub struct V302x(pub f64);
fn run_302(i: &Input) -> Out { type Vx = V302x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0))))]
pub struct V303x(pub f64);
fn run_303(i: &Input) -> Out { type Vx = V303x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 1.0))))]
pub struct V304x(pub f64);
fn run_304(i: &Input) -> Out { type Vx = V304x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 1.0, inclusive = false))))]
pub struct V305x(pub f64);
fn run_305(i: &Input) -> Out { type Vx = V305x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0, max = 1.0))))]
pub struct V306x(pub f64);
fn run_306(i: &Input) -> Out { type Vx = V306x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0, max = 1.0, inclusive = false))))]
pub struct V307x(pub f64);
fn run_307(i: &Input) -> Out { type Vx = V307x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0.1))))]
pub struct V308x(pub f64);
fn run_308(i: &Input) -> Out { type Vx = V308x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 0.3))))]
pub struct V309x(pub f64);
fn run_309(i: &Input) -> Out { type Vx = V309x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 0.3, inclusive = false))))]
pub struct V310x(pub f64);
fn run_310(i: &Input) -> Out { type Vx = V310x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0.1, max = 0.3))))]
pub struct V311x(pub f64);
fn run_311(i: &Input) -> Out { type Vx = V311x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0.1, max = 0.3, inclusive = false))))]
pub struct V312x(pub f64);
fn run_312(i: &Input) -> Out { type Vx = V312x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0.1))))]
pub struct V313x(pub f64);
fn run_313(i: &Input) -> Out { type Vx = V313x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 0.3))))]
pub struct V314x(pub f64);
fn run_314(i: &Input) -> Out { type Vx = V314x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 0.3, inclusive = false))))]
pub struct V315x(pub f64);
fn run_315(i: &Input) -> Out { type Vx = V315x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0.1, max = 0.3))))]
pub struct V316x(pub f64);
fn run_316(i: &Input) -> Out { type Vx = V316x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0.1, max = 0.3, inclusive = false))))]
pub struct V317x(pub f64);
fn run_317(i: &Input) -> Out { type Vx = V317x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1e30))))]
pub struct V318x(pub f64);
fn run_318(i: &Input) -> Out { type Vx = V318x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 1e30))))]
pub struct V319x(pub f64);
fn run_319(i: &Input) -> Out { type Vx = V319x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 1e30, inclusive = false))))]
pub struct V320x(pub f64);
fn run_320(i: &Input) -> Out { type Vx = V320x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1e30, max = 1e30))))]
pub struct V321x(pub f64);
fn run_321(i: &Input) -> Out { type Vx = V321x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1e30, max = 1e30, inclusive = false))))]
pub struct V322x(pub f64);
fn run_322(i: &Input) -> Out { type Vx = V322x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1e30))))]
pub struct V323x(pub f64);
fn run_323(i: &Input) -> Out { type Vx = V323x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 1e30))))]
pub struct V324x(pub f64);
fn run_324(i: &Input) -> Out { type Vx = V324x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 1e30, inclusive = false))))]
pub struct V325x(pub f64);
fn run_325(i: &Input) -> Out { type Vx = V325x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1e30, max = 1e30))))]
pub struct V326x(pub f64);
fn run_326(i: &Input) -> Out { type Vx = V326x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1e30, max = 1e30, inclusive = false))))]
pub struct V327x(pub f64);
fn run_327(i: &Input) -> Out { type Vx = V327x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0, max = 0))))]
pub struct V328x(pub f64);
fn run_328(i: &Input) -> Out { type Vx = V328x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0.5, max = 0.5))))]
pub struct V329x(pub f64);
fn run_329(i: &Input) -> Out { type Vx = V329x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 5, max = 6, inclusive = false))))]
pub struct V330x(pub f64);
fn run_330(i: &Input) -> Out { type Vx = V330x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(0.0..=1.0))))]
pub struct V331x(pub f64);
fn run_331(i: &Input) -> Out { type Vx = V331x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(0.0..1.0))))]
pub struct V332x(pub f64);
fn run_332(i: &Input) -> Out { type Vx = V332x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(1.5..))))]
pub struct V333x(pub f64);
fn run_333(i: &Input) -> Out { type Vx = V333x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Inside(..1.5))))]
pub struct V334x(pub f64);
fn run_334(i: &Input) -> Out { type Vx = V334x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0, max = 0))))]
pub struct V335x(pub f64);
fn run_335(i: &Input) -> Out { type Vx = V335x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0.5, max = 0.5))))]
pub struct V336x(pub f64);
fn run_336(i: &Input) -> Out { type Vx = V336x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 5, max = 6, inclusive = false))))]
pub struct V337x(pub f64);
fn run_337(i: &Input) -> Out { type Vx = V337x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(0.0..=1.0))))]
pub struct V338x(pub f64);
fn run_338(i: &Input) -> Out { type Vx = V338x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(0.0..1.0))))]
pub struct V339x(pub f64);
fn run_339(i: &Input) -> Out { type Vx = V339x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(1.5..))))]
pub struct V340x(pub f64);
fn run_340(i: &Input) -> Out { type Vx = V340x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Allow), range(Outside(..1.5))))]
pub struct V341x(pub f64);
fn run_341(i: &Input) -> Out { type Vx = V341x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must)))]
pub struct V342x(pub f64);
fn run_342(i: &Input) -> Out { type Vx = V342x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Unlimited)))]
pub struct V343x(pub f64);
fn run_343(i: &Input) -> Out { type Vx = V343x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside()), conflict(Allow)))]
pub struct V344x(pub f64);
fn run_344(i: &Input) -> Out { type Vx = V344x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1.5)), conflict(Allow)))]
pub struct V345x(pub f64);
fn run_345(i: &Input) -> Out { type Vx = V345x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 2.25)), conflict(Allow)))]
pub struct V346x(pub f64);
fn run_346(i: &Input) -> Out { type Vx = V346x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 2.25, inclusive = false)), conflict(Allow)))]
pub struct V347x(pub f64);
fn run_347(i: &Input) -> Out { type Vx = V347x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1.5, max = 2.25)), conflict(Allow)))]
pub struct V348x(pub f64);
fn run_348(i: &Input) -> Out { type Vx = V348x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1.5, max = 2.25, inclusive = false)), conflict(Allow)))]
pub struct V349x(pub f64);
fn run_349(i: &Input) -> Out { type Vx = V349x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1.5))))]
pub struct V350x(pub f64);
fn run_350(i: &Input) -> Out { type Vx = V350x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 2.25))))]
pub struct V351x(pub f64);
fn run_351(i: &Input) -> Out { type Vx = V351x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 2.25, inclusive = false))))]
pub struct V352x(pub f64);
fn run_352(i: &Input) -> Out { type Vx = V352x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1.5, max = 2.25))))]
pub struct V353x(pub f64);
fn run_353(i: &Input) -> Out { type Vx = V353x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1.5, max = 2.25, inclusive = false))))]
pub struct V354x(pub f64);
fn run_354(i: &Input) -> Out { type Vx = V354x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0)), conflict(Allow)))]
pub struct V355x(pub f64);
fn run_355(i: &Input) -> Out { type Vx = V355x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 1.0)), conflict(Allow)))]
pub struct V356x(pub f64);
fn run_356(i: &Input) -> Out { type Vx = V356x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 1.0, inclusive = false)), conflict(Allow)))]
pub struct V357x(pub f64);
fn run_357(i: &Input) -> Out { type Vx = V357x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0, max = 1.0)), conflict(Allow)))]
pub struct V358x(pub f64);
fn run_358(i: &Input) -> Out { type Vx = V358x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0, max = 1.0, inclusive = false)), conflict(Allow)))]
pub struct V359x(pub f64);
fn run_359(i: &Input) -> Out { type Vx = V359x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0))))]
pub struct V360x(pub f64);
fn run_360(i: &Input) -> Out { type Vx = V360x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 1.0))))]
pub struct V361x(pub f64);
fn run_361(i: &Input) -> Out { type Vx = V361x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 1.0, inclusive = false))))]
pub struct V362x(pub f64);
fn run_362(i: &Input) -> Out { type Vx = V362x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0, max = 1.0))))]
pub struct V363x(pub f64);
fn run_363(i: &Input) -> Out { type Vx = V363x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0, max = 1.0, inclusive = false))))]
pub struct V364x(pub f64);
fn run_364(i: &Input) -> Out { type Vx = V364x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0.1)), conflict(Allow)))]
pub struct V365x(pub f64);
fn run_365(i: &Input) -> Out { type Vx = V365x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 0.3)), conflict(Allow)))]
pub struct V366x(pub f64);
fn run_366(i: &Input) -> Out { type Vx = V366x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 0.3, inclusive = false)), conflict(Allow)))]
pub struct V367x(pub f64);
fn run_367(i: &Input) -> Out { type Vx = V367x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0.1, max = 0.3)), conflict(Allow)))]
pub struct V368x(pub f64);
fn run_368(i: &Input) -> Out { type Vx = V368x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0.1, max = 0.3, inclusive = false)), conflict(Allow)))]
pub struct V369x(pub f64);
fn run_369(i: &Input) -> Out { type Vx = V369x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0.1))))]
pub struct V370x(pub f64);
fn run_370(i: &Input) -> Out { type Vx = V370x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 0.3))))]
pub struct V371x(pub f64);
fn run_371(i: &Input) -> Out { type Vx = V371x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 0.3, inclusive = false))))]
pub struct V372x(pub f64);
fn run_372(i: &Input) -> Out { type Vx = V372x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0.1, max = 0.3))))]
pub struct V373x(pub f64);
fn run_373(i: &Input) -> Out { type Vx = V373x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0.1, max = 0.3, inclusive = false))))]
pub struct V374x(pub f64);
fn run_374(i: &Input) -> Out { type Vx = V374x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1e30)), conflict(Allow)))]
pub struct V375x(pub f64);
fn run_375(i: &Input) -> Out { type Vx = V375x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 1e30)), conflict(Allow)))]
pub struct V376x(pub f64);
fn run_376(i: &Input) -> Out { type Vx = V376x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(max = 1e30, inclusive = false)), conflict(Allow)))]
pub struct V377x(pub f64);
fn run_377(i: &Input) -> Out { type Vx = V377x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1e30, max = 1e30)), conflict(Allow)))]
pub struct V378x(pub f64);
fn run_378(i: &Input) -> Out { type Vx = V378x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1e30, max = 1e30, inclusive = false)), conflict(Allow)))]
pub struct V379x(pub f64);
fn run_379(i: &Input) -> Out { type Vx = V379x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1e30))))]
pub struct V380x(pub f64);
fn run_380(i: &Input) -> Out { type Vx = V380x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 1e30))))]
pub struct V381x(pub f64);
fn run_381(i: &Input) -> Out { type Vx = V381x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(max = 1e30, inclusive = false))))]
pub struct V382x(pub f64);
fn run_382(i: &Input) -> Out { type Vx = V382x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1e30, max = 1e30))))]
pub struct V383x(pub f64);
fn run_383(i: &Input) -> Out { type Vx = V383x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1e30, max = 1e30, inclusive = false))))]
pub struct V384x(pub f64);
fn run_384(i: &Input) -> Out { type Vx = V384x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0, max = 0)), conflict(Allow)))]
pub struct V385x(pub f64);
fn run_385(i: &Input) -> Out { type Vx = V385x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0.5, max = 0.5)), conflict(Allow)))]
pub struct V386x(pub f64);
fn run_386(i: &Input) -> Out { type Vx = V386x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(min = 5, max = 6, inclusive = false)), conflict(Allow)))]
pub struct V387x(pub f64);
fn run_387(i: &Input) -> Out { type Vx = V387x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(0.0..=1.0)), conflict(Allow)))]
pub struct V388x(pub f64);
fn run_388(i: &Input) -> Out { type Vx = V388x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(0.0..1.0)), conflict(Allow)))]
pub struct V389x(pub f64);
fn run_389(i: &Input) -> Out { type Vx = V389x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(1.5..)), conflict(Allow)))]
pub struct V390x(pub f64);
fn run_390(i: &Input) -> Out { type Vx = V390x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Inside(..1.5)), conflict(Allow)))]
pub struct V391x(pub f64);
fn run_391(i: &Input) -> Out { type Vx = V391x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0, max = 0))))]
pub struct V392x(pub f64);
fn run_392(i: &Input) -> Out { type Vx = V392x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0.5, max = 0.5))))]
pub struct V393x(pub f64);
fn run_393(i: &Input) -> Out { type Vx = V393x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(min = 5, max = 6, inclusive = false))))]
pub struct V394x(pub f64);
fn run_394(i: &Input) -> Out { type Vx = V394x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(0.0..=1.0))))]
pub struct V395x(pub f64);
fn run_395(i: &Input) -> Out { type Vx = V395x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(0.0..1.0))))]
pub struct V396x(pub f64);
fn run_396(i: &Input) -> Out { type Vx = V396x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(1.5..))))]
pub struct V397x(pub f64);
fn run_397(i: &Input) -> Out { type Vx = V397x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Must), range(Outside(..1.5))))]
pub struct V398x(pub f64);
fn run_398(i: &Input) -> Out { type Vx = V398x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow)))]
pub struct V399x(pub f64);
fn run_399(i: &Input) -> Out { type Vx = V399x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Unlimited)))]
pub struct V400x(pub f64);
fn run_400(i: &Input) -> Out { type Vx = V400x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside())))]
pub struct V401x(pub f64);
fn run_401(i: &Input) -> Out { type Vx = V401x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1.5))))]
pub struct V402x(pub f64);
fn run_402(i: &Input) -> Out { type Vx = V402x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 2.25))))]
pub struct V403x(pub f64);
fn run_403(i: &Input) -> Out { type Vx = V403x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 2.25, inclusive = false))))]
pub struct V404x(pub f64);
fn run_404(i: &Input) -> Out { type Vx = V404x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1.5, max = 2.25))))]
pub struct V405x(pub f64);
fn run_405(i: &Input) -> Out { type Vx = V405x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1.5, max = 2.25, inclusive = false))))]
pub struct V406x(pub f64);
fn run_406(i: &Input) -> Out { type Vx = V406x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1.5))))]
pub struct V407x(pub f64);
fn run_407(i: &Input) -> Out { type Vx = V407x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 2.25))))]
pub struct V408x(pub f64);
fn run_408(i: &Input) -> Out { type Vx = V408x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 2.25, inclusive = false))))]
pub struct V409x(pub f64);
fn run_409(i: &Input) -> Out { type Vx = V409x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1.5, max = 2.25))))]
pub struct V410x(pub f64);
fn run_410(i: &Input) -> Out { type Vx = V410x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1.5, max = 2.25, inclusive = false))))]
pub struct V411x(pub f64);
fn run_411(i: &Input) -> Out { type Vx = V411x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0))))]
pub struct V412x(pub f64);
fn run_412(i: &Input) -> Out { type Vx = V412x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 1.0))))]
pub struct V413x(pub f64);
fn run_413(i: &Input) -> Out { type Vx = V413x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 1.0, inclusive = false))))]
pub struct V414x(pub f64);
fn run_414(i: &Input) -> Out { type Vx = V414x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0, max = 1.0))))]
pub struct V415x(pub f64);
fn run_415(i: &Input) -> Out { type Vx = V415x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0, max = 1.0, inclusive = false))))]
pub struct V416x(pub f64);
fn run_416(i: &Input) -> Out { type Vx = V416x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0))))]
pub struct V417x(pub f64);
fn run_417(i: &Input) -> Out { type Vx = V417x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 1.0))))]
pub struct V418x(pub f64);
fn run_418(i: &Input) -> Out { type Vx = V418x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 1.0, inclusive = false))))]
pub struct V419x(pub f64);
fn run_419(i: &Input) -> Out { type Vx = V419x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0, max = 1.0))))]
pub struct V420x(pub f64);
fn run_420(i: &Input) -> Out { type Vx = V420x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0, max = 1.0, inclusive = false))))]
pub struct V421x(pub f64);
fn run_421(i: &Input) -> Out { type Vx = V421x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0.1))))]
pub struct V422x(pub f64);
fn run_422(i: &Input) -> Out { type Vx = V422x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 0.3))))]
pub struct V423x(pub f64);
fn run_423(i: &Input) -> Out { type Vx = V423x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 0.3, inclusive = false))))]
pub struct V424x(pub f64);
fn run_424(i: &Input) -> Out { type Vx = V424x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0.1, max = 0.3))))]
pub struct V425x(pub f64);
fn run_425(i: &Input) -> Out { type Vx = V425x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0.1, max = 0.3, inclusive = false))))]
pub struct V426x(pub f64);
fn run_426(i: &Input) -> Out { type Vx = V426x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0.1))))]
pub struct V427x(pub f64);
fn run_427(i: &Input) -> Out { type Vx = V427x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 0.3))))]
pub struct V428x(pub f64);
fn run_428(i: &Input) -> Out { type Vx = V428x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 0.3, inclusive = false))))]
pub struct V429x(pub f64);
fn run_429(i: &Input) -> Out { type Vx = V429x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0.1, max = 0.3))))]
pub struct V430x(pub f64);
fn run_430(i: &Input) -> Out { type Vx = V430x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0.1, max = 0.3, inclusive = false))))]
pub struct V431x(pub f64);
fn run_431(i: &Input) -> Out { type Vx = V431x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1e30))))]
pub struct V432x(pub f64);
fn run_432(i: &Input) -> Out { type Vx = V432x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 1e30))))]
pub struct V433x(pub f64);
fn run_433(i: &Input) -> Out { type Vx = V433x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 1e30, inclusive = false))))]
pub struct V434x(pub f64);
fn run_434(i: &Input) -> Out { type Vx = V434x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1e30, max = 1e30))))]
pub struct V435x(pub f64);
fn run_435(i: &Input) -> Out { type Vx = V435x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1e30, max = 1e30, inclusive = false))))]
pub struct V436x(pub f64);
fn run_436(i: &Input) -> Out { type Vx = V436x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1e30))))]
pub struct V437x(pub f64);
fn run_437(i: &Input) -> Out { type Vx = V437x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 1e30))))]
pub struct V438x(pub f64);
fn run_438(i: &Input) -> Out { type Vx = V438x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 1e30, inclusive = false))))]
pub struct V439x(pub f64);
fn run_439(i: &Input) -> Out { type Vx = V439x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1e30, max = 1e30))))]
pub struct V440x(pub f64);
fn run_440(i: &Input) -> Out { type Vx = V440x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1e30, max = 1e30, inclusive = false))))]
pub struct V441x(pub f64);
fn run_441(i: &Input) -> Out { type Vx = V441x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0, max = 0))))]
pub struct V442x(pub f64);
fn run_442(i: &Input) -> Out { type Vx = V442x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0.5, max = 0.5))))]
pub struct V443x(pub f64);
fn run_443(i: &Input) -> Out { type Vx = V443x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 5, max = 6, inclusive = false))))]
pub struct V444x(pub f64);
fn run_444(i: &Input) -> Out { type Vx = V444x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(0.0..=1.0))))]
pub struct V445x(pub f64);
fn run_445(i: &Input) -> Out { type Vx = V445x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(0.0..1.0))))]
pub struct V446x(pub f64);
fn run_446(i: &Input) -> Out { type Vx = V446x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(1.5..))))]
pub struct V447x(pub f64);
fn run_447(i: &Input) -> Out { type Vx = V447x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Inside(..1.5))))]
pub struct V448x(pub f64);
fn run_448(i: &Input) -> Out { type Vx = V448x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0, max = 0))))]
pub struct V449x(pub f64);
fn run_449(i: &Input) -> Out { type Vx = V449x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0.5, max = 0.5))))]
pub struct V450x(pub f64);
fn run_450(i: &Input) -> Out { type Vx = V450x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 5, max = 6, inclusive = false))))]
pub struct V451x(pub f64);
fn run_451(i: &Input) -> Out { type Vx = V451x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(0.0..=1.0))))]
pub struct V452x(pub f64);
fn run_452(i: &Input) -> Out { type Vx = V452x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(0.0..1.0))))]
pub struct V453x(pub f64);
fn run_453(i: &Input) -> Out { type Vx = V453x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(1.5..))))]
pub struct V454x(pub f64);
fn run_454(i: &Input) -> Out { type Vx = V454x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(number(nan(Disallow), range(Outside(..1.5))))]
pub struct V455x(pub f64);
fn run_455(i: &Input) -> Out { type Vx = V455x; let f: fn(&Vx) -> Fields = |v| vec![("value", vh::models::num::float_bits(v.0 as f64))]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::F64(x) => run_f64::<Vx>(f64::from_bits(*x), f), Input::F32(x) => run_f32::<Vx>(f32::from_bits(*x), f), _ => bad_input() } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "f32 number()", v: "number", attr: "", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_0 },
    Cfg { name: "f32 number(range(Unlimited))", v: "number", attr: "range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_1 },
    Cfg { name: "f32 number(range(Inside()))", v: "number", attr: "range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_2 },
    Cfg { name: "f32 number(range(Inside(min = -1.5)))", v: "number", attr: "range(Inside(min = -1.5))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_3 },
    Cfg { name: "f32 number(range(Inside(max = 2.25)))", v: "number", attr: "range(Inside(max = 2.25))", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_4 },
    Cfg { name: "f32 number(range(Inside(max = 2.25, inclusive = false)))", v: "number", attr: "range(Inside(max = 2.25, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_5 },
    Cfg { name: "f32 number(range(Inside(min = -1.5, max = 2.25)))", v: "number", attr: "range(Inside(min = -1.5, max = 2.25))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_6 },
    Cfg { name: "f32 number(range(Inside(min = -1.5, max = 2.25, inclusive = false)))", v: "number", attr: "range(Inside(min = -1.5, max = 2.25, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_7 },
    Cfg { name: "f32 number(range(Outside(min = -1.5)))", v: "number", attr: "range(Outside(min = -1.5))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_8 },
    Cfg { name: "f32 number(range(Outside(max = 2.25)))", v: "number", attr: "range(Outside(max = 2.25))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_9 },
    Cfg { name: "f32 number(range(Outside(max = 2.25, inclusive = false)))", v: "number", attr: "range(Outside(max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_10 },
    Cfg { name: "f32 number(range(Outside(min = -1.5, max = 2.25)))", v: "number", attr: "range(Outside(min = -1.5, max = 2.25))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_11 },
    Cfg { name: "f32 number(range(Outside(min = -1.5, max = 2.25, inclusive = false)))", v: "number", attr: "range(Outside(min = -1.5, max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_12 },
    Cfg { name: "f32 number(range(Inside(min = 0)))", v: "number", attr: "range(Inside(min = 0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_13 },
    Cfg { name: "f32 number(range(Inside(max = 1.0)))", v: "number", attr: "range(Inside(max = 1.0))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_14 },
    Cfg { name: "f32 number(range(Inside(max = 1.0, inclusive = false)))", v: "number", attr: "range(Inside(max = 1.0, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_15 },
    Cfg { name: "f32 number(range(Inside(min = 0, max = 1.0)))", v: "number", attr: "range(Inside(min = 0, max = 1.0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_16 },
    Cfg { name: "f32 number(range(Inside(min = 0, max = 1.0, inclusive = false)))", v: "number", attr: "range(Inside(min = 0, max = 1.0, inclusive = false))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_17 },
    Cfg { name: "f32 number(range(Outside(min = 0)))", v: "number", attr: "range(Outside(min = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_18 },
    Cfg { name: "f32 number(range(Outside(max = 1.0)))", v: "number", attr: "range(Outside(max = 1.0))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_19 },
    Cfg { name: "f32 number(range(Outside(max = 1.0, inclusive = false)))", v: "number", attr: "range(Outside(max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_20 },
    Cfg { name: "f32 number(range(Outside(min = 0, max = 1.0)))", v: "number", attr: "range(Outside(min = 0, max = 1.0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_21 },
    Cfg { name: "f32 number(range(Outside(min = 0, max = 1.0, inclusive = false)))", v: "number", attr: "range(Outside(min = 0, max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_22 },
    Cfg { name: "f32 number(range(Inside(min = 0.1)))", v: "number", attr: "range(Inside(min = 0.1))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_23 },
    Cfg { name: "f32 number(range(Inside(max = 0.3)))", v: "number", attr: "range(Inside(max = 0.3))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_24 },
    Cfg { name: "f32 number(range(Inside(max = 0.3, inclusive = false)))", v: "number", attr: "range(Inside(max = 0.3, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_25 },
    Cfg { name: "f32 number(range(Inside(min = 0.1, max = 0.3)))", v: "number", attr: "range(Inside(min = 0.1, max = 0.3))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_26 },
    Cfg { name: "f32 number(range(Inside(min = 0.1, max = 0.3, inclusive = false)))", v: "number", attr: "range(Inside(min = 0.1, max = 0.3, inclusive = false))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_27 },
    Cfg { name: "f32 number(range(Outside(min = 0.1)))", v: "number", attr: "range(Outside(min = 0.1))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_28 },
    Cfg { name: "f32 number(range(Outside(max = 0.3)))", v: "number", attr: "range(Outside(max = 0.3))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_29 },
    Cfg { name: "f32 number(range(Outside(max = 0.3, inclusive = false)))", v: "number", attr: "range(Outside(max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_30 },
    Cfg { name: "f32 number(range(Outside(min = 0.1, max = 0.3)))", v: "number", attr: "range(Outside(min = 0.1, max = 0.3))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_31 },
    Cfg { name: "f32 number(range(Outside(min = 0.1, max = 0.3, inclusive = false)))", v: "number", attr: "range(Outside(min = 0.1, max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_32 },
    Cfg { name: "f32 number(range(Inside(min = -1e30)))", v: "number", attr: "range(Inside(min = -1e30))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_33 },
    Cfg { name: "f32 number(range(Inside(max = 1e30)))", v: "number", attr: "range(Inside(max = 1e30))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_34 },
    Cfg { name: "f32 number(range(Inside(max = 1e30, inclusive = false)))", v: "number", attr: "range(Inside(max = 1e30, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_35 },
    Cfg { name: "f32 number(range(Inside(min = -1e30, max = 1e30)))", v: "number", attr: "range(Inside(min = -1e30, max = 1e30))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_36 },
    Cfg { name: "f32 number(range(Inside(min = -1e30, max = 1e30, inclusive = false)))", v: "number", attr: "range(Inside(min = -1e30, max = 1e30, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_37 },
    Cfg { name: "f32 number(range(Outside(min = -1e30)))", v: "number", attr: "range(Outside(min = -1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_38 },
    Cfg { name: "f32 number(range(Outside(max = 1e30)))", v: "number", attr: "range(Outside(max = 1e30))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_39 },
    Cfg { name: "f32 number(range(Outside(max = 1e30, inclusive = false)))", v: "number", attr: "range(Outside(max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_40 },
    Cfg { name: "f32 number(range(Outside(min = -1e30, max = 1e30)))", v: "number", attr: "range(Outside(min = -1e30, max = 1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_41 },
    Cfg { name: "f32 number(range(Outside(min = -1e30, max = 1e30, inclusive = false)))", v: "number", attr: "range(Outside(min = -1e30, max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_42 },
    Cfg { name: "f32 number(range(Inside(min = 0, max = 0)))", v: "number", attr: "range(Inside(min = 0, max = 0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_43 },
    Cfg { name: "f32 number(range(Inside(min = 0.5, max = 0.5)))", v: "number", attr: "range(Inside(min = 0.5, max = 0.5))", opts: &[("kind", "Inside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_44 },
    Cfg { name: "f32 number(range(Inside(min = 5, max = 6, inclusive = false)))", v: "number", attr: "range(Inside(min = 5, max = 6, inclusive = false))", opts: &[("kind", "Inside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_45 },
    Cfg { name: "f32 number(range(Inside(0.0..=1.0)))", v: "number", attr: "range(Inside(0.0..=1.0))", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_46 },
    Cfg { name: "f32 number(range(Inside(0.0..1.0)))", v: "number", attr: "range(Inside(0.0..1.0))", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_47 },
    Cfg { name: "f32 number(range(Inside(1.5..)))", v: "number", attr: "range(Inside(1.5..))", opts: &[("kind", "Inside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_48 },
    Cfg { name: "f32 number(range(Inside(..1.5)))", v: "number", attr: "range(Inside(..1.5))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_49 },
    Cfg { name: "f32 number(range(Outside(min = 0, max = 0)))", v: "number", attr: "range(Outside(min = 0, max = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_50 },
    Cfg { name: "f32 number(range(Outside(min = 0.5, max = 0.5)))", v: "number", attr: "range(Outside(min = 0.5, max = 0.5))", opts: &[("kind", "Outside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_51 },
    Cfg { name: "f32 number(range(Outside(min = 5, max = 6, inclusive = false)))", v: "number", attr: "range(Outside(min = 5, max = 6, inclusive = false))", opts: &[("kind", "Outside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_52 },
    Cfg { name: "f32 number(range(Outside(0.0..=1.0)))", v: "number", attr: "range(Outside(0.0..=1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_53 },
    Cfg { name: "f32 number(range(Outside(0.0..1.0)))", v: "number", attr: "range(Outside(0.0..1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_54 },
    Cfg { name: "f32 number(range(Outside(1.5..)))", v: "number", attr: "range(Outside(1.5..))", opts: &[("kind", "Outside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_55 },
    Cfg { name: "f32 number(range(Outside(..1.5)))", v: "number", attr: "range(Outside(..1.5))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_56 },
    Cfg { name: "f32 number(nan(Allow))", v: "number", attr: "nan(Allow)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_57 },
    Cfg { name: "f32 number(nan(Allow), range(Unlimited))", v: "number", attr: "nan(Allow), range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_58 },
    Cfg { name: "f32 number(nan(Allow), range(Inside()))", v: "number", attr: "nan(Allow), range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_59 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = -1.5)))", v: "number", attr: "nan(Allow), range(Inside(min = -1.5))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_60 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(max = 2.25)))", v: "number", attr: "nan(Allow), range(Inside(max = 2.25))", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_61 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(max = 2.25, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(max = 2.25, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_62 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = -1.5, max = 2.25)))", v: "number", attr: "nan(Allow), range(Inside(min = -1.5, max = 2.25))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_63 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = -1.5, max = 2.25, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(min = -1.5, max = 2.25, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_64 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = -1.5)))", v: "number", attr: "nan(Allow), range(Outside(min = -1.5))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_65 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(max = 2.25)))", v: "number", attr: "nan(Allow), range(Outside(max = 2.25))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_66 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(max = 2.25, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_67 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = -1.5, max = 2.25)))", v: "number", attr: "nan(Allow), range(Outside(min = -1.5, max = 2.25))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_68 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = -1.5, max = 2.25, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(min = -1.5, max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_69 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = 0)))", v: "number", attr: "nan(Allow), range(Inside(min = 0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_70 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(max = 1.0)))", v: "number", attr: "nan(Allow), range(Inside(max = 1.0))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_71 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(max = 1.0, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(max = 1.0, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_72 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = 0, max = 1.0)))", v: "number", attr: "nan(Allow), range(Inside(min = 0, max = 1.0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_73 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = 0, max = 1.0, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(min = 0, max = 1.0, inclusive = false))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_74 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = 0)))", v: "number", attr: "nan(Allow), range(Outside(min = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_75 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(max = 1.0)))", v: "number", attr: "nan(Allow), range(Outside(max = 1.0))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_76 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(max = 1.0, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_77 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = 0, max = 1.0)))", v: "number", attr: "nan(Allow), range(Outside(min = 0, max = 1.0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_78 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = 0, max = 1.0, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(min = 0, max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_79 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = 0.1)))", v: "number", attr: "nan(Allow), range(Inside(min = 0.1))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_80 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(max = 0.3)))", v: "number", attr: "nan(Allow), range(Inside(max = 0.3))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_81 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(max = 0.3, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(max = 0.3, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_82 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = 0.1, max = 0.3)))", v: "number", attr: "nan(Allow), range(Inside(min = 0.1, max = 0.3))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_83 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = 0.1, max = 0.3, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(min = 0.1, max = 0.3, inclusive = false))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_84 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = 0.1)))", v: "number", attr: "nan(Allow), range(Outside(min = 0.1))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_85 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(max = 0.3)))", v: "number", attr: "nan(Allow), range(Outside(max = 0.3))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_86 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(max = 0.3, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_87 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = 0.1, max = 0.3)))", v: "number", attr: "nan(Allow), range(Outside(min = 0.1, max = 0.3))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_88 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = 0.1, max = 0.3, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(min = 0.1, max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_89 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = -1e30)))", v: "number", attr: "nan(Allow), range(Inside(min = -1e30))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_90 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(max = 1e30)))", v: "number", attr: "nan(Allow), range(Inside(max = 1e30))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_91 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(max = 1e30, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(max = 1e30, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_92 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = -1e30, max = 1e30)))", v: "number", attr: "nan(Allow), range(Inside(min = -1e30, max = 1e30))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_93 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = -1e30, max = 1e30, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(min = -1e30, max = 1e30, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_94 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = -1e30)))", v: "number", attr: "nan(Allow), range(Outside(min = -1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_95 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(max = 1e30)))", v: "number", attr: "nan(Allow), range(Outside(max = 1e30))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_96 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(max = 1e30, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_97 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = -1e30, max = 1e30)))", v: "number", attr: "nan(Allow), range(Outside(min = -1e30, max = 1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_98 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = -1e30, max = 1e30, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(min = -1e30, max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_99 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = 0, max = 0)))", v: "number", attr: "nan(Allow), range(Inside(min = 0, max = 0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_100 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = 0.5, max = 0.5)))", v: "number", attr: "nan(Allow), range(Inside(min = 0.5, max = 0.5))", opts: &[("kind", "Inside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_101 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(min = 5, max = 6, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(min = 5, max = 6, inclusive = false))", opts: &[("kind", "Inside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_102 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(0.0..=1.0)))", v: "number", attr: "nan(Allow), range(Inside(0.0..=1.0))", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_103 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(0.0..1.0)))", v: "number", attr: "nan(Allow), range(Inside(0.0..1.0))", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_104 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(1.5..)))", v: "number", attr: "nan(Allow), range(Inside(1.5..))", opts: &[("kind", "Inside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_105 },
    Cfg { name: "f32 number(nan(Allow), range(Inside(..1.5)))", v: "number", attr: "nan(Allow), range(Inside(..1.5))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_106 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = 0, max = 0)))", v: "number", attr: "nan(Allow), range(Outside(min = 0, max = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_107 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = 0.5, max = 0.5)))", v: "number", attr: "nan(Allow), range(Outside(min = 0.5, max = 0.5))", opts: &[("kind", "Outside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_108 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(min = 5, max = 6, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(min = 5, max = 6, inclusive = false))", opts: &[("kind", "Outside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_109 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(0.0..=1.0)))", v: "number", attr: "nan(Allow), range(Outside(0.0..=1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_110 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(0.0..1.0)))", v: "number", attr: "nan(Allow), range(Outside(0.0..1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_111 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(1.5..)))", v: "number", attr: "nan(Allow), range(Outside(1.5..))", opts: &[("kind", "Outside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f32", run: run_112 },
    Cfg { name: "f32 number(nan(Allow), range(Outside(..1.5)))", v: "number", attr: "nan(Allow), range(Outside(..1.5))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Allow")], ty: "f32", run: run_113 },
    Cfg { name: "f32 number(nan(Must))", v: "number", attr: "nan(Must)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_114 },
    Cfg { name: "f32 number(nan(Must), range(Unlimited))", v: "number", attr: "nan(Must), range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_115 },
    Cfg { name: "f32 number(nan(Must), range(Inside()), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside()), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_116 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = -1.5)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = -1.5)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_117 },
    Cfg { name: "f32 number(nan(Must), range(Inside(max = 2.25)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 2.25)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_118 },
    Cfg { name: "f32 number(nan(Must), range(Inside(max = 2.25, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 2.25, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_119 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = -1.5, max = 2.25)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = -1.5, max = 2.25)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_120 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = -1.5, max = 2.25, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = -1.5, max = 2.25, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_121 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = -1.5)))", v: "number", attr: "nan(Must), range(Outside(min = -1.5))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_122 },
    Cfg { name: "f32 number(nan(Must), range(Outside(max = 2.25)))", v: "number", attr: "nan(Must), range(Outside(max = 2.25))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_123 },
    Cfg { name: "f32 number(nan(Must), range(Outside(max = 2.25, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_124 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = -1.5, max = 2.25)))", v: "number", attr: "nan(Must), range(Outside(min = -1.5, max = 2.25))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_125 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = -1.5, max = 2.25, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(min = -1.5, max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_126 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = 0)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_127 },
    Cfg { name: "f32 number(nan(Must), range(Inside(max = 1.0)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 1.0)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_128 },
    Cfg { name: "f32 number(nan(Must), range(Inside(max = 1.0, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 1.0, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_129 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = 0, max = 1.0)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0, max = 1.0)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_130 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = 0, max = 1.0, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0, max = 1.0, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_131 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = 0)))", v: "number", attr: "nan(Must), range(Outside(min = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_132 },
    Cfg { name: "f32 number(nan(Must), range(Outside(max = 1.0)))", v: "number", attr: "nan(Must), range(Outside(max = 1.0))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_133 },
    Cfg { name: "f32 number(nan(Must), range(Outside(max = 1.0, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_134 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = 0, max = 1.0)))", v: "number", attr: "nan(Must), range(Outside(min = 0, max = 1.0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_135 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = 0, max = 1.0, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(min = 0, max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_136 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = 0.1)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0.1)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_137 },
    Cfg { name: "f32 number(nan(Must), range(Inside(max = 0.3)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 0.3)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_138 },
    Cfg { name: "f32 number(nan(Must), range(Inside(max = 0.3, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 0.3, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_139 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = 0.1, max = 0.3)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0.1, max = 0.3)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_140 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = 0.1, max = 0.3, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0.1, max = 0.3, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_141 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = 0.1)))", v: "number", attr: "nan(Must), range(Outside(min = 0.1))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_142 },
    Cfg { name: "f32 number(nan(Must), range(Outside(max = 0.3)))", v: "number", attr: "nan(Must), range(Outside(max = 0.3))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_143 },
    Cfg { name: "f32 number(nan(Must), range(Outside(max = 0.3, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_144 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = 0.1, max = 0.3)))", v: "number", attr: "nan(Must), range(Outside(min = 0.1, max = 0.3))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_145 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = 0.1, max = 0.3, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(min = 0.1, max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_146 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = -1e30)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = -1e30)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_147 },
    Cfg { name: "f32 number(nan(Must), range(Inside(max = 1e30)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 1e30)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_148 },
    Cfg { name: "f32 number(nan(Must), range(Inside(max = 1e30, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 1e30, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_149 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = -1e30, max = 1e30)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = -1e30, max = 1e30)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_150 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = -1e30, max = 1e30, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = -1e30, max = 1e30, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_151 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = -1e30)))", v: "number", attr: "nan(Must), range(Outside(min = -1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_152 },
    Cfg { name: "f32 number(nan(Must), range(Outside(max = 1e30)))", v: "number", attr: "nan(Must), range(Outside(max = 1e30))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_153 },
    Cfg { name: "f32 number(nan(Must), range(Outside(max = 1e30, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_154 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = -1e30, max = 1e30)))", v: "number", attr: "nan(Must), range(Outside(min = -1e30, max = 1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_155 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = -1e30, max = 1e30, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(min = -1e30, max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_156 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = 0, max = 0)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0, max = 0)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_157 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = 0.5, max = 0.5)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0.5, max = 0.5)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_158 },
    Cfg { name: "f32 number(nan(Must), range(Inside(min = 5, max = 6, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 5, max = 6, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_159 },
    Cfg { name: "f32 number(nan(Must), range(Inside(0.0..=1.0)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(0.0..=1.0)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_160 },
    Cfg { name: "f32 number(nan(Must), range(Inside(0.0..1.0)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(0.0..1.0)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_161 },
    Cfg { name: "f32 number(nan(Must), range(Inside(1.5..)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(1.5..)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_162 },
    Cfg { name: "f32 number(nan(Must), range(Inside(..1.5)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(..1.5)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_163 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = 0, max = 0)))", v: "number", attr: "nan(Must), range(Outside(min = 0, max = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_164 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = 0.5, max = 0.5)))", v: "number", attr: "nan(Must), range(Outside(min = 0.5, max = 0.5))", opts: &[("kind", "Outside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_165 },
    Cfg { name: "f32 number(nan(Must), range(Outside(min = 5, max = 6, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(min = 5, max = 6, inclusive = false))", opts: &[("kind", "Outside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_166 },
    Cfg { name: "f32 number(nan(Must), range(Outside(0.0..=1.0)))", v: "number", attr: "nan(Must), range(Outside(0.0..=1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_167 },
    Cfg { name: "f32 number(nan(Must), range(Outside(0.0..1.0)))", v: "number", attr: "nan(Must), range(Outside(0.0..1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_168 },
    Cfg { name: "f32 number(nan(Must), range(Outside(1.5..)))", v: "number", attr: "nan(Must), range(Outside(1.5..))", opts: &[("kind", "Outside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f32", run: run_169 },
    Cfg { name: "f32 number(nan(Must), range(Outside(..1.5)))", v: "number", attr: "nan(Must), range(Outside(..1.5))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Must")], ty: "f32", run: run_170 },
    Cfg { name: "f32 number(nan(Disallow))", v: "number", attr: "nan(Disallow)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_171 },
    Cfg { name: "f32 number(nan(Disallow), range(Unlimited))", v: "number", attr: "nan(Disallow), range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_172 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside()))", v: "number", attr: "nan(Disallow), range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_173 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = -1.5)))", v: "number", attr: "nan(Disallow), range(Inside(min = -1.5))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_174 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(max = 2.25)))", v: "number", attr: "nan(Disallow), range(Inside(max = 2.25))", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_175 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(max = 2.25, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(max = 2.25, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_176 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = -1.5, max = 2.25)))", v: "number", attr: "nan(Disallow), range(Inside(min = -1.5, max = 2.25))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_177 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = -1.5, max = 2.25, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(min = -1.5, max = 2.25, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_178 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = -1.5)))", v: "number", attr: "nan(Disallow), range(Outside(min = -1.5))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_179 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(max = 2.25)))", v: "number", attr: "nan(Disallow), range(Outside(max = 2.25))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_180 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(max = 2.25, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_181 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = -1.5, max = 2.25)))", v: "number", attr: "nan(Disallow), range(Outside(min = -1.5, max = 2.25))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_182 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = -1.5, max = 2.25, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(min = -1.5, max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_183 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = 0)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_184 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(max = 1.0)))", v: "number", attr: "nan(Disallow), range(Inside(max = 1.0))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_185 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(max = 1.0, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(max = 1.0, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_186 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = 0, max = 1.0)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0, max = 1.0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_187 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = 0, max = 1.0, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0, max = 1.0, inclusive = false))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_188 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = 0)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_189 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(max = 1.0)))", v: "number", attr: "nan(Disallow), range(Outside(max = 1.0))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_190 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(max = 1.0, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_191 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = 0, max = 1.0)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0, max = 1.0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_192 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = 0, max = 1.0, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0, max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_193 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = 0.1)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0.1))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_194 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(max = 0.3)))", v: "number", attr: "nan(Disallow), range(Inside(max = 0.3))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_195 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(max = 0.3, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(max = 0.3, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_196 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = 0.1, max = 0.3)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0.1, max = 0.3))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_197 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = 0.1, max = 0.3, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0.1, max = 0.3, inclusive = false))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_198 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = 0.1)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0.1))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_199 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(max = 0.3)))", v: "number", attr: "nan(Disallow), range(Outside(max = 0.3))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_200 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(max = 0.3, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_201 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = 0.1, max = 0.3)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0.1, max = 0.3))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_202 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = 0.1, max = 0.3, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0.1, max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_203 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = -1e30)))", v: "number", attr: "nan(Disallow), range(Inside(min = -1e30))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_204 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(max = 1e30)))", v: "number", attr: "nan(Disallow), range(Inside(max = 1e30))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_205 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(max = 1e30, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(max = 1e30, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_206 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = -1e30, max = 1e30)))", v: "number", attr: "nan(Disallow), range(Inside(min = -1e30, max = 1e30))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_207 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = -1e30, max = 1e30, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(min = -1e30, max = 1e30, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_208 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = -1e30)))", v: "number", attr: "nan(Disallow), range(Outside(min = -1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_209 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(max = 1e30)))", v: "number", attr: "nan(Disallow), range(Outside(max = 1e30))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_210 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(max = 1e30, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_211 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = -1e30, max = 1e30)))", v: "number", attr: "nan(Disallow), range(Outside(min = -1e30, max = 1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_212 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = -1e30, max = 1e30, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(min = -1e30, max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_213 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = 0, max = 0)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0, max = 0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_214 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = 0.5, max = 0.5)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0.5, max = 0.5))", opts: &[("kind", "Inside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_215 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(min = 5, max = 6, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(min = 5, max = 6, inclusive = false))", opts: &[("kind", "Inside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_216 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(0.0..=1.0)))", v: "number", attr: "nan(Disallow), range(Inside(0.0..=1.0))", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_217 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(0.0..1.0)))", v: "number", attr: "nan(Disallow), range(Inside(0.0..1.0))", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_218 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(1.5..)))", v: "number", attr: "nan(Disallow), range(Inside(1.5..))", opts: &[("kind", "Inside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_219 },
    Cfg { name: "f32 number(nan(Disallow), range(Inside(..1.5)))", v: "number", attr: "nan(Disallow), range(Inside(..1.5))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_220 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = 0, max = 0)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0, max = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_221 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = 0.5, max = 0.5)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0.5, max = 0.5))", opts: &[("kind", "Outside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_222 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(min = 5, max = 6, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(min = 5, max = 6, inclusive = false))", opts: &[("kind", "Outside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_223 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(0.0..=1.0)))", v: "number", attr: "nan(Disallow), range(Outside(0.0..=1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_224 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(0.0..1.0)))", v: "number", attr: "nan(Disallow), range(Outside(0.0..1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_225 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(1.5..)))", v: "number", attr: "nan(Disallow), range(Outside(1.5..))", opts: &[("kind", "Outside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f32", run: run_226 },
    Cfg { name: "f32 number(nan(Disallow), range(Outside(..1.5)))", v: "number", attr: "nan(Disallow), range(Outside(..1.5))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f32", run: run_227 },
    Cfg { name: "f64 number()", v: "number", attr: "", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_228 },
    Cfg { name: "f64 number(range(Unlimited))", v: "number", attr: "range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_229 },
    Cfg { name: "f64 number(range(Inside()))", v: "number", attr: "range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_230 },
    Cfg { name: "f64 number(range(Inside(min = -1.5)))", v: "number", attr: "range(Inside(min = -1.5))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_231 },
    Cfg { name: "f64 number(range(Inside(max = 2.25)))", v: "number", attr: "range(Inside(max = 2.25))", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_232 },
    Cfg { name: "f64 number(range(Inside(max = 2.25, inclusive = false)))", v: "number", attr: "range(Inside(max = 2.25, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_233 },
    Cfg { name: "f64 number(range(Inside(min = -1.5, max = 2.25)))", v: "number", attr: "range(Inside(min = -1.5, max = 2.25))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_234 },
    Cfg { name: "f64 number(range(Inside(min = -1.5, max = 2.25, inclusive = false)))", v: "number", attr: "range(Inside(min = -1.5, max = 2.25, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_235 },
    Cfg { name: "f64 number(range(Outside(min = -1.5)))", v: "number", attr: "range(Outside(min = -1.5))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_236 },
    Cfg { name: "f64 number(range(Outside(max = 2.25)))", v: "number", attr: "range(Outside(max = 2.25))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_237 },
    Cfg { name: "f64 number(range(Outside(max = 2.25, inclusive = false)))", v: "number", attr: "range(Outside(max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_238 },
    Cfg { name: "f64 number(range(Outside(min = -1.5, max = 2.25)))", v: "number", attr: "range(Outside(min = -1.5, max = 2.25))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_239 },
    Cfg { name: "f64 number(range(Outside(min = -1.5, max = 2.25, inclusive = false)))", v: "number", attr: "range(Outside(min = -1.5, max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_240 },
    Cfg { name: "f64 number(range(Inside(min = 0)))", v: "number", attr: "range(Inside(min = 0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_241 },
    Cfg { name: "f64 number(range(Inside(max = 1.0)))", v: "number", attr: "range(Inside(max = 1.0))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_242 },
    Cfg { name: "f64 number(range(Inside(max = 1.0, inclusive = false)))", v: "number", attr: "range(Inside(max = 1.0, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_243 },
    Cfg { name: "f64 number(range(Inside(min = 0, max = 1.0)))", v: "number", attr: "range(Inside(min = 0, max = 1.0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_244 },
    Cfg { name: "f64 number(range(Inside(min = 0, max = 1.0, inclusive = false)))", v: "number", attr: "range(Inside(min = 0, max = 1.0, inclusive = false))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_245 },
    Cfg { name: "f64 number(range(Outside(min = 0)))", v: "number", attr: "range(Outside(min = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_246 },
    Cfg { name: "f64 number(range(Outside(max = 1.0)))", v: "number", attr: "range(Outside(max = 1.0))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_247 },
    Cfg { name: "f64 number(range(Outside(max = 1.0, inclusive = false)))", v: "number", attr: "range(Outside(max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_248 },
    Cfg { name: "f64 number(range(Outside(min = 0, max = 1.0)))", v: "number", attr: "range(Outside(min = 0, max = 1.0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_249 },
    Cfg { name: "f64 number(range(Outside(min = 0, max = 1.0, inclusive = false)))", v: "number", attr: "range(Outside(min = 0, max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_250 },
    Cfg { name: "f64 number(range(Inside(min = 0.1)))", v: "number", attr: "range(Inside(min = 0.1))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_251 },
    Cfg { name: "f64 number(range(Inside(max = 0.3)))", v: "number", attr: "range(Inside(max = 0.3))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_252 },
    Cfg { name: "f64 number(range(Inside(max = 0.3, inclusive = false)))", v: "number", attr: "range(Inside(max = 0.3, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_253 },
    Cfg { name: "f64 number(range(Inside(min = 0.1, max = 0.3)))", v: "number", attr: "range(Inside(min = 0.1, max = 0.3))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_254 },
    Cfg { name: "f64 number(range(Inside(min = 0.1, max = 0.3, inclusive = false)))", v: "number", attr: "range(Inside(min = 0.1, max = 0.3, inclusive = false))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_255 },
    Cfg { name: "f64 number(range(Outside(min = 0.1)))", v: "number", attr: "range(Outside(min = 0.1))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_256 },
    Cfg { name: "f64 number(range(Outside(max = 0.3)))", v: "number", attr: "range(Outside(max = 0.3))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_257 },
    Cfg { name: "f64 number(range(Outside(max = 0.3, inclusive = false)))", v: "number", attr: "range(Outside(max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_258 },
    Cfg { name: "f64 number(range(Outside(min = 0.1, max = 0.3)))", v: "number", attr: "range(Outside(min = 0.1, max = 0.3))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_259 },
    Cfg { name: "f64 number(range(Outside(min = 0.1, max = 0.3, inclusive = false)))", v: "number", attr: "range(Outside(min = 0.1, max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_260 },
    Cfg { name: "f64 number(range(Inside(min = -1e30)))", v: "number", attr: "range(Inside(min = -1e30))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_261 },
    Cfg { name: "f64 number(range(Inside(max = 1e30)))", v: "number", attr: "range(Inside(max = 1e30))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_262 },
    Cfg { name: "f64 number(range(Inside(max = 1e30, inclusive = false)))", v: "number", attr: "range(Inside(max = 1e30, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_263 },
    Cfg { name: "f64 number(range(Inside(min = -1e30, max = 1e30)))", v: "number", attr: "range(Inside(min = -1e30, max = 1e30))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_264 },
    Cfg { name: "f64 number(range(Inside(min = -1e30, max = 1e30, inclusive = false)))", v: "number", attr: "range(Inside(min = -1e30, max = 1e30, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_265 },
    Cfg { name: "f64 number(range(Outside(min = -1e30)))", v: "number", attr: "range(Outside(min = -1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_266 },
    Cfg { name: "f64 number(range(Outside(max = 1e30)))", v: "number", attr: "range(Outside(max = 1e30))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_267 },
    Cfg { name: "f64 number(range(Outside(max = 1e30, inclusive = false)))", v: "number", attr: "range(Outside(max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_268 },
    Cfg { name: "f64 number(range(Outside(min = -1e30, max = 1e30)))", v: "number", attr: "range(Outside(min = -1e30, max = 1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_269 },
    Cfg { name: "f64 number(range(Outside(min = -1e30, max = 1e30, inclusive = false)))", v: "number", attr: "range(Outside(min = -1e30, max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_270 },
    Cfg { name: "f64 number(range(Inside(min = 0, max = 0)))", v: "number", attr: "range(Inside(min = 0, max = 0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_271 },
    Cfg { name: "f64 number(range(Inside(min = 0.5, max = 0.5)))", v: "number", attr: "range(Inside(min = 0.5, max = 0.5))", opts: &[("kind", "Inside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_272 },
    Cfg { name: "f64 number(range(Inside(min = 5, max = 6, inclusive = false)))", v: "number", attr: "range(Inside(min = 5, max = 6, inclusive = false))", opts: &[("kind", "Inside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_273 },
    Cfg { name: "f64 number(range(Inside(0.0..=1.0)))", v: "number", attr: "range(Inside(0.0..=1.0))", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_274 },
    Cfg { name: "f64 number(range(Inside(0.0..1.0)))", v: "number", attr: "range(Inside(0.0..1.0))", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_275 },
    Cfg { name: "f64 number(range(Inside(1.5..)))", v: "number", attr: "range(Inside(1.5..))", opts: &[("kind", "Inside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_276 },
    Cfg { name: "f64 number(range(Inside(..1.5)))", v: "number", attr: "range(Inside(..1.5))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_277 },
    Cfg { name: "f64 number(range(Outside(min = 0, max = 0)))", v: "number", attr: "range(Outside(min = 0, max = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_278 },
    Cfg { name: "f64 number(range(Outside(min = 0.5, max = 0.5)))", v: "number", attr: "range(Outside(min = 0.5, max = 0.5))", opts: &[("kind", "Outside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_279 },
    Cfg { name: "f64 number(range(Outside(min = 5, max = 6, inclusive = false)))", v: "number", attr: "range(Outside(min = 5, max = 6, inclusive = false))", opts: &[("kind", "Outside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_280 },
    Cfg { name: "f64 number(range(Outside(0.0..=1.0)))", v: "number", attr: "range(Outside(0.0..=1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_281 },
    Cfg { name: "f64 number(range(Outside(0.0..1.0)))", v: "number", attr: "range(Outside(0.0..1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_282 },
    Cfg { name: "f64 number(range(Outside(1.5..)))", v: "number", attr: "range(Outside(1.5..))", opts: &[("kind", "Outside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_283 },
    Cfg { name: "f64 number(range(Outside(..1.5)))", v: "number", attr: "range(Outside(..1.5))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_284 },
    Cfg { name: "f64 number(nan(Allow))", v: "number", attr: "nan(Allow)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_285 },
    Cfg { name: "f64 number(nan(Allow), range(Unlimited))", v: "number", attr: "nan(Allow), range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_286 },
    Cfg { name: "f64 number(nan(Allow), range(Inside()))", v: "number", attr: "nan(Allow), range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_287 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = -1.5)))", v: "number", attr: "nan(Allow), range(Inside(min = -1.5))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_288 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(max = 2.25)))", v: "number", attr: "nan(Allow), range(Inside(max = 2.25))", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_289 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(max = 2.25, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(max = 2.25, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_290 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = -1.5, max = 2.25)))", v: "number", attr: "nan(Allow), range(Inside(min = -1.5, max = 2.25))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_291 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = -1.5, max = 2.25, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(min = -1.5, max = 2.25, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_292 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = -1.5)))", v: "number", attr: "nan(Allow), range(Outside(min = -1.5))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_293 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(max = 2.25)))", v: "number", attr: "nan(Allow), range(Outside(max = 2.25))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_294 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(max = 2.25, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_295 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = -1.5, max = 2.25)))", v: "number", attr: "nan(Allow), range(Outside(min = -1.5, max = 2.25))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_296 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = -1.5, max = 2.25, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(min = -1.5, max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_297 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = 0)))", v: "number", attr: "nan(Allow), range(Inside(min = 0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_298 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(max = 1.0)))", v: "number", attr: "nan(Allow), range(Inside(max = 1.0))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_299 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(max = 1.0, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(max = 1.0, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_300 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = 0, max = 1.0)))", v: "number", attr: "nan(Allow), range(Inside(min = 0, max = 1.0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_301 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = 0, max = 1.0, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(min = 0, max = 1.0, inclusive = false))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_302 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = 0)))", v: "number", attr: "nan(Allow), range(Outside(min = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_303 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(max = 1.0)))", v: "number", attr: "nan(Allow), range(Outside(max = 1.0))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_304 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(max = 1.0, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_305 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = 0, max = 1.0)))", v: "number", attr: "nan(Allow), range(Outside(min = 0, max = 1.0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_306 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = 0, max = 1.0, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(min = 0, max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_307 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = 0.1)))", v: "number", attr: "nan(Allow), range(Inside(min = 0.1))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_308 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(max = 0.3)))", v: "number", attr: "nan(Allow), range(Inside(max = 0.3))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_309 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(max = 0.3, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(max = 0.3, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_310 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = 0.1, max = 0.3)))", v: "number", attr: "nan(Allow), range(Inside(min = 0.1, max = 0.3))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_311 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = 0.1, max = 0.3, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(min = 0.1, max = 0.3, inclusive = false))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_312 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = 0.1)))", v: "number", attr: "nan(Allow), range(Outside(min = 0.1))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_313 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(max = 0.3)))", v: "number", attr: "nan(Allow), range(Outside(max = 0.3))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_314 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(max = 0.3, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_315 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = 0.1, max = 0.3)))", v: "number", attr: "nan(Allow), range(Outside(min = 0.1, max = 0.3))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_316 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = 0.1, max = 0.3, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(min = 0.1, max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_317 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = -1e30)))", v: "number", attr: "nan(Allow), range(Inside(min = -1e30))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_318 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(max = 1e30)))", v: "number", attr: "nan(Allow), range(Inside(max = 1e30))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_319 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(max = 1e30, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(max = 1e30, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_320 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = -1e30, max = 1e30)))", v: "number", attr: "nan(Allow), range(Inside(min = -1e30, max = 1e30))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_321 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = -1e30, max = 1e30, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(min = -1e30, max = 1e30, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_322 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = -1e30)))", v: "number", attr: "nan(Allow), range(Outside(min = -1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_323 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(max = 1e30)))", v: "number", attr: "nan(Allow), range(Outside(max = 1e30))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_324 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(max = 1e30, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_325 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = -1e30, max = 1e30)))", v: "number", attr: "nan(Allow), range(Outside(min = -1e30, max = 1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_326 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = -1e30, max = 1e30, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(min = -1e30, max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_327 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = 0, max = 0)))", v: "number", attr: "nan(Allow), range(Inside(min = 0, max = 0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_328 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = 0.5, max = 0.5)))", v: "number", attr: "nan(Allow), range(Inside(min = 0.5, max = 0.5))", opts: &[("kind", "Inside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_329 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(min = 5, max = 6, inclusive = false)))", v: "number", attr: "nan(Allow), range(Inside(min = 5, max = 6, inclusive = false))", opts: &[("kind", "Inside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_330 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(0.0..=1.0)))", v: "number", attr: "nan(Allow), range(Inside(0.0..=1.0))", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_331 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(0.0..1.0)))", v: "number", attr: "nan(Allow), range(Inside(0.0..1.0))", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_332 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(1.5..)))", v: "number", attr: "nan(Allow), range(Inside(1.5..))", opts: &[("kind", "Inside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_333 },
    Cfg { name: "f64 number(nan(Allow), range(Inside(..1.5)))", v: "number", attr: "nan(Allow), range(Inside(..1.5))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_334 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = 0, max = 0)))", v: "number", attr: "nan(Allow), range(Outside(min = 0, max = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_335 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = 0.5, max = 0.5)))", v: "number", attr: "nan(Allow), range(Outside(min = 0.5, max = 0.5))", opts: &[("kind", "Outside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_336 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(min = 5, max = 6, inclusive = false)))", v: "number", attr: "nan(Allow), range(Outside(min = 5, max = 6, inclusive = false))", opts: &[("kind", "Outside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_337 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(0.0..=1.0)))", v: "number", attr: "nan(Allow), range(Outside(0.0..=1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_338 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(0.0..1.0)))", v: "number", attr: "nan(Allow), range(Outside(0.0..1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_339 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(1.5..)))", v: "number", attr: "nan(Allow), range(Outside(1.5..))", opts: &[("kind", "Outside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Allow")], ty: "f64", run: run_340 },
    Cfg { name: "f64 number(nan(Allow), range(Outside(..1.5)))", v: "number", attr: "nan(Allow), range(Outside(..1.5))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Allow")], ty: "f64", run: run_341 },
    Cfg { name: "f64 number(nan(Must))", v: "number", attr: "nan(Must)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_342 },
    Cfg { name: "f64 number(nan(Must), range(Unlimited))", v: "number", attr: "nan(Must), range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_343 },
    Cfg { name: "f64 number(nan(Must), range(Inside()), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside()), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_344 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = -1.5)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = -1.5)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_345 },
    Cfg { name: "f64 number(nan(Must), range(Inside(max = 2.25)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 2.25)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_346 },
    Cfg { name: "f64 number(nan(Must), range(Inside(max = 2.25, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 2.25, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_347 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = -1.5, max = 2.25)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = -1.5, max = 2.25)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_348 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = -1.5, max = 2.25, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = -1.5, max = 2.25, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_349 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = -1.5)))", v: "number", attr: "nan(Must), range(Outside(min = -1.5))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_350 },
    Cfg { name: "f64 number(nan(Must), range(Outside(max = 2.25)))", v: "number", attr: "nan(Must), range(Outside(max = 2.25))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_351 },
    Cfg { name: "f64 number(nan(Must), range(Outside(max = 2.25, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_352 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = -1.5, max = 2.25)))", v: "number", attr: "nan(Must), range(Outside(min = -1.5, max = 2.25))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_353 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = -1.5, max = 2.25, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(min = -1.5, max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_354 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = 0)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_355 },
    Cfg { name: "f64 number(nan(Must), range(Inside(max = 1.0)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 1.0)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_356 },
    Cfg { name: "f64 number(nan(Must), range(Inside(max = 1.0, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 1.0, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_357 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = 0, max = 1.0)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0, max = 1.0)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_358 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = 0, max = 1.0, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0, max = 1.0, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_359 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = 0)))", v: "number", attr: "nan(Must), range(Outside(min = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_360 },
    Cfg { name: "f64 number(nan(Must), range(Outside(max = 1.0)))", v: "number", attr: "nan(Must), range(Outside(max = 1.0))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_361 },
    Cfg { name: "f64 number(nan(Must), range(Outside(max = 1.0, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_362 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = 0, max = 1.0)))", v: "number", attr: "nan(Must), range(Outside(min = 0, max = 1.0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_363 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = 0, max = 1.0, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(min = 0, max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_364 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = 0.1)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0.1)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_365 },
    Cfg { name: "f64 number(nan(Must), range(Inside(max = 0.3)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 0.3)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_366 },
    Cfg { name: "f64 number(nan(Must), range(Inside(max = 0.3, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 0.3, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_367 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = 0.1, max = 0.3)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0.1, max = 0.3)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_368 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = 0.1, max = 0.3, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0.1, max = 0.3, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_369 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = 0.1)))", v: "number", attr: "nan(Must), range(Outside(min = 0.1))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_370 },
    Cfg { name: "f64 number(nan(Must), range(Outside(max = 0.3)))", v: "number", attr: "nan(Must), range(Outside(max = 0.3))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_371 },
    Cfg { name: "f64 number(nan(Must), range(Outside(max = 0.3, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_372 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = 0.1, max = 0.3)))", v: "number", attr: "nan(Must), range(Outside(min = 0.1, max = 0.3))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_373 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = 0.1, max = 0.3, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(min = 0.1, max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_374 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = -1e30)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = -1e30)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_375 },
    Cfg { name: "f64 number(nan(Must), range(Inside(max = 1e30)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 1e30)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_376 },
    Cfg { name: "f64 number(nan(Must), range(Inside(max = 1e30, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(max = 1e30, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_377 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = -1e30, max = 1e30)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = -1e30, max = 1e30)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_378 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = -1e30, max = 1e30, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = -1e30, max = 1e30, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_379 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = -1e30)))", v: "number", attr: "nan(Must), range(Outside(min = -1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_380 },
    Cfg { name: "f64 number(nan(Must), range(Outside(max = 1e30)))", v: "number", attr: "nan(Must), range(Outside(max = 1e30))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_381 },
    Cfg { name: "f64 number(nan(Must), range(Outside(max = 1e30, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_382 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = -1e30, max = 1e30)))", v: "number", attr: "nan(Must), range(Outside(min = -1e30, max = 1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_383 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = -1e30, max = 1e30, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(min = -1e30, max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_384 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = 0, max = 0)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0, max = 0)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_385 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = 0.5, max = 0.5)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 0.5, max = 0.5)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_386 },
    Cfg { name: "f64 number(nan(Must), range(Inside(min = 5, max = 6, inclusive = false)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(min = 5, max = 6, inclusive = false)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_387 },
    Cfg { name: "f64 number(nan(Must), range(Inside(0.0..=1.0)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(0.0..=1.0)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_388 },
    Cfg { name: "f64 number(nan(Must), range(Inside(0.0..1.0)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(0.0..1.0)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_389 },
    Cfg { name: "f64 number(nan(Must), range(Inside(1.5..)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(1.5..)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_390 },
    Cfg { name: "f64 number(nan(Must), range(Inside(..1.5)), conflict(Allow))", v: "number", attr: "nan(Must), range(Inside(..1.5)), conflict(Allow)", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_391 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = 0, max = 0)))", v: "number", attr: "nan(Must), range(Outside(min = 0, max = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_392 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = 0.5, max = 0.5)))", v: "number", attr: "nan(Must), range(Outside(min = 0.5, max = 0.5))", opts: &[("kind", "Outside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_393 },
    Cfg { name: "f64 number(nan(Must), range(Outside(min = 5, max = 6, inclusive = false)))", v: "number", attr: "nan(Must), range(Outside(min = 5, max = 6, inclusive = false))", opts: &[("kind", "Outside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_394 },
    Cfg { name: "f64 number(nan(Must), range(Outside(0.0..=1.0)))", v: "number", attr: "nan(Must), range(Outside(0.0..=1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_395 },
    Cfg { name: "f64 number(nan(Must), range(Outside(0.0..1.0)))", v: "number", attr: "nan(Must), range(Outside(0.0..1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_396 },
    Cfg { name: "f64 number(nan(Must), range(Outside(1.5..)))", v: "number", attr: "nan(Must), range(Outside(1.5..))", opts: &[("kind", "Outside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Must")], ty: "f64", run: run_397 },
    Cfg { name: "f64 number(nan(Must), range(Outside(..1.5)))", v: "number", attr: "nan(Must), range(Outside(..1.5))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Must")], ty: "f64", run: run_398 },
    Cfg { name: "f64 number(nan(Disallow))", v: "number", attr: "nan(Disallow)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_399 },
    Cfg { name: "f64 number(nan(Disallow), range(Unlimited))", v: "number", attr: "nan(Disallow), range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_400 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside()))", v: "number", attr: "nan(Disallow), range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_401 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = -1.5)))", v: "number", attr: "nan(Disallow), range(Inside(min = -1.5))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_402 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(max = 2.25)))", v: "number", attr: "nan(Disallow), range(Inside(max = 2.25))", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_403 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(max = 2.25, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(max = 2.25, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_404 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = -1.5, max = 2.25)))", v: "number", attr: "nan(Disallow), range(Inside(min = -1.5, max = 2.25))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_405 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = -1.5, max = 2.25, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(min = -1.5, max = 2.25, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_406 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = -1.5)))", v: "number", attr: "nan(Disallow), range(Outside(min = -1.5))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_407 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(max = 2.25)))", v: "number", attr: "nan(Disallow), range(Outside(max = 2.25))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_408 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(max = 2.25, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "2.25"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_409 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = -1.5, max = 2.25)))", v: "number", attr: "nan(Disallow), range(Outside(min = -1.5, max = 2.25))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_410 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = -1.5, max = 2.25, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(min = -1.5, max = 2.25, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1.5"), ("max", "2.25"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_411 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = 0)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_412 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(max = 1.0)))", v: "number", attr: "nan(Disallow), range(Inside(max = 1.0))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_413 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(max = 1.0, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(max = 1.0, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_414 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = 0, max = 1.0)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0, max = 1.0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_415 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = 0, max = 1.0, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0, max = 1.0, inclusive = false))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_416 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = 0)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_417 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(max = 1.0)))", v: "number", attr: "nan(Disallow), range(Outside(max = 1.0))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_418 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(max = 1.0, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.0"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_419 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = 0, max = 1.0)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0, max = 1.0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_420 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = 0, max = 1.0, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0, max = 1.0, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_421 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = 0.1)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0.1))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_422 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(max = 0.3)))", v: "number", attr: "nan(Disallow), range(Inside(max = 0.3))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_423 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(max = 0.3, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(max = 0.3, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_424 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = 0.1, max = 0.3)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0.1, max = 0.3))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_425 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = 0.1, max = 0.3, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0.1, max = 0.3, inclusive = false))", opts: &[("kind", "Inside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_426 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = 0.1)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0.1))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_427 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(max = 0.3)))", v: "number", attr: "nan(Disallow), range(Outside(max = 0.3))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_428 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(max = 0.3, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0.3"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_429 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = 0.1, max = 0.3)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0.1, max = 0.3))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_430 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = 0.1, max = 0.3, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0.1, max = 0.3, inclusive = false))", opts: &[("kind", "Outside"), ("min", "0.1"), ("max", "0.3"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_431 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = -1e30)))", v: "number", attr: "nan(Disallow), range(Inside(min = -1e30))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_432 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(max = 1e30)))", v: "number", attr: "nan(Disallow), range(Inside(max = 1e30))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_433 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(max = 1e30, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(max = 1e30, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_434 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = -1e30, max = 1e30)))", v: "number", attr: "nan(Disallow), range(Inside(min = -1e30, max = 1e30))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_435 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = -1e30, max = 1e30, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(min = -1e30, max = 1e30, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_436 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = -1e30)))", v: "number", attr: "nan(Disallow), range(Outside(min = -1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_437 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(max = 1e30)))", v: "number", attr: "nan(Disallow), range(Outside(max = 1e30))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_438 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(max = 1e30, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1e30"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_439 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = -1e30, max = 1e30)))", v: "number", attr: "nan(Disallow), range(Outside(min = -1e30, max = 1e30))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_440 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = -1e30, max = 1e30, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(min = -1e30, max = 1e30, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-1e30"), ("max", "1e30"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_441 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = 0, max = 0)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0, max = 0))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_442 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = 0.5, max = 0.5)))", v: "number", attr: "nan(Disallow), range(Inside(min = 0.5, max = 0.5))", opts: &[("kind", "Inside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_443 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(min = 5, max = 6, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Inside(min = 5, max = 6, inclusive = false))", opts: &[("kind", "Inside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_444 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(0.0..=1.0)))", v: "number", attr: "nan(Disallow), range(Inside(0.0..=1.0))", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_445 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(0.0..1.0)))", v: "number", attr: "nan(Disallow), range(Inside(0.0..1.0))", opts: &[("kind", "Inside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_446 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(1.5..)))", v: "number", attr: "nan(Disallow), range(Inside(1.5..))", opts: &[("kind", "Inside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_447 },
    Cfg { name: "f64 number(nan(Disallow), range(Inside(..1.5)))", v: "number", attr: "nan(Disallow), range(Inside(..1.5))", opts: &[("kind", "Inside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_448 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = 0, max = 0)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0, max = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_449 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = 0.5, max = 0.5)))", v: "number", attr: "nan(Disallow), range(Outside(min = 0.5, max = 0.5))", opts: &[("kind", "Outside"), ("min", "0.5"), ("max", "0.5"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_450 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(min = 5, max = 6, inclusive = false)))", v: "number", attr: "nan(Disallow), range(Outside(min = 5, max = 6, inclusive = false))", opts: &[("kind", "Outside"), ("min", "5"), ("max", "6"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_451 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(0.0..=1.0)))", v: "number", attr: "nan(Disallow), range(Outside(0.0..=1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_452 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(0.0..1.0)))", v: "number", attr: "nan(Disallow), range(Outside(0.0..1.0))", opts: &[("kind", "Outside"), ("min", "0.0"), ("max", "1.0"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_453 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(1.5..)))", v: "number", attr: "nan(Disallow), range(Outside(1.5..))", opts: &[("kind", "Outside"), ("min", "1.5"), ("max", ""), ("inclusive", "true"), ("nan", "Disallow")], ty: "f64", run: run_454 },
    Cfg { name: "f64 number(nan(Disallow), range(Outside(..1.5)))", v: "number", attr: "nan(Disallow), range(Outside(..1.5))", opts: &[("kind", "Outside"), ("min", ""), ("max", "1.5"), ("inclusive", "false"), ("nan", "Disallow")], ty: "f64", run: run_455 },
];
