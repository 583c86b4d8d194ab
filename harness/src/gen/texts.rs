// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text)]
pub struct V0x(pub String);
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(max = 0)))]
pub struct V1x(pub String);
fn run_1(i: &Input) -> Out { type Vx = V1x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(max = 1)))]
pub struct V2x(pub String);
fn run_2(i: &Input) -> Out { type Vx = V2x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(max = 3)))]
pub struct V3x(pub String);
fn run_3(i: &Input) -> Out { type Vx = V3x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(max = 4)))]
pub struct V4x(pub String);
fn run_4(i: &Input) -> Out { type Vx = V4x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(max = 6)))]
pub struct V5x(pub String);
fn run_5(i: &Input) -> Out { type Vx = V5x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0)))]
pub struct V6x(pub String);
fn run_6(i: &Input) -> Out { type Vx = V6x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, max = 0)))]
pub struct V7x(pub String);
fn run_7(i: &Input) -> Out { type Vx = V7x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, max = 1)))]
pub struct V8x(pub String);
fn run_8(i: &Input) -> Out { type Vx = V8x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, max = 3)))]
pub struct V9x(pub String);
fn run_9(i: &Input) -> Out { type Vx = V9x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, max = 4)))]
pub struct V10x(pub String);
fn run_10(i: &Input) -> Out { type Vx = V10x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, max = 6)))]
pub struct V11x(pub String);
fn run_11(i: &Input) -> Out { type Vx = V11x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1)))]
pub struct V12x(pub String);
fn run_12(i: &Input) -> Out { type Vx = V12x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1, max = 1)))]
pub struct V13x(pub String);
fn run_13(i: &Input) -> Out { type Vx = V13x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1, max = 3)))]
pub struct V14x(pub String);
fn run_14(i: &Input) -> Out { type Vx = V14x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1, max = 4)))]
pub struct V15x(pub String);
fn run_15(i: &Input) -> Out { type Vx = V15x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1, max = 6)))]
pub struct V16x(pub String);
fn run_16(i: &Input) -> Out { type Vx = V16x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 2)))]
pub struct V17x(pub String);
fn run_17(i: &Input) -> Out { type Vx = V17x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 2, max = 3)))]
pub struct V18x(pub String);
fn run_18(i: &Input) -> Out { type Vx = V18x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 2, max = 4)))]
pub struct V19x(pub String);
fn run_19(i: &Input) -> Out { type Vx = V19x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 2, max = 6)))]
pub struct V20x(pub String);
fn run_20(i: &Input) -> Out { type Vx = V20x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 0)))]
pub struct V21x(pub String);
fn run_21(i: &Input) -> Out { type Vx = V21x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 0, max = 0)))]
pub struct V22x(pub String);
fn run_22(i: &Input) -> Out { type Vx = V22x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 0, max = 1)))]
pub struct V23x(pub String);
fn run_23(i: &Input) -> Out { type Vx = V23x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 0, max = 3)))]
pub struct V24x(pub String);
fn run_24(i: &Input) -> Out { type Vx = V24x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 0, max = 4)))]
pub struct V25x(pub String);
fn run_25(i: &Input) -> Out { type Vx = V25x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 0, max = 6)))]
pub struct V26x(pub String);
fn run_26(i: &Input) -> Out { type Vx = V26x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 0)))]
pub struct V27x(pub String);
fn run_27(i: &Input) -> Out { type Vx = V27x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 0, max = 0)))]
pub struct V28x(pub String);
fn run_28(i: &Input) -> Out { type Vx = V28x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 0, max = 1)))]
pub struct V29x(pub String);
fn run_29(i: &Input) -> Out { type Vx = V29x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 0, max = 3)))]
pub struct V30x(pub String);
fn run_30(i: &Input) -> Out { type Vx = V30x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 0, max = 4)))]
pub struct V31x(pub String);
fn run_31(i: &Input) -> Out { type Vx = V31x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 0, max = 6)))]
pub struct V32x(pub String);
fn run_32(i: &Input) -> Out { type Vx = V32x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 1)))]
pub struct V33x(pub String);
fn run_33(i: &Input) -> Out { type Vx = V33x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 1, max = 1)))]
pub struct V34x(pub String);
fn run_34(i: &Input) -> Out { type Vx = V34x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 1, max = 3)))]
pub struct V35x(pub String);
fn run_35(i: &Input) -> Out { type Vx = V35x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 1, max = 4)))]
pub struct V36x(pub String);
fn run_36(i: &Input) -> Out { type Vx = V36x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 1, max = 6)))]
pub struct V37x(pub String);
fn run_37(i: &Input) -> Out { type Vx = V37x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 1)))]
pub struct V38x(pub String);
fn run_38(i: &Input) -> Out { type Vx = V38x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 1, max = 1)))]
pub struct V39x(pub String);
fn run_39(i: &Input) -> Out { type Vx = V39x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 1, max = 3)))]
pub struct V40x(pub String);
fn run_40(i: &Input) -> Out { type Vx = V40x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 1, max = 4)))]
pub struct V41x(pub String);
fn run_41(i: &Input) -> Out { type Vx = V41x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 1, max = 6)))]
pub struct V42x(pub String);
fn run_42(i: &Input) -> Out { type Vx = V42x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1, min = 1)))]
pub struct V43x(pub String);
fn run_43(i: &Input) -> Out { type Vx = V43x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1, min = 1, max = 1)))]
pub struct V44x(pub String);
fn run_44(i: &Input) -> Out { type Vx = V44x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1, min = 1, max = 3)))]
pub struct V45x(pub String);
fn run_45(i: &Input) -> Out { type Vx = V45x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1, min = 1, max = 4)))]
pub struct V46x(pub String);
fn run_46(i: &Input) -> Out { type Vx = V46x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1, min = 1, max = 6)))]
pub struct V47x(pub String);
fn run_47(i: &Input) -> Out { type Vx = V47x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 3)))]
pub struct V48x(pub String);
fn run_48(i: &Input) -> Out { type Vx = V48x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 3, max = 3)))]
pub struct V49x(pub String);
fn run_49(i: &Input) -> Out { type Vx = V49x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 3, max = 4)))]
pub struct V50x(pub String);
fn run_50(i: &Input) -> Out { type Vx = V50x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 3, max = 6)))]
pub struct V51x(pub String);
fn run_51(i: &Input) -> Out { type Vx = V51x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 3)))]
pub struct V52x(pub String);
fn run_52(i: &Input) -> Out { type Vx = V52x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 3, max = 3)))]
pub struct V53x(pub String);
fn run_53(i: &Input) -> Out { type Vx = V53x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 3, max = 4)))]
pub struct V54x(pub String);
fn run_54(i: &Input) -> Out { type Vx = V54x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 0, min = 3, max = 6)))]
pub struct V55x(pub String);
fn run_55(i: &Input) -> Out { type Vx = V55x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1, min = 3)))]
pub struct V56x(pub String);
fn run_56(i: &Input) -> Out { type Vx = V56x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1, min = 3, max = 3)))]
pub struct V57x(pub String);
fn run_57(i: &Input) -> Out { type Vx = V57x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1, min = 3, max = 4)))]
pub struct V58x(pub String);
fn run_58(i: &Input) -> Out { type Vx = V58x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1, min = 3, max = 6)))]
pub struct V59x(pub String);
fn run_59(i: &Input) -> Out { type Vx = V59x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 2, min = 3)))]
pub struct V60x(pub String);
fn run_60(i: &Input) -> Out { type Vx = V60x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 2, min = 3, max = 3)))]
pub struct V61x(pub String);
fn run_61(i: &Input) -> Out { type Vx = V61x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 2, min = 3, max = 4)))]
pub struct V62x(pub String);
fn run_62(i: &Input) -> Out { type Vx = V62x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 2, min = 3, max = 6)))]
pub struct V63x(pub String);
fn run_63(i: &Input) -> Out { type Vx = V63x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(max = 18446744073709551615)))]
pub struct V64x(pub String);
fn run_64(i: &Input) -> Out { type Vx = V64x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 1, max = 18446744073709551615)))]
pub struct V65x(pub String);
fn run_65(i: &Input) -> Out { type Vx = V65x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 1, max = 18446744073709551615)))]
pub struct V66x(pub String);
fn run_66(i: &Input) -> Out { type Vx = V66x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 2, min = 3, max = 18446744073709551615)))]
pub struct V67x(pub String);
fn run_67(i: &Input) -> Out { type Vx = V67x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 18446744073709551615, max = 18446744073709551615)))]
pub struct V68x(pub String);
fn run_68(i: &Input) -> Out { type Vx = V68x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 18446744073709551615)))]
pub struct V69x(pub String);
fn run_69(i: &Input) -> Out { type Vx = V69x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 18446744073709551615)))]
pub struct V70x(pub String);
fn run_70(i: &Input) -> Out { type Vx = V70x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 18446744073709551615, min = 18446744073709551615)))]
pub struct V71x(pub String);
fn run_71(i: &Input) -> Out { type Vx = V71x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 18446744073709551615, min = 18446744073709551615, max = 18446744073709551615)))]
pub struct V72x(pub String);
fn run_72(i: &Input) -> Out { type Vx = V72x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 18446744073709551615, max = 18446744073709551615)))]
pub struct V73x(pub String);
fn run_73(i: &Input) -> Out { type Vx = V73x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(max = 18446744073709551614)))]
pub struct V74x(pub String);
fn run_74(i: &Input) -> Out { type Vx = V74x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(max = 256)))]
pub struct V75x(pub String);
fn run_75(i: &Input) -> Out { type Vx = V75x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 256)))]
pub struct V76x(pub String);
fn run_76(i: &Input) -> Out { type Vx = V76x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 256)))]
pub struct V77x(pub String);
fn run_77(i: &Input) -> Out { type Vx = V77x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 257, min = 300, max = 600)))]
pub struct V78x(pub String);
fn run_78(i: &Input) -> Out { type Vx = V78x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 255, max = 256)))]
pub struct V79x(pub String);
fn run_79(i: &Input) -> Out { type Vx = V79x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 65536)))]
pub struct V80x(pub String);
fn run_80(i: &Input) -> Out { type Vx = V80x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 65536, max = 65537)))]
pub struct V81x(pub String);
fn run_81(i: &Input) -> Out { type Vx = V81x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(max = 65535)))]
pub struct V82x(pub String);
fn run_82(i: &Input) -> Out { type Vx = V82x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 12, min = 20, max = 60)))]
pub struct V83x(pub String);
fn run_83(i: &Input) -> Out { type Vx = V83x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 12, max = 60)))]
pub struct V84x(pub String);
fn run_84(i: &Input) -> Out { type Vx = V84x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(min = 20, max = 60)))]
pub struct V85x(pub String);
fn run_85(i: &Input) -> Out { type Vx = V85x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(char_length(trimmed_min = 12, min = 20)))]
pub struct V86x(pub String);
fn run_86(i: &Input) -> Out { type Vx = V86x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(max = 0)))]
pub struct V87x(pub String);
fn run_87(i: &Input) -> Out { type Vx = V87x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(max = 1)))]
pub struct V88x(pub String);
fn run_88(i: &Input) -> Out { type Vx = V88x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(max = 3)))]
pub struct V89x(pub String);
fn run_89(i: &Input) -> Out { type Vx = V89x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(max = 4)))]
pub struct V90x(pub String);
fn run_90(i: &Input) -> Out { type Vx = V90x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(max = 6)))]
pub struct V91x(pub String);
fn run_91(i: &Input) -> Out { type Vx = V91x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0)))]
pub struct V92x(pub String);
fn run_92(i: &Input) -> Out { type Vx = V92x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, max = 0)))]
pub struct V93x(pub String);
fn run_93(i: &Input) -> Out { type Vx = V93x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, max = 1)))]
pub struct V94x(pub String);
fn run_94(i: &Input) -> Out { type Vx = V94x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, max = 3)))]
pub struct V95x(pub String);
fn run_95(i: &Input) -> Out { type Vx = V95x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, max = 4)))]
pub struct V96x(pub String);
fn run_96(i: &Input) -> Out { type Vx = V96x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, max = 6)))]
pub struct V97x(pub String);
fn run_97(i: &Input) -> Out { type Vx = V97x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1)))]
pub struct V98x(pub String);
fn run_98(i: &Input) -> Out { type Vx = V98x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1, max = 1)))]
pub struct V99x(pub String);
fn run_99(i: &Input) -> Out { type Vx = V99x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1, max = 3)))]
pub struct V100x(pub String);
fn run_100(i: &Input) -> Out { type Vx = V100x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1, max = 4)))]
pub struct V101x(pub String);
fn run_101(i: &Input) -> Out { type Vx = V101x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1, max = 6)))]
pub struct V102x(pub String);
fn run_102(i: &Input) -> Out { type Vx = V102x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 2)))]
pub struct V103x(pub String);
fn run_103(i: &Input) -> Out { type Vx = V103x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 2, max = 3)))]
pub struct V104x(pub String);
fn run_104(i: &Input) -> Out { type Vx = V104x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 2, max = 4)))]
pub struct V105x(pub String);
fn run_105(i: &Input) -> Out { type Vx = V105x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 2, max = 6)))]
pub struct V106x(pub String);
fn run_106(i: &Input) -> Out { type Vx = V106x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 0)))]
pub struct V107x(pub String);
fn run_107(i: &Input) -> Out { type Vx = V107x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 0, max = 0)))]
pub struct V108x(pub String);
fn run_108(i: &Input) -> Out { type Vx = V108x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 0, max = 1)))]
pub struct V109x(pub String);
fn run_109(i: &Input) -> Out { type Vx = V109x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 0, max = 3)))]
pub struct V110x(pub String);
fn run_110(i: &Input) -> Out { type Vx = V110x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 0, max = 4)))]
pub struct V111x(pub String);
fn run_111(i: &Input) -> Out { type Vx = V111x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 0, max = 6)))]
pub struct V112x(pub String);
fn run_112(i: &Input) -> Out { type Vx = V112x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 0)))]
pub struct V113x(pub String);
fn run_113(i: &Input) -> Out { type Vx = V113x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 0, max = 0)))]
pub struct V114x(pub String);
fn run_114(i: &Input) -> Out { type Vx = V114x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 0, max = 1)))]
pub struct V115x(pub String);
fn run_115(i: &Input) -> Out { type Vx = V115x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 0, max = 3)))]
pub struct V116x(pub String);
fn run_116(i: &Input) -> Out { type Vx = V116x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 0, max = 4)))]
pub struct V117x(pub String);
fn run_117(i: &Input) -> Out { type Vx = V117x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 0, max = 6)))]
pub struct V118x(pub String);
fn run_118(i: &Input) -> Out { type Vx = V118x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 1)))]
pub struct V119x(pub String);
fn run_119(i: &Input) -> Out { type Vx = V119x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 1, max = 1)))]
pub struct V120x(pub String);
fn run_120(i: &Input) -> Out { type Vx = V120x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 1, max = 3)))]
pub struct V121x(pub String);
fn run_121(i: &Input) -> Out { type Vx = V121x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 1, max = 4)))]
pub struct V122x(pub String);
fn run_122(i: &Input) -> Out { type Vx = V122x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 1, max = 6)))]
pub struct V123x(pub String);
fn run_123(i: &Input) -> Out { type Vx = V123x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 1)))]
pub struct V124x(pub String);
fn run_124(i: &Input) -> Out { type Vx = V124x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 1, max = 1)))]
pub struct V125x(pub String);
fn run_125(i: &Input) -> Out { type Vx = V125x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 1, max = 3)))]
pub struct V126x(pub String);
fn run_126(i: &Input) -> Out { type Vx = V126x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 1, max = 4)))]
pub struct V127x(pub String);
fn run_127(i: &Input) -> Out { type Vx = V127x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 1, max = 6)))]
pub struct V128x(pub String);
fn run_128(i: &Input) -> Out { type Vx = V128x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1, min = 1)))]
pub struct V129x(pub String);
fn run_129(i: &Input) -> Out { type Vx = V129x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1, min = 1, max = 1)))]
pub struct V130x(pub String);
fn run_130(i: &Input) -> Out { type Vx = V130x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1, min = 1, max = 3)))]
pub struct V131x(pub String);
fn run_131(i: &Input) -> Out { type Vx = V131x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1, min = 1, max = 4)))]
pub struct V132x(pub String);
fn run_132(i: &Input) -> Out { type Vx = V132x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1, min = 1, max = 6)))]
pub struct V133x(pub String);
fn run_133(i: &Input) -> Out { type Vx = V133x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 3)))]
pub struct V134x(pub String);
fn run_134(i: &Input) -> Out { type Vx = V134x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 3, max = 3)))]
pub struct V135x(pub String);
fn run_135(i: &Input) -> Out { type Vx = V135x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 3, max = 4)))]
pub struct V136x(pub String);
fn run_136(i: &Input) -> Out { type Vx = V136x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 3, max = 6)))]
pub struct V137x(pub String);
fn run_137(i: &Input) -> Out { type Vx = V137x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 3)))]
pub struct V138x(pub String);
fn run_138(i: &Input) -> Out { type Vx = V138x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 3, max = 3)))]
pub struct V139x(pub String);
fn run_139(i: &Input) -> Out { type Vx = V139x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 3, max = 4)))]
pub struct V140x(pub String);
fn run_140(i: &Input) -> Out { type Vx = V140x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 0, min = 3, max = 6)))]
pub struct V141x(pub String);
fn run_141(i: &Input) -> Out { type Vx = V141x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1, min = 3)))]
pub struct V142x(pub String);
fn run_142(i: &Input) -> Out { type Vx = V142x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1, min = 3, max = 3)))]
pub struct V143x(pub String);
fn run_143(i: &Input) -> Out { type Vx = V143x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1, min = 3, max = 4)))]
pub struct V144x(pub String);
fn run_144(i: &Input) -> Out { type Vx = V144x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1, min = 3, max = 6)))]
pub struct V145x(pub String);
fn run_145(i: &Input) -> Out { type Vx = V145x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 2, min = 3)))]
pub struct V146x(pub String);
fn run_146(i: &Input) -> Out { type Vx = V146x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 2, min = 3, max = 3)))]
pub struct V147x(pub String);
fn run_147(i: &Input) -> Out { type Vx = V147x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 2, min = 3, max = 4)))]
pub struct V148x(pub String);
fn run_148(i: &Input) -> Out { type Vx = V148x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 2, min = 3, max = 6)))]
pub struct V149x(pub String);
fn run_149(i: &Input) -> Out { type Vx = V149x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(max = 18446744073709551615)))]
pub struct V150x(pub String);
fn run_150(i: &Input) -> Out { type Vx = V150x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 1, max = 18446744073709551615)))]
pub struct V151x(pub String);
fn run_151(i: &Input) -> Out { type Vx = V151x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 1, max = 18446744073709551615)))]
pub struct V152x(pub String);
fn run_152(i: &Input) -> Out { type Vx = V152x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 2, min = 3, max = 18446744073709551615)))]
pub struct V153x(pub String);
fn run_153(i: &Input) -> Out { type Vx = V153x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 18446744073709551615, max = 18446744073709551615)))]
pub struct V154x(pub String);
fn run_154(i: &Input) -> Out { type Vx = V154x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 18446744073709551615)))]
pub struct V155x(pub String);
fn run_155(i: &Input) -> Out { type Vx = V155x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 18446744073709551615)))]
pub struct V156x(pub String);
fn run_156(i: &Input) -> Out { type Vx = V156x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 18446744073709551615, min = 18446744073709551615)))]
pub struct V157x(pub String);
fn run_157(i: &Input) -> Out { type Vx = V157x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 18446744073709551615, min = 18446744073709551615, max = 18446744073709551615)))]
pub struct V158x(pub String);
fn run_158(i: &Input) -> Out { type Vx = V158x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 18446744073709551615, max = 18446744073709551615)))]
pub struct V159x(pub String);
fn run_159(i: &Input) -> Out { type Vx = V159x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(max = 18446744073709551614)))]
pub struct V160x(pub String);
fn run_160(i: &Input) -> Out { type Vx = V160x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(max = 256)))]
pub struct V161x(pub String);
fn run_161(i: &Input) -> Out { type Vx = V161x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 256)))]
pub struct V162x(pub String);
fn run_162(i: &Input) -> Out { type Vx = V162x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 256)))]
pub struct V163x(pub String);
fn run_163(i: &Input) -> Out { type Vx = V163x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 257, min = 300, max = 600)))]
pub struct V164x(pub String);
fn run_164(i: &Input) -> Out { type Vx = V164x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 255, max = 256)))]
pub struct V165x(pub String);
fn run_165(i: &Input) -> Out { type Vx = V165x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 65536)))]
pub struct V166x(pub String);
fn run_166(i: &Input) -> Out { type Vx = V166x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 65536, max = 65537)))]
pub struct V167x(pub String);
fn run_167(i: &Input) -> Out { type Vx = V167x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(max = 65535)))]
pub struct V168x(pub String);
fn run_168(i: &Input) -> Out { type Vx = V168x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 12, min = 20, max = 60)))]
pub struct V169x(pub String);
fn run_169(i: &Input) -> Out { type Vx = V169x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 12, max = 60)))]
pub struct V170x(pub String);
fn run_170(i: &Input) -> Out { type Vx = V170x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(min = 20, max = 60)))]
pub struct V171x(pub String);
fn run_171(i: &Input) -> Out { type Vx = V171x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(text(byte_length(trimmed_min = 12, min = 20)))]
pub struct V172x(pub String);
fn run_172(i: &Input) -> Out { type Vx = V172x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "text()", v: "text", attr: "", opts: &[("unit", "none"), ("min", ""), ("trimmed_min", ""), ("max", "")], ty: "String", run: run_0 },
    Cfg { name: "text(char_length(max = 0))", v: "text", attr: "char_length(max = 0)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", ""), ("max", "0")], ty: "String", run: run_1 },
    Cfg { name: "text(char_length(max = 1))", v: "text", attr: "char_length(max = 1)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", ""), ("max", "1")], ty: "String", run: run_2 },
    Cfg { name: "text(char_length(max = 3))", v: "text", attr: "char_length(max = 3)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", ""), ("max", "3")], ty: "String", run: run_3 },
    Cfg { name: "text(char_length(max = 4))", v: "text", attr: "char_length(max = 4)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", ""), ("max", "4")], ty: "String", run: run_4 },
    Cfg { name: "text(char_length(max = 6))", v: "text", attr: "char_length(max = 6)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", ""), ("max", "6")], ty: "String", run: run_5 },
    Cfg { name: "text(char_length(trimmed_min = 0))", v: "text", attr: "char_length(trimmed_min = 0)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "0"), ("max", "")], ty: "String", run: run_6 },
    Cfg { name: "text(char_length(trimmed_min = 0, max = 0))", v: "text", attr: "char_length(trimmed_min = 0, max = 0)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "0"), ("max", "0")], ty: "String", run: run_7 },
    Cfg { name: "text(char_length(trimmed_min = 0, max = 1))", v: "text", attr: "char_length(trimmed_min = 0, max = 1)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "0"), ("max", "1")], ty: "String", run: run_8 },
    Cfg { name: "text(char_length(trimmed_min = 0, max = 3))", v: "text", attr: "char_length(trimmed_min = 0, max = 3)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "0"), ("max", "3")], ty: "String", run: run_9 },
    Cfg { name: "text(char_length(trimmed_min = 0, max = 4))", v: "text", attr: "char_length(trimmed_min = 0, max = 4)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "0"), ("max", "4")], ty: "String", run: run_10 },
    Cfg { name: "text(char_length(trimmed_min = 0, max = 6))", v: "text", attr: "char_length(trimmed_min = 0, max = 6)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "0"), ("max", "6")], ty: "String", run: run_11 },
    Cfg { name: "text(char_length(trimmed_min = 1))", v: "text", attr: "char_length(trimmed_min = 1)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "1"), ("max", "")], ty: "String", run: run_12 },
    Cfg { name: "text(char_length(trimmed_min = 1, max = 1))", v: "text", attr: "char_length(trimmed_min = 1, max = 1)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "1"), ("max", "1")], ty: "String", run: run_13 },
    Cfg { name: "text(char_length(trimmed_min = 1, max = 3))", v: "text", attr: "char_length(trimmed_min = 1, max = 3)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "1"), ("max", "3")], ty: "String", run: run_14 },
    Cfg { name: "text(char_length(trimmed_min = 1, max = 4))", v: "text", attr: "char_length(trimmed_min = 1, max = 4)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "1"), ("max", "4")], ty: "String", run: run_15 },
    Cfg { name: "text(char_length(trimmed_min = 1, max = 6))", v: "text", attr: "char_length(trimmed_min = 1, max = 6)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "1"), ("max", "6")], ty: "String", run: run_16 },
    Cfg { name: "text(char_length(trimmed_min = 2))", v: "text", attr: "char_length(trimmed_min = 2)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "2"), ("max", "")], ty: "String", run: run_17 },
    Cfg { name: "text(char_length(trimmed_min = 2, max = 3))", v: "text", attr: "char_length(trimmed_min = 2, max = 3)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "2"), ("max", "3")], ty: "String", run: run_18 },
    Cfg { name: "text(char_length(trimmed_min = 2, max = 4))", v: "text", attr: "char_length(trimmed_min = 2, max = 4)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "2"), ("max", "4")], ty: "String", run: run_19 },
    Cfg { name: "text(char_length(trimmed_min = 2, max = 6))", v: "text", attr: "char_length(trimmed_min = 2, max = 6)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "2"), ("max", "6")], ty: "String", run: run_20 },
    Cfg { name: "text(char_length(min = 0))", v: "text", attr: "char_length(min = 0)", opts: &[("unit", "char"), ("min", "0"), ("trimmed_min", ""), ("max", "")], ty: "String", run: run_21 },
    Cfg { name: "text(char_length(min = 0, max = 0))", v: "text", attr: "char_length(min = 0, max = 0)", opts: &[("unit", "char"), ("min", "0"), ("trimmed_min", ""), ("max", "0")], ty: "String", run: run_22 },
    Cfg { name: "text(char_length(min = 0, max = 1))", v: "text", attr: "char_length(min = 0, max = 1)", opts: &[("unit", "char"), ("min", "0"), ("trimmed_min", ""), ("max", "1")], ty: "String", run: run_23 },
    Cfg { name: "text(char_length(min = 0, max = 3))", v: "text", attr: "char_length(min = 0, max = 3)", opts: &[("unit", "char"), ("min", "0"), ("trimmed_min", ""), ("max", "3")], ty: "String", run: run_24 },
    Cfg { name: "text(char_length(min = 0, max = 4))", v: "text", attr: "char_length(min = 0, max = 4)", opts: &[("unit", "char"), ("min", "0"), ("trimmed_min", ""), ("max", "4")], ty: "String", run: run_25 },
    Cfg { name: "text(char_length(min = 0, max = 6))", v: "text", attr: "char_length(min = 0, max = 6)", opts: &[("unit", "char"), ("min", "0"), ("trimmed_min", ""), ("max", "6")], ty: "String", run: run_26 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 0))", v: "text", attr: "char_length(trimmed_min = 0, min = 0)", opts: &[("unit", "char"), ("min", "0"), ("trimmed_min", "0"), ("max", "")], ty: "String", run: run_27 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 0, max = 0))", v: "text", attr: "char_length(trimmed_min = 0, min = 0, max = 0)", opts: &[("unit", "char"), ("min", "0"), ("trimmed_min", "0"), ("max", "0")], ty: "String", run: run_28 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 0, max = 1))", v: "text", attr: "char_length(trimmed_min = 0, min = 0, max = 1)", opts: &[("unit", "char"), ("min", "0"), ("trimmed_min", "0"), ("max", "1")], ty: "String", run: run_29 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 0, max = 3))", v: "text", attr: "char_length(trimmed_min = 0, min = 0, max = 3)", opts: &[("unit", "char"), ("min", "0"), ("trimmed_min", "0"), ("max", "3")], ty: "String", run: run_30 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 0, max = 4))", v: "text", attr: "char_length(trimmed_min = 0, min = 0, max = 4)", opts: &[("unit", "char"), ("min", "0"), ("trimmed_min", "0"), ("max", "4")], ty: "String", run: run_31 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 0, max = 6))", v: "text", attr: "char_length(trimmed_min = 0, min = 0, max = 6)", opts: &[("unit", "char"), ("min", "0"), ("trimmed_min", "0"), ("max", "6")], ty: "String", run: run_32 },
    Cfg { name: "text(char_length(min = 1))", v: "text", attr: "char_length(min = 1)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", ""), ("max", "")], ty: "String", run: run_33 },
    Cfg { name: "text(char_length(min = 1, max = 1))", v: "text", attr: "char_length(min = 1, max = 1)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", ""), ("max", "1")], ty: "String", run: run_34 },
    Cfg { name: "text(char_length(min = 1, max = 3))", v: "text", attr: "char_length(min = 1, max = 3)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", ""), ("max", "3")], ty: "String", run: run_35 },
    Cfg { name: "text(char_length(min = 1, max = 4))", v: "text", attr: "char_length(min = 1, max = 4)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", ""), ("max", "4")], ty: "String", run: run_36 },
    Cfg { name: "text(char_length(min = 1, max = 6))", v: "text", attr: "char_length(min = 1, max = 6)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", ""), ("max", "6")], ty: "String", run: run_37 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 1))", v: "text", attr: "char_length(trimmed_min = 0, min = 1)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", "0"), ("max", "")], ty: "String", run: run_38 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 1, max = 1))", v: "text", attr: "char_length(trimmed_min = 0, min = 1, max = 1)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", "0"), ("max", "1")], ty: "String", run: run_39 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 1, max = 3))", v: "text", attr: "char_length(trimmed_min = 0, min = 1, max = 3)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", "0"), ("max", "3")], ty: "String", run: run_40 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 1, max = 4))", v: "text", attr: "char_length(trimmed_min = 0, min = 1, max = 4)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", "0"), ("max", "4")], ty: "String", run: run_41 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 1, max = 6))", v: "text", attr: "char_length(trimmed_min = 0, min = 1, max = 6)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", "0"), ("max", "6")], ty: "String", run: run_42 },
    Cfg { name: "text(char_length(trimmed_min = 1, min = 1))", v: "text", attr: "char_length(trimmed_min = 1, min = 1)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", "1"), ("max", "")], ty: "String", run: run_43 },
    Cfg { name: "text(char_length(trimmed_min = 1, min = 1, max = 1))", v: "text", attr: "char_length(trimmed_min = 1, min = 1, max = 1)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", "1"), ("max", "1")], ty: "String", run: run_44 },
    Cfg { name: "text(char_length(trimmed_min = 1, min = 1, max = 3))", v: "text", attr: "char_length(trimmed_min = 1, min = 1, max = 3)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", "1"), ("max", "3")], ty: "String", run: run_45 },
    Cfg { name: "text(char_length(trimmed_min = 1, min = 1, max = 4))", v: "text", attr: "char_length(trimmed_min = 1, min = 1, max = 4)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", "1"), ("max", "4")], ty: "String", run: run_46 },
    Cfg { name: "text(char_length(trimmed_min = 1, min = 1, max = 6))", v: "text", attr: "char_length(trimmed_min = 1, min = 1, max = 6)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", "1"), ("max", "6")], ty: "String", run: run_47 },
    Cfg { name: "text(char_length(min = 3))", v: "text", attr: "char_length(min = 3)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", ""), ("max", "")], ty: "String", run: run_48 },
    Cfg { name: "text(char_length(min = 3, max = 3))", v: "text", attr: "char_length(min = 3, max = 3)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", ""), ("max", "3")], ty: "String", run: run_49 },
    Cfg { name: "text(char_length(min = 3, max = 4))", v: "text", attr: "char_length(min = 3, max = 4)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", ""), ("max", "4")], ty: "String", run: run_50 },
    Cfg { name: "text(char_length(min = 3, max = 6))", v: "text", attr: "char_length(min = 3, max = 6)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", ""), ("max", "6")], ty: "String", run: run_51 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 3))", v: "text", attr: "char_length(trimmed_min = 0, min = 3)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", "0"), ("max", "")], ty: "String", run: run_52 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 3, max = 3))", v: "text", attr: "char_length(trimmed_min = 0, min = 3, max = 3)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", "0"), ("max", "3")], ty: "String", run: run_53 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 3, max = 4))", v: "text", attr: "char_length(trimmed_min = 0, min = 3, max = 4)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", "0"), ("max", "4")], ty: "String", run: run_54 },
    Cfg { name: "text(char_length(trimmed_min = 0, min = 3, max = 6))", v: "text", attr: "char_length(trimmed_min = 0, min = 3, max = 6)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", "0"), ("max", "6")], ty: "String", run: run_55 },
    Cfg { name: "text(char_length(trimmed_min = 1, min = 3))", v: "text", attr: "char_length(trimmed_min = 1, min = 3)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", "1"), ("max", "")], ty: "String", run: run_56 },
    Cfg { name: "text(char_length(trimmed_min = 1, min = 3, max = 3))", v: "text", attr: "char_length(trimmed_min = 1, min = 3, max = 3)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", "1"), ("max", "3")], ty: "String", run: run_57 },
    Cfg { name: "text(char_length(trimmed_min = 1, min = 3, max = 4))", v: "text", attr: "char_length(trimmed_min = 1, min = 3, max = 4)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", "1"), ("max", "4")], ty: "String", run: run_58 },
    Cfg { name: "text(char_length(trimmed_min = 1, min = 3, max = 6))", v: "text", attr: "char_length(trimmed_min = 1, min = 3, max = 6)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", "1"), ("max", "6")], ty: "String", run: run_59 },
    Cfg { name: "text(char_length(trimmed_min = 2, min = 3))", v: "text", attr: "char_length(trimmed_min = 2, min = 3)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", "2"), ("max", "")], ty: "String", run: run_60 },
    Cfg { name: "text(char_length(trimmed_min = 2, min = 3, max = 3))", v: "text", attr: "char_length(trimmed_min = 2, min = 3, max = 3)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", "2"), ("max", "3")], ty: "String", run: run_61 },
    Cfg { name: "text(char_length(trimmed_min = 2, min = 3, max = 4))", v: "text", attr: "char_length(trimmed_min = 2, min = 3, max = 4)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", "2"), ("max", "4")], ty: "String", run: run_62 },
    Cfg { name: "text(char_length(trimmed_min = 2, min = 3, max = 6))", v: "text", attr: "char_length(trimmed_min = 2, min = 3, max = 6)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", "2"), ("max", "6")], ty: "String", run: run_63 },
    Cfg { name: "text(char_length(max = 18446744073709551615))", v: "text", attr: "char_length(max = 18446744073709551615)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", ""), ("max", "18446744073709551615")], ty: "String", run: run_64 },
    Cfg { name: "text(char_length(min = 1, max = 18446744073709551615))", v: "text", attr: "char_length(min = 1, max = 18446744073709551615)", opts: &[("unit", "char"), ("min", "1"), ("trimmed_min", ""), ("max", "18446744073709551615")], ty: "String", run: run_65 },
    Cfg { name: "text(char_length(trimmed_min = 1, max = 18446744073709551615))", v: "text", attr: "char_length(trimmed_min = 1, max = 18446744073709551615)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "1"), ("max", "18446744073709551615")], ty: "String", run: run_66 },
    Cfg { name: "text(char_length(trimmed_min = 2, min = 3, max = 18446744073709551615))", v: "text", attr: "char_length(trimmed_min = 2, min = 3, max = 18446744073709551615)", opts: &[("unit", "char"), ("min", "3"), ("trimmed_min", "2"), ("max", "18446744073709551615")], ty: "String", run: run_67 },
    Cfg { name: "text(char_length(min = 18446744073709551615, max = 18446744073709551615))", v: "text", attr: "char_length(min = 18446744073709551615, max = 18446744073709551615)", opts: &[("unit", "char"), ("min", "18446744073709551615"), ("trimmed_min", ""), ("max", "18446744073709551615")], ty: "String", run: run_68 },
    Cfg { name: "text(char_length(min = 18446744073709551615))", v: "text", attr: "char_length(min = 18446744073709551615)", opts: &[("unit", "char"), ("min", "18446744073709551615"), ("trimmed_min", ""), ("max", "")], ty: "String", run: run_69 },
    Cfg { name: "text(char_length(trimmed_min = 18446744073709551615))", v: "text", attr: "char_length(trimmed_min = 18446744073709551615)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "18446744073709551615"), ("max", "")], ty: "String", run: run_70 },
    Cfg { name: "text(char_length(trimmed_min = 18446744073709551615, min = 18446744073709551615))", v: "text", attr: "char_length(trimmed_min = 18446744073709551615, min = 18446744073709551615)", opts: &[("unit", "char"), ("min", "18446744073709551615"), ("trimmed_min", "18446744073709551615"), ("max", "")], ty: "String", run: run_71 },
    Cfg { name: "text(char_length(trimmed_min = 18446744073709551615, min = 18446744073709551615, max = 18446744073709551615))", v: "text", attr: "char_length(trimmed_min = 18446744073709551615, min = 18446744073709551615, max = 18446744073709551615)", opts: &[("unit", "char"), ("min", "18446744073709551615"), ("trimmed_min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "String", run: run_72 },
    Cfg { name: "text(char_length(trimmed_min = 18446744073709551615, max = 18446744073709551615))", v: "text", attr: "char_length(trimmed_min = 18446744073709551615, max = 18446744073709551615)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "String", run: run_73 },
    Cfg { name: "text(char_length(max = 18446744073709551614))", v: "text", attr: "char_length(max = 18446744073709551614)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", ""), ("max", "18446744073709551614")], ty: "String", run: run_74 },
    Cfg { name: "text(char_length(max = 256))", v: "text", attr: "char_length(max = 256)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", ""), ("max", "256")], ty: "String", run: run_75 },
    Cfg { name: "text(char_length(trimmed_min = 256))", v: "text", attr: "char_length(trimmed_min = 256)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "256"), ("max", "")], ty: "String", run: run_76 },
    Cfg { name: "text(char_length(min = 256))", v: "text", attr: "char_length(min = 256)", opts: &[("unit", "char"), ("min", "256"), ("trimmed_min", ""), ("max", "")], ty: "String", run: run_77 },
    Cfg { name: "text(char_length(trimmed_min = 257, min = 300, max = 600))", v: "text", attr: "char_length(trimmed_min = 257, min = 300, max = 600)", opts: &[("unit", "char"), ("min", "300"), ("trimmed_min", "257"), ("max", "600")], ty: "String", run: run_78 },
    Cfg { name: "text(char_length(trimmed_min = 255, max = 256))", v: "text", attr: "char_length(trimmed_min = 255, max = 256)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "255"), ("max", "256")], ty: "String", run: run_79 },
    Cfg { name: "text(char_length(trimmed_min = 65536))", v: "text", attr: "char_length(trimmed_min = 65536)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "65536"), ("max", "")], ty: "String", run: run_80 },
    Cfg { name: "text(char_length(min = 65536, max = 65537))", v: "text", attr: "char_length(min = 65536, max = 65537)", opts: &[("unit", "char"), ("min", "65536"), ("trimmed_min", ""), ("max", "65537")], ty: "String", run: run_81 },
    Cfg { name: "text(char_length(max = 65535))", v: "text", attr: "char_length(max = 65535)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", ""), ("max", "65535")], ty: "String", run: run_82 },
    Cfg { name: "text(char_length(trimmed_min = 12, min = 20, max = 60))", v: "text", attr: "char_length(trimmed_min = 12, min = 20, max = 60)", opts: &[("unit", "char"), ("min", "20"), ("trimmed_min", "12"), ("max", "60")], ty: "String", run: run_83 },
    Cfg { name: "text(char_length(trimmed_min = 12, max = 60))", v: "text", attr: "char_length(trimmed_min = 12, max = 60)", opts: &[("unit", "char"), ("min", ""), ("trimmed_min", "12"), ("max", "60")], ty: "String", run: run_84 },
    Cfg { name: "text(char_length(min = 20, max = 60))", v: "text", attr: "char_length(min = 20, max = 60)", opts: &[("unit", "char"), ("min", "20"), ("trimmed_min", ""), ("max", "60")], ty: "String", run: run_85 },
    Cfg { name: "text(char_length(trimmed_min = 12, min = 20))", v: "text", attr: "char_length(trimmed_min = 12, min = 20)", opts: &[("unit", "char"), ("min", "20"), ("trimmed_min", "12"), ("max", "")], ty: "String", run: run_86 },
    Cfg { name: "text(byte_length(max = 0))", v: "text", attr: "byte_length(max = 0)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", ""), ("max", "0")], ty: "String", run: run_87 },
    Cfg { name: "text(byte_length(max = 1))", v: "text", attr: "byte_length(max = 1)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", ""), ("max", "1")], ty: "String", run: run_88 },
    Cfg { name: "text(byte_length(max = 3))", v: "text", attr: "byte_length(max = 3)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", ""), ("max", "3")], ty: "String", run: run_89 },
    Cfg { name: "text(byte_length(max = 4))", v: "text", attr: "byte_length(max = 4)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", ""), ("max", "4")], ty: "String", run: run_90 },
    Cfg { name: "text(byte_length(max = 6))", v: "text", attr: "byte_length(max = 6)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", ""), ("max", "6")], ty: "String", run: run_91 },
    Cfg { name: "text(byte_length(trimmed_min = 0))", v: "text", attr: "byte_length(trimmed_min = 0)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "0"), ("max", "")], ty: "String", run: run_92 },
    Cfg { name: "text(byte_length(trimmed_min = 0, max = 0))", v: "text", attr: "byte_length(trimmed_min = 0, max = 0)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "0"), ("max", "0")], ty: "String", run: run_93 },
    Cfg { name: "text(byte_length(trimmed_min = 0, max = 1))", v: "text", attr: "byte_length(trimmed_min = 0, max = 1)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "0"), ("max", "1")], ty: "String", run: run_94 },
    Cfg { name: "text(byte_length(trimmed_min = 0, max = 3))", v: "text", attr: "byte_length(trimmed_min = 0, max = 3)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "0"), ("max", "3")], ty: "String", run: run_95 },
    Cfg { name: "text(byte_length(trimmed_min = 0, max = 4))", v: "text", attr: "byte_length(trimmed_min = 0, max = 4)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "0"), ("max", "4")], ty: "String", run: run_96 },
    Cfg { name: "text(byte_length(trimmed_min = 0, max = 6))", v: "text", attr: "byte_length(trimmed_min = 0, max = 6)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "0"), ("max", "6")], ty: "String", run: run_97 },
    Cfg { name: "text(byte_length(trimmed_min = 1))", v: "text", attr: "byte_length(trimmed_min = 1)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "1"), ("max", "")], ty: "String", run: run_98 },
    Cfg { name: "text(byte_length(trimmed_min = 1, max = 1))", v: "text", attr: "byte_length(trimmed_min = 1, max = 1)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "1"), ("max", "1")], ty: "String", run: run_99 },
    Cfg { name: "text(byte_length(trimmed_min = 1, max = 3))", v: "text", attr: "byte_length(trimmed_min = 1, max = 3)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "1"), ("max", "3")], ty: "String", run: run_100 },
    Cfg { name: "text(byte_length(trimmed_min = 1, max = 4))", v: "text", attr: "byte_length(trimmed_min = 1, max = 4)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "1"), ("max", "4")], ty: "String", run: run_101 },
    Cfg { name: "text(byte_length(trimmed_min = 1, max = 6))", v: "text", attr: "byte_length(trimmed_min = 1, max = 6)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "1"), ("max", "6")], ty: "String", run: run_102 },
    Cfg { name: "text(byte_length(trimmed_min = 2))", v: "text", attr: "byte_length(trimmed_min = 2)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "2"), ("max", "")], ty: "String", run: run_103 },
    Cfg { name: "text(byte_length(trimmed_min = 2, max = 3))", v: "text", attr: "byte_length(trimmed_min = 2, max = 3)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "2"), ("max", "3")], ty: "String", run: run_104 },
    Cfg { name: "text(byte_length(trimmed_min = 2, max = 4))", v: "text", attr: "byte_length(trimmed_min = 2, max = 4)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "2"), ("max", "4")], ty: "String", run: run_105 },
    Cfg { name: "text(byte_length(trimmed_min = 2, max = 6))", v: "text", attr: "byte_length(trimmed_min = 2, max = 6)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "2"), ("max", "6")], ty: "String", run: run_106 },
    Cfg { name: "text(byte_length(min = 0))", v: "text", attr: "byte_length(min = 0)", opts: &[("unit", "byte"), ("min", "0"), ("trimmed_min", ""), ("max", "")], ty: "String", run: run_107 },
    Cfg { name: "text(byte_length(min = 0, max = 0))", v: "text", attr: "byte_length(min = 0, max = 0)", opts: &[("unit", "byte"), ("min", "0"), ("trimmed_min", ""), ("max", "0")], ty: "String", run: run_108 },
    Cfg { name: "text(byte_length(min = 0, max = 1))", v: "text", attr: "byte_length(min = 0, max = 1)", opts: &[("unit", "byte"), ("min", "0"), ("trimmed_min", ""), ("max", "1")], ty: "String", run: run_109 },
    Cfg { name: "text(byte_length(min = 0, max = 3))", v: "text", attr: "byte_length(min = 0, max = 3)", opts: &[("unit", "byte"), ("min", "0"), ("trimmed_min", ""), ("max", "3")], ty: "String", run: run_110 },
    Cfg { name: "text(byte_length(min = 0, max = 4))", v: "text", attr: "byte_length(min = 0, max = 4)", opts: &[("unit", "byte"), ("min", "0"), ("trimmed_min", ""), ("max", "4")], ty: "String", run: run_111 },
    Cfg { name: "text(byte_length(min = 0, max = 6))", v: "text", attr: "byte_length(min = 0, max = 6)", opts: &[("unit", "byte"), ("min", "0"), ("trimmed_min", ""), ("max", "6")], ty: "String", run: run_112 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 0))", v: "text", attr: "byte_length(trimmed_min = 0, min = 0)", opts: &[("unit", "byte"), ("min", "0"), ("trimmed_min", "0"), ("max", "")], ty: "String", run: run_113 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 0, max = 0))", v: "text", attr: "byte_length(trimmed_min = 0, min = 0, max = 0)", opts: &[("unit", "byte"), ("min", "0"), ("trimmed_min", "0"), ("max", "0")], ty: "String", run: run_114 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 0, max = 1))", v: "text", attr: "byte_length(trimmed_min = 0, min = 0, max = 1)", opts: &[("unit", "byte"), ("min", "0"), ("trimmed_min", "0"), ("max", "1")], ty: "String", run: run_115 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 0, max = 3))", v: "text", attr: "byte_length(trimmed_min = 0, min = 0, max = 3)", opts: &[("unit", "byte"), ("min", "0"), ("trimmed_min", "0"), ("max", "3")], ty: "String", run: run_116 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 0, max = 4))", v: "text", attr: "byte_length(trimmed_min = 0, min = 0, max = 4)", opts: &[("unit", "byte"), ("min", "0"), ("trimmed_min", "0"), ("max", "4")], ty: "String", run: run_117 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 0, max = 6))", v: "text", attr: "byte_length(trimmed_min = 0, min = 0, max = 6)", opts: &[("unit", "byte"), ("min", "0"), ("trimmed_min", "0"), ("max", "6")], ty: "String", run: run_118 },
    Cfg { name: "text(byte_length(min = 1))", v: "text", attr: "byte_length(min = 1)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", ""), ("max", "")], ty: "String", run: run_119 },
    Cfg { name: "text(byte_length(min = 1, max = 1))", v: "text", attr: "byte_length(min = 1, max = 1)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", ""), ("max", "1")], ty: "String", run: run_120 },
    Cfg { name: "text(byte_length(min = 1, max = 3))", v: "text", attr: "byte_length(min = 1, max = 3)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", ""), ("max", "3")], ty: "String", run: run_121 },
    Cfg { name: "text(byte_length(min = 1, max = 4))", v: "text", attr: "byte_length(min = 1, max = 4)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", ""), ("max", "4")], ty: "String", run: run_122 },
    Cfg { name: "text(byte_length(min = 1, max = 6))", v: "text", attr: "byte_length(min = 1, max = 6)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", ""), ("max", "6")], ty: "String", run: run_123 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 1))", v: "text", attr: "byte_length(trimmed_min = 0, min = 1)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", "0"), ("max", "")], ty: "String", run: run_124 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 1, max = 1))", v: "text", attr: "byte_length(trimmed_min = 0, min = 1, max = 1)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", "0"), ("max", "1")], ty: "String", run: run_125 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 1, max = 3))", v: "text", attr: "byte_length(trimmed_min = 0, min = 1, max = 3)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", "0"), ("max", "3")], ty: "String", run: run_126 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 1, max = 4))", v: "text", attr: "byte_length(trimmed_min = 0, min = 1, max = 4)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", "0"), ("max", "4")], ty: "String", run: run_127 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 1, max = 6))", v: "text", attr: "byte_length(trimmed_min = 0, min = 1, max = 6)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", "0"), ("max", "6")], ty: "String", run: run_128 },
    Cfg { name: "text(byte_length(trimmed_min = 1, min = 1))", v: "text", attr: "byte_length(trimmed_min = 1, min = 1)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", "1"), ("max", "")], ty: "String", run: run_129 },
    Cfg { name: "text(byte_length(trimmed_min = 1, min = 1, max = 1))", v: "text", attr: "byte_length(trimmed_min = 1, min = 1, max = 1)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", "1"), ("max", "1")], ty: "String", run: run_130 },
    Cfg { name: "text(byte_length(trimmed_min = 1, min = 1, max = 3))", v: "text", attr: "byte_length(trimmed_min = 1, min = 1, max = 3)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", "1"), ("max", "3")], ty: "String", run: run_131 },
    Cfg { name: "text(byte_length(trimmed_min = 1, min = 1, max = 4))", v: "text", attr: "byte_length(trimmed_min = 1, min = 1, max = 4)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", "1"), ("max", "4")], ty: "String", run: run_132 },
    Cfg { name: "text(byte_length(trimmed_min = 1, min = 1, max = 6))", v: "text", attr: "byte_length(trimmed_min = 1, min = 1, max = 6)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", "1"), ("max", "6")], ty: "String", run: run_133 },
    Cfg { name: "text(byte_length(min = 3))", v: "text", attr: "byte_length(min = 3)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", ""), ("max", "")], ty: "String", run: run_134 },
    Cfg { name: "text(byte_length(min = 3, max = 3))", v: "text", attr: "byte_length(min = 3, max = 3)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", ""), ("max", "3")], ty: "String", run: run_135 },
    Cfg { name: "text(byte_length(min = 3, max = 4))", v: "text", attr: "byte_length(min = 3, max = 4)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", ""), ("max", "4")], ty: "String", run: run_136 },
    Cfg { name: "text(byte_length(min = 3, max = 6))", v: "text", attr: "byte_length(min = 3, max = 6)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", ""), ("max", "6")], ty: "String", run: run_137 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 3))", v: "text", attr: "byte_length(trimmed_min = 0, min = 3)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", "0"), ("max", "")], ty: "String", run: run_138 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 3, max = 3))", v: "text", attr: "byte_length(trimmed_min = 0, min = 3, max = 3)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", "0"), ("max", "3")], ty: "String", run: run_139 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 3, max = 4))", v: "text", attr: "byte_length(trimmed_min = 0, min = 3, max = 4)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", "0"), ("max", "4")], ty: "String", run: run_140 },
    Cfg { name: "text(byte_length(trimmed_min = 0, min = 3, max = 6))", v: "text", attr: "byte_length(trimmed_min = 0, min = 3, max = 6)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", "0"), ("max", "6")], ty: "String", run: run_141 },
    Cfg { name: "text(byte_length(trimmed_min = 1, min = 3))", v: "text", attr: "byte_length(trimmed_min = 1, min = 3)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", "1"), ("max", "")], ty: "String", run: run_142 },
    Cfg { name: "text(byte_length(trimmed_min = 1, min = 3, max = 3))", v: "text", attr: "byte_length(trimmed_min = 1, min = 3, max = 3)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", "1"), ("max", "3")], ty: "String", run: run_143 },
    Cfg { name: "text(byte_length(trimmed_min = 1, min = 3, max = 4))", v: "text", attr: "byte_length(trimmed_min = 1, min = 3, max = 4)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", "1"), ("max", "4")], ty: "String", run: run_144 },
    Cfg { name: "text(byte_length(trimmed_min = 1, min = 3, max = 6))", v: "text", attr: "byte_length(trimmed_min = 1, min = 3, max = 6)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", "1"), ("max", "6")], ty: "String", run: run_145 },
    Cfg { name: "text(byte_length(trimmed_min = 2, min = 3))", v: "text", attr: "byte_length(trimmed_min = 2, min = 3)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", "2"), ("max", "")], ty: "String", run: run_146 },
    Cfg { name: "text(byte_length(trimmed_min = 2, min = 3, max = 3))", v: "text", attr: "byte_length(trimmed_min = 2, min = 3, max = 3)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", "2"), ("max", "3")], ty: "String", run: run_147 },
    Cfg { name: "text(byte_length(trimmed_min = 2, min = 3, max = 4))", v: "text", attr: "byte_length(trimmed_min = 2, min = 3, max = 4)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", "2"), ("max", "4")], ty: "String", run: run_148 },
    Cfg { name: "text(byte_length(trimmed_min = 2, min = 3, max = 6))", v: "text", attr: "byte_length(trimmed_min = 2, min = 3, max = 6)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", "2"), ("max", "6")], ty: "String", run: run_149 },
    Cfg { name: "text(byte_length(max = 18446744073709551615))", v: "text", attr: "byte_length(max = 18446744073709551615)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", ""), ("max", "18446744073709551615")], ty: "String", run: run_150 },
    Cfg { name: "text(byte_length(min = 1, max = 18446744073709551615))", v: "text", attr: "byte_length(min = 1, max = 18446744073709551615)", opts: &[("unit", "byte"), ("min", "1"), ("trimmed_min", ""), ("max", "18446744073709551615")], ty: "String", run: run_151 },
    Cfg { name: "text(byte_length(trimmed_min = 1, max = 18446744073709551615))", v: "text", attr: "byte_length(trimmed_min = 1, max = 18446744073709551615)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "1"), ("max", "18446744073709551615")], ty: "String", run: run_152 },
    Cfg { name: "text(byte_length(trimmed_min = 2, min = 3, max = 18446744073709551615))", v: "text", attr: "byte_length(trimmed_min = 2, min = 3, max = 18446744073709551615)", opts: &[("unit", "byte"), ("min", "3"), ("trimmed_min", "2"), ("max", "18446744073709551615")], ty: "String", run: run_153 },
    Cfg { name: "text(byte_length(min = 18446744073709551615, max = 18446744073709551615))", v: "text", attr: "byte_length(min = 18446744073709551615, max = 18446744073709551615)", opts: &[("unit", "byte"), ("min", "18446744073709551615"), ("trimmed_min", ""), ("max", "18446744073709551615")], ty: "String", run: run_154 },
    Cfg { name: "text(byte_length(min = 18446744073709551615))", v: "text", attr: "byte_length(min = 18446744073709551615)", opts: &[("unit", "byte"), ("min", "18446744073709551615"), ("trimmed_min", ""), ("max", "")], ty: "String", run: run_155 },
    Cfg { name: "text(byte_length(trimmed_min = 18446744073709551615))", v: "text", attr: "byte_length(trimmed_min = 18446744073709551615)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "18446744073709551615"), ("max", "")], ty: "String", run: run_156 },
    Cfg { name: "text(byte_length(trimmed_min = 18446744073709551615, min = 18446744073709551615))", v: "text", attr: "byte_length(trimmed_min = 18446744073709551615, min = 18446744073709551615)", opts: &[("unit", "byte"), ("min", "18446744073709551615"), ("trimmed_min", "18446744073709551615"), ("max", "")], ty: "String", run: run_157 },
    Cfg { name: "text(byte_length(trimmed_min = 18446744073709551615, min = 18446744073709551615, max = 18446744073709551615))", v: "text", attr: "byte_length(trimmed_min = 18446744073709551615, min = 18446744073709551615, max = 18446744073709551615)", opts: &[("unit", "byte"), ("min", "18446744073709551615"), ("trimmed_min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "String", run: run_158 },
    Cfg { name: "text(byte_length(trimmed_min = 18446744073709551615, max = 18446744073709551615))", v: "text", attr: "byte_length(trimmed_min = 18446744073709551615, max = 18446744073709551615)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "18446744073709551615"), ("max", "18446744073709551615")], ty: "String", run: run_159 },
    Cfg { name: "text(byte_length(max = 18446744073709551614))", v: "text", attr: "byte_length(max = 18446744073709551614)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", ""), ("max", "18446744073709551614")], ty: "String", run: run_160 },
    Cfg { name: "text(byte_length(max = 256))", v: "text", attr: "byte_length(max = 256)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", ""), ("max", "256")], ty: "String", run: run_161 },
    Cfg { name: "text(byte_length(trimmed_min = 256))", v: "text", attr: "byte_length(trimmed_min = 256)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "256"), ("max", "")], ty: "String", run: run_162 },
    Cfg { name: "text(byte_length(min = 256))", v: "text", attr: "byte_length(min = 256)", opts: &[("unit", "byte"), ("min", "256"), ("trimmed_min", ""), ("max", "")], ty: "String", run: run_163 },
    Cfg { name: "text(byte_length(trimmed_min = 257, min = 300, max = 600))", v: "text", attr: "byte_length(trimmed_min = 257, min = 300, max = 600)", opts: &[("unit", "byte"), ("min", "300"), ("trimmed_min", "257"), ("max", "600")], ty: "String", run: run_164 },
    Cfg { name: "text(byte_length(trimmed_min = 255, max = 256))", v: "text", attr: "byte_length(trimmed_min = 255, max = 256)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "255"), ("max", "256")], ty: "String", run: run_165 },
    Cfg { name: "text(byte_length(trimmed_min = 65536))", v: "text", attr: "byte_length(trimmed_min = 65536)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "65536"), ("max", "")], ty: "String", run: run_166 },
    Cfg { name: "text(byte_length(min = 65536, max = 65537))", v: "text", attr: "byte_length(min = 65536, max = 65537)", opts: &[("unit", "byte"), ("min", "65536"), ("trimmed_min", ""), ("max", "65537")], ty: "String", run: run_167 },
    Cfg { name: "text(byte_length(max = 65535))", v: "text", attr: "byte_length(max = 65535)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", ""), ("max", "65535")], ty: "String", run: run_168 },
    Cfg { name: "text(byte_length(trimmed_min = 12, min = 20, max = 60))", v: "text", attr: "byte_length(trimmed_min = 12, min = 20, max = 60)", opts: &[("unit", "byte"), ("min", "20"), ("trimmed_min", "12"), ("max", "60")], ty: "String", run: run_169 },
    Cfg { name: "text(byte_length(trimmed_min = 12, max = 60))", v: "text", attr: "byte_length(trimmed_min = 12, max = 60)", opts: &[("unit", "byte"), ("min", ""), ("trimmed_min", "12"), ("max", "60")], ty: "String", run: run_170 },
    Cfg { name: "text(byte_length(min = 20, max = 60))", v: "text", attr: "byte_length(min = 20, max = 60)", opts: &[("unit", "byte"), ("min", "20"), ("trimmed_min", ""), ("max", "60")], ty: "String", run: run_171 },
    Cfg { name: "text(byte_length(trimmed_min = 12, min = 20))", v: "text", attr: "byte_length(trimmed_min = 12, min = 20)", opts: &[("unit", "byte"), ("min", "20"), ("trimmed_min", "12"), ("max", "")], ty: "String", run: run_172 },
];
