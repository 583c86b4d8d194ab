//! Independent reference models. Nothing here calls the library under test.
use crate::{Fields, Out};

pub mod addr;
pub mod any;
pub mod basen;
pub mod email;
pub mod hexid;
pub mod jsonm;
pub mod num;
pub mod textm;
pub mod urlm;

/// What the model says must happen.
#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Ok(Fields),
    /// one of these error variants; empty: any error
    Err(Vec<&'static str>),
}

impl Exp {
    pub fn any_err() -> Exp {
        Exp::Err(vec![])
    }
    pub fn err(n: &'static str) -> Exp {
        Exp::Err(vec![n])
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Exp::Ok(_))
    }

    pub fn judge(&self, out: &Out) -> Result<(), String> {
        match (self, out) {
            (_, Out::Panic(m)) => Err(format!("panic: {m}")),
            (_, Out::Broken(m)) => Err(m.clone()),
            (Exp::Ok(f), Out::Ok(g)) => {
                for (n, v) in f {
                    match g.iter().find(|x| x.0 == *n) {
                        Some(x) if x.1 == *v => {}
                        Some(x) => return Err(format!("accepted with {n} = {:?}, expected {v:?}", x.1)),
                        None => panic!("HARNESS: no field {n} in {g:?}"),
                    }
                }
                Ok(())
            }
            (Exp::Ok(_), Out::Err(e)) => Err(format!("rejected ({e}) but must be accepted")),
            (Exp::Err(_), Out::Ok(g)) => Err(format!("accepted as {g:?} but must be rejected")),
            (Exp::Err(names), Out::Err(_)) => {
                let n = out.err_name().unwrap();
                if names.is_empty() || names.contains(&n) {
                    Ok(())
                } else {
                    Err(format!("rejected with {n}, expected one of {names:?}"))
                }
            }
        }
    }
}
