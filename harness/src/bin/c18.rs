//! C18: the parts of an accepted email, and its printed form.
#[path = "../gen/email.rs"]
mod gen_;
#[path = "../mailbin.rs"]
mod mailbin;
use gen_::CFGS;
use vh::models::{Exp, addr::H, email};
use vh::*;

/// make the email fit the options, so that most are accepted
fn fit(c: &Cfg, r: &mut Rng, s: String) -> String {
    let Some(mut m) = email::parse(&s) else { return s };
    if c.tri("comment") == Tri::Disallow {
        m.c = [None, None, None, None];
    }
    if c.tri("non_ascii") == Tri::Disallow {
        m.local = m.local.replace(|x: char| !x.is_ascii(), "n");
    }
    for _ in 0..10 {
        let e = email::violated(c, &m);
        if e.is_empty() {
            break;
        }
        m.host = match r.below(4) {
            0 => H::Ip(addrgen::v4(r).into()),
            1 => H::Ip(addrgen::v6(r).into()),
            2 => H::Name(r.pick(&["localhost", "example.com", "com", "a.b.c"]).to_string()),
            _ => H::Name("xn--fiq228c.com".into()),
        };
    }
    let t = email::print(&m);
    // write a name in its Unicode or upper-case form, quote needlessly
    match r.below(4) {
        0 => t.replace("xn--fiq228c.com", "中文.COM"),
        1 if !m.need_quoted && m.c[0].is_none() => match t.find(['@', '(']) {
            Some(i) => format!("\"{}\"{}", &t[..i], &t[i..]),
            None => t,
        },
        _ => t,
    }
}

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    for _ in 0..plan.n(1_500_000, 90_000_000) {
        let ci = r.below(CFGS.len());
        let s = mailgen::email(r);
        let s = fit(&CFGS[ci], r, s);
        if !emit(ci, s.into()) {
            return;
        }
    }
    mailbin::generate(CFGS, 500_000, plan, r, emit)
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    let Input::Str(s) = i else { return Ok(()) };
    let o = c.exec(i);
    note.class = "not accepted";
    let Some(text) = o.field("email") else {
        return match o {
            Out::Panic(m) | Out::Broken(m) => Err(m),
            _ => Ok(()),
        };
    };
    note.nontrivial = true;
    note.evals = 2;
    let (m, e) = email::judge(c, s);
    note.class = match m {
        Some(m) if m.need_quoted => "quoted",
        Some(m) if m.c.iter().any(|x| x.is_some()) => "commented",
        _ => "plain",
    };
    if let Exp::Ok(_) = e {
        e.judge(&o)?;
    }
    let p = c.exec(&text.into());
    if p != o {
        return Err(format!("prints {text:?}, which parses to {p:?} instead of {o:?}"));
    }
    Ok(())
}

fn main() {
    vh::main(&Simple {
        long: LONG,
        id: "C18",
        rule: "emails generated as in C17 and then adjusted to the options of the configuration; the parts of each accepted one are compared with the model's, and it is printed and parsed again. Non-trivial: accepted",
        assumptions: &[],
        cfgs: CFGS,
        generate,
        check,
    })
}
