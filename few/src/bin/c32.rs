//! C32: validation depends on nothing but its input: any history, any interleaving with other threads.
use std::sync::{Barrier, LazyLock};
use vf::offer;
use vf::*;
use vh::data::*;

#[path = "../../../harness/src/gen/host.rs"]
mod g04;
#[path = "../../../harness/src/gen/http_url.rs"]
mod g06;
#[path = "../../../harness/src/gen/ip.rs"]
mod g07;
#[path = "../../../harness/src/gen/lines.rs"]
mod g10;
#[path = "../../../harness/src/gen/mac_address.rs"]
mod g11;
#[path = "../../../harness/src/gen/basen_decoded.rs"]
mod g02;
#[path = "../../../harness/src/gen/domain.rs"]
mod g15;

static MORE: LazyLock<&'static [Cfg]> = LazyLock::new(|| join(&[g02::CFGS, g04::CFGS, g06::CFGS, g07::CFGS, g10::CFGS, g11::CFGS, g15::CFGS]));

struct C32;

fn total() -> usize {
    FEW.len() + MORE.len()
}

fn vname(i: usize) -> &'static str {
    if i < FEW.len() { FEW[i].v } else { MORE[i - FEW.len()].v }
}

/// everything that can be observed of one step
fn observe(step: &Input) -> Option<String> {
    let Input::List(l) = step else { return None };
    let [Input::U(i), x] = &l[..] else { return None };
    let i = *i as usize;
    if i >= total() {
        return None;
    }
    if i >= FEW.len() {
        if !matches!(x, Input::Str(_)) {
            return None;
        }
        return Some(format!("{:?}", guard(|| MORE[i - FEW.len()].exec(x))));
    }
    let d = D::from_input(x)?;
    let w = &FEW[i];
    let mut t = String::new();
    let o = guard(|| {
        t = format!("{:?} {:?} {:?} {:?}", (w.every)(&d), (w.fault)(&d, true), (w.de)(De { d: &d, human: true, own: Own::Transient }), (w.conv)(&d));
        if let D::Str(s) = &d {
            t += &format!("{:?}", (w.json)(s));
        }
        Out::Err(String::new())
    });
    Some(if matches!(o, Out::Panic(_)) { format!("{o:?}") } else { t })
}

impl Property for C32 {
    fn long(&self) -> (u64, u64) {
        (0, 0)
    }
    fn id(&self) -> &'static str {
        "C32"
    }
    fn rule(&self) -> String {
        "histories of 2 to 24 validations over a few validators (often related: the same validator again, another configuration of it, the same text for another one), run in order, in reverse order, repeated, each alone in a new thread, and by four threads at once in different orders; every step must have the same outcome (value, error, message) each time. Non-trivial: some step accepts and some step rejects".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the order of a map in a value is not looked at".into(), "thread interleavings are those the scheduler happens to give".into()]
    }
    fn cfg_names(&self) -> Vec<String> {
        vec!["history".into()]
    }
    fn shards(&self) -> usize {
        16
    }
    fn generate(&self, plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
        for _ in 0..plan.n(60_000, 1_500_000) {
            let mut steps: Vec<(usize, Input)> = vec![];
            for _ in 0..r.range(2, 24) {
                let fresh = |r: &mut Rng| {
                    let mut i = r.below(total());
                    if vname(i) == "phone" && r.chance(3, 4) {
                        i = r.below(total());
                    }
                    i
                };
                let give = |r: &mut Rng, i: usize| if i < FEW.len() { offer::data(r, &FEW[i]).to_input() } else { Input::Str(offer::text(r, vname(i), "")) };
                let s = if steps.is_empty() || r.chance(1, 4) {
                    let i = fresh(r);
                    (i, give(r, i))
                } else {
                    let (i, x) = r.pick(&steps).clone();
                    match r.below(5) {
                        // the same again
                        0 => (i, x),
                        // the same validator
                        1 => (i, give(r, i)),
                        // nearly the same text
                        2 => match &x {
                            Input::Str(s) if i >= FEW.len() => (i, Input::Str(genstr::mutate(r, s, &["a", "1", ":", "."]))),
                            _ => match D::from_input(&x) {
                                Some(D::Str(s)) => (i, D::Str(genstr::mutate(r, &s, &["a", "1", ":", "."])).to_input()),
                                _ => (i, give(r, i)),
                            },
                        },
                        // the same text for another configuration
                        _ => {
                            let mut j = fresh(r);
                            for _ in 0..40 {
                                if vname(j) == vname(i) && (j < FEW.len()) == (i < FEW.len()) {
                                    break;
                                }
                                j = r.below(total());
                            }
                            if (j < FEW.len()) == (i < FEW.len()) { (j, x) } else { (j, give(r, j)) }
                        }
                    }
                };
                steps.push(s);
            }
            if !emit(0, Input::List(steps.into_iter().map(|(i, x)| Input::List(vec![Input::U(i as u128), x])).collect())) {
                return;
            }
        }
    }
    fn check(&self, _: usize, i: &Input, note: &mut Note) -> Result<(), String> {
        let Input::List(steps) = i else { return Ok(()) };
        let n = steps.len();
        let first: Vec<Option<String>> = steps.iter().map(observe).collect();
        note.class = if n < 8 { "short" } else { "long" };
        let has = |t: &str| first.iter().flatten().any(|x| x.contains(t));
        note.nontrivial = has("Ok(") && has("Err(");
        let same = |k: usize, how: &str, o: Option<String>| -> Result<(), String> {
            if o == first[k] {
                return Ok(());
            }
            let (a, b) = (first[k].clone().unwrap_or_default(), o.unwrap_or_default());
            // where they part
            let p = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(40);
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[p.min(s.len())..(p + 160).min(s.len())]).into_owned();
            Err(format!("step {k} first gave ..{}.., {how} ..{}..", cut(&a), cut(&b)))
        };
        for k in (0..n).rev() {
            same(k, "in reverse order", observe(&steps[k]))?;
        }
        for k in 0..n {
            same(k, "again", observe(&steps[k]))?;
        }
        if n > 3 {
            let k = steps.iter().map(|s| format!("{s:?}").len()).sum::<usize>() % n;
            let o = std::thread::scope(|t| t.spawn(|| observe(&steps[k])).join());
            same(k, "alone in a thread", o.unwrap_or(None))?;
            let b = Barrier::new(4);
            let all: Vec<Vec<(usize, Option<String>)>> = std::thread::scope(|t| {
                let h: Vec<_> = (0..4usize)
                    .map(|w| {
                        let b = &b;
                        t.spawn(move || {
                            b.wait();
                            (0..n).map(|k| if w % 2 == 0 { (k + w) % n } else { (2 * n - k - w) % n }).map(|k| (k, observe(&steps[k]))).collect::<Vec<_>>()
                        })
                    })
                    .collect();
                h.into_iter().map(|h| h.join().unwrap_or_default()).collect()
            });
            for (k, o) in all.into_iter().flatten() {
                same(k, "beside other threads", o)?;
            }
        }
        Ok(())
    }
}

fn main() {
    vh::main(&C32)
}
