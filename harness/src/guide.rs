//! Searching around the cases that reached something new.
use crate::cov::Pair;
use crate::dict::{KINDS, Tok};
use crate::{Input, Rng, genstr};

pub struct Seed {
    pub cfg: usize,
    pub input: Input,
    pub pairs: Vec<Pair>,
}

#[derive(Default)]
pub struct Corpus {
    pub seeds: Vec<Seed>,
    /// how many there were
    pub found: u64,
}

const CAP: usize = 6000;
const LONGEST: usize = 3000;

impl Corpus {
    pub fn add(&mut self, cfg: usize, input: &Input, pairs: Vec<Pair>, r: &mut Rng) {
        if size(input) > LONGEST {
            return;
        }
        self.found += 1;
        let s = Seed { cfg, input: input.clone(), pairs };
        if self.seeds.len() < CAP {
            self.seeds.push(s);
        } else {
            let i = r.below(CAP);
            self.seeds[i] = s;
        }
    }

    pub fn next(&self, r: &mut Rng) -> Option<(usize, Input)> {
        let n = self.seeds.len();
        if n == 0 {
            return None;
        }
        // late ones more often
        let at = |r: &mut Rng| if r.bool() { n - 1 - r.below(n.div_ceil(8)) } else { r.below(n) };
        let s = &self.seeds[at(r)];
        let o = &self.seeds[at(r)];
        let mut cfg = s.cfg;
        // another configuration, where it is known to take such an input
        if r.chance(1, 8) && simple(&s.input) && same_kind(&s.input, &o.input) {
            cfg = o.cfg;
        }
        let mut x = s.input.clone();
        for _ in 0..1 + r.below(4) * r.below(2) {
            x = mutate(&x, &o.input, &s.pairs, r).unwrap_or(x);
        }
        (cfg != s.cfg || x != s.input).then_some((cfg, x))
    }
}

fn size(i: &Input) -> usize {
    match i {
        Input::Str(s) => s.len(),
        Input::Bytes(b) => b.len(),
        Input::List(l) => l.iter().map(size).sum(),
        _ => 1,
    }
}

fn simple(i: &Input) -> bool {
    !matches!(i, Input::List(_))
}

fn same_kind(a: &Input, b: &Input) -> bool {
    std::mem::discriminant(a) == std::mem::discriminant(b)
}

fn mutate(x: &Input, o: &Input, pairs: &[Pair], r: &mut Rng) -> Option<Input> {
    if r.chance(1, 4) && !pairs.is_empty() {
        let p = *r.pick(pairs);
        if let Some(y) = match_pair(x, p, r) {
            return Some(y);
        }
    }
    if r.chance(1, 12) {
        return x.flavoured(r);
    }
    Some(match x {
        Input::Str(s) => {
            if let (Input::Str(t), true) = (o, r.chance(1, 6)) {
                let (a, b): (Vec<char>, Vec<char>) = (s.chars().collect(), t.chars().collect());
                Input::Str(splice(&a, &b, r).into_iter().collect())
            } else {
                let v: Vec<char> = s.chars().collect();
                match r.below(6) {
                    0 if !v.is_empty() => Input::Str(havoc(v, r, |c, r| char::from_u32((c as u32).wrapping_add(r.below(3) as u32).wrapping_sub(1)).unwrap_or(c)).into_iter().collect()),
                    1 => Input::Str(genstr::recase(r, s)),
                    2 if !v.is_empty() => Input::Str(havoc(v, r, |c, _| c).into_iter().collect()),
                    _ => Input::Str(genstr::mutate(r, s, &["1", "a", ".", "0"])),
                }
            }
        }
        Input::Bytes(b) => match o {
            Input::Bytes(t) if r.chance(1, 6) => Input::Bytes(splice(b, t, r)),
            _ if b.is_empty() => Input::Bytes(vec![r.next() as u8]),
            _ => Input::Bytes(havoc(b.clone(), r, |c, r| match r.below(3) {
                0 => c ^ 1 << r.below(8),
                1 => c.wrapping_add(1),
                _ => r.next() as u8,
            })),
        },
        Input::I(i) => Input::I(match r.below(5) {
            0 => i.wrapping_add(1),
            1 => i.wrapping_sub(1),
            2 => i.wrapping_neg(),
            3 => i ^ 1 << r.below(128),
            _ => i >> r.below(64),
        }),
        Input::U(i) => Input::U(match r.below(4) {
            0 => i.wrapping_add(1),
            1 => i.wrapping_sub(1),
            2 => i ^ 1 << r.below(128),
            _ => i >> r.below(64),
        }),
        Input::F64(f) => Input::F64(match r.below(4) {
            0 => f.wrapping_add(1),
            1 => f.wrapping_sub(1),
            2 => f ^ 1 << r.below(64),
            _ => f64::from_bits(*f).trunc().to_bits(),
        }),
        Input::F32(f) => Input::F32(match r.below(4) {
            0 => f.wrapping_add(1),
            1 => f.wrapping_sub(1),
            2 => f ^ 1 << r.below(32),
            _ => f32::from_bits(*f).trunc().to_bits(),
        }),
        Input::Char(c) => Input::Char(char::from_u32((*c as u32) ^ 1 << r.below(21))?),
        Input::Bool(_) => return None,
        Input::List(_) => return inner(x, r, |y, r| mutate(y, y, pairs, r)),
    })
}

/// changes a part of a list that is a text or the number of a [kind, number]: the others may be controls
fn inner(x: &Input, r: &mut Rng, f: impl FnOnce(&Input, &mut Rng) -> Option<Input>) -> Option<Input> {
    let Input::List(l) = x else { return None };
    let mut v = l.clone();
    if let [Input::Str(k), y] = &l[..] {
        if KINDS.contains(&k.as_str()) {
            v[1] = within(k, f(y, r)?)?;
            return Some(Input::List(v));
        }
        if crate::data::KINDS.contains(&k.as_str()) {
            v[1] = f(y, r)?;
            return Some(Input::List(v));
        }
    }
    let at: Vec<usize> = (0..l.len()).filter(|i| matches!(l[*i], Input::Str(_) | Input::Bytes(_) | Input::Char(_) | Input::List(_))).collect();
    if at.is_empty() {
        return None;
    }
    let i = *r.pick(&at);
    v[i] = f(&l[i], r)?;
    Some(Input::List(v))
}

/// the number, if it is one of that kind
fn within(kind: &str, x: Input) -> Option<Input> {
    let ok = match (&x, kind.get(1..).and_then(|b| b.parse::<u32>().ok())) {
        (Input::I(i), Some(b)) if b < 128 => (-(1i128 << (b - 1))..1i128 << (b - 1)).contains(i),
        (Input::U(u), Some(b)) if b < 128 => *u < 1u128 << b,
        _ => true,
    };
    ok.then_some(x)
}

fn splice<T: Clone>(a: &[T], b: &[T], r: &mut Rng) -> Vec<T> {
    let i = r.below(a.len() + 1);
    let (mut j, mut k) = (r.below(b.len() + 1), r.below(b.len() + 1));
    if r.bool() {
        k = b.len();
    }
    if j > k {
        std::mem::swap(&mut j, &mut k);
    }
    let rest = if r.bool() { &a[i..] } else { &[][..] };
    a[..i].iter().chain(&b[j..k]).chain(rest).cloned().collect()
}

fn havoc<T: Copy>(mut v: Vec<T>, r: &mut Rng, f: impl Fn(T, &mut Rng) -> T) -> Vec<T> {
    let n = v.len();
    let (i, j) = (r.below(n), r.below(n));
    let (i, j) = (i.min(j), i.max(j));
    match r.below(5) {
        0 => {
            v.drain(i..j);
        }
        1 => {
            let piece = v[i..j].to_vec();
            let at = r.below(n + 1);
            v.splice(at..at, piece);
        }
        2 => v.swap(i, j),
        _ => v[i] = f(v[i], r),
    }
    v
}

/// makes the compared values meet: what was compared with the constant is looked for in the input
fn match_pair(x: &Input, (want, got, n): Pair, r: &mut Rng) -> Option<Input> {
    let (want, got) = if r.chance(1, 4) { (got, want) } else { (want, got) };
    let want = match r.below(6) {
        0 => want.wrapping_add(1),
        1 => want.wrapping_sub(1),
        _ => want,
    };
    match x {
        Input::Str(s) => {
            let v: Vec<char> = s.chars().collect();
            match r.below(5) {
                // as a character
                0 => {
                    let (g, w) = (char::from_u32(got as u32)?, char::from_u32(want as u32)?);
                    let at: Vec<usize> = (0..v.len()).filter(|i| v[*i] == g).collect();
                    if at.is_empty() {
                        return None;
                    }
                    let mut v = v;
                    v[*r.pick(&at)] = w;
                    Some(Input::Str(v.into_iter().collect()))
                }
                // as a number
                1 => {
                    let (g, i) = (got.to_string(), s.find(&got.to_string())?);
                    Some(Input::Str(format!("{}{want}{}", &s[..i], &s[i + g.len()..])))
                }
                // as some bytes
                2 => Some(Input::Str(String::from_utf8(bytes(s.as_bytes(), want, got, n)?).ok()?)),
                // as a length
                3 => {
                    let w = usize::try_from(want).ok().filter(|w| *w <= LONGEST)?;
                    resize(&v, w, got, s.len() as u64, r).map(|v| Input::Str(v.into_iter().collect()))
                }
                _ => x.flavour(&Tok::Int(want as u128), r),
            }
        }
        Input::Bytes(b) => match r.below(3) {
            0 => Some(Input::Bytes(bytes(b, want, got, n)?)),
            1 => resize(b, usize::try_from(want).ok().filter(|w| *w <= LONGEST)?, got, b.len() as u64, r).map(Input::Bytes),
            _ => {
                let i = b.iter().position(|c| *c as u64 == got)?;
                let mut b = b.clone();
                b[i] = want as u8;
                Some(Input::Bytes(b))
            }
        },
        Input::I(i) => {
            let w = match n {
                1 => want as i8 as i128,
                2 => want as i16 as i128,
                4 => want as i32 as i128,
                _ => want as i64 as i128,
            };
            Some(Input::I(if r.chance(1, 4) { (i >> 64 << 64) | want as i128 } else { w }))
        }
        Input::U(u) => Some(Input::U(if r.chance(1, 4) { (u >> 64 << 64) | want as u128 } else { want as u128 })),
        Input::Char(_) => Some(Input::Char(char::from_u32(want as u32)?)),
        Input::List(_) => inner(x, r, |y, r| match_pair(y, (want, got, n), r)),
        _ => None,
    }
}

fn bytes(b: &[u8], want: u64, got: u64, n: u8) -> Option<Vec<u8>> {
    let n = n as usize;
    let (g, w) = (&got.to_le_bytes()[..n], &want.to_le_bytes()[..n]);
    let i = b.windows(n).position(|x| x == g)?;
    let mut v = b.to_vec();
    v[i..i + n].copy_from_slice(w);
    Some(v)
}

/// so long that a length that was `got` becomes `want`
fn resize<T: Clone>(v: &[T], want: usize, got: u64, bytes: u64, r: &mut Rng) -> Option<Vec<T>> {
    if v.is_empty() {
        return None;
    }
    // the length compared may be that of a part
    let d = want as i64 - if got <= bytes { got as i64 } else { v.len() as i64 };
    let i = r.below(v.len());
    let mut o = v.to_vec();
    if d > 0 {
        o.splice(i..i, std::iter::repeat_n(v[i].clone(), d as usize));
    } else {
        let k = ((-d) as usize).min(v.len() - i);
        o.drain(i..i + k);
    }
    Some(o)
}
