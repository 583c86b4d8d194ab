//! C19: url, http_url, http_ftp_url.
#[path = "../gen/http_ftp_url.rs"]
mod g3;
#[path = "../gen/http_url.rs"]
mod g2;
#[path = "../gen/url.rs"]
mod g1;
use std::sync::LazyLock;
use vh::models::{Exp, urlm};
use vh::*;

static CFGS: LazyLock<&'static [Cfg]> = LazyLock::new(|| join(&[g1::CFGS, g2::CFGS, g3::CFGS]));

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    let mut k = 0;
    for sch in urlgen::SCHEMES {
        for rest in ["://localhost/", "://LOCALHOST.", "://example.com:80/x", "://[::1]:443", "://8.8.8.8", "://127.1?q", "://[2001:4860::1]/#", ":localhost", ":/a.b", ":", "://", "://:80", "://a b/", "://x:99999/", "://u:p@localhost:1/a", "://localhost@example.com", "://example.com\\@localhost"] {
            for ci in 0..CFGS.len() {
                k += 1;
                if k % plan.shards == plan.shard && !emit(ci, format!("{sch}{rest}").into()) {
                    return;
                }
            }
        }
    }
    for f in ["{}http://a.b/", "h{}ttp://a.b/", "http{}://a.b/", "https{}://a.b/", "http:{}//a.b/", "http:/{}/a.b/", "http://{}", "http://a{}b/", "ftp://{}localhost", "ftp://localhost{}", "ftp{}:x", "ftp:{}x", "http://[::{}1]/", "http://127.0.0.{}/"] {
        for c in (0u32..=0xff).chain([0x130, 0x131, 0x17f, 0x212a, 0x200c, 0x2024, 0x3002, 0xff0e, 0xff11, 0xff61, 0xfeff, 0x1f600]) {
            for ci in 0..CFGS.len() {
                k += 1;
                if k % plan.shards == plan.shard && !emit(ci, f.replace("{}", &char::from_u32(c).unwrap().to_string()).into()) {
                    return;
                }
            }
        }
    }
    for _ in 0..plan.n(500_000, 40_000_000) {
        let ci = if r.chance(1, 8) { 0 } else { r.below(CFGS.len()) };
        let s = if r.chance(1, 20) { genstr::random(r, 20) } else { urlgen::url(r) };
        if !emit(ci, s.into()) {
            return;
        }
    }
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    let Input::Str(s) = i else { return Ok(()) };
    let e = urlm::judge(c, s);
    note.class = match &e {
        Exp::Ok(_) => "accept",
        Exp::Err(v) if v.is_empty() => "malformed",
        Exp::Err(v) if v[0] == "ProtocolError" => "only the scheme is wrong",
        _ => "only the local option is violated",
    };
    note.nontrivial = e.is_ok() || note.class != "malformed" || s.contains("://");
    let o = c.exec(i);
    e.judge(&o)
}

fn main() {
    vh::main(&Simple {
        long: LONG,
        id: "C19",
        rule: "URLs assembled from schemes (spelled in any case, near misses, with characters the parser ignores), separators, user information, hosts of every kind and spelling, ports and tails, mutated; every Latin-1 character in 14 frames; all nine configurations. Non-trivial: accepted, a single option violated, or containing ://",
        assumptions: &["the url crate is the WHATWG parser"],
        cfgs: *CFGS,
        generate,
        check,
    })
}
