//! Runs a property: sharded deterministic generation, shrinking, replay files, evidence.
use crate::cov::Cov;
use crate::guide::Corpus;
use crate::{Input, Rng};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What the oracle says about one case.
#[derive(Default)]
pub struct Note {
    pub nontrivial: bool,
    pub class: &'static str,
    /// inner evaluations of the code under test, when more than one
    pub evals: u64,
}

pub struct Plan {
    pub tier: Tier,
    pub shard: usize,
    pub shards: usize,
    pub seed: u64,
    /// multiplies the number of random cases of the quick tier
    pub scale: usize,
}

impl Plan {
    /// pick by tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let t = match self.tier {
            Tier::Quick => quick * self.scale,
            Tier::Thorough => thorough,
        };
        // the total is divided among the shards
        t / self.shards + usize::from(self.shard < t % self.shards)
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
}

pub trait Property: Sync {
    fn id(&self) -> &'static str;
    fn rule(&self) -> String;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    /// configuration names, index = cfg of a case
    fn cfg_names(&self) -> Vec<String>;
    fn shards(&self) -> usize {
        32
    }
    /// how many threads run the shards at once
    fn threads(&self) -> usize {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8)
    }
    /// true: the enumerated part was complete
    fn exhaustive(&self) -> bool {
        false
    }
    /// one case in so many is checked again with its text stretched to some 64..1024 characters, and
    /// (second number) up to some 128 Ki characters; 0: never
    fn long(&self) -> (u64, u64) {
        (48, 2048)
    }
    /// one case in so many is checked again with literals of the sources in it (six times as many where the sources have
    /// literals they did not have when this was written); 0: never
    fn flavours(&self) -> u64 {
        48
    }
    fn scale(&self) -> usize {
        1
    }
    /// push cases into `emit` until done (or until it returns false)
    fn generate(&self, plan: &Plan, rng: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool);
    fn check(&self, cfg: usize, input: &Input, note: &mut Note) -> Result<(), String>;
    /// the searches around what reached new code: one generated case in so many starts them, and so many cases follow for
    /// each of these
    fn guided(&self, tier: Tier) -> (usize, u64) {
        // as the checks take different times
        let (part, rounds) = match self.id() {
            "C04" | "C05" | "C06" | "C11" | "C18" | "C23" => (8, 6),
            "C10" | "C16" | "C17" | "C22" | "C30" => (8, 8),
            "C12" | "C15" | "C20" | "C21" => (8, 12),
            "C14" | "C19" => (8, 20),
            "C07" | "C28" => (16, 3),
            "C33" => (24, 3),
            _ => (8, 3),
        };
        (part, if tier == Tier::Quick { rounds } else { rounds.min(6) })
    }
    /// extra evidence
    fn extra(&self) -> Value {
        Value::Null
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    distinct: HashSet<u64>,
    capped: bool,
    classes: BTreeMap<&'static str, u64>,
    per_cfg: Vec<u64>,
    samples: Vec<Value>,
    long: u64,
    flavoured: u64,
    /// of the guided search
    found: u64,
    seeds: u64,
}

struct Failure {
    shard: usize,
    cfg: usize,
    input: Input,
    msg: String,
}

const DISTINCT_CAP: usize = 1_500_000;

/// as evidence, unless it is too large for that
fn sample(i: &Input) -> Option<Value> {
    let v = i.to_json();
    (v.to_string().len() <= 1000).then_some(v)
}

fn run_check(p: &dyn Property, cfg: usize, input: &Input, note: &mut Note) -> Result<(), String> {
    p.check(cfg, input, note)
}

fn shrink(p: &dyn Property, cfg: usize, input: Input, msg: String) -> (Input, String) {
    let (mut cur, mut cur_msg) = (input, msg);
    let mut budget = 20_000;
    let t = Instant::now();
    'outer: loop {
        for c in cur.shrinks() {
            if budget == 0 || t.elapsed().as_secs() > 40 {
                break 'outer;
            }
            budget -= 1;
            let r = catch_unwind(AssertUnwindSafe(|| run_check(p, cfg, &c, &mut Note::default())));
            if let Ok(Err(m)) = r {
                cur = c;
                cur_msg = m;
                continue 'outer;
            }
        }
        break;
    }
    (cur, cur_msg)
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

pub fn write_replay(id: &str, cfg_name: &str, input: &Input, msg: &str) -> String {
    let dir = verif_dir().join("replays").join(id);
    let _ = std::fs::create_dir_all(&dir);
    let mut h = 7u64;
    input.hash(&mut h);
    for b in cfg_name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    let path = dir.join(format!("{h:016x}.json"));
    let v = json!({"property": id, "config": cfg_name, "input": input.to_json(), "message": msg});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n");
    path.display().to_string()
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn id_hash(id: &str) -> u64 {
    id.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

pub fn main(p: &dyn Property) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut mode = "parent";
    let mut arg = String::new();
    let mut guided = false;
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                tier = if args[i] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            "--child" => mode = "child",
            "--guided" => guided = true,
            "--literals" => {
                for (k, n) in crate::dict::literals() {
                    println!("{k} {n}");
                }
                std::process::exit(0)
            }
            "--trace" => {
                mode = "trace";
                i += 1;
                arg = args[i].clone();
            }
            "--replay" => {
                mode = "replay";
                i += 1;
                arg = args[i].clone();
            }
            x => {
                eprintln!("unknown argument {x}");
                std::process::exit(2);
            }
        }
        i += 1;
    }
    if guided && !crate::cov::available() {
        eprintln!("built without the coverage callbacks: nothing to be guided by");
        std::process::exit(8);
    }
    match mode {
        "replay" => replay(p, &arg),
        "parent" => parent(p, tier, guided),
        "child" => child(p, tier, guided, None),
        _ => child(p, tier, guided, Some(arg)),
    }
}

fn load_case(p: &dyn Property, path: &str) -> (usize, Input) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).expect("parse replay");
    let name = v["config"].as_str().expect("config");
    let cfg = p.cfg_names().iter().position(|n| n == name).expect("known config");
    (cfg, Input::from_json(&v["input"]).expect("input"))
}

fn replay(p: &dyn Property, path: &str) -> ! {
    let (cfg, input) = load_case(p, path);
    quiet();
    match run_check(p, cfg, &input, &mut Note::default()) {
        Ok(()) => {
            println!("replay {path}: the property holds");
            std::process::exit(0)
        }
        Err(m) => {
            println!("replay {path}: {m}");
            println!("VIOLATION property={} replay={path}", p.id());
            std::process::exit(1)
        }
    }
}

fn quiet() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        if s.contains("HARNESS") || std::env::var_os("VERIF_LOUD").is_some() {
            eprintln!("{s}");
        }
    }));
}

/// Spawns the real run; a child that dies of a signal is itself a finding (stack overflow, abort).
fn parent(p: &dyn Property, tier: Tier, guided: bool) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("exe");
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    let how: &[&str] = if guided { &["--guided"] } else { &[] };
    let st = std::process::Command::new(&exe).args(["--child", "--tier", t]).args(how).status().expect("spawn");
    if let Some(c) = st.code() {
        std::process::exit(c);
    }
    let sig = st.signal().unwrap_or(0);
    if !(sig == 11 || sig == 6 || sig == 4 || sig == 7 || sig == 5) {
        eprintln!("the run was ended by signal {sig}: no answer");
        std::process::exit(4);
    }
    // find the case: run again writing each case before it is executed
    let dir = verif_dir().join("replays").join(p.id()).join("trace");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("trace dir");
    let _ = std::process::Command::new(&exe)
        .args(["--trace", dir.to_str().unwrap(), "--tier", t])
        .args(how)
        .stdout(std::process::Stdio::null())
        .status();
    let crash = |path: &str| -> bool {
        std::process::Command::new(&exe)
            .args(["--replay", path])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .map(|s| matches!(s.signal(), Some(11 | 6 | 4 | 7 | 5)))
            .unwrap_or(false)
    };
    let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).collect();
    files.sort();
    let names = p.cfg_names();
    for f in files {
        let path = f.to_str().unwrap().to_string();
        if crash(&path) {
            let (cfg, mut input) = load_case(p, &path);
            let msg = format!("the process is killed by signal {sig} (stack overflow or abort)");
            let mut budget = 200;
            'o: loop {
                for c in input.shrinks() {
                    if budget == 0 {
                        break 'o;
                    }
                    budget -= 1;
                    let r = write_replay(p.id(), &names[cfg], &c, &msg);
                    if crash(&r) {
                        input = c;
                        continue 'o;
                    }
                    let _ = std::fs::remove_file(&r);
                }
                break;
            }
            let r = write_replay(p.id(), &names[cfg], &input, &msg);
            println!("config {}: input {}: {msg}", names[cfg], input.to_json());
            println!("VIOLATION property={} replay={r}", p.id());
            std::process::exit(1);
        }
    }
    eprintln!("the run died of signal {sig} but no single case reproduces it");
    std::process::exit(4);
}

const HANG: u64 = 120;

/// A single case that runs for minutes never answers: that is a finding too.
fn watch(id: &'static str, names: &[String], slots: &'static [Mutex<Option<(usize, Input, Instant)>>]) {
    loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        for s in slots {
            let late = match s.lock() {
                Ok(g) => match &*g {
                    Some((c, i, t)) if t.elapsed().as_secs() > HANG => Some((*c, i.clone())),
                    _ => None,
                },
                Err(_) => None,
            };
            if let Some((c, i)) = late {
                let msg = format!("no answer within {HANG} seconds");
                let r = write_replay(id, &names[c], &i, &msg);
                println!("config {}: {msg}", names[c]);
                println!("VIOLATION property={id} replay={r}");
                std::process::exit(1);
            }
        }
    }
}

fn child(p: &dyn Property, tier: Tier, guided: bool, trace: Option<String>) -> ! {
    quiet();
    let t0 = Instant::now();
    let seed = env_seed();
    // a search is not divided more than it must be
    let shards = if guided { p.shards().min(8) } else { p.shards() };
    let names = p.cfg_names();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let all: Mutex<Stats> = Mutex::new(Stats { per_cfg: vec![0; names.len()], ..Default::default() });
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let harness_error: Mutex<Option<String>> = Mutex::new(None);
    let threads = p.threads();
    // one slot per shard: the case being executed
    let slots: Vec<Mutex<Option<(usize, Input, Instant)>>> = (0..shards).map(|_| Mutex::new(None)).collect();
    let slots: &'static [_] = Box::leak(slots.into_boxed_slice());
    {
        let (id, names) = (p.id(), names.clone());
        std::thread::spawn(move || watch(id, &names, slots));
    }
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, || {
                    loop {
                        let shard = next.fetch_add(1, Ordering::SeqCst);
                        if shard >= shards || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let (part, rounds) = p.guided(tier);
                        let plan = match guided {
                            true => Plan { tier, shard: shard * part + seed as usize % part, shards: shards * part, seed, scale: p.scale() },
                            false => Plan { tier, shard, shards, seed, scale: p.scale() },
                        };
                        let mut rng = Rng::new(seed, id_hash(p.id()) ^ u64::from(guided) << 20 ^ shard as u64);
                        let mut st = Stats { per_cfg: vec![0; names.len()], ..Default::default() };
                        let mut fail: Option<Failure> = None;
                        let mut seeds = 0;
                        let mut file = trace.as_ref().map(|d| {
                            std::fs::File::create(format!("{d}/{shard:03}.json")).expect("trace file")
                        });
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let mut count = 0u64;
                            let (every, every_large) = p.long();
                            let every_flavour = if crate::dict::DICT.fresh.is_empty() { p.flavours() } else { p.flavours().div_ceil(6) };
                            let mut lr = Rng::new(seed, id_hash(p.id()) ^ 0x1_0000 ^ u64::from(guided) << 20 ^ shard as u64);
                            let mut corpus = Corpus::default();
                            let mut cov = guided.then(Cov::new);
                            let (mut done, mut go) = (0u64, true);
                            let mut step = |cfg: usize, input: Input, found: bool, corpus: &mut Corpus, cov: &mut Option<Cov>| {
                                if let Some(f) = &mut file {
                                    use std::io::Seek;
                                    let v = json!({"config": names[cfg], "input": input.to_json()}).to_string();
                                    let _ = f.set_len(0);
                                    let _ = f.seek(std::io::SeekFrom::Start(0));
                                    let _ = f.write_all(v.as_bytes());
                                }
                                let mut note = Note::default();
                                if let Ok(mut s) = slots[shard].lock() {
                                    *s = Some((cfg, input.clone(), Instant::now()));
                                }
                                let r = match cov {
                                    Some(c) => {
                                        let (r, new) = c.watch(|| match found {
                                            // an input that the check itself cannot read is no case
                                            true => catch_unwind(AssertUnwindSafe(|| run_check(p, cfg, &input, &mut note))).ok(),
                                            false => Some(run_check(p, cfg, &input, &mut note)),
                                        });
                                        let Some(r) = r else { return true };
                                        if new && r.is_ok() {
                                            corpus.add(cfg, &input, c.pairs(), &mut lr);
                                        }
                                        r
                                    }
                                    None => run_check(p, cfg, &input, &mut note),
                                };
                                count += 1;
                                st.found += u64::from(found);
                                st.evaluations += 1.max(note.evals);
                                st.per_cfg[cfg] += 1;
                                *st.classes.entry(note.class).or_default() += 1;
                                if note.nontrivial {
                                    if st.distinct.len() < DISTINCT_CAP {
                                        let mut h = cfg as u64 + 1;
                                        input.hash(&mut h);
                                        st.distinct.insert(h);
                                    } else {
                                        st.capped = true;
                                    }
                                    // a few samples spread over the run
                                    if st.samples.len() < 3 && (count.is_power_of_two() || count > 64 && st.samples.is_empty()) {
                                        if let Some(i) = sample(&input) {
                                            st.samples.push(json!({"config": names[cfg], "input": i, "class": note.class}));
                                        }
                                    }
                                }
                                let mut input = input;
                                let mut r = r;
                                let large = !guided && every_large > 0 && count % every_large == 0;
                                let mut more = vec![];
                                if r.is_ok() && (large || !guided && every > 0 && count % every == 0) {
                                    more.extend(input.long(&mut lr, large).map(|l| (l, true)));
                                }
                                if r.is_ok() && !guided && every_flavour > 0 && count % every_flavour == 0 {
                                    let one = input.flavoured(&mut lr);
                                    if one.is_some() && lr.chance(1, 3) {
                                        more.extend(one.as_ref().and_then(|i| i.flavoured(&mut lr)).map(|l| (l, false)));
                                    }
                                    more.extend(one.map(|l| (l, false)));
                                }
                                for (l, long) in more {
                                    if r.is_err() {
                                        break;
                                    }
                                    if let Ok(mut s) = slots[shard].lock() {
                                        *s = Some((cfg, l.clone(), Instant::now()));
                                    }
                                    if let Some(f) = &mut file {
                                        use std::io::Seek;
                                        let v = json!({"config": names[cfg], "input": l.to_json()}).to_string();
                                        let _ = f.set_len(0);
                                        let _ = f.seek(std::io::SeekFrom::Start(0));
                                        let _ = f.write_all(v.as_bytes());
                                    }
                                    let mut note = Note::default();
                                    // an input that the check itself cannot read is no case
                                    let Ok(x) = catch_unwind(AssertUnwindSafe(|| run_check(p, cfg, &l, &mut note))) else { continue };
                                    r = x;
                                    st.evaluations += 1.max(note.evals);
                                    *if long { &mut st.long } else { &mut st.flavoured } += 1;
                                    *st.classes.entry(note.class).or_default() += 1;
                                    if r.is_err() {
                                        input = l;
                                    }
                                }
                                if let Err(msg) = r {
                                    fail = Some(Failure { shard, cfg, input, msg });
                                    stop.store(true, Ordering::SeqCst);
                                    return false;
                                }
                                !stop.load(Ordering::Relaxed)
                            };
                            p.generate(&plan, &mut rng, &mut |cfg, input| {
                                done += 1;
                                go = step(cfg, input, false, &mut corpus, &mut cov);
                                go
                            });
                            // around what reached something new
                            let todo = if guided { done * rounds } else { 0 };
                            for _ in 0..todo {
                                if !go {
                                    break;
                                }
                                if let Some((cfg, input)) = corpus.next(&mut rng) {
                                    go = step(cfg, input, true, &mut corpus, &mut cov);
                                }
                            }
                            seeds = corpus.found;
                        }));
                        st.seeds = seeds;
                        if let Ok(mut s) = slots[shard].lock() {
                            *s = None;
                        }
                        if let Err(e) = r {
                            let m = e
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default();
                            *harness_error.lock().unwrap() = Some(m);
                            stop.store(true, Ordering::SeqCst);
                        }
                        if let Some(f) = fail {
                            failures.lock().unwrap().push(f);
                        }
                        let mut a = all.lock().unwrap();
                        a.evaluations += st.evaluations;
                        a.capped |= st.capped;
                        a.distinct.extend(st.distinct);
                        for (k, v) in st.classes {
                            *a.classes.entry(k).or_default() += v;
                        }
                        for (i, v) in st.per_cfg.iter().enumerate() {
                            a.per_cfg[i] += v;
                        }
                        a.samples.extend(st.samples);
                        a.long += st.long;
                        a.flavoured += st.flavoured;
                        a.found += st.found;
                        a.seeds += st.seeds;
                    }
                })
                .expect("thread");
        }
    });
    let st = all.into_inner().unwrap();
    let mut fails = failures.into_inner().unwrap();
    fails.sort_by_key(|f| f.shard);
    if fails.is_empty() {
        if let Some(m) = harness_error.into_inner().unwrap() {
            eprintln!("harness error: {m}");
            std::process::exit(3);
        }
    }
    let mut violations = 0;
    let mut lines = vec![];
    // report one minimal case per configuration
    let mut seen = HashSet::new();
    for f in fails {
        if !seen.insert(f.cfg) || violations >= 3 {
            continue;
        }
        let (input, msg) = shrink(p, f.cfg, f.input, f.msg);
        let path = write_replay(p.id(), &names[f.cfg], &input, &msg);
        let clip = |s: String| if s.len() > 3000 { format!("{}...", s.chars().take(2500).collect::<String>()) } else { s };
        lines.push(format!("config {}: input {}: {}", names[f.cfg], clip(input.to_json().to_string()), clip(msg)));
        lines.push(format!("VIOLATION property={} replay={path}", p.id()));
        violations += 1;
    }
    let mut samples = st.samples;
    if samples.len() > 12 {
        let k = samples.len() / 12;
        samples = samples.into_iter().step_by(k).take(12).collect();
    }
    let idle: Vec<&String> = names.iter().zip(&st.per_cfg).filter(|x| *x.1 == 0).map(|x| x.0).collect();
    let mut coverage = json!({
        "evaluations": st.evaluations,
        "distinct_nontrivial": st.distinct.len(),
        "rule": p.rule(),
        "samples": samples,
        "classes": st.classes,
        "configurations": names.len(),
        "stretched_inputs": st.long,
        "flavoured_inputs": st.flavoured,
        "configurations_without_cases": idle,
    });
    if st.capped {
        coverage["distinct_nontrivial_is_a_lower_bound"] = json!(true);
    }
    let x = p.extra();
    if !x.is_null() {
        coverage["extra"] = x;
    }
    let ev = json!({
        "property": p.id(),
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": p.assumptions(),
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
        "violations": violations,
    });
    let path = verif_dir().join("evidence").join(format!("{}.json", p.id()));
    let mut ev = ev;
    if guided {
        // goes into what the run before it wrote
        let g = json!({
            "evaluations": st.evaluations,
            "searched_inputs": st.found,
            "distinct_nontrivial": st.distinct.len(),
            "inputs_that_reached_something_new": st.seeds,
            "wall_s": ev["wall_s"],
        });
        if let Some(mut first) = std::fs::read_to_string(&path).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
            first["violations"] = json!(first["violations"].as_u64().unwrap_or(0) + violations);
            ev = first;
        }
        ev["coverage"]["guided"] = g;
    }
    if trace.is_none() {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n")
            .expect("write evidence");
    }
    for l in &lines {
        println!("{l}");
    }
    println!(
        "{}{} {:?} seed={seed}: {} evaluations, {} distinct non-trivial, {} configurations, {:.1}s {:?}",
        p.id(),
        if guided { " guided" } else { "" },
        tier,
        st.evaluations,
        st.distinct.len(),
        names.len(),
        t0.elapsed().as_secs_f64(),
        st.classes
    );
    std::process::exit(if violations > 0 { 1 } else { 0 })
}

/// Helper: assert equality in a check.
pub fn expect_eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}

/// A property over a table of configurations, from plain functions.
pub struct Simple {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub cfgs: &'static [crate::Cfg],
    pub generate: fn(&Plan, &mut Rng, &mut dyn FnMut(usize, Input) -> bool),
    pub check: fn(&crate::Cfg, &Input, &mut Note) -> Result<(), String>,
    pub long: (u64, u64),
}

/// the usual share of stretched inputs
pub const LONG: (u64, u64) = (48, 2048);

impl Property for Simple {
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        self.rule.into()
    }
    fn assumptions(&self) -> Vec<String> {
        self.assumptions.iter().map(|s| s.to_string()).collect()
    }
    fn cfg_names(&self) -> Vec<String> {
        self.cfgs.iter().map(|c| c.name.to_string()).collect()
    }
    fn generate(&self, plan: &Plan, rng: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
        (self.generate)(plan, rng, emit)
    }
    fn long(&self) -> (u64, u64) {
        self.long
    }
    fn scale(&self) -> usize {
        if self.id == "C21" { 1 } else { 4 }
    }
    fn check(&self, cfg: usize, input: &Input, note: &mut Note) -> Result<(), String> {
        (self.check)(&self.cfgs[cfg], input, note)
    }
}
