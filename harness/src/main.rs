//! fxmon: drives the real library with generated calls and judges every observed result online.
//!
//!   fxmon run --prop C01 --seed 1 --cases 1000 --out result.json --slots slots.bin [--log events.txt]
//!   fxmon replay "<case line>"     re-executes and judges one event (exit 0 held, 1 violated)
//!   fxmon slots slots.bin          prints the calls in flight when a run died
//!   fxmon types                    lists the monitored types
mod big;
mod case;
#[cfg(feature = "codec")]
mod codec;
mod gen;
mod hist;
mod judge;
mod slots;
mod subj;
#[cfg(feature = "wrap")]
mod wrap;

use case::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use subj::Subj;

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        let at = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        let text = format!("{msg}{at}");
        if IN_CALL.with(|c| !*c.borrow()) {
            eprintln!("harness error: {text}");
            std::process::exit(70);
        }
        PANIC_AT.with(|p| *p.borrow_mut() = text);
    }));
}

thread_local! {
    static IN_CALL: RefCell<bool> = const { RefCell::new(false) };
}

/// Runs one call of the library and turns a panic into an observation.
pub fn exec(s: &Subj, k: &Case) -> Out {
    IN_CALL.with(|c| *c.borrow_mut() = true);
    #[cfg(feature = "codec")]
    let f = if (k.op as u8) >= (Op::JsonSer as u8) { s.codec } else { s.core };
    #[cfg(not(feature = "codec"))]
    let f = s.core;
    let r = match k.op {
        #[cfg(feature = "wrap")]
        Op::Wrap => catch_unwind(AssertUnwindSafe(|| wrap::exec(k))),
        _ => catch_unwind(AssertUnwindSafe(|| f(k))),
    };
    IN_CALL.with(|c| *c.borrow_mut() = false);
    match r {
        Ok(o) => o,
        Err(_) => {
            let text = PANIC_AT.with(|p| p.borrow().clone());
            if text.starts_with("monitor:") {
                eprintln!("harness error: {text}");
                std::process::exit(70);
            }
            Out::Panic(text)
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const NM: usize = 3;
const NC: usize = judge::CLASSES.len();

/// What one thread saw.
pub struct Seen {
    counts: Vec<u32>,
    nsubj: usize,
    pub events: u64,
    pub distinct: u64,
    pub panics: u64,
    pub violations: Vec<(Case, String, String)>,
    pub samples: BTreeMap<(u8, u8), String>,
    pub hashes: BTreeMap<(u8, u16), u64>,
    pub combos: BTreeMap<i32, u64>,
}

impl Seen {
    fn new(nsubj: usize) -> Seen {
        Seen {
            counts: vec![0; OPS.len() * nsubj * NM * NC],
            nsubj,
            events: 0,
            distinct: 0,
            panics: 0,
            violations: Vec::new(),
            samples: BTreeMap::new(),
            hashes: BTreeMap::new(),
            combos: BTreeMap::new(),
        }
    }
    fn at(&self, k: &Case, class: u8) -> usize {
        ((k.op as usize * self.nsubj + k.subj as usize) * NM + k.mode as usize) * NC + class as usize
    }
}

pub struct Monitor<'a> {
    pub subjects: &'a [Subj],
    /// Hash filter of the cases seen so far; a newly set bit is a distinct case.
    pub filter: &'a [AtomicU64],
    pub slot: slots::Slot,
    pub seen: Seen,
    pub log: Option<std::io::BufWriter<std::fs::File>>,
    pub hashing: bool,
    pub known: &'a [String],
    pub known_hit: BTreeMap<usize, u64>,
}

impl Monitor<'_> {
    /// Executes, observes and judges one call.
    pub fn feed(&mut self, k: &Case) -> Out {
        let s = &self.subjects[k.subj as usize];
        self.slot.enter(k);
        let out = exec(s, k);
        self.slot.leave();
        self.observe(k, &out);
        out
    }

    pub fn observe(&mut self, k: &Case, out: &Out) {
        let s = &self.subjects[k.subj as usize];
        let (class, why) = judge::judge(s, k, out);
        self.seen.events += 1;
        let i = self.seen.at(k, class);
        self.seen.counts[i] += 1;
        let h = k.hash();
        let bit = h % (self.filter.len() as u64 * 64);
        let w = &self.filter[(bit / 64) as usize];
        if w.load(Ordering::Relaxed) >> (bit % 64) & 1 == 0 && w.fetch_or(1 << (bit % 64), Ordering::Relaxed) >> (bit % 64) & 1 == 0 {
            if !k.s.is_empty() || k.a != 0 {
                self.seen.distinct += 1;
            }
        }
        if k.op == Op::Wrap {
            *self.seen.combos.entry(k.c).or_insert(0) += 1;
        }
        if matches!(out, Out::Panic(_)) {
            self.seen.panics += 1;
        }
        if self.hashing {
            // Types have different numbers in different builds.
            let mut k2 = k.clone();
            k2.subj = 0;
            let x = self.seen.hashes.entry((k.op as u8, k.subj)).or_insert(0);
            *x = x.wrapping_add((k2.hash() ^ out.hash().rotate_left(17)).wrapping_mul(0x9e3779b97f4a7c15));
        }
        if let Some(log) = &mut self.log {
            use std::io::Write;
            let _ = writeln!(log, "{} => {:?}", k.line(&s.name), out);
        }
        if self.seen.counts[i] == 3 || self.seen.samples.is_empty() {
            let e = self.seen.samples.entry((k.op as u8, class));
            e.or_insert_with(|| format!("{} => {:?} [{}]", k.line(&s.name), out, judge::CLASSES[class as usize]));
        }
        if let Some(why) = why {
            let line = k.line(&s.name);
            if let Some(i) = self.known.iter().position(|l| *l == line) {
                *self.known_hit.entry(i).or_insert(0) += 1;
            } else if self.seen.violations.len() < 8 {
                self.seen.violations.push((k.clone(), format!("{out:?}"), why));
            }
        }
    }
}

struct Task {
    op: Op,
    subj: u16,
    /// None: the systematic cases; Some(i): the i-th random batch.
    batch: Option<u64>,
    n: u64,
    /// A part of the whole domain of an operation of one operand.
    walk: Option<(i128, i128)>,
}

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let subjects = subj::subjects();
    let find = |n: &str| subjects.iter().position(|s| s.name == n).map(|i| i as u16);
    install_hook();
    match args.get(1).map(|s| s.as_str()) {
        Some("types") => {
            for s in &subjects {
                println!("{}", s.name);
            }
        }
        Some("replay") => {
            let Some(k) = args.get(2).and_then(|l| Case::from_line(l, find)) else {
                eprintln!("cannot read the case");
                std::process::exit(70);
            };
            let s = &subjects[k.subj as usize];
            let out = exec(s, &k);
            let (class, why) = judge::judge(s, &k, &out);
            println!("{} => {:?} [{}]", k.line(&s.name), out, judge::CLASSES[class as usize]);
            if let Some(w) = why {
                println!("VIOLATED: {w}");
                std::process::exit(1);
            }
            println!("HELD");
        }
        Some("slots") => {
            for (i, k) in slots::read(args.get(2).expect("file")) {
                let name = subjects.get(k.subj as usize).map_or("?", |s| s.name.as_str());
                println!("{i} {}", k.line(name));
            }
        }
        Some("run") => run(&args, &subjects),
        Some("hist") => hist::run(&args, &subjects),
        Some("mini") => mini(&args, &subjects),
        _ => {
            eprintln!("usage: fxmon run|replay|slots|types|hist|mini");
            std::process::exit(70);
        }
    }
}

/// A small single-threaded workload without files, for interpreters: `mini PROPS SEED CASES [part/of]`.
fn mini(args: &[String], subjects: &[Subj]) {
    let props: Vec<&str> = args[2].split(',').collect();
    let seed: u64 = args[3].parse().unwrap();
    let cases: u64 = args[4].parse().unwrap();
    let (part, of) = args.get(5).map_or((0, 1), |p| {
        let (a, b) = p.split_once('/').unwrap();
        (a.parse::<usize>().unwrap(), b.parse::<usize>().unwrap())
    });
    let filter: Vec<AtomicU64> = (0..1 << 12).map(|_| AtomicU64::new(0)).collect();
    let mut m = Monitor {
        subjects, filter: &filter, slot: slots::Slot::none(), seen: Seen::new(subjects.len()),
        log: None, hashing: false, known: &[], known_hit: BTreeMap::new(),
    };
    let echo = args.iter().any(|a| a == "--echo");
    let mut i = 0usize;
    for p in &props {
        for (si, s) in subjects.iter().enumerate() {
            for (oi, op) in ops_for(p, s).iter().enumerate() {
                i += 1;
                if i % of != part {
                    continue;
                }
                let r = gen::Rng::new(seed ^ (si as u64) << 32 ^ (*op as u64) << 16 ^ oi as u64);
                let mut todo: Vec<Case> = (0..cases).map(|_| make_case(&r, si as u16, s, *op)).collect();
                if matches!(op, Op::Show | Op::Debug | Op::ShowParse) {
                    for a in gen::extremes(s).into_iter().rev().take(3).chain(gen::extremes(s).into_iter().take(3)) {
                        todo.push(Case::new(*op, si as u16).a(a));
                    }
                }
                for k in todo {
                    if echo {
                        println!("CASE {}", k.line(&s.name));
                    }
                    m.feed(&k);
                }
            }
        }
    }
    println!("EVENTS {} DISTINCT {}", m.seen.events, m.seen.distinct);
    for (k, out, why) in &m.seen.violations {
        println!("BAD {} => {} : {}", k.line(&subjects[k.subj as usize].name), out, why);
    }
    for s in m.seen.samples.values().take(4) {
        println!("SAMPLE {s}");
    }
    if !m.seen.violations.is_empty() {
        std::process::exit(1);
    }
}

fn run(args: &[String], subjects: &[Subj]) {
    big::self_test();
    let prop = arg(args, "--prop").expect("--prop");
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let cases: u64 = arg(args, "--cases").and_then(|s| s.parse().ok()).unwrap_or(1000);
    let threads: usize = arg(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let max_secs: f64 = arg(args, "--max-secs").and_then(|s| s.parse().ok()).unwrap_or(1e9);
    let stall: f64 = arg(args, "--stall").and_then(|s| s.parse().ok()).unwrap_or(30.0);
    let only = arg(args, "--only").unwrap_or("");
    let only_op = arg(args, "--op").unwrap_or("");
    let full16 = args.iter().any(|a| a == "--full16");
    // The whole domains of the operations of one operand, instead of the generated cases.
    let walk = args.iter().any(|a| a == "--walk");
    let hashing = args.iter().any(|a| a == "--hash");
    let logfile = arg(args, "--log");
    let known: Vec<String> = arg(args, "--known")
        .and_then(|f| std::fs::read_to_string(f).ok())
        .map(|t| t.lines().map(|l| l.to_owned()).collect())
        .unwrap_or_default();
    let table = slots::Table::create(arg(args, "--slots").expect("--slots"), threads);

    // The plan: systematic cases, then random batches, for every operation of every type.
    let mut tasks: Vec<Task> = Vec::new();
    let batch = 2000u64;
    for p in prop.split(',') {
        for (si, s) in subjects.iter().enumerate() {
            if !only.is_empty() && !only.split(',').any(|o| s.name == o || s.name.starts_with(&format!("{o}/"))) {
                continue;
            }
            let ops = ops_for(p, s);
            for (i, &op) in ops.iter().enumerate() {
                if ops[..i].contains(&op) || !(only_op.is_empty() || only_op == op.name()) {
                    continue;
                }
                if walk {
                    let (modes, chunks) = (unary_modes(op), 256);
                    let step = (s.max() - s.min() + 1) / chunks;
                    for c in 0..if modes.is_empty() { 0 } else { chunks } {
                        let lo = s.min() + c * step;
                        tasks.push(Task { op, subj: si as u16, batch: None, n: 0, walk: Some((lo, lo + step)) });
                    }
                } else {
                    tasks.push(Task { op, subj: si as u16, batch: None, n: 0, walk: None });
                }
            }
            if walk {
                continue;
            }
            for (i, &op) in ops.iter().enumerate() {
                if !(only_op.is_empty() || only_op == op.name()) {
                    continue;
                }
                let weight = ops[..i].iter().filter(|&&o| o == op).count() as u64;
                for b in 0..cases.div_ceil(batch) {
                    let n = batch.min(cases - b * batch);
                    tasks.push(Task { op, subj: si as u16, batch: Some(b + (weight << 32)), n, walk: None });
                }
            }
        }
    }
    if tasks.is_empty() {
        eprintln!("no operations for {prop} in this build");
        std::process::exit(70);
    }
    // Systematic cases first; the rest in an order that spreads types over time.
    let mut order: Vec<usize> = (0..tasks.len()).collect();
    order.sort_by_key(|&i| {
        let t = &tasks[i];
        (t.batch.is_some(), t.batch.map_or(0, |b| b & 0xffff_ffff))
    });

    let filter_bits: u64 = if cases > 1_000_000 || walk { 1 << 32 } else if cases > 2000 { 1 << 30 } else { 1 << 24 };
    let filter: Vec<AtomicU64> = (0..filter_bits / 64).map(|_| AtomicU64::new(0)).collect();
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let stop = AtomicUsize::new(0);
    let start = std::time::Instant::now();
    let results: Mutex<Vec<(Seen, BTreeMap<usize, u64>)>> = Mutex::new(Vec::new());

    std::thread::scope(|sc| {
        for t in 0..threads {
            let (tasks, order, filter, next, done, stop, results, known, table) =
                (&tasks, &order, &filter, &next, &done, &stop, &results, &known, &table);
            let log = logfile.map(|f| std::io::BufWriter::new(std::fs::File::create(format!("{f}.{t}")).expect("log")));
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                let mut m = Monitor {
                    subjects, filter, slot: table.slot(t), seen: Seen::new(subjects.len()),
                    log, hashing, known, known_hit: BTreeMap::new(),
                };
                loop {
                    if stop.load(Ordering::Relaxed) == 1 {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= order.len() || start.elapsed().as_secs_f64() > max_secs {
                        break;
                    }
                    let task = &tasks[order[i]];
                    let s = &subjects[task.subj as usize];
                    if let Some((lo, hi)) = task.walk {
                        let modes = unary_modes(task.op);
                        for a in lo..hi {
                            for &md in modes {
                                m.feed(&Case::new(task.op, task.subj).a(a).m(md));
                            }
                        }
                    } else {
                    match task.batch {
                        None => systematic(&mut m, task.subj, s, task.op, full16),
                        Some(b) => {
                            let r = gen::Rng::new(
                                seed.wrapping_mul(0x9e3779b97f4a7c15)
                                    ^ (task.op as u64).wrapping_mul(0xd1342543de82ef95)
                                    ^ name_hash(&s.name)
                                    ^ b.wrapping_mul(0x2545f4914f6cdd1d),
                            );
                            for _ in 0..task.n {
                                let k = make_case(&r, task.subj, s, task.op);
                                m.feed(&k);
                            }
                        }
                    }
                    }
                    if m.seen.violations.len() >= 8 && !hashing {
                        stop.store(1, Ordering::Relaxed);
                    }
                }
                if let Some(l) = &mut m.log {
                    use std::io::Write;
                    l.flush().expect("log");
                }
                results.lock().unwrap().push((m.seen, m.known_hit));
                done.fetch_add(1, Ordering::SeqCst);
            }).expect("thread");
        }
        // Watchdog: a call that does not return is reported through the slots.
        let mut last: Vec<(u64, std::time::Instant)> = (0..threads).map(|t| (table.seq(t), std::time::Instant::now())).collect();
        let mut spins = 0u32;
        while done.load(Ordering::SeqCst) < threads {
            std::thread::sleep(std::time::Duration::from_millis(if spins < 50 { 2 } else { 100 }));
            spins += 1;
            for t in 0..threads {
                let q = table.seq(t);
                if q != last[t].0 || !table.active(t) {
                    last[t] = (q, std::time::Instant::now());
                } else if last[t].1.elapsed().as_secs_f64() > stall {
                    eprintln!("STALL thread {t}");
                    std::process::exit(77);
                }
            }
        }
    });

    // Results in thread order do not matter: everything is summed.
    let results = results.into_inner().unwrap();
    let mut total = Seen::new(subjects.len());
    let mut known_hit = BTreeMap::<usize, u64>::new();
    for (s, kh) in results {
        for (a, b) in total.counts.iter_mut().zip(&s.counts) {
            *a += *b;
        }
        total.events += s.events;
        total.distinct += s.distinct;
        total.panics += s.panics;
        total.violations.extend(s.violations);
        for (k, v) in s.samples {
            total.samples.entry(k).or_insert(v);
        }
        for (k, v) in s.hashes {
            let x = total.hashes.entry(k).or_insert(0);
            *x = x.wrapping_add(v);
        }
        for (k, v) in s.combos {
            *total.combos.entry(k).or_insert(0) += v;
        }
        for (k, v) in kh {
            *known_hit.entry(k).or_insert(0) += v;
        }
    }
    let mut cells = 0u64;
    let mut by_class: BTreeMap<(&str, &str), (u64, std::collections::BTreeSet<usize>)> = BTreeMap::new();
    for op in OPS {
        for si in 0..subjects.len() {
            for m in 0..NM {
                for c in 0..NC {
                    let n = total.counts[((*op as usize * subjects.len() + si) * NM + m) * NC + c];
                    if n > 0 {
                        cells += 1;
                        let e = by_class.entry((op.name(), judge::CLASSES[c])).or_default();
                        e.0 += n as u64;
                        e.1.insert(si);
                    }
                }
            }
        }
    }
    let mut o = String::from("{\n");
    o.push_str(&format!("\"prop\": {}, \"seed\": {seed}, \"events\": {}, \"distinct\": {}, \"panics\": {}, \"cells\": {cells},\n",
        json_str(prop), total.events, total.distinct, total.panics));
    o.push_str(&format!("\"types\": {}, \"combos\": {}, \"least_combo\": {}, \"complete\": {}, \"secs\": {:.3},\n", subjects.len(),
        total.combos.len(), total.combos.values().min().unwrap_or(&0),
        next.load(Ordering::Relaxed) >= order.len(), start.elapsed().as_secs_f64()));
    o.push_str("\"classes\": {");
    o.push_str(&by_class.iter().map(|((op, c), (n, t))| format!("{}: [{n}, {}]", json_str(&format!("{op}:{c}")), t.len())).collect::<Vec<_>>().join(", "));
    o.push_str("},\n\"samples\": [");
    o.push_str(&total.samples.values().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n "));
    o.push_str("],\n\"hashes\": {");
    o.push_str(&total.hashes.iter().map(|((op, s), h)| format!("\"{} {}\": \"{h:016x}\"", OPS[*op as usize].name(), subjects[*s as usize].name)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n\"known\": {");
    o.push_str(&known_hit.iter().map(|(i, n)| format!("{}: {n}", json_str(&known[*i]))).collect::<Vec<_>>().join(", "));
    o.push_str("},\n\"violations\": [");
    o.push_str(&total.violations.iter().map(|(k, out, why)| {
        format!("{{\"case\": {}, \"observed\": {}, \"why\": {}}}", json_str(&k.line(&subjects[k.subj as usize].name)), json_str(out), json_str(why))
    }).collect::<Vec<_>>().join(",\n "));
    o.push_str("]\n}\n");
    std::fs::write(arg(args, "--out").expect("--out"), o).expect("write result");
}

fn name_hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn ops_for(prop: &str, s: &Subj) -> Vec<Op> {
    #[cfg(feature = "wrap")]
    if prop == "C20" {
        return if s.name == "int:i8" { vec![Op::Wrap] } else { vec![] };
    }
    #[cfg(feature = "codec")]
    if let Some(v) = codec::ops_of(prop, s) {
        return v.to_vec();
    }
    gen::ops_of(prop, s).to_vec()
}

fn make_case(r: &gen::Rng, si: u16, s: &Subj, op: Op) -> Case {
    #[cfg(feature = "wrap")]
    if op == Op::Wrap {
        return wrap::case(r);
    }
    #[cfg(feature = "codec")]
    if (op as u8) >= (Op::JsonSer as u8) {
        return codec::case(r, si, s, op);
    }
    gen::case(r, si, s, op)
}

/// The modes to walk through the domain of an operation of one operand with; none for other operations.
fn unary_modes(op: Op) -> &'static [Mode] {
    use Op::*;
    match op {
        Recip | Rsqrt | Integral => &MODES,
        Cneg | Abs | Floor | Ceil | Round | NextPow | Show | Debug | ShowParse | ShowParseExact | ToF64 | F64Round => &MODES[..1],
        _ => &[],
    }
}

/// Systematic cases: fixed corpus, plus whole 8- and 16-bit domains for operations of one operand.
fn systematic(m: &mut Monitor, si: u16, s: &Subj, op: Op, full16: bool) {
    #[cfg(feature = "wrap")]
    if op == Op::Wrap {
        return wrap::corpus(&mut |k| {
            m.feed(&k);
        });
    }
    #[cfg(feature = "codec")]
    if (op as u8) >= (Op::JsonSer as u8) {
        return codec::corpus(si, s, op, &mut |k| {
            m.feed(&k);
        });
    }
    gen::corpus(si, s, op, &mut |k| {
        m.feed(&k);
    });
    use Op::*;
    if s.bits == 16 {
        for a in s.min()..=s.max() {
            for &md in unary_modes(op) {
                m.feed(&Case::new(op, si).a(a).m(md));
            }
        }
    }
    let binary = matches!(op, Rmul | RdivFF | RdivFI | RdivIF | IntRdiv | Cadd | Csub | CmulFI | CmulIF | IntCadd | IntCsub | IntCmul
        | SatAdd | SatSub | SatMulFI | SatMulIF | SatRmul | DefSatAdd | DefSatSub | DefSatMul | DefSatRmul
        | IntSatAdd | IntSatSub | IntSatMul | HalfSum | RoundTz | ToF64Pair | Cmp);
    let moded = matches!(op, Rmul | RdivFF | RdivFI | RdivIF | IntRdiv | SatRmul | DefSatRmul | HalfSum);
    let modes: &[Mode] = if moded { &MODES } else { &MODES[..1] };
    if binary && (s.bits == 8 || (s.bits == 16 && full16)) {
        for a in s.min()..=s.max() {
            for b in s.min()..=s.max() {
                for &md in modes {
                    m.feed(&Case::new(op, si).a(a).b(b).m(md));
                }
            }
        }
    }
}
