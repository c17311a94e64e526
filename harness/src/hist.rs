//! Histories: the same calls repeated in different orders, neighbourhoods and threads must keep
//! their results (purity), and ledgers driven by sequences of operations must balance exactly.
//!
//!   fxmon hist --seed 1 --order 3 --families 40 --rounds 4 --threads 8 [--cold] [--props C01,..] [--out F] [--slots F]
use crate::big::Big;
use crate::case::*;
use crate::gen::{self, Rng};
use crate::slots;
use crate::subj::Subj;
use crate::{exec, judge, json_str};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};

/// One observed call of a thread's history.
struct Event {
    case: u32,
    begin: u64,
    end: u64,
    /// Filled only if the result differs from the first one seen for the same case.
    odd: Option<Out>,
}

/// A case and others that differ from it in one coordinate: what a stale or colliding cache would mix up.
fn family(r: &Rng, subjects: &[Subj], si: u16, op: Op, out: &mut Vec<Case>) {
    let s = &subjects[si as usize];
    let k = gen::case(r, si, s, op);
    let fit = |v: i128| v >= s.min() && v <= s.max();
    out.push(k.clone());
    for m in MODES {
        if m != k.mode && matches!(op, Op::Rmul | Op::RdivFF | Op::RdivFI | Op::RdivIF | Op::Recip | Op::IntRdiv | Op::SatRmul | Op::Rsqrt | Op::Integral | Op::HalfSum) {
            out.push(k.clone().m(m));
        }
    }
    if !k.s.is_empty() {
        out.push(k.clone().s(format!("{}0", k.s)));
        out.push(k.clone().s(format!("-{}", k.s)));
        out.push(k.clone().s(k.s.chars().rev().collect()));
    } else if matches!(op, Op::FromF64 | Op::FromF64Neg) {
        for d in [1i128, 1 << 63, 1 << 52, 1 << 31] {
            out.push(k.clone().a((k.a as u64 ^ d as u64) as i128));
        }
    } else if op == Op::FromInt {
        out.push(k.clone().c((k.c + 1) % 12).a(k.a & 0x7f));
        out.push(k.clone().a(k.a & 0x7f));
    } else {
        let half = s.bits / 2;
        for v in [k.a.saturating_neg(), k.a.saturating_add(1), k.a ^ 1 << half, k.a ^ 1 << (s.bits - 2), !k.a, k.b] {
            if fit(v) {
                out.push(k.clone().a(v));
            }
        }
        if k.b != 0 {
            for v in [k.b.saturating_neg(), k.b.saturating_sub(1), k.b ^ 1 << half, k.a, 0] {
                if fit(v) {
                    out.push(k.clone().b(v));
                }
            }
            out.push(k.clone().a(k.b).b(k.a));
        }
        if matches!(op, Op::FromDec | Op::ToDec) {
            out.push(k.clone().c(k.c.saturating_add(1)));
        }
    }
    // The same operands in other types.
    for _ in 0..3 {
        let sj = r.below(subjects.len() as u64) as u16;
        let t = &subjects[sj as usize];
        if t.int == s.int && gen_ops(t).contains(&op) {
            let mut k2 = k.clone();
            k2.subj = sj;
            if !matches!(op, Op::FromF64 | Op::FromF64Neg | Op::FromInt) {
                k2.a = gen::clamp(t, k.a);
                k2.b = gen::clamp(t, k.b);
            }
            out.push(k2);
        }
    }
}

const PROPS: [&str; 14] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"];

fn gen_ops(s: &Subj) -> Vec<Op> {
    PROPS.iter().flat_map(|p| gen::ops_of(p, s)).copied().collect()
}

fn delay(r: &Rng) {
    match r.below(40) {
        0 => std::thread::yield_now(),
        1 => (0..r.below(300)).for_each(|_| std::hint::spin_loop()),
        _ => {}
    }
}

pub struct Report {
    pub events: u64,
    pub cases: usize,
    pub adjacent: usize,
    pub overlaps: usize,
    pub peak: usize,
    pub digest: u64,
    pub ledger_events: u64,
    pub ledger_checks: u64,
    pub transfers: u64,
    pub refused: u64,
    /// last case of the history, what was observed, why it is wrong, history leading to it
    pub bad: Vec<(Case, String, String, Vec<Case>)>,
    pub samples: Vec<String>,
}

#[allow(clippy::too_many_arguments)]
pub fn purity(subjects: &[Subj], seed: u64, order: u64, families: u64, rounds: u64, threads: usize, cold: bool,
              only: &[u16], table: Option<&slots::Table>, rep: &mut Report) {
    let r = Rng::new(seed ^ 0xc23);
    let mut pool: Vec<Case> = Vec::new();
    for _ in 0..families {
        let si = only[r.below(only.len() as u64) as usize];
        let ops = gen_ops(&subjects[si as usize]);
        let op = ops[r.below(ops.len() as u64) as usize];
        family(&r, subjects, si, op, &mut pool);
    }
    rep.cases += pool.len();
    // The first observation of every case; threads keep their own, because a shared record would order their calls and hide races.
    let mut first: Vec<Option<Out>> = vec![None; pool.len()];
    let baseline = |rep: &mut Report, slot: slots::Slot, first: &mut Vec<Option<Out>>| {
        let mut past: Vec<Case> = Vec::new();
        for (i, k) in pool.iter().enumerate() {
            slot.enter(k);
            let o = exec(&subjects[k.subj as usize], k);
            slot.leave();
            rep.events += 1;
            past.push(k.clone());
            let odd = first[i].as_ref().is_some_and(|x| !same(x, &o));
            let (_, why) = judge::judge(&subjects[k.subj as usize], k, &o);
            if let Some(w) = why.or(odd.then(|| "another result was observed for the same call earlier".to_owned())) {
                if rep.bad.len() < 8 {
                    rep.bad.push((k.clone(), format!("{o:?}"), w, past[past.len().saturating_sub(40)..].to_vec()));
                }
            } else if rep.samples.len() < 6 && i % 97 == 0 {
                rep.samples.push(format!("{} => {o:?}", k.line(&subjects[k.subj as usize].name)));
            }
            if first[i].is_none() {
                first[i] = Some(o);
            }
        }
    };
    let slot = |t: usize| table.map_or(slots::Slot::none(), |x| x.slot(t));
    if !cold {
        baseline(rep, slot(0), &mut first);
    }
    let clock = AtomicU64::new(0);
    let barrier = Barrier::new(threads);
    let stuck = AtomicUsize::new(0);
    let logs: Mutex<Vec<(usize, Vec<Event>, Vec<Option<Out>>)>> = Mutex::new(Vec::new());
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (pool, clock, barrier, logs, stuck) = (&pool, &clock, &barrier, &logs, &stuck);
            let mut own = first.clone();
            let slot = slot(t);
            sc.spawn(move || {
                let r = Rng::new(order.wrapping_mul(0x51_7cc1b7_2722_0a95) ^ seed ^ (t as u64) << 40);
                let mut log: Vec<Event> = Vec::with_capacity(pool.len() * rounds as usize + 16);
                barrier.wait();
                let n = pool.len() as u64;
                let mut at = if cold { 0 } else { r.below(n) };
                for step in 0..n * rounds {
                    // Stay in a neighbourhood for a while: A B A C B, then jump.
                    at = match r.below(8) {
                        _ if cold && step < n / 2 => step,
                        0 => r.below(n),
                        1 => at,
                        2 | 3 => (at + n - r.below(4).min(n - 1)) % n,
                        _ => (at + 1 + r.below(2)) % n,
                    };
                    let i = at as usize;
                    let k = &pool[i];
                    let begin = clock.fetch_add(1, Ordering::Relaxed);
                    slot.enter(k);
                    let o = exec(&subjects[k.subj as usize], k);
                    slot.leave();
                    let end = clock.fetch_add(1, Ordering::Relaxed);
                    let odd = match &own[i] {
                        Some(x) => (!same(x, &o)).then_some(o),
                        None => {
                            own[i] = Some(o);
                            None
                        }
                    };
                    let stop = odd.is_some();
                    log.push(Event { case: i as u32, begin, end, odd });
                    if stop && stuck.fetch_add(1, Ordering::Relaxed) > 8 {
                        break;
                    }
                    delay(&r);
                }
                logs.lock().unwrap().push((t, log, own));
            });
        }
    });
    // Offline: every recorded event against the first observation and the oracle; coverage of histories.
    let mut logs = logs.into_inner().unwrap();
    logs.sort_by_key(|l| l.0);
    for (t, log, own) in logs.iter() {
        for (i, o) in own.iter().enumerate() {
            match (&first[i], o) {
                (None, Some(o)) => first[i] = Some(o.clone()),
                (Some(x), Some(o)) if !same(x, o) && rep.bad.len() < 8 => {
                    let end = log.iter().position(|e| e.case as usize == i).unwrap_or(0);
                    let past = log[end.saturating_sub(40)..=end].iter().map(|e| pool[e.case as usize].clone()).collect();
                    rep.bad.push((pool[i].clone(), format!("{o:?}"), format!("the same call returned {x:?} in another thread (this is thread {t})"), past));
                }
                _ => {}
            }
        }
    }
    if cold {
        baseline(rep, slot(0), &mut first);
    }
    let mut adjacent: HashSet<(u32, u32)> = HashSet::new();
    let mut spans: Vec<(u64, bool, u32, usize)> = Vec::new();
    for (t, log, _) in logs.iter() {
        rep.events += log.len() as u64;
        for w in log.windows(2) {
            adjacent.insert((w[0].case, w[1].case));
        }
        for (i, e) in log.iter().enumerate() {
            spans.push((e.begin, true, e.case, *t));
            spans.push((e.end, false, e.case, *t));
            if let Some(o) = &e.odd {
                if rep.bad.len() < 8 {
                    let k = &pool[e.case as usize];
                    let f = first[e.case as usize].clone();
                    let past = log[i.saturating_sub(40)..=i].iter().map(|e| pool[e.case as usize].clone()).collect();
                    rep.bad.push((k.clone(), format!("{o:?}"), format!("the same call returned {:?} before (thread {t})", f.unwrap()), past));
                }
            }
        }
    }
    spans.sort_unstable();
    let mut active: BTreeMap<usize, u32> = BTreeMap::new();
    let mut pairs: HashSet<(u32, u32)> = HashSet::new();
    for (_, begin, case, t) in spans {
        if begin {
            if pairs.len() < 4_000_000 {
                for (_, &o) in active.iter() {
                    pairs.insert((o.min(case), o.max(case)));
                }
            }
            active.insert(t, case);
            rep.peak = rep.peak.max(active.len());
        } else {
            active.remove(&t);
        }
    }
    rep.adjacent += adjacent.len();
    rep.overlaps += pairs.len();
    for (i, k) in pool.iter().enumerate() {
        if let Some(o) = &first[i] {
            rep.digest = rep.digest.wrapping_add((k.hash() ^ o.hash().rotate_left(13)).wrapping_mul(0x9e3779b97f4a7c15));
        }
    }
}

/// Equal results; the text of a panic may name the place, not part of the result.
fn same(a: &Out, b: &Out) -> bool {
    matches!((a, b), (Out::Panic(_), Out::Panic(_))) || a == b
}

/// Accounts shared by threads. Every movement is recorded and audited exactly afterwards.
struct Entry {
    mode: Mode,
    kind: u8,
    /// operand, rate (raw), result (raw)
    a: i128,
    b: i128,
    r: i128,
}

pub fn ledger(subjects: &[Subj], seed: u64, steps: u64, threads: usize, si: u16, rep: &mut Report) {
    let s = &subjects[si as usize];
    let n = 6usize;
    let r0 = Rng::new(seed ^ 0x1ed6e5 ^ (si as u64) << 20);
    let accounts: Vec<Mutex<i128>> = (0..n).map(|_| Mutex::new(gen::value(&r0, s) / 2)).collect();
    let opening = accounts.iter().fold(Big::ZERO, |x, a| x.add(Big::i(*a.lock().unwrap())));
    let bank = Mutex::new((Big::ZERO, Big::ZERO));
    let logs: Mutex<Vec<Vec<Entry>>> = Mutex::new(Vec::new());
    let wrong: Mutex<Vec<(Case, String, String)>> = Mutex::new(Vec::new());
    let counts = [const { AtomicU64::new(0) }; 3];
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (accounts, bank, logs, wrong, counts) = (&accounts, &bank, &logs, &wrong, &counts);
            sc.spawn(move || {
                let r = Rng::new(seed.wrapping_mul(77) ^ (t as u64) << 32 ^ si as u64);
                let mut log = Vec::new();
                // One judged call; None if it reported an error.
                let call = |k: Case| -> Option<i128> {
                    let o = exec(s, &k);
                    counts[0].fetch_add(1, Ordering::Relaxed);
                    let (_, why) = judge::judge(s, &k, &o);
                    if let Some(w) = why {
                        wrong.lock().unwrap().push((k, format!("{o:?}"), w));
                        return None;
                    }
                    match o {
                        Out::Int(x) => Some(x),
                        _ => None,
                    }
                };
                let op = |op: Op| Case::new(op, si);
                for _ in 0..steps {
                    let (i, mut j) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
                    if i == j {
                        j = (j + 1) % n;
                    }
                    let mode = r.mode();
                    let (lo, hi) = (i.min(j), i.max(j));
                    let mut first = accounts[lo].lock().unwrap();
                    let mut second = accounts[hi].lock().unwrap();
                    let (x, y) = if i < j { (&mut *first, &mut *second) } else { (&mut *second, &mut *first) };
                    match r.below(4) {
                        0 | 1 => {
                            // exact transfer
                            let amount = gen::value(&r, s);
                            let (from, to) = (call(op(Op::Csub).a(*x).b(amount)), call(op(Op::Cadd).a(*y).b(amount)));
                            if let (Some(f), Some(t)) = (from, to) {
                                *x = f;
                                *y = t;
                                counts[1].fetch_add(1, Ordering::Relaxed);
                            } else {
                                counts[2].fetch_add(1, Ordering::Relaxed);
                            }
                        }
                        2 => {
                            // interest: balance += balance * rate, the bank pays
                            let rate = gen::value(&r, s) % s.coef().max(2);
                            let Some(p) = call(op(Op::Rmul).a(*x).b(rate).m(mode)) else { continue };
                            let Some(nx) = call(op(Op::Cadd).a(*x).b(p)) else { continue };
                            let old = *x;
                            *x = nx;
                            let mut b = bank.lock().unwrap();
                            b.0 = b.0.add(Big::i(p));
                            // exact interest in units of 1/coef of the smallest step
                            b.1 = b.1.add(Big::i(old).mul(Big::i(rate)));
                            log.push(Entry { mode, kind: 2, a: old, b: rate, r: p });
                        }
                        _ => {
                            // split in `k` shares, the remainder stays
                            let k = 1 + r.below(7) as i128;
                            if k > s.max() {
                                continue;
                            }
                            let Some(share) = call(op(Op::RdivFI).a(*x).b(k).m(mode)) else { continue };
                            let Some(back) = call(op(Op::CmulFI).a(share).b(k)) else { continue };
                            let Some(rest) = call(op(Op::Csub).a(*x).b(back)) else { continue };
                            log.push(Entry { mode, kind: 3, a: *x, b: k, r: share });
                            let (Some(nx), Some(ny)) = (call(op(Op::Csub).a(*x).b(share)), call(op(Op::Cadd).a(*y).b(share))) else { continue };
                            let _ = rest;
                            *x = nx;
                            *y = ny;
                        }
                    }
                }
                logs.lock().unwrap().push(log);
            });
        }
    });
    // Audit.
    let closing = accounts.iter().fold(Big::ZERO, |x, a| x.add(Big::i(*a.lock().unwrap())));
    let (paid, exact) = *bank.lock().unwrap();
    let coef = Big::i(s.coef());
    let mut fail = |why: String| {
        if rep.bad.len() < 8 {
            rep.bad.push((Case::new(Op::Cadd, si), "ledger".to_owned(), why, Vec::new()));
        }
    };
    rep.ledger_checks += 1;
    if closing != opening.add(paid) {
        fail(format!("{}: balances sum to {} but opened with {} and received {}", s.name,
            judge::dec(closing, s.prec), judge::dec(opening, s.prec), judge::dec(paid, s.prec)));
    }
    let mut loss = Big::ZERO;
    let mut interest = 0u64;
    for e in logs.into_inner().unwrap().iter().flatten() {
        rep.ledger_checks += 1;
        // den * result - exact: the loss of this movement
        let (den, l) = match e.kind {
            2 => (coef, Big::i(e.r).mul(coef).sub(Big::i(e.a).mul(Big::i(e.b)))),
            _ => (Big::i(e.b), Big::i(e.r).mul(Big::i(e.b)).sub(Big::i(e.a))),
        };
        let ok = match e.mode {
            Mode::Floor => l.sign() <= 0 && l.abs() < den,
            Mode::Ceil => l.sign() >= 0 && l.abs() < den,
            Mode::Nearest => l.abs().add(l.abs()) <= den,
        };
        if !ok {
            fail(format!("{}: rounding loss of {}/{} steps for {} and {} in mode {:?}", s.name, judge::dec(l, 0), judge::dec(den, 0), e.a, e.b, e.mode));
        }
        if e.kind == 2 {
            loss = loss.add(l);
            interest += 1;
        }
    }
    let _ = interest;
    if paid.mul(coef) != exact.add(loss) {
        fail(format!("{}: interest paid differs from the exact interest plus recorded losses", s.name));
    }
    for (k, o, w) in wrong.into_inner().unwrap().into_iter().take(4) {
        rep.bad.push((k, o, w, Vec::new()));
    }
    rep.ledger_events += counts[0].load(Ordering::Relaxed);
    rep.transfers += counts[1].load(Ordering::Relaxed);
    rep.refused += counts[2].load(Ordering::Relaxed);
}

pub fn new_report() -> Report {
    Report {
        events: 0, cases: 0, adjacent: 0, overlaps: 0, peak: 0, digest: 0, ledger_events: 0, ledger_checks: 0, transfers: 0,
        refused: 0, bad: Vec::new(), samples: Vec::new(),
    }
}

pub fn run(args: &[String], subjects: &[Subj]) {
    let get = |n: &str, d: u64| crate::arg(args, n).and_then(|s| s.parse().ok()).unwrap_or(d);
    let (seed, order, families, rounds) = (get("--seed", 1), get("--order", 1), get("--families", 40), get("--rounds", 4));
    let threads = get("--threads", 8) as usize;
    let cold = args.iter().any(|a| a == "--cold");
    let table = crate::arg(args, "--slots").map(|f| slots::Table::create(f, threads.max(1)));
    let mut rep = new_report();
    let all: Vec<u16> = (0..subjects.len() as u16).collect();
    purity(subjects, seed, order, families, rounds, threads, cold, &all, table.as_ref(), &mut rep);
    let mut ledgers = BTreeSet::new();
    let nl = get("--ledgers", 0);
    for i in 0..nl {
        let fixed: Vec<u16> = all.iter().copied().filter(|&i| !subjects[i as usize].int).collect();
        let si = fixed[((i * 7919 + seed) % fixed.len() as u64) as usize];
        ledgers.insert(si);
        ledger(subjects, seed ^ i << 8, get("--steps", 500), threads.min(4), si, &mut rep);
    }
    let bad: Vec<String> = rep.bad.iter().map(|(k, o, w, past)| {
        let name = |k: &Case| k.line(&subjects[k.subj as usize].name);
        format!("{{\"case\": {}, \"observed\": {}, \"why\": {}, \"history\": [{}]}}", json_str(&name(k)), json_str(o), json_str(w),
            past.iter().map(|k| json_str(&name(k))).collect::<Vec<_>>().join(","))
    }).collect();
    let text = format!(
        "{{\"events\": {}, \"cases\": {}, \"adjacent\": {}, \"overlaps\": {}, \"peak\": {}, \"digest\": \"{:016x}\", \"ledgers\": {}, \"ledger_events\": {}, \"ledger_checks\": {}, \"transfers\": {}, \"refused\": {},\n\"samples\": [{}],\n\"violations\": [{}]}}\n",
        rep.events, rep.cases, rep.adjacent, rep.overlaps, rep.peak, rep.digest, ledgers.len(), rep.ledger_events, rep.ledger_checks,
        rep.transfers, rep.refused, rep.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "), bad.join(",\n")
    );
    match crate::arg(args, "--out") {
        Some(f) => std::fs::write(f, text).expect("write result"),
        None => print!("{text}"),
    }
}
