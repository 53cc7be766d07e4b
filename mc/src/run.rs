//! Exhaustive parallel driver: parts are finite lists of units, units are
//! finite lists of cases; every case of every unit is run.
use crate::dynp::{self, Bx, BudgetExceeded};
use crate::val::Val;
use aoc_parse::{ParseError, Parser};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub struct Part {
    pub name: String,
    pub bounds: String,
    pub units: usize,
    pub run: Box<dyn Fn(usize, &mut Ctx) + Send + Sync>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub part: usize,
    pub unit: usize,
    pub case: u64,
    pub what: String,
}

#[derive(Default)]
pub struct Ctx {
    part: usize,
    unit: usize,
    pub case_no: u64,
    slot: Option<(File, u64)>,
    trace: Option<File>,
    beat: Option<&'static AtomicU64>,
    pub viol: Option<Violation>,
    // counts
    pub states: u64,
    pub transitions: u64,
    pub executions: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub skipped: u64,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
}

impl Ctx {
    /// Tell the driver which unit runs here, should the process die.
    fn announce(&self) {
        if let Some((f, off)) = &self.slot {
            let mut b = [0u8; 24];
            b[..8].copy_from_slice(&(self.part as u64 + 1).to_le_bytes());
            b[8..16].copy_from_slice(&(self.unit as u64).to_le_bytes());
            let _ = f.write_at(&b, *off);
        }
    }
    /// Announce the next case. Returns false if the unit is already decided.
    pub fn case(&mut self, desc: impl FnOnce() -> String) -> bool {
        if self.viol.is_some() {
            return false;
        }
        self.case_no += 1;
        if let Some(b) = self.beat {
            b.fetch_add(1, SeqCst);
        }
        if let Some(t) = &self.trace {
            let s = format!("case {}: {}", self.case_no, desc());
            let _ = t.set_len(0);
            let _ = t.write_at(s.as_bytes(), 0);
        }
        true
    }
    pub fn fail(&mut self, what: String) {
        if self.viol.is_none() {
            self.viol = Some(Violation {
                part: self.part,
                unit: self.unit,
                case: self.case_no,
                what,
            });
        }
    }
    pub fn outcome<H: std::hash::Hash>(&mut self, h: &H) {
        if self.outcomes.len() < 2_000_000 {
            use std::hash::Hasher;
            let mut s = std::collections::hash_map::DefaultHasher::new();
            h.hash(&mut s);
            self.outcomes.insert(s.finish());
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        // a few, spread out
        if self.samples.len() < 2 && (self.unit % 97 == 13 || self.unit < 2) {
            self.samples.push(s());
        }
    }
}

// ---- running the real code

pub enum Out {
    Ok(Val),
    Err(ParseError),
    Panic(String),
    Budget,
}
impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Ok(v) => format!("Ok({v})"),
            Out::Err(e) => format!("Err(byte {}: {e})", e.location),
            Out::Panic(s) => format!("panic: {s}"),
            Out::Budget => "did not finish within the step budget".into(),
        }
    }
}

thread_local! { static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn quiet_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if CATCHING.with(|c| c.get()) > 0 {
            PANIC_MSG.with(|m| *m.borrow_mut() = info.to_string());
        } else {
            old(info);
        }
    }));
}
thread_local! { static CATCHING: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }

/// Run real code, turning panics and budget overruns into outcomes.
pub fn guarded<T>(budget: u64, f: impl FnOnce() -> T) -> Result<T, Out> {
    dynp::STEPS.with(|s| s.set(0));
    dynp::BUDGET.with(|s| s.set(budget));
    CATCHING.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(c.get() - 1));
    dynp::BUDGET.with(|s| s.set(u64::MAX));
    r.map_err(|e| {
        let msg = PANIC_MSG.with(|m| std::mem::take(&mut *m.borrow_mut()));
        if e.is::<BudgetExceeded>() {
            Out::Budget
        } else {
            Out::Panic(msg)
        }
    })
}
pub fn steps() -> u64 {
    dynp::STEPS.with(|s| s.get())
}
pub fn take_breach() -> Option<String> {
    dynp::BREACH.with(|b| b.borrow_mut().take())
}
pub fn take_log() -> Vec<(u8, Val)> {
    dynp::CONV_STEPS.with(|l| l.borrow_mut().clear());
    dynp::LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
/// Generous multiple of what the reference model needed.
pub fn budget_for(model_steps: u64) -> u64 {
    model_steps.saturating_mul(40) + 20_000
}

pub fn real_parse(b: &Bx, s: &str, budget: u64) -> Out {
    match guarded(budget, || b.parse(s)) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(e),
        Err(o) => o,
    }
}
/// The parser's own `parse`.
pub fn real_whole(b: &Bx, s: &str, budget: u64) -> Out {
    match guarded(budget, || b.0.whole(s)) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(e),
        Err(o) => o,
    }
}

// ---- driver

pub struct Totals {
    pub states: u64,
    pub transitions: u64,
    pub executions: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub skipped: u64,
    pub outcomes: u64,
    pub samples: Vec<String>,
    pub per_part: Vec<(String, String, usize, u64)>,
    pub viol: Option<Violation>,
}

pub const HANG_SECS: u64 = 30;
pub const EXIT_HANG: i32 = 90;
const STACK: usize = 256 << 20;

pub fn run_all(parts: &'static [Part], slots: Option<&str>) -> Totals {
    let nthreads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
    let beats: &'static Vec<(AtomicU64, AtomicU64)> = Box::leak(Box::new(
        (0..nthreads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect(),
    ));
    // monitor: a thread inside one case for too long is a hang
    std::thread::spawn(move || {
        let mut last: Vec<(u64, Instant)> = beats.iter().map(|_| (0, Instant::now())).collect();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for (i, (b, active)) in beats.iter().enumerate() {
                let v = b.load(SeqCst);
                if v != last[i].0 || active.load(SeqCst) == 0 {
                    last[i] = (v, Instant::now());
                } else if last[i].1.elapsed().as_secs() > HANG_SECS {
                    eprintln!("mc: thread {i} stuck in one case for {HANG_SECS}s");
                    std::process::exit(EXIT_HANG);
                }
            }
        }
    });
    let mut tot = Totals {
        states: 0,
        transitions: 0,
        executions: 0,
        accepted: 0,
        rejected: 0,
        skipped: 0,
        outcomes: 0,
        samples: vec![],
        per_part: vec![],
        viol: None,
    };
    let mut outcomes: HashSet<u64> = HashSet::new();
    for (pi, part) in parts.iter().enumerate() {
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let bad = AtomicUsize::new(usize::MAX);
        let collected: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for t in 0..nthreads {
                let (next, bad, collected) = (&next, &bad, &collected);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        let mut cx = Ctx {
                            part: pi,
                            beat: Some(&beats[t].0),
                            slot: slots.map(|s| {
                                (
                                    std::fs::OpenOptions::new().write(true).open(s).unwrap(),
                                    24 * t as u64,
                                )
                            }),
                            ..Ctx::default()
                        };
                        loop {
                            let u = next.fetch_add(1, SeqCst);
                            if u >= part.units || u > bad.load(SeqCst) {
                                break;
                            }
                            cx.unit = u;
                            cx.case_no = 0;
                            cx.announce();
                            beats[t].1.store(1, SeqCst);
                            (part.run)(u, &mut cx);
                            beats[t].1.store(0, SeqCst);
                            if cx.viol.is_some() {
                                bad.fetch_min(u, SeqCst);
                                break;
                            }
                        }
                        if let Some((f, off)) = &cx.slot {
                            let _ = f.write_at(&[0u8; 24], *off);
                        }
                        collected.lock().unwrap().push(cx);
                    })
                    .unwrap();
            }
        });
        let mut execs = 0;
        let skipped = tot.skipped;
        for cx in collected.into_inner().unwrap() {
            tot.states += cx.states;
            tot.transitions += cx.transitions;
            tot.executions += cx.executions;
            execs += cx.executions;
            tot.accepted += cx.accepted;
            tot.rejected += cx.rejected;
            tot.skipped += cx.skipped;
            outcomes.extend(cx.outcomes);
            if tot.samples.len() < 16 {
                tot.samples.extend(cx.samples.into_iter().take(2));
            }
            if let Some(v) = cx.viol {
                if tot.viol.as_ref().map_or(true, |w| (v.part, v.unit) < (w.part, w.unit)) {
                    tot.viol = Some(v);
                }
            }
        }
        eprintln!(
            "mc: part {} [{}]: {} units, {} executions, {} skipped, {:.1}s",
            part.name,
            part.bounds,
            part.units,
            execs,
            tot.skipped - skipped,
            t0.elapsed().as_secs_f64()
        );
        tot.per_part.push((part.name.clone(), part.bounds.clone(), part.units, execs));
        if tot.viol.is_some() {
            break;
        }
    }
    tot.outcomes = outcomes.len() as u64;
    tot
}

/// Run one unit alone (replay, or confirmation of a crash or hang).
pub fn run_unit(parts: &'static [Part], pi: usize, unit: usize, trace: Option<&str>) -> Ctx {
    let beat: &'static AtomicU64 = Box::leak(Box::new(AtomicU64::new(0)));
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let v = beat.load(SeqCst);
            if v != last.0 {
                last = (v, Instant::now());
            } else if last.1.elapsed().as_secs() > HANG_SECS {
                std::process::exit(EXIT_HANG);
            }
        }
    });
    let mut cx = Ctx {
        part: pi,
        unit,
        beat: Some(beat),
        trace: trace.map(|t| File::create(t).unwrap()),
        ..Ctx::default()
    };
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || (parts[pi].run)(unit, &mut cx))
            .unwrap();
    });
    cx
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn evidence(id: &str, tier: Tier, t: &Totals, wall: f64, assumptions: &[&str]) -> String {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut o = String::new();
    let parts: Vec<String> = t
        .per_part
        .iter()
        .map(|(n, b, u, e)| {
            format!(
                "{{\"part\": {}, \"bounds\": {}, \"units\": {u}, \"executions\": {e}}}",
                json_str(n),
                json_str(b)
            )
        })
        .collect();
    let samples: Vec<String> = t.samples.iter().map(|s| json_str(s)).collect();
    let ass: Vec<String> = assumptions.iter().map(|s| json_str(s)).collect();
    let _ = write!(
        o,
        "{{\n \"property\": \"{id}\",\n \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"accepting_executions\": {},\n  \"rejecting_executions\": {},\n  \"distinct_outcomes\": {},\n  \"cases_beyond_model_step_cap\": {},\n  \"exhaustive\": {},\n  \"parts\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        if tier == Tier::Quick { "quick" } else { "thorough" },
        t.states,
        t.transitions,
        t.executions,
        t.accepted,
        t.rejected,
        t.outcomes,
        t.skipped,
        t.skipped == 0 && t.viol.is_none(),
        parts.join(",\n   "),
        samples.join(",\n   "),
        ass.join(", "),
        wall,
        t.viol.is_some() as u32
    );
    o
}
