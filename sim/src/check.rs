//! The framework of the oracles: they watch every event of an execution.

use crate::frame::Frame;
use crate::ops::*;
use crate::world::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    /// A short, stable name of the kind of violation. Minimisation keeps it.
    pub class: String,
    pub text: String,
}

pub fn bad<T>(class: &str, text: String) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), text })
}

/// What's counted during executions.
#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub executions: u64,
    pub events: u64,
    pub frames: u64,
    pub sim_time: f64,
    /// How often an oracle really had something to judge.
    pub evals: u64,
    pub counts: BTreeMap<String, u64>,
    pub shapes: HashSet<u64>,
}

impl Stats {
    pub fn count(&mut self, name: &str, n: u64) {
        if n > 0 { *self.counts.entry(name.to_string()).or_insert(0) += n; }
    }
    pub fn merge(&mut self, o: &Stats) {
        self.executions += o.executions;
        self.events += o.events;
        self.frames += o.frames;
        self.sim_time += o.sim_time;
        self.evals += o.evals;
        for (k, v) in &o.counts { *self.counts.entry(k.clone()).or_insert(0) += v; }
        self.shapes.extend(o.shapes.iter());
    }
}

pub struct Ctx<'a> {
    pub index: usize,
    pub ev: &'a Ev,
    pub op: &'a Op,
    pub pre: &'a Obs,
    pub post: &'a Obs,
    pub out: &'a Outcome,
    pub world: &'a World,
    /// Only for frames that aren't too short.
    pub frame: Option<&'a Frame>,
}

pub trait Checker {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation>;
}

/// Runs the events and lets the checkers watch. Must be called on a thread of its own (see [isolated]).
pub fn play(evs: &[Ev], checkers: &mut [Box<dyn Checker>], stats: &mut Stats, want_frames: bool, mut each: Option<&mut dyn FnMut(usize, &Outcome, &Obs)>) -> Result<(), Violation> {
    let mut world = World::new();
    let mut pre = world.obs();
    stats.executions += 1;
    for (index, ev) in evs.iter().enumerate() {
        let out = world.exec(&ev.op);
        stats.events += 1;
        if let Some(text) = &out.panic {
            return bad("panic", format!("event {} ({}) panicked: {}", index, ev.op.text(), text));
        }
        let post = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| world.obs())) {
            Ok(o) => o,
            Err(_) => return bad("panic", format!("reading the world after event {} ({}) panicked", index, ev.op.text())),
        };
        if out.ret != Ret::Skipped {
            stats.count(&format!("event {}", ev.op.name()), 1);
            if ev.tags & T_DUP != 0 { stats.count("fault duplicated command", 1) }
            if ev.tags & T_LATE != 0 { stats.count("fault delayed command", 1) }
            if ev.tags & T_REORDERED != 0 { stats.count("fault reordered command", 1) }
            if ev.tags & T_STALL != 0 { stats.count("fault stalled frame", 1) }
            if ev.tags & T_MICRO != 0 { stats.count("fault frozen clock", 1) }
            if ev.tags & T_JITTER != 0 { stats.count("fault jittered frame", 1) }
            if out.target.map(|t| world.ents.get(&t).map(|e| !e.live).unwrap_or(false)).unwrap_or(false) && matches!(ev.op, Op::UpdEnt { .. } | Op::Link { .. }) {
                stats.count("fault command on a dead handle", 1)
            }
            if let (Op::UpdEnt { base: Base::Slot(_), .. }, Ret::Ok) = (&ev.op, &out.ret) { stats.count("fault stale write", 1) }
            if let (Op::UpdCol { base: Base::Slot(_), .. }, Ret::Ok) = (&ev.op, &out.ret) { stats.count("fault stale write", 1) }
            if out.crashed { stats.count("fault callback crash", 1) }
            if let Op::Step { dt } = ev.op {
                if dt.abs() >= 1e-6 {
                    stats.frames += 1;
                    if !out.crashed { stats.sim_time += dt as f64; }
                    if post.recs.len() >= post.iterations as usize { stats.count("probe iteration limit hit", 1) }
                    if post.recs.len() > 1 { stats.count("probe frame with several contacts", 1) }
                    stats.count("probe contact", post.recs.len() as u64);
                }
            }
            for (id, e) in &post.ents {
                if let Some(p) = pre.ents.get(id) {
                    if e.asleep && !p.asleep { stats.count("probe fell asleep", 1) }
                    if !e.asleep && p.asleep { stats.count("probe woke up", 1) }
                }
            }
            stats.shapes.insert(post.shape());
        }
        let frame = match (&ev.op, want_frames && !out.crashed) {
            (Op::Step { dt }, true) => Frame::of(&world, &pre, &post, &out, *dt),
            _ => None,
        };
        let ctx = Ctx { index, ev, op: &ev.op, pre: &pre, post: &post, out: &out, world: &world, frame: frame.as_ref() };
        for checker in checkers.iter_mut() {
            if let Err(mut v) = checker.event(&ctx, stats) {
                v.text = format!("event {} ({}): {}", index, ev.op.name(), v.text);
                return Err(v);
            }
        }
        if let Some(f) = each.as_mut() { f(index, &out, &post); }
        pre = post;
    }
    Ok(())
}

/// Runs something on a thread of its own, so that it gets hash tables keyed by the given seed, and clocks that go by it.
pub fn isolated<R: Send>(hash_seed: u64, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|scope| {
        let handle = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(scope, move || {
            crate::env::set_hash_seed(hash_seed);
            crate::env::simulate_clock(hash_seed);
            f()
        }).expect("thread");
        match handle.join() {
            Ok(r) => r,
            Err(p) => std::panic::resume_unwind(p),
        }
    })
}
