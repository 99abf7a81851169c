//! Executes one plan on a thread of its own, in a world whose clock, randomness, scheduling,
//! network and blocking are simulated.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::ctx::{self, Viol};
use crate::env;
use crate::plan::{Plan, World};
use crate::rng::Rng;

pub struct RunOut {
    pub viols: Vec<Viol>,
    pub hash: u64,
    pub shape: u64,
    pub events: u64,
    pub steps: u64,
    /// The messages of every call of a service.
    pub calls: Vec<Vec<crate::spop::Msg>>,
    pub sim_ms: u64,
    pub trace: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
}

/// No single allocation is that large unless something announced is taken at its word.
const HOARD: usize = 48 << 20;

thread_local! {
    static IN_RUN: Cell<bool> = const { Cell::new(false) };
}

pub fn in_run(on: bool) {
    IN_RUN.with(|c| c.set(on));
}

pub fn hook_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !IN_RUN.try_with(|c| c.get()).unwrap_or(false) {
            return old(info);
        }
        let text = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if text.contains("SIM-INJECTED") {
            return;
        }
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        ctx::panicked(format!("{text} at {at}"));
        crate::threads::panicked(format!("{text} at {at}"));
    }));
}

/// A lock is waited for and nobody else runs in this world.
fn lonely_futex(wait: bool, _addr: usize, _val: u32) -> isize {
    if wait {
        env::fatal("deadlock");
    }
    0
}

pub fn exec(plan: &Plan, trace: bool) -> RunOut {
    let plan = plan.clone();
    let t = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            env::set_random(Some(Rng::stream(plan.seed, "os", 0)));
            simhook::clock_on(true);
            ctx::install(trace);
            in_run(true);
            crate::logging::on(plan.log);
            let died = catch_unwind(AssertUnwindSafe(|| match &plan.world {
                World::A(p) => {
                    env::set_futex(Some(lonely_futex));
                    crate::agent::run(p, plan.seed)
                }
                World::B(p) => crate::threads::run(p, plan.seed),
                World::C(p) => {
                    env::set_futex(Some(lonely_futex));
                    crate::codec::run(p, plan.seed)
                }
            }))
            .is_err();
            in_run(false);
            crate::logging::on(false);
            env::set_futex(None);
            env::set_random(None);
            simhook::set_chooser(None);
            simhook::set_listener(None);
            simhook::clock_on(false);
            let mut c = ctx::take();
            // nothing that is sent comes anywhere near this
            let peak = crate::alloc::take_peak();
            // (the record of a run of very many operations may)
            let long = matches!(&plan.world, World::A(p) if p.conns.iter().map(|c| c.ops.len()).sum::<usize>() > 10_000);
            if peak > HOARD && !long {
                c.viols.push(Viol { class: "hoards", detail: format!("{peak} bytes were allocated at once") });
            }
            for p in std::mem::take(&mut c.panics) {
                let class = if p.contains("HARNESS") || p.contains(" at src/") { "harness" } else { "panic" };
                c.viols.insert(0, Viol { class, detail: p });
            }
            if died && !c.viols.iter().any(|v| v.class == "harness" || v.class == "panic") {
                c.viols.insert(0, Viol { class: "harness", detail: "the run itself panicked".into() });
            }
            RunOut {
                viols: c.viols,
                hash: c.hash,
                shape: c.shape,
                events: c.events,
                steps: c.steps,
                calls: c.makes.values().flatten().flat_map(|m| m.calls.iter().map(|c| c.msgs.clone())).collect(),
                sim_ms: c.last_event,
                trace: c.trace.unwrap_or_default(),
                faults: c.faults,
                probes: c.probes,
            }
        })
        .expect("thread");
    t.join().expect("run")
}
