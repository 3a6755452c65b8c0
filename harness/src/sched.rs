//! Deterministic cooperative scheduler: one OS thread, tasks interleaved at
//! backend calls and callbacks according to a seeded policy.
use std::{
    future::Future,
    pin::Pin,
    sync::Arc,
    task::{Context, Poll, Wake, Waker},
};

use crate::{
    mondb::{World, CUR},
    rng::{mix, R},
};

struct Nop;
impl Wake for Nop {
    fn wake(self: Arc<Self>) {}
}
pub fn waker() -> Waker {
    Arc::new(Nop).into()
}

/// Runs one future to completion (`None` if it crashed on an injected fault or
/// never completed within `MAX_POLLS`).
pub enum Run<T> {
    Done(T),
    Crashed,
    Stuck,
}
const MAX_POLLS: u64 = 20_000_000;

pub fn run1<T>(w: &World, task: u32, f: impl Future<Output = T>) -> Run<T> {
    let mut f = Box::pin(f);
    let wk = waker();
    let mut cx = Context::from_waker(&wk);
    CUR.with(|c| c.set(task));
    for _ in 0..MAX_POLLS {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(x) => return Run::Done(x),
            Poll::Pending => {
                if w.take_crashed(task) {
                    return Run::Crashed;
                }
            }
        }
    }
    Run::Stuck
}

#[derive(Clone, Debug)]
pub enum Policy {
    Uniform,
    /// Priority based with change points (PCT).
    Pct(usize),
    /// One task only runs when nothing else can.
    Starve(usize),
    /// Random bursts.
    Burst(usize),
    RoundRobin,
}
impl Policy {
    pub fn random(r: &mut R, n: usize) -> Self {
        match r.below(8) {
            0..=2 => Policy::Uniform,
            3 | 4 => Policy::Pct(r.range(1, 6)),
            5 => Policy::Starve(r.below(n)),
            6 => Policy::Burst(r.range(2, 9)),
            _ => Policy::RoundRobin,
        }
    }
}

pub type Task<'a> = Pin<Box<dyn Future<Output = ()> + 'a>>;

pub struct Outcome {
    pub steps: u64,
    pub trace: u64,
    pub switches: u64,
    pub stuck: bool,
    pub crashed: Vec<u32>,
}

pub fn run_all(w: &World, r: &mut R, policy: Policy, tasks: Vec<Task<'_>>, max_steps: u64) -> Outcome {
    let n = tasks.len();
    let mut tasks: Vec<Option<Task<'_>>> = tasks.into_iter().map(Some).collect();
    let wk = waker();
    let mut cx = Context::from_waker(&wk);
    let mut prio: Vec<u64> = (0..n).map(|_| r.u64() >> 1).collect();
    let mut changes: Vec<u64> = match policy {
        Policy::Pct(d) => (0..d).map(|_| r.below(60 * n.max(1)) as u64).collect(),
        _ => vec![],
    };
    changes.sort_unstable();
    let mut o = Outcome {
        steps: 0,
        trace: 0,
        switches: 0,
        stuck: false,
        crashed: vec![],
    };
    let (mut last, mut burst) = (usize::MAX, 0usize);
    loop {
        let live: Vec<usize> = (0..n).filter(|i| tasks[*i].is_some()).collect();
        if live.is_empty() {
            return o;
        }
        if o.steps >= max_steps {
            o.stuck = true;
            return o;
        }
        let i = match &policy {
            Policy::Uniform => *r.pick(&live),
            Policy::Pct(_) => {
                let best = *live.iter().max_by_key(|i| prio[**i]).unwrap_or(&live[0]);
                if changes.first().is_some_and(|c| *c <= o.steps) {
                    changes.remove(0);
                    prio[best] = r.u64() >> 33;
                }
                *live.iter().max_by_key(|i| prio[**i]).unwrap_or(&live[0])
            }
            Policy::Starve(v) => {
                let others: Vec<usize> = live.iter().copied().filter(|i| i != v).collect();
                if others.is_empty() {
                    live[0]
                } else if r.chance(1, 12) {
                    *r.pick(&live)
                } else {
                    *r.pick(&others)
                }
            }
            Policy::Burst(k) => {
                if burst > 0 && live.contains(&last) {
                    burst -= 1;
                    last
                } else {
                    burst = r.below(*k);
                    *r.pick(&live)
                }
            }
            Policy::RoundRobin => *live.iter().find(|i| **i > last).unwrap_or(&live[0]),
        };
        if i != last {
            o.switches += 1;
        }
        last = i;
        o.trace = mix(o.trace ^ (i as u64 + 1));
        o.steps += 1;
        CUR.with(|c| c.set(i as u32));
        let done = match tasks[i].as_mut() {
            Some(t) => t.as_mut().poll(&mut cx).is_ready(),
            None => true,
        };
        if done {
            tasks[i] = None;
        } else if w.take_crashed(i as u32) {
            o.crashed.push(i as u32);
            tasks[i] = None;
        }
    }
}

/// Runs a future that waits for nothing else.
pub fn now<T, E: std::fmt::Debug>(f: impl Future<Output = Result<T, E>>) -> Result<T, String> {
    let mut f = Box::pin(f);
    let w = waker();
    let mut c = Context::from_waker(&w);
    for _ in 0..1_000_000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut c) {
            return x.map_err(|e| format!("{e:?}"));
        }
    }
    Err("never completes".into())
}
