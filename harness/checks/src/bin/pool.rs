//! C22: histories of a shared pool.
use kit::guard::guarded;
use kit::{hash64, now_ns, Ctx, Obs, Rng, Verdict};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;
use sut::peer::piece_pool::PiecePool;

#[global_allocator]
static ALLOC: kit::guard::Budgeted = kit::guard::Budgeted;

#[derive(Clone, Debug)]
struct Op {
    thread: usize,
    from: u64,
    to: u64,
    what: What,
}

#[derive(Clone, Debug, PartialEq)]
enum What {
    Took(Option<usize>),
    Put(usize),
}

/// One thread: what a queue does, step by step.
fn alone(ctx: &mut Ctx) -> Verdict {
    let r = &mut ctx.rng;
    let n = *r.pick(&[0, 1, 2, 3, 10, 1000, 70_000]);
    let pools = match guarded(64 << 20, || {
        let p = PiecePool::new(n);
        [p.clone(), p.clone(), p]
    }) {
        Ok(p) => p,
        Err(p) => return Verdict::Violation(format!("a pool of {n} crashes: {p}")),
    };
    let mut model: std::collections::VecDeque<usize> = (0..n).collect();
    let steps = if n > 1000 { n + 50 } else { r.range(10, 3000) };
    let bias = r.range(1, 4);
    for i in 0..steps {
        let p = r.pick(&pools);
        if r.below(5) < bias && (n <= 1000 || i % 7 == 0) {
            let v = if r.one_in(10) { r.u64() as usize } else { r.below(n + 3) };
            p.insert(v);
            model.push_back(v);
        } else {
            let (got, want) = (p.pop(), model.pop_front());
            if got != want {
                return Verdict::Violation(format!("step {i} with a pool of {n}: {got:?} is taken, should be {want:?}"));
            }
        }
    }
    Verdict::Ok(Obs::new(hash64(format!("{n} {steps} {bias} {}", ctx.idx).as_bytes()), true, format!("pool of {n}, {steps} steps")).count("operations", steps))
}

/// Many threads take and put back. The order of operations is only known as far as they did not overlap.
fn together(ctx: &mut Ctx) -> Verdict {
    let n = *ctx.rng.pick(&[1, 2, 3, 8, 50, 1000]);
    let threads = ctx.rng.range(2, 8);
    let steps = if ctx.thorough { 3000 } else { 800 };
    let pool = PiecePool::new(n);
    let barrier = Barrier::new(threads);
    let next = AtomicUsize::new(n);
    let mut rngs: Vec<Rng> = (0..threads).map(|_| ctx.rng.fork()).collect();
    let fresh = ctx.rng.one_in(2);
    let r: Result<Vec<Vec<Op>>, String> = std::thread::scope(|s| {
        let hands: Vec<_> = rngs
            .iter_mut()
            .enumerate()
            .map(|(thread, r)| {
                let (p, barrier, next) = (pool.clone(), &barrier, &next);
                s.spawn(move || {
                    let (mut ops, mut held) = (Vec::with_capacity(steps), vec![]);
                    barrier.wait();
                    for _ in 0..steps {
                        let put = !held.is_empty() && r.one_in(2);
                        if r.one_in(40) {
                            std::thread::yield_now();
                        }
                        let v = if put {
                            let v: usize = held.swap_remove(r.below(held.len()));
                            // Every put is another value, where values need not come back.
                            if fresh { next.fetch_add(1, Ordering::Relaxed) } else { v }
                        } else {
                            0
                        };
                        let from = now_ns();
                        let what = if put {
                            p.insert(v);
                            What::Put(v)
                        } else {
                            let v = p.pop();
                            held.extend(v);
                            What::Took(v)
                        };
                        ops.push(Op { thread, from, to: now_ns(), what });
                    }
                    ops
                })
            })
            .collect();
        hands.into_iter().map(|h| h.join().map_err(|_| kit::guard::last_panic())).collect()
    });
    let mut all: Vec<Op> = match r {
        Ok(v) => v.concat(),
        Err(p) => return Verdict::Violation(format!("a pool of {n} among {threads} threads: panic {p}")),
    };
    // What is left.
    let end = now_ns();
    let mut rest = vec![];
    while let Some(v) = pool.pop() {
        rest.push(v);
        if rest.len() > n + all.len() {
            return Verdict::Violation(format!("a pool of {n} gives more than was put in: {:?}", &rest[..20]));
        }
    }
    all.extend(rest.iter().enumerate().map(|(i, v)| Op { thread: threads, from: end + i as u64, to: end + i as u64, what: What::Took(Some(*v)) }));
    all.sort_by_key(|o| o.from);
    match judge(n, &all, fresh) {
        Err(e) => Verdict::Violation(format!("a pool of {n} among {threads} threads: {e}")),
        Ok(overlaps) => Verdict::Ok(
            Obs::new(hash64(format!("{:?}", all.iter().take(60).map(|o| (o.thread, &o.what)).collect::<Vec<_>>()).as_bytes()), overlaps > 0, format!("pool of {n}, {threads} threads, {} operations", all.len()))
                .count("operations", all.len())
                .count("operations that overlapped another thread's", overlaps),
        ),
    }
}

/// Whether some order of the operations that agrees with their times is that of a queue, by what it takes for that.
fn judge(n: usize, all: &[Op], fresh: bool) -> Result<usize, String> {
    // Each value: as often taken as put, and each time after it was put.
    let mut puts: std::collections::HashMap<usize, Vec<(u64, u64)>> = (0..n).map(|i| (i, vec![(0, 0)])).collect();
    let mut takes: std::collections::HashMap<usize, Vec<(u64, u64)>> = Default::default();
    for o in all {
        match o.what {
            What::Put(v) => puts.entry(v).or_default().push((o.from, o.to)),
            What::Took(Some(v)) => takes.entry(v).or_default().push((o.from, o.to)),
            _ => (),
        }
    }
    for (v, t) in &takes {
        let p = puts.get(v).map(|p| p.len()).unwrap_or(0);
        if t.len() != p {
            return Err(format!("{v} was put in {p} times, and taken {} times", t.len()));
        }
    }
    if let Some((v, _)) = puts.iter().find(|(v, _)| !takes.contains_key(v)) {
        return Err(format!("{v} was put in and never came out"));
    }
    for (v, t) in &takes {
        let mut ends: Vec<u64> = t.iter().map(|t| t.1).collect();
        let mut starts: Vec<u64> = puts[v].iter().map(|p| p.0).collect();
        ends.sort();
        starts.sort();
        if let Some(i) = (0..ends.len()).find(|i| ends[*i] < starts[*i]) {
            return Err(format!("{v} was taken for the {}th time before it was put in as often", i + 1));
        }
    }
    // Emptiness: when nothing was found, there must have been a time at which all that was certainly in was out.
    let mut empties = 0;
    for o in all.iter().filter(|o| o.what == What::Took(None)) {
        empties += 1;
        let put_before: usize = puts.values().flatten().filter(|p| p.1 < o.from).count();
        let taken_by_then: usize = takes.values().flatten().filter(|t| t.0 <= o.to).count();
        if put_before > taken_by_then {
            return Err(format!("nothing was found, though {put_before} had been put in and at most {taken_by_then} taken"));
        }
        if empties > 300 {
            break;
        }
    }
    // Order: of two values each put once, the one put clearly earlier is not taken clearly later.
    if fresh {
        let mut by_put: Vec<(u64, u64, u64, u64, usize)> =
            puts.iter().map(|(v, p)| (p[0].0, p[0].1, takes[v][0].0, takes[v][0].1, *v)).collect();
        by_put.sort();
        // The latest start of a take among those whose put had ended.
        let mut ended: Vec<(u64, u64, usize)> = by_put.iter().map(|p| (p.1, p.2, p.4)).collect();
        ended.sort();
        let (mut i, mut latest) = (0, (0, 0));
        for p in &by_put {
            while i < ended.len() && ended[i].0 < p.0 {
                latest = latest.max((ended[i].1, ended[i].2));
                i += 1;
            }
            if p.3 < latest.0 {
                return Err(format!("{} was put in after {}, and taken before it", p.4, latest.1));
            }
        }
        // What was in from the start comes in order.
        for v in 1..n {
            if takes[&v][0].1 < takes[&(v - 1)][0].0 {
                return Err(format!("{v} was taken before {}", v - 1));
            }
        }
    }
    let mut overlaps = 0;
    let mut until = (0, usize::MAX);
    for o in all {
        if o.from < until.0 && o.thread != until.1 {
            overlaps += 1;
        }
        until = until.max((o.to, o.thread));
    }
    Ok(overlaps)
}

fn main() {
    kit::runner::worker(&[("alone", alone), ("together", together)]);
}
