//! Makes a failing run smaller: first the plan, then the schedule.
use crate::plan::*;
use crate::{exec, Outcome, Pick};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// The plans that differ from `p` by one simplification.
fn candidates(p: &Plan, kind: &str) -> Vec<Plan> {
    let mut out = vec![];
    let mut put = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        if q != *p {
            out.push(q);
        }
    };
    for t in 0..p.tasks.len() {
        if p.tasks.len() > 1 {
            put(&|q| {
                q.tasks.remove(t);
            });
        }
    }
    for t in 0..p.tasks.len() {
        let n = p.tasks[t].ops.len();
        if n > 3 {
            put(&|q| q.tasks[t].ops.truncate(n / 2));
        }
        for k in (0..n).rev() {
            if n > 1 {
                put(&|q| {
                    q.tasks[t].ops.remove(k);
                });
            }
        }
    }
    // an outage goes away together with its end
    for i in 0..p.faults.len() {
        let pair = match p.faults[i].1 {
            Fault::Down(s, _) => (i + 1..p.faults.len()).find(|j| p.faults[*j].1 == Fault::Up(s)),
            Fault::Up(_) => continue,
            _ => None,
        };
        put(&|q| {
            if let Some(j) = pair {
                q.faults.remove(j);
            }
            q.faults.remove(i);
        });
    }
    put(&|q| q.cfg.spurious = 0);
    put(&|q| q.cfg.park = 0);
    put(&|q| q.cfg.net.frag = 0);
    put(&|q| q.cfg.net.jitter = 0);
    put(&|q| q.cfg.net.short_reads = false);
    put(&|q| q.cfg.net.lossy_close = false);
    put(&|q| q.cfg.net.window = 1 << 20);
    put(&|q| q.cfg.compression = false);
    put(&|q| q.cfg.settings.clear());
    put(&|q| q.cfg.workers = (q.cfg.workers - 1).max(1));
    for s in 0..p.servers.len() {
        for k in 0..p.servers[s].hello.len() {
            put(&|q| {
                q.servers[s].hello.remove(k);
            });
        }
        for k in 0..p.servers[s].pong.len() {
            put(&|q| {
                q.servers[s].pong.remove(k);
            });
        }
        put(&|q| q.servers[s].delay = 0);
    }
    for t in 0..p.tasks.len() {
        for k in 0..p.tasks[t].ops.len() {
            // (somebody who never gives up may wait forever with good reason)
            if kind != "hang" {
                put(&|q| q.tasks[t].ops[k].cancel = Cancel::No);
            }
        }
    }
    let used: Vec<usize> = p
        .tasks
        .iter()
        .flat_map(|t| t.ops.iter())
        .filter_map(|o| match &o.kind {
            OpKind::Query { script, .. } | OpKind::Exec(script) => Some(*script),
            _ => None,
        })
        .collect();
    for s in 0..p.scripts.len() {
        let sc = &p.scripts[s];
        if !used.contains(&s) {
            put(&|q| {
                let x = &mut q.scripts[s];
                x.steps = vec![Step::Eos];
                x.cols.clear();
                x.cut = None;
                x.flip = None;
            });
            continue;
        }
        put(&|q| q.scripts[s].cut = None);
        put(&|q| q.scripts[s].flip = None);
        if sc.cut.is_some() || sc.flip.is_some() {
            continue;
        }
        for k in 0..sc.steps.len() {
            match &sc.steps[k] {
                Step::Progress | Step::Profile | Step::Delay(_) | Step::Empty | Step::Rows(_) => {
                    put(&|q| {
                        q.scripts[s].steps.remove(k);
                    });
                }
                _ => {}
            }
            if let Step::Rows(n) = &sc.steps[k] {
                let n = *n;
                if n > 1 {
                    put(&|q| q.scripts[s].steps[k] = Step::Rows(n / 2));
                }
            }
        }
        for c in 0..sc.cols.len() {
            if sc.cols.len() > 1 {
                put(&|q| {
                    q.scripts[s].cols.remove(c);
                });
            }
        }
    }
    for i in 0..p.inserts.len() {
        let ins = &p.inserts[i];
        put(&|q| q.inserts[i].fail = None);
        for c in 0..ins.cols.len() {
            if ins.cols.len() > 1 {
                put(&|q| {
                    q.inserts[i].cols.remove(c);
                });
            }
        }
        if ins.rows > 1 && ins.fail.is_none() {
            put(&|q| q.inserts[i].rows /= 2);
            put(&|q| q.inserts[i].rows -= 1);
        }
        put(&|q| q.inserts[i].delay = 0);
    }
    out
}

/// The smaller plan, its choices, and its end.
pub fn shrink(plan: Arc<Plan>, choices: Vec<u32>, kind: &str, limit: Duration) -> (Arc<Plan>, Vec<u32>, Outcome) {
    let start = Instant::now();
    let id = plan.property.clone();
    let bad = |o: &Outcome| o.violations.iter().any(|v| v.kind == kind && crate::oracle::relevant(&id, v.kind));
    let mut best = exec(plan.clone(), Pick::Replay(choices.clone()), false);
    let mut plan = plan;
    let mut choices = best.choices.clone();
    if !bad(&best) {
        return (plan, choices, best);
    }
    let over = || start.elapsed() > limit;
    'outer: loop {
        for q in candidates(&plan, kind) {
            if over() {
                break 'outer;
            }
            let q = Arc::new(q);
            let tries = if q.cfg.workers > 1 { 12 } else { 3 };
            for k in 0..tries {
                let pick = if k == 0 { Pick::Replay(choices.clone()) } else { Pick::Seed(q.seed.wrapping_add(k - 1)) };
                let o = exec(q.clone(), pick, false);
                if bad(&o) {
                    choices = o.choices.clone();
                    best = o;
                    plan = q;
                    continue 'outer;
                }
            }
        }
        break;
    }
    // benign choices wherever they do
    let mut size = (choices.len() / 2).max(1);
    let limit2 = limit + Duration::from_secs(6);
    loop {
        let mut i = 0;
        while i < choices.len() && start.elapsed() < limit2 {
            let j = (i + size).min(choices.len());
            if choices[i..j].iter().any(|c| *c != 0) {
                let mut c = choices.clone();
                c[i..j].iter_mut().for_each(|x| *x = 0);
                let o = exec(plan.clone(), Pick::Replay(c), false);
                let weight = |c: &[u32]| c.iter().filter(|x| **x != 0).count();
                if bad(&o) && weight(&o.choices) < weight(&choices) {
                    choices = o.choices.clone();
                    best = o;
                }
            }
            i = j;
        }
        if size == 1 || start.elapsed() > limit2 {
            break;
        }
        size /= 2;
    }
    while choices.last() == Some(&0) {
        choices.pop();
    }
    (plan, choices, best)
}
