//! Several tasks at once: C32.

use crate::p_wire::short;
use crate::{gen::*, Phase};
use haproxy_spop::Reassembly;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Condvar, Mutex};

type Res = Result<(), String>;
type Key = (u64, u64);
type Tab = BTreeMap<Key, Vec<u64>>;

#[derive(Clone, Debug)]
struct Call {
    fragmented: bool,
    key: Key,
    value: Vec<u64>,
    wait: u32,
}
type Outs = Vec<Vec<Option<Vec<u64>>>>;

/// One call, alone.
fn step(t: &mut Tab, c: &Call) -> Option<Vec<u64>> {
    let mut v = t.remove(&c.key).unwrap_or_default();
    v.extend(&c.value);
    if c.fragmented {
        t.insert(c.key, v);
        None
    } else {
        Some(v)
    }
}

/// Whether some order of the calls gives these results and this table.
fn explained(plan: &[Vec<Call>], outs: &Outs, end: &Tab) -> bool {
    fn go(plan: &[Vec<Call>], outs: &Outs, end: &Tab, at: &mut Vec<usize>, t: &Tab, seen: &mut HashSet<(Vec<usize>, Tab)>) -> bool {
        if at.iter().zip(plan).all(|(a, p)| *a == p.len()) {
            return t == end;
        }
        if !seen.insert((at.clone(), t.clone())) {
            return false;
        }
        for i in 0..plan.len() {
            if at[i] < plan[i].len() {
                let mut u = t.clone();
                let r = step(&mut u, &plan[i][at[i]]);
                if r == outs[i][at[i]] {
                    at[i] += 1;
                    if go(plan, outs, end, at, &u, seen) {
                        return true;
                    }
                    at[i] -= 1;
                }
            }
        }
        false
    }
    go(plan, outs, end, &mut vec![0; plan.len()], &Tab::new(), &mut HashSet::new())
}

/// At most so many of these at a time: they need their processors.
static SLOTS: (Mutex<usize>, Condvar) = (Mutex::new(2), Condvar::new());
struct Slot;
fn slot() -> Slot {
    let mut n = SLOTS.0.lock().unwrap();
    while *n == 0 {
        n = SLOTS.1.wait(n).unwrap();
    }
    *n -= 1;
    Slot
}
impl Drop for Slot {
    fn drop(&mut self) {
        *SLOTS.0.lock().unwrap() += 1;
        SLOTS.1.notify_one();
    }
}

fn shared(g: &mut G, rounds: usize) -> Res {
    let (a, b) = (g.id(), g.id());
    let mut keys = vec![(a, b)];
    if g.chance(3) {
        keys.push((b, a.wrapping_add(1)));
    }
    let tasks = 2 + g.usize(2);
    let plans: Vec<Vec<Vec<Call>>> = (0..rounds)
        .map(|_| {
            let mut n = 0;
            (0..tasks)
                .map(|_| {
                    (0..1 + g.usize(3))
                        .map(|_| {
                            let len = g.pick(&[1, 1, 1, 2, 0]);
                            let value = (0..len).map(|i| n + i).collect();
                            n += len;
                            Call {
                                fragmented: !g.chance(3),
                                key: keys[g.usize(keys.len())],
                                value,
                                wait: g.pick(&[0, 0, 1, 5, 20, 60]),
                            }
                        })
                        .collect()
                })
                .collect()
        })
        .collect();
    g.note(&[tasks as u8, keys.len() as u8]);
    g.note(&a.to_le_bytes());
    g.describe(|| format!("{rounds} times {tasks} tasks, such as {}", short(&format!("{:?}", plans[0]))));
    let _slot = slot();
    let tables: Vec<Arc<Reassembly<u64>>> = (0..rounds).map(|_| Arc::default()).collect();
    let start: Vec<AtomicUsize> = (0..rounds).map(|_| AtomicUsize::new(0)).collect();
    let ready = Barrier::new(tasks);
    let outs: Vec<Vec<Vec<Option<Vec<u64>>>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..tasks)
            .map(|i| {
                let (plans, tables, start, ready) = (&plans, &tables, &start, &ready);
                s.spawn(move || {
                    ready.wait();
                    let mut all = vec![];
                    for r in 0..rounds {
                        let t = &tables[r];
                        let mut mine = Vec::with_capacity(plans[r][i].len());
                        start[r].fetch_add(1, Ordering::SeqCst);
                        let mut spins = 0u32;
                        while start[r].load(Ordering::SeqCst) < tasks {
                            spins += 1;
                            if spins % 2000 == 0 {
                                std::thread::yield_now();
                            }
                            std::hint::spin_loop();
                        }
                        for c in &plans[r][i] {
                            for _ in 0..c.wait {
                                std::hint::spin_loop();
                            }
                            mine.push(t.reassemble(c.fragmented, c.key.0, c.key.1, c.value.clone()));
                        }
                        all.push(mine);
                    }
                    all
                })
            })
            .collect();
        let each: Vec<_> = hs.into_iter().map(|h| h.join().map_err(|_| "a call panics".to_string())).collect::<Result<Vec<_>, _>>()?;
        (0..rounds)
            .map(|r| {
                each.iter()
                    .map(|e| e[r].iter().map(|o| o.clone().map_err(|e| format!("a call gives {e:?}"))).collect::<Result<Vec<_>, _>>())
                    .collect::<Result<Vec<_>, _>>()
            })
            .collect::<Result<Vec<_>, String>>()
    })?;
    for (r, t) in tables.iter().enumerate() {
        // a last, empty fragment tells what is there
        let mut end = Tab::new();
        for k in &keys {
            match t.reassemble(false, k.0, k.1, vec![]) {
                Ok(Some(v)) if !v.is_empty() => {
                    end.insert(*k, v);
                }
                Ok(Some(_)) => {}
                o => return Err(format!("the last fragment gives {o:?}")),
            }
        }
        let plan: Vec<Vec<Call>> = plans[r].clone();
        let ok = explained(&plan, &outs[r], &end) || {
            // an entry without contents cannot be told from none
            (0..1u32 << keys.len()).any(|m| {
                let mut e = end.clone();
                for (i, k) in keys.iter().enumerate() {
                    if m >> i & 1 == 1 {
                        e.entry(*k).or_default();
                    }
                }
                explained(&plan, &outs[r], &e)
            })
        };
        if !ok {
            let show: Vec<String> = plan
                .iter()
                .zip(&outs[r])
                .map(|(p, o)| {
                    p.iter()
                        .zip(o)
                        .map(|(c, o)| format!("{}{:?}{:?} -> {o:?}", if c.fragmented { "+" } else { "!" }, c.key, c.value))
                        .collect::<Vec<_>>()
                        .join(", ")
                })
                .collect();
            return Err(format!("no order of the calls explains {{{}}}, which leaves {end:?}", show.join("} and {")));
        }
    }
    Ok(())
}

pub fn c32(_: bool) -> Vec<Phase> {
    vec![Phase::rand("tasks that share a table", |g, _| shared(g, 400))]
}
