//! Histories of the real queue over the real containers: every history over a small domain, up to
//! equal observations, then random longer ones. Only the queue's own operations are used.
use super::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

type PQ = StatePQueue<u64, u32>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Op {
    Push(u64, u32),
    Pop,
    Truncate(usize),
}

/// What is known about a queue: its contents, its best list, and every state it has accepted.
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
struct Obs {
    q: BTreeMap<u64, u32>,
    best: Option<Vec<u64>>,
    accepted: BTreeMap<u64, u32>,
}

fn payload(h: u64) -> u64 {
    h * 7 + 3
}

fn contents(pq: &PQ) -> Result<BTreeMap<u64, u32>, String> {
    let mut c = pq.clone();
    let mut m = BTreeMap::new();
    let mut last = 0;
    for _ in 0..pq.len() {
        let e = c.pop().ok_or("pop gives nothing although the queue is not empty")?;
        if e.state != payload(e.hash) {
            return Err(format!("state {} came with hash {}", e.state, e.hash));
        }
        if e.cost < last {
            return Err(format!("states are removed out of order: cost {} after {last}", e.cost));
        }
        last = e.cost;
        if m.insert(e.hash, e.cost).is_some() {
            return Err(format!("state {} is held twice", e.hash));
        }
    }
    if c.pop().is_some() || !c.is_empty() {
        return Err("the queue holds more than its length".into());
    }
    Ok(m)
}
fn best(pq: &PQ) -> Result<Option<Vec<u64>>, String> {
    Ok(pq.clone().into_all_time_best().map(|v| v.into_iter().map(|s| (s - 3) / 7).collect()))
}

/// The postcondition of one operation, between what was observed before and after it.
fn step(pq: &mut PQ, max: usize, n: Option<usize>, o: &Obs, op: Op) -> Result<Obs, String> {
    let worst = o.q.values().max().copied();
    let least = o.q.values().min().copied();
    let mut acc = o.accepted.clone();
    let seen = pq.num_seen_hashes();
    let mut want_len = o.q.len();
    let mut gone: Option<u64> = None;
    let mut fresh = None;
    let mut cap = usize::MAX;
    match op {
        Op::Push(h, c) => {
            let fits = max > 0 && (o.q.len() < max || Some(c) < worst);
            if pq.check_accepted(&c) != fits {
                return Err(format!("check_accepted({c}) is {}", !fits));
            }
            let ok = fits && !o.accepted.contains_key(&h);
            let r = pq.push_unchecked(payload(h), h, c).map(|e| (*e.state, *e.cost, e.hash));
            if r != ok.then_some((payload(h), c, h)) {
                return Err(format!("state {h} of cost {c}: push gave {r:?}"));
            }
            if pq.num_seen_hashes() != seen + ok as usize {
                return Err("a state is counted as seen without having been accepted, or not counted".into());
            }
            if ok {
                acc.insert(h, c);
                fresh = Some((h, c));
                if o.q.len() < max {
                    want_len += 1;
                }
            }
        }
        Op::Pop => match pq.pop() {
            None if o.q.is_empty() => {}
            None => return Err("pop gives nothing although the queue is not empty".into()),
            Some(e) => {
                if Some(e.cost) != least {
                    return Err(format!("pop gives a state of cost {}, the cheapest costs {least:?}", e.cost));
                }
                if o.q.get(&e.hash) != Some(&e.cost) || e.state != payload(e.hash) {
                    return Err(format!("pop gives state {} with hash {} and cost {}", e.state, e.hash, e.cost));
                }
                gone = Some(e.hash);
                want_len -= 1;
            }
        },
        Op::Truncate(m) => {
            pq.truncate(m);
            cap = m;
            want_len = want_len.min(m);
        }
    }
    let q = contents(pq)?;
    if q.len() != want_len || pq.len() != want_len || q.len() > max || pq.is_full() != (q.len() >= max) {
        return Err(format!("the queue holds {} states instead of {want_len}", q.len()));
    }
    for (h, c) in &q {
        if o.q.get(h) != Some(c) && fresh != Some((*h, *c)) {
            return Err(format!("the queue holds state {h} with cost {c}, which was not inserted"));
        }
    }
    let kept = q.values().max().copied();
    for (h, c) in &o.q {
        if !q.contains_key(h) && gone != Some(*h) {
            let fine = match op {
                Op::Push(..) => Some(*c) == worst,
                Op::Truncate(_) => kept.map_or(true, |k| k <= *c) && cap < o.q.len(),
                Op::Pop => false,
            };
            if !fine {
                return Err(format!("state {h} of cost {c} is dropped"));
            }
        }
    }
    if let Some((h, _)) = fresh {
        if !q.contains_key(&h) {
            return Err(format!("the accepted state {h} is not held"));
        }
    }
    if pq.max_cost().copied() != kept || pq.peek().map(|e| *e.cost) != q.values().min().copied() {
        return Err("peek or max_cost is not the least or the greatest cost".into());
    }
    let b = best(pq)?;
    match (&b, n) {
        (None, None) => {}
        (Some(v), Some(n)) => {
            let mut cs: Vec<u32> = acc.values().copied().collect();
            cs.sort();
            cs.truncate(n);
            let set: BTreeSet<_> = v.iter().collect();
            let got: Vec<u32> = v.iter().filter_map(|h| acc.get(h).copied()).collect();
            if set.len() != v.len() || got != cs {
                return Err(format!("the best list {v:?} has costs {got:?}, the {n} best ever accepted cost {cs:?}"));
            }
        }
        _ => return Err("the best list appears or disappears".into()),
    }
    Ok(Obs { q, best: b, accepted: acc })
}

fn run(max: usize, n: Option<usize>, ops: &[Op]) -> Result<Obs, String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut pq = PQ::new(max, n);
        let mut o = Obs { best: n.map(|_| vec![]), ..Default::default() };
        for op in ops {
            o = step(&mut pq, max, n, &o, *op)?;
        }
        Ok(o)
    }));
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}

fn report(max: usize, n: Option<usize>, ops: &[Op], e: &str) {
    println!("{{\"failed\":true,\"limit\":{max},\"best\":\"{n:?}\",\"history\":\"{ops:?}\",\"message\":\"{}\"}}", e.replace('\\', "").replace('"', "'").replace('\n', " "));
}

pub fn explore(seed: u64, budget: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    for max in 0..=3usize {
        for n in [None, Some(0), Some(1), Some(2), Some(3)] {
            let hashes = 4u64;
            let mut alphabet: Vec<Op> = (0..hashes).flat_map(|h| (0..3).map(move |c| Op::Push(h, c))).collect();
            alphabet.push(Op::Pop);
            alphabet.extend((0..max).map(Op::Truncate));
            let mut seen = BTreeSet::new();
            let mut todo: VecDeque<Vec<Op>> = VecDeque::from([vec![]]);
            let (mut steps, mut complete, mut deepest) = (0, true, 0);
            'all: while let Some(h) = todo.pop_front() {
                for op in &alphabet {
                    let mut h2 = h.clone();
                    h2.push(*op);
                    steps += 1;
                    match run(max, n, &h2) {
                        Err(e) => {
                            report(max, n, &h2, &e);
                            break 'all;
                        }
                        Ok(o) => {
                            if seen.insert(o) {
                                deepest = deepest.max(h2.len());
                                todo.push_back(h2);
                            }
                        }
                    }
                    if steps >= budget {
                        complete = false;
                        break 'all;
                    }
                }
            }
            println!("{{\"failed\":false,\"limit\":{max},\"best\":\"{n:?}\",\"steps\":{steps},\"states\":{},\"complete\":{complete},\"deepest\":{deepest}}}", seen.len());
        }
    }
    // long random histories, larger limits
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut next = move |k: u64| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x.wrapping_mul(0x2545F4914F6CDD1D) >> 33) % k
    };
    let (mut steps, mut hist) = (0, 0);
    for _ in 0..budget / 200 {
        let max = next(24) as usize;
        let n = match next(4) {
            0 => None,
            _ => Some(next(20) as usize),
        };
        let (hs, cs) = (1 + next(60), 1 + next(30));
        let len = 1 + next(60);
        let ops: Vec<Op> = (0..len)
            .map(|_| match next(10) {
                0..=6 => Op::Push(next(hs), next(cs) as u32),
                7 | 8 => Op::Pop,
                _ => Op::Truncate(next(max as u64 + 2) as usize),
            })
            .collect();
        hist += 1;
        steps += ops.len();
        if run(max, n, &ops).is_err() {
            // the shortest failing prefix, without the operations that do not matter
            let k = (1..=ops.len()).find(|k| run(max, n, &ops[..*k]).is_err()).unwrap();
            let mut h = ops[..k].to_vec();
            let mut i = 0;
            while i < h.len() {
                let mut h2 = h.clone();
                h2.remove(i);
                if run(max, n, &h2).is_err() {
                    h = h2;
                } else {
                    i += 1;
                }
            }
            let e = run(max, n, &h).unwrap_err();
            report(max, n, &h, &e);
            break;
        }
    }
    println!("{{\"failed\":false,\"random\":{hist},\"steps\":{steps}}}");
}
