//! The contracts. An arbitrary state satisfying the invariant, one operation, the postcondition.
use super::*;
use crate::Src;

const Q: usize = if cfg!(feature = "large") { 3 } else { 2 }; // entries of the queue
use priority_queue::N;
const B: usize = 2; // all-time best entries
const VALS: u8 = if cfg!(feature = "large") { 15 } else { 7 };
type PQ = StatePQueue<u64, C>;
/// Costs: the queue compares and clones them only, so an order with as many values as the
/// contracts mention stands for every order.
type C = u8;

fn payload(h: u64) -> u64 {
    h ^ 16
}
/// Hashes are only compared for equality: 8 (16) values stand for every assignment.
fn hash(s: &mut impl Src) -> u64 {
    let [x] = s.bytes::<1>();
    (x & VALS) as u64
}
fn cost(s: &mut impl Src) -> C {
    let [x] = s.bytes::<1>();
    x & VALS
}
/// A number up to `n`.
fn upto(s: &mut impl Src, n: usize) -> usize {
    let [x] = s.bytes::<1>();
    s.assume(x as usize <= n);
    x as usize
}
fn bool_(s: &mut impl Src) -> bool {
    s.bytes::<1>()[0] & 1 == 1
}

/// What an observer knows: the contents of the queue and of the best list, and one state ever accepted.
#[derive(Clone, Copy)]
struct Ghost {
    q: [Option<(u64, C)>; Q],
    b: [Option<(u64, C)>; B],
    track: bool,
    /// how many states the best list keeps
    n: usize,
    /// some state accepted earlier that is in neither
    old: Option<(u64, C)>,
}

/// Any state of the queue that satisfies the invariant.
fn any(s: &mut impl Src) -> (PQ, Ghost) {
    let max_size = upto(s, Q);
    let track = bool_(s);
    let n = upto(s, B);
    let mut g = Ghost { q: [None; Q], b: [None; B], track, n, old: None };
    let mut pq: PQ = StatePQueue::new(max_size, if track { Some(n) } else { None });
    let (mut i, mut slot) = (0, 0);
    let mut len = 0;
    while i < Q {
        if bool_(s) {
            let (h, c) = (hash(s), cost(s));
            let mut j = 0;
            while j < i {
                if let Some((h2, _)) = g.q[j] {
                    s.assume(h != h2);
                }
                j += 1;
            }
            g.q[i] = Some((h, c));
            pq.queue.verif_put(i, h, c);
            pq.hash_lookup.verif_put(slot, h, payload(h));
            pq.seen_hashes.verif_put(slot, h);
            len += 1;
        }
        slot += 1;
        i += 1;
    }
    s.assume(len <= max_size);
    if track {
        let mut bl = 0;
        i = 0;
        while i < B {
            if bool_(s) {
                let (h, c) = (hash(s), cost(s));
                let mut j = 0;
                while j < i {
                    if let Some((h2, _)) = g.b[j] {
                        s.assume(h != h2);
                    }
                    j += 1;
                }
                let mut held = false;
                j = 0;
                while j < Q {
                    if let Some((h2, c2)) = g.q[j] {
                        if h2 == h {
                            s.assume(c == c2);
                            held = true;
                        }
                    }
                    j += 1;
                }
                g.b[i] = Some((h, c));
                pq.all_time_best.as_mut().unwrap().verif_put(i, h, c);
                if !held {
                    pq.hash_lookup.verif_put(slot, h, payload(h));
                    pq.seen_hashes.verif_put(slot, h);
                }
                bl += 1;
            }
            slot += 1;
            i += 1;
        }
        s.assume(bl <= n);
    }
    if bool_(s) {
        let (h, c) = (hash(s), cost(s));
        s.assume(!in_(&g.q, h) && !in_(&g.b, h));
        g.old = Some((h, c));
        pq.seen_hashes.verif_put(slot, h);
    }
    // every state ever accepted is in the best list, or the list is full of states no worse
    if track {
        i = 0;
        while i < Q {
            if let Some((h, c)) = g.q[i] {
                s.assume(in_(&g.b, h) || beaten(&g.b, g.n, c));
            }
            i += 1;
        }
        if let Some((_, c)) = g.old {
            s.assume(beaten(&g.b, g.n, c));
        }
    }
    (pq, g)
}

fn in_<const N: usize>(l: &[Option<(u64, C)>; N], h: u64) -> bool {
    let mut i = 0;
    while i < N {
        if let Some((h2, _)) = l[i] {
            if h2 == h {
                return true;
            }
        }
        i += 1;
    }
    false
}
fn count<const N: usize>(l: &[Option<(u64, C)>; N]) -> usize {
    let (mut i, mut n) = (0, 0);
    while i < N {
        n += l[i].is_some() as usize;
        i += 1;
    }
    n
}
/// The worst cost of a list.
fn worst<const N: usize>(l: &[Option<(u64, C)>; N]) -> Option<C> {
    let mut w = None;
    let mut i = 0;
    while i < N {
        if let Some((_, c)) = l[i] {
            w = match w {
                Some(x) if x >= c => w,
                _ => Some(c),
            };
        }
        i += 1;
    }
    w
}
fn least<const N: usize>(l: &[Option<(u64, C)>; N]) -> Option<C> {
    let mut w = None;
    let mut i = 0;
    while i < N {
        if let Some((_, c)) = l[i] {
            w = match w {
                Some(x) if x <= c => w,
                _ => Some(c),
            };
        }
        i += 1;
    }
    w
}
/// The list is full and no entry is worse than `c`.
fn beaten(b: &[Option<(u64, C)>; B], n: usize, c: C) -> bool {
    count(b) == n && worst(b).map_or(true, |w| w <= c)
}

fn q_of(pq: &PQ) -> [Option<(u64, C)>; N] {
    core::array::from_fn(|i| pq.queue.verif_at(i).copied())
}
fn b_of(pq: &PQ) -> [Option<(u64, C)>; N] {
    match &pq.all_time_best {
        Some(b) => core::array::from_fn(|i| b.verif_at(i).copied()),
        None => [None; N],
    }
}
fn cost_in<const N: usize>(l: &[Option<(u64, C)>; N], h: u64) -> Option<C> {
    let mut i = 0;
    while i < N {
        if let Some((h2, c)) = l[i] {
            if h2 == h {
                return Some(c);
            }
        }
        i += 1;
    }
    None
}

/// The invariant, and the frame: what is held was held before (or is the new entry), with its cost
/// and its payload; every state ever accepted is remembered; the best list is that of the states
/// ever accepted.
fn check(pq: &PQ, g: &Ghost, new: Option<(u64, C)>, max_size: usize) {
    let (q, b) = (q_of(pq), b_of(pq));
    assert!(count(&q) <= max_size, "the queue holds more than its limit");
    assert!(pq.max_size == max_size, "the limit changes");
    assert!(pq.all_time_best.is_some() == g.track);
    let mut i = 0;
    while i < N {
        if let Some((h, c)) = q[i] {
            assert!(cost_in(&g.q, h) == Some(c) || new == Some((h, c)), "the queue holds an entry that was not inserted");
            assert!(pq.hash_lookup.get(&h) == Some(&payload(h)), "the state of an entry of the queue is lost");
            assert!(pq.seen_hashes.contains(&h), "an entry could be accepted again");
        }
        if let Some((h, c)) = b[i] {
            assert!(cost_in(&g.b, h) == Some(c) || new == Some((h, c)), "the best list holds an entry that was not inserted");
            assert!(pq.hash_lookup.get(&h) == Some(&payload(h)), "the state of an all-time-best entry is lost");
            assert!(pq.seen_hashes.contains(&h), "an entry could be accepted again");
        }
        i += 1;
    }
    // every state ever accepted
    i = 0;
    while i < Q + B + 2 {
        let e = if i < Q {
            g.q[i]
        } else if i < Q + B {
            g.b[i - Q]
        } else if i == Q + B {
            g.old
        } else {
            new
        };
        if let Some((h, c)) = e {
            assert!(pq.seen_hashes.contains(&h), "a state that was accepted could be accepted again");
            if g.track {
                assert!(in_(&b, h) || (count(&b) == g.n && worst(&b).map_or(true, |w| w <= c)), "the best list misses one of the best states ever accepted");
            }
        }
        i += 1;
    }
    if g.track {
        assert!(count(&b) <= g.n, "the best list holds too many states");
    }
}

pub fn push(s: &mut impl Src) {
    let (mut pq, g) = any(s);
    let (h, c) = (hash(s), cost(s));
    let max = pq.max_size;
    let n = count(&g.q);
    let seen = in_(&g.q, h) || in_(&g.b, h) || g.old.map_or(false, |o| o.0 == h);
    let fits = max > 0 && (n < max || c < worst(&g.q).unwrap());
    assert!(pq.check_accepted(&c) == fits, "check_accepted");
    let seen0 = pq.num_seen_hashes();
    let r = pq.push_unchecked(payload(h), h, c).map(|e| (*e.state, *e.cost, e.hash));
    let ok = fits && !seen;
    assert!(r == if ok { Some((payload(h), c, h)) } else { None }, "accepted exactly if new and there is room or it is cheaper than the worst entry");
    assert!(pq.num_seen_hashes() == seen0 + ok as usize, "a state is remembered exactly if it is accepted");
    check(&pq, &g, if ok { Some((h, c)) } else { None }, max);
    // the queue: with the new entry, and without one worst entry if it was full
    let q = q_of(&pq);
    let mut lost = 0;
    let mut i = 0;
    while i < Q {
        if let Some((h2, c2)) = g.q[i] {
            if !in_(&q, h2) {
                lost += 1;
                assert!(Some(c2) == worst(&g.q), "an entry other than the worst is dropped");
            }
        }
        i += 1;
    }
    assert!(lost == (ok && n == max) as usize, "one entry is dropped exactly if the queue was full");
    if ok {
        assert!(cost_in(&q, h) == Some(c), "an accepted entry is held");
    }
}

pub fn pop(s: &mut impl Src) {
    let (mut pq, g) = any(s);
    let max = pq.max_size;
    let r = pq.pop();
    let q = q_of(&pq);
    match r {
        None => assert!(count(&g.q) == 0, "an entry is removed if there is one"),
        Some(e) => {
            assert!(Some(e.cost) == least(&g.q), "the entry removed is a cheapest one");
            assert!(cost_in(&g.q, e.hash) == Some(e.cost), "the entry removed was held, with that cost");
            assert!(e.state == payload(e.hash), "the entry removed comes with its own state");
            assert!(!in_(&q, e.hash) && count(&q) + 1 == count(&g.q), "exactly that entry is removed");
        }
    }
    check(&pq, &g, None, max);
    frame_best(&pq, &g);
}

/// The best list is unchanged.
fn frame_best(pq: &PQ, g: &Ghost) {
    assert!(count(&b_of(pq)) == count(&g.b), "the best list changes");
}

pub fn truncate(s: &mut impl Src) {
    let (mut pq, g) = any(s);
    let max = pq.max_size;
    let m = upto(s, Q + 1);
    pq.truncate(m);
    let q = q_of(&pq);
    assert!(count(&q) == core::cmp::min(m, count(&g.q)), "truncation keeps up to that many entries");
    let mut i = 0;
    while i < Q {
        if let Some((h, c)) = g.q[i] {
            assert!(in_(&q, h) || worst(&q).map_or(true, |w| w <= c), "truncation drops the most expensive entries");
        }
        i += 1;
    }
    check(&pq, &g, None, max);
    frame_best(&pq, &g);
}

pub fn look(s: &mut impl Src) {
    let (pq, g) = any(s);
    match pq.peek() {
        None => assert!(count(&g.q) == 0),
        Some(e) => {
            assert!(Some(*e.cost) == least(&g.q) && cost_in(&g.q, e.hash) == Some(*e.cost) && *e.state == payload(e.hash), "peek gives a cheapest entry");
        }
    }
    assert!(pq.max_cost().copied() == worst(&g.q));
    assert!(pq.is_full() == (count(&g.q) == pq.max_size));
    assert!(pq.len() == count(&g.q) && pq.is_empty() == (count(&g.q) == 0));
    check(&pq, &g, None, pq.max_size);
}

/// The empty queue satisfies the invariant.
pub fn new(s: &mut impl Src) {
    let (m, n) = (upto(s, Q), upto(s, B));
    let track = bool_(s);
    let pq: PQ = StatePQueue::new(m, if track { Some(n) } else { None });
    let g = Ghost { q: [None; Q], b: [None; B], track, n, old: None };
    assert!(pq.num_seen_hashes() == 0 && pq.is_empty());
    check(&pq, &g, None, m);
}

/// The best list comes out in order, each state once.
pub fn best(s: &mut impl Src) {
    let (pq, g) = any(s);
    match pq.into_all_time_best() {
        None => assert!(!g.track),
        Some(v) => {
            assert!(g.track && v.len() == count(&g.b));
            let mut i = 0;
            while i < v.len() {
                let c = cost_in(&g.b, payload(v[i]));
                assert!(c.is_some(), "a state that is not one of the best");
                if i > 0 {
                    assert!(v[i] != v[i - 1] && cost_in(&g.b, payload(v[i - 1])) <= c, "the best states are in order");
                }
                i += 1;
            }
        }
    }
}
