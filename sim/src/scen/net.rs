//! C17: a BLAKE2 tree hashed by a small simulated cluster. A coordinator streams the parts of the
//! input to workers over a network that loses, repeats, delays and reorders messages and partitions;
//! workers keep hashers in volatile memory, checkpoint clones of them to a durable store, crash and
//! come back. The byte count is the acknowledgement offset, parts arriving together go through
//! `update8`, results through `finalize8`, and whether a node is its level's last is learnt late.
//! Oracle: the same tree built in one place (or `blake2sp()`), for every node and the root; and the
//! root must arrive within a bounded number of events after the faults stop.

use super::common::*;
use crate::ctx::{fail, hex, Ctx, R};
use crate::model::Model;
use crate::params::{gen_bytes_exact, PSpec};
use blake2s_simd as b2;
use std::collections::BTreeMap;

struct Task {
    p: PSpec,
    last: bool,
    /// The parameters already say whether it is last, and nothing sets it later.
    early: bool,
    /// Children whose hashes are this node's input; none for a leaf.
    children: Vec<usize>,
    parent: Option<usize>,
    data: Option<Vec<u8>>,
    want: Vec<u8>,
    // Coordinator's view.
    worker: usize,
    assignment: u64,
    epoch: u64,
    acked: u64,
    sent: u64,
    result: Option<Vec<u8>>,
    timer: bool,
}

#[derive(Clone)]
enum Msg {
    Data { task: usize, assignment: u64, at: u64, len: usize },
    LastHint { task: usize, assignment: u64, last: bool },
    Finish { task: usize, assignment: u64, total: u64, last: bool },
    Ack { task: usize, epoch: u64, count: u64 },
    Result { task: usize, digest: Vec<u8> },
}

enum Ev {
    ToWorker(usize, Msg),
    ToCoordinator(Msg),
    Tick(usize, u64),
    Retry(usize),
    Crash(usize),
    Restart(usize),
    Cut(usize),
    Rejoin(usize),
    Checkpoint(usize),
    Heal,
}

struct Held {
    s: b2::State,
    assignment: u64,
}

struct Worker {
    up: bool,
    cut: bool,
    slow: u64,
    incarnation: u64,
    held: BTreeMap<usize, Held>,
    inbox: Vec<Msg>,
    ticking: bool,
    batches: bool,
}

struct Faults {
    on: bool,
    drop: bool,
    dup: bool,
    delay: bool,
}

struct Net {
    now: u64,
    seq: u64,
    queue: BTreeMap<(u64, u64), Ev>,
    f: Faults,
}

impl Net {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.queue.insert((self.now + t, self.seq), e);
    }
    /// One message into the network.
    fn send(&mut self, c: &mut Ctx, cut: bool, mk: impl Fn() -> Ev) {
        if cut {
            c.fault("message lost in a partition");
            return;
        }
        if self.f.on && self.f.drop && c.chance(1, 6) {
            c.fault("message dropped");
            return;
        }
        let copies = if self.f.on && self.f.dup && c.chance(1, 6) {
            c.fault("message duplicated");
            2
        } else {
            1
        };
        for _ in 0..copies {
            let d = if self.f.on && self.f.delay {
                match c.weighted(&[4, 4, 1]) {
                    0 => 1,
                    1 => 1 + c.pick(20),
                    _ => {
                        c.fault("message delayed past its successors");
                        50 + c.pick(800)
                    }
                }
            } else {
                1
            };
            self.at(d, mk());
        }
    }
}

fn node_hash(p: &PSpec, last: bool, data: &[u8]) -> Vec<u8> {
    let mut q = p.clone();
    q.last_node = last;
    let mut m = Model::new(&q);
    m.update(data);
    m.digest()
}

fn task(p: PSpec, last: bool, children: Vec<usize>, data: Option<Vec<u8>>) -> Task {
    Task {
        p, last, early: false, children, parent: None, data, want: vec![], worker: 0, assignment: 0, epoch: 0, acked: 0, sent: 0,
        result: None, timer: false,
    }
}

/// The tree as tasks; the root is the last one. Also returns the digest computed in one place.
fn plan(c: &mut Ctx) -> R<(Vec<Task>, Vec<u8>)> {
    let mut t: Vec<Task> = Vec::new();
    if c.chance(1, 2) {
        // BLAKE2sp, from its parts.
        let n = match c.weighted(&[2, 3, 3, 2]) {
            0 => c.pick(64) as usize,
            1 => c.pick(1100) as usize,
            2 => 512 * c.pick(12) as usize + [0, 1, 63, 64, 65, 448, 511][c.pick(7) as usize],
            _ => c.pick(12_000) as usize,
        };
        let input = gen_bytes_exact(c, n);
        ev!(c, "BLAKE2sp of {} bytes", n);
        let base = PSpec { fanout: 8, max_depth: 2, inner_hash_length: 32, ..PSpec::default() };
        for i in 0..8u64 {
            let p = PSpec { node_offset: i, ..base.clone() };
            let data = input.chunks(64).skip(i as usize).step_by(8).flatten().copied().collect();
            t.push(task(p, i == 7, vec![], Some(data)));
        }
        t.push(task(PSpec { node_depth: 1, ..base }, true, (0..8).collect(), None));
        let whole = c.call("blake2sp::blake2sp", || b2::blake2sp::blake2sp(&input))?.as_bytes().to_vec();
        one_place(&mut t);
        return Ok((t, whole));
    }
    // Now and then a wide tree of small leaves, or a tall one.
    let wide = c.chance(1, 400);
    let leaf = match c.weighted(if wide { &[1, 0, 0] } else { &[3, 2, 2] }) {
        0 => 64 * (1 + c.pick(if wide { 1 } else { 8 }) as usize),
        1 => 1 + c.pick(700) as usize,
        _ => 1 + c.pick(4000) as usize,
    };
    let leaves = if wide { 250 + c.pick(30) } else { 1 + c.pick(14) } as usize;
    let n = (leaf * leaves - c.pick(leaf as u64) as usize).max(if leaves == 1 { 0 } else { 1 });
    let input = gen_bytes_exact(c, n);
    // 0 means unlimited: one level of leaves under the root.
    let fanout = [2, 3, 4, 5, 6, 7, 8, 9, 1, 0, 14, 255][c.pick(12) as usize] as u8;
    let depth = match c.weighted(&[40, 2]) {
        0 => 2 + c.pick(3),
        _ => {
            let most = if c.chance(1, 8) { 250 } else { 30 };
            5 + c.pick(most)
        }
    } as u8;
    // With a fanout of one no level is narrower than the one below.
    let depth = if fanout == 1 && depth > 4 { depth.min(4 + (120 / leaves) as u8) } else { depth };
    let inner = 1 + c.pick(32) as usize;
    let out = 1 + c.pick(32) as usize;
    let nk = if c.chance(1, 2) { 1 + c.pick(32) as usize } else { 0 };
    let key = gen_bytes_exact(c, nk);
    let ns = if c.chance(1, 2) { 1 + c.pick(8) as usize } else { 0 };
    let salt = gen_bytes_exact(c, ns);
    ev!(c, "tree of {} bytes: leaves of {}, fanout {}, depth {}, inner hashes of {}, key of {}", n, leaf, fanout, depth, inner, nk);
    let base = PSpec {
        hash_length: inner, key, salt, fanout, max_depth: depth, max_leaf_length: leaf as u32, inner_hash_length: inner,
        ..PSpec::default()
    };
    let parts: Vec<Vec<u8>> =
        if input.is_empty() { vec![vec![]] } else { input.chunks(leaf).map(|x| x.to_vec()).collect() };
    let count = parts.len();
    for (i, d) in parts.into_iter().enumerate() {
        t.push(task(PSpec { node_offset: i as u64, ..base.clone() }, i + 1 == count, vec![], Some(d)));
    }
    let mut level: Vec<usize> = (0..count).collect();
    for d in 1..depth {
        let root = d + 1 == depth || fanout == 0 || level.len() <= fanout as usize && (fanout > 1 || level.len() == 1 && c.chance(1, 8));
        let groups: Vec<Vec<usize>> =
            if root { vec![level.clone()] } else { level.chunks(fanout as usize).map(|x| x.to_vec()).collect() };
        let k = groups.len();
        level = vec![];
        for (i, g) in groups.into_iter().enumerate() {
            let p = PSpec {
                node_offset: i as u64,
                node_depth: d,
                hash_length: if root { out } else { inner },
                ..base.clone()
            };
            t.push(task(p, i + 1 == k, g, None));
            level.push(t.len() - 1);
        }
        if root {
            break;
        }
    }
    one_place(&mut t);
    let whole = t.last().unwrap().want.clone();
    Ok((t, whole))
}

/// Every node's hash, computed in one place, by the reference model.
fn one_place(t: &mut [Task]) {
    for i in 0..t.len() {
        let data: Vec<u8> = match &t[i].data {
            Some(d) => d.clone(),
            None => t[i].children.clone().iter().flat_map(|&k| t[k].want.clone()).collect(),
        };
        let (p, last) = (t[i].p.clone(), t[i].last);
        t[i].want = node_hash(&p, last, &data);
        for k in t[i].children.clone() {
            t[k].parent = Some(i);
        }
    }
}

pub fn c17(c: &mut Ctx) -> R {
    let (mut t, whole) = plan(c)?;
    let root = t.len() - 1;
    // Whether a node is its level's last may be known from the start.
    let known = c.weighted(&[3, 2, 1]);
    for x in &mut t {
        x.p.last_node = if known == 0 { false } else { x.last };
        x.early = known == 1;
    }
    let n_workers = 1 + c.pick(4) as usize;
    let mut net = Net {
        now: 0,
        seq: 0,
        queue: BTreeMap::new(),
        f: Faults { on: true, drop: c.chance(1, 2), dup: c.chance(1, 2), delay: c.chance(1, 2) },
    };
    let mut ws: Vec<Worker> = (0..n_workers)
        .map(|_| Worker {
            up: true, cut: false, slow: 1, incarnation: 0, held: BTreeMap::new(), inbox: vec![], ticking: false, batches: false,
        })
        .collect();
    for (i, w) in ws.iter_mut().enumerate() {
        w.batches = c.chance(2, 3);
        if c.chance(1, 4) {
            w.slow = 5 + c.pick(40);
            ev!(c, "worker {} is slow ({} ms a step)", i, w.slow);
            c.fault("slow worker");
        }
    }
    // The timetable of faults.
    let heal = match c.weighted(&[3, 3, 2]) {
        0 => 20 + c.pick(60),
        1 => 20 + c.pick(500),
        _ => 20 + c.pick(3000),
    };
    for w in 0..n_workers {
        if c.chance(1, 2) {
            for _ in 0..1 + c.pick(4) {
                let at = c.pick(heal);
                let down = 1 + if c.chance(1, 2) { c.pick(300) } else { c.pick(20) };
                net.at(at, Ev::Crash(w));
                net.at(at + down, Ev::Restart(w));
            }
        }
        if c.chance(1, 4) {
            let at = c.pick(heal);
            let len = 20 + c.pick(600);
            net.at(at, Ev::Cut(w));
            net.at(at + len, Ev::Rejoin(w));
        }
        if c.chance(1, 2) {
            for _ in 0..1 + c.pick(6) {
                let at = c.pick(heal);
                net.at(at, Ev::Checkpoint(w));
            }
        }
    }
    net.at(heal, Ev::Heal);
    let piece = match c.weighted(&[3, 2, 2]) {
        0 => 64 * (1 + c.pick(16) as usize),
        1 => 1 + c.pick(200) as usize,
        _ => 1 + c.pick(3000) as usize,
    };
    let total: usize = t.iter().map(|x| x.data.as_ref().map(|d| d.len()).unwrap_or(x.children.len() * 32)).sum();
    let piece = piece.max(total / 150 + 1);
    let window = 1 + c.pick(6);
    let hints = c.chance(1, 2) && known != 1;
    let budget = 600 + 60 * (total / piece + t.len()) as u64;
    ev!(c, "{} workers, pieces of {} bytes, window {}, faults end at {} ms; last nodes known {}", n_workers, piece, window, heal,
        ["late", "from the start", "from the start and set again"][known]);
    // The durable store: one checkpoint per node.
    let mut store: BTreeMap<usize, b2::State> = BTreeMap::new();
    for i in 0..t.len() {
        t[i].worker = c.pick(n_workers as u64) as usize;
        t[i].assignment = 1;
        if t[i].data.is_some() {
            start(c, &mut net, &mut t, &ws, i, piece, window, hints);
        }
    }
    let mut after_heal = 0u64;
    let mut events = 0u64;
    while t[root].result.is_none() {
        let key = match net.queue.keys().next() {
            Some(k) => *k,
            None => return fail("machinery", "the simulated network ran dry".into()),
        };
        let e = net.queue.remove(&key).unwrap();
        net.now = key.0;
        events += 1;
        c.steps += 1;
        c.marks.push(c.tape.len());
        if !net.f.on {
            after_heal += 1;
            if after_heal > budget {
                let stuck: Vec<String> = t
                    .iter()
                    .enumerate()
                    .filter(|(_, x)| x.result.is_none() && x.data.is_some())
                    .map(|(i, x)| format!("node {} acknowledged {} of {}", i, x.acked, x.data.as_ref().unwrap().len()))
                    .collect();
                return fail(
                    "liveness: no root after faults stopped",
                    format!("{} events after the faults stopped there is no root: {}", budget, stuck.join(", ")),
                );
            }
        }
        if events > 60_000 {
            return fail("machinery", "too many events before the faults stopped".into());
        }
        let now = net.now;
        match e {
            Ev::Heal => {
                ev!(c, "{} ms: faults stop", now);
                net.f.on = false;
                for w in &mut ws {
                    w.cut = false;
                    w.up = true;
                    w.slow = 1;
                }
            }
            Ev::Crash(w) => {
                if net.f.on && ws[w].up {
                    ev!(c, "{} ms: worker {} crashes, losing {} hashers", now, w, ws[w].held.len());
                    c.fault("worker crash");
                    ws[w].up = false;
                    ws[w].incarnation += 1;
                    ws[w].held.clear();
                    ws[w].inbox.clear();
                }
            }
            Ev::Restart(w) => {
                if !ws[w].up {
                    ev!(c, "{} ms: worker {} restarts", now, w);
                    c.fault("worker restart");
                    ws[w].up = true;
                }
            }
            Ev::Cut(w) => {
                if net.f.on {
                    ev!(c, "{} ms: worker {} is cut off", now, w);
                    c.fault("partition");
                    ws[w].cut = true;
                }
            }
            Ev::Rejoin(w) => ws[w].cut = false,
            Ev::Checkpoint(w) => {
                if ws[w].up {
                    for (&i, h) in ws[w].held.iter() {
                        let s = &h.s;
                        let k = c.call("State::clone", || s.clone())?;
                        store.insert(i, k);
                        c.fault("checkpoint");
                    }
                    ev!(c, "{} ms: worker {} checkpoints {} hashers", now, w, ws[w].held.len());
                }
            }
            Ev::Retry(i) => {
                t[i].timer = false;
                if t[i].result.is_none() {
                    if net.f.on && n_workers > 1 && c.chance(1, 12) {
                        let w = c.pick(n_workers as u64) as usize;
                        ev!(c, "{} ms: node {} is moved to worker {}", now, i, w);
                        c.fault("work moved to another worker");
                        t[i].worker = w;
                        t[i].assignment += 1;
                        t[i].acked = 0;
                    }
                    start(c, &mut net, &mut t, &ws, i, piece, window, hints);
                }
            }
            Ev::ToWorker(w, m) => {
                if ws[w].up && !ws[w].cut {
                    ws[w].inbox.push(m);
                    if !ws[w].ticking {
                        ws[w].ticking = true;
                        let d = ws[w].slow;
                        net.at(d, Ev::Tick(w, 0));
                    }
                }
            }
            Ev::Tick(w, _) => {
                ws[w].ticking = false;
                if ws[w].up {
                    work(c, &mut net, &mut ws, w, &t, &store)?;
                }
            }
            Ev::ToCoordinator(Msg::Ack { task, epoch, count }) => {
                let x = &mut t[task];
                if x.result.is_none() && epoch >= x.epoch && epoch >> 32 == x.assignment {
                    let fresh = epoch > x.epoch;
                    x.epoch = epoch;
                    if fresh || count > x.acked {
                        x.acked = count;
                    }
                    if x.acked >= x.sent.min(x.data.as_ref().unwrap().len() as u64) {
                        start(c, &mut net, &mut t, &ws, task, piece, window, hints);
                    }
                }
            }
            Ev::ToCoordinator(Msg::Result { task, digest }) => {
                c.observe(&digest);
                ev!(c, "{} ms: node {} is {}", now, task, hex(&digest));
                if digest != t[task].want {
                    return fail(
                        if task == root { "digest: distributed root" } else { "digest: distributed node" },
                        format!("node {}: {} from its worker, {} in one place", task, hex(&digest), hex(&t[task].want)),
                    );
                }
                if t[task].result.is_none() {
                    t[task].result = Some(digest);
                    if let Some(p) = t[task].parent {
                        if t[p].data.is_none() && t[p].children.iter().all(|&k| t[k].result.is_some()) {
                            let d = t[p].children.iter().flat_map(|&k| t[k].result.clone().unwrap()).collect();
                            t[p].data = Some(d);
                            start(c, &mut net, &mut t, &ws, p, piece, window, hints);
                        }
                    }
                }
            }
            Ev::ToCoordinator(_) => {}
        }
        c.sig(&[ws.iter().filter(|w| w.up).count() as u64, t.iter().filter(|x| x.result.is_some()).count() as u64,
            net.queue.len().min(40) as u64, net.f.on as u64]);
    }
    c.sim_ms += net.now;
    let got = t[root].result.clone().unwrap();
    if got != whole {
        return fail("digest: distributed root", format!("root {}, in one place {}", hex(&got), hex(&whole)));
    }
    Ok(())
}

/// The coordinator sends the next window for node `i`, and arms its timer.
fn start(c: &mut Ctx, net: &mut Net, t: &mut [Task], ws: &[Worker], i: usize, piece: usize, window: u64, hints: bool) {
    let x = &mut t[i];
    let (w, assignment) = (x.worker, x.assignment);
    let cut = ws[w].cut;
    let total = x.data.as_ref().unwrap().len() as u64;
    if hints && net.f.on && c.chance(1, 8) {
        let last = c.chance(1, 2);
        net.send(c, cut, || Ev::ToWorker(w, Msg::LastHint { task: i, assignment, last }));
    }
    if x.acked >= total {
        let last = x.last;
        net.send(c, cut, || Ev::ToWorker(w, Msg::Finish { task: i, assignment, total, last }));
    } else {
        let mut at = x.acked;
        for _ in 0..window {
            if at >= total {
                break;
            }
            let len = (piece as u64).min(total - at) as usize;
            let from = at;
            net.send(c, cut, || Ev::ToWorker(w, Msg::Data { task: i, assignment, at: from, len }));
            at += len as u64;
        }
        x.sent = at;
    }
    if !x.timer {
        x.timer = true;
        net.at(100, Ev::Retry(i));
    }
}

/// A worker handles everything in its inbox.
fn work(c: &mut Ctx, net: &mut Net, ws: &mut [Worker], w: usize, t: &[Task], store: &BTreeMap<usize, b2::State>) -> R {
    let inbox = std::mem::take(&mut ws[w].inbox);
    let now = net.now;
    // Hashers for nodes not seen before, from the store when it has a checkpoint.
    for m in &inbox {
        let (task, assignment) = match m {
            Msg::Data { task, assignment, .. } | Msg::LastHint { task, assignment, .. } | Msg::Finish { task, assignment, .. } => {
                (*task, *assignment)
            }
            _ => continue,
        };
        let stale = ws[w].held.get(&task).map(|h| h.assignment < assignment).unwrap_or(true);
        if stale {
            let s = match store.get(&task) {
                Some(k) => {
                    c.fault("restore from checkpoint");
                    ev!(c, "{} ms: worker {} restores node {}", now, w, task);
                    c.call("State::clone", || k.clone())?
                }
                None => {
                    let p = t[task].p.real();
                    c.call("Params::to_state", || p.to_state())?
                }
            };
            ws[w].held.insert(task, Held { s, assignment });
        }
    }
    let batches = ws[w].batches;
    let epoch = ws[w].incarnation;
    // Rounds: in each, at most one piece per node, so that pieces stay in order and can be batched.
    let mut todo: Vec<(usize, u64, usize)> = vec![];
    let mut acks: Vec<usize> = vec![];
    for m in &inbox {
        if let Msg::Data { task, assignment, at, len } = m {
            if ws[w].held[task].assignment == *assignment {
                todo.push((*task, *at, *len));
                if !acks.contains(task) {
                    acks.push(*task);
                }
            }
        }
    }
    while !todo.is_empty() {
        let mut round: BTreeMap<usize, (u64, usize)> = BTreeMap::new();
        let mut rest = vec![];
        for (task, at, len) in todo {
            if !rest.iter().any(|r: &(usize, u64, usize)| r.0 == task) && !round.contains_key(&task) && round.len() < 8 {
                round.insert(task, (at, len));
            } else {
                rest.push((task, at, len));
            }
        }
        todo = rest;
        let mut feed: BTreeMap<usize, &[u8]> = BTreeMap::new();
        for (&task, &(at, len)) in &round {
            let s = &ws[w].held[&task].s;
            let have = c.call("State::count", || s.count())?;
            let end = at + len as u64;
            if at <= have && end > have {
                let d = t[task].data.as_ref().unwrap();
                feed.insert(task, &d[have as usize..end as usize]);
                c.bytes += end - have;
            }
        }
        if batches && ws[w].held.len() >= 8 && !feed.is_empty() {
            // Lanes: the nodes with input, filled up with others that get nothing.
            let mut lanes: Vec<usize> = feed.keys().copied().collect();
            for k in ws[w].held.keys() {
                if lanes.len() < 8 && !lanes.contains(k) {
                    lanes.push(*k);
                }
            }
            let shift = c.pick(8) as usize;
            lanes.rotate_left(shift);
            let inputs: Vec<&[u8]> = lanes.iter().map(|k| feed.get(k).copied().unwrap_or(&[])).collect();
            let mut pool = take(&mut ws[w].held, &lanes);
            ev!(c, "{} ms: worker {} update8 nodes {:?} lengths {:?}", now, w, lanes, inputs.iter().map(|x| x.len()).collect::<Vec<_>>());
            c.probe("update8 on a worker");
            c.call("update8", || update8(&mut pool, &[0, 1, 2, 3, 4, 5, 6, 7], &inputs))?;
            put(&mut ws[w].held, &lanes, pool);
        } else {
            for (task, d) in feed {
                let s = &mut ws[w].held.get_mut(&task).unwrap().s;
                ev!(c, "{} ms: worker {} node {} update({})", now, w, task, d.len());
                c.call("State::update", || {
                    s.update(d);
                })?;
            }
        }
    }
    let cut = ws[w].cut;
    let mut done: Vec<(usize, bool)> = vec![];
    for m in &inbox {
        match m {
            Msg::LastHint { task, assignment, last } if ws[w].held[task].assignment == *assignment => {
                let s = &mut ws[w].held.get_mut(task).unwrap().s;
                c.call("State::set_last_node", || {
                    s.set_last_node(*last);
                })?;
            }
            Msg::Finish { task, assignment, total, last } if ws[w].held[task].assignment == *assignment => {
                let s = &mut ws[w].held.get_mut(task).unwrap().s;
                let have = c.call("State::count", || s.count())?;
                if have == *total {
                    if !done.contains(&(*task, *last)) {
                        done.push((*task, *last));
                    }
                } else if !acks.contains(task) {
                    acks.push(*task);
                }
            }
            _ => {}
        }
    }
    for task in acks {
        let h = &ws[w].held[&task];
        let s = &h.s;
        let count = c.call("State::count", || s.count())?;
        let epoch = (h.assignment << 32) + epoch;
        net.send(c, cut, || Ev::ToCoordinator(Msg::Ack { task, epoch, count }));
    }
    while !done.is_empty() {
        let k = done.len().min(8);
        let mut now_done: Vec<usize> = vec![];
        for (task, last) in done.drain(..k) {
            let s = &mut ws[w].held.get_mut(&task).unwrap().s;
            if !t[task].early {
                c.call("State::set_last_node", || {
                    s.set_last_node(last);
                })?;
            }
            now_done.push(task);
        }
        let mut out: Vec<(usize, Vec<u8>)> = vec![];
        if batches && ws[w].held.len() >= 8 {
            let mut lanes = now_done.clone();
            for k in ws[w].held.keys() {
                if lanes.len() < 8 && !lanes.contains(k) {
                    lanes.push(*k);
                }
            }
            let shift = c.pick(8) as usize;
            lanes.rotate_left(shift);
            let mut pool = take(&mut ws[w].held, &lanes);
            c.probe("finalize8 on a worker");
            let h = c.call("finalize8", || finalize8(&mut pool, &[0, 1, 2, 3, 4, 5, 6, 7]))?;
            put(&mut ws[w].held, &lanes, pool);
            for (i, k) in lanes.iter().enumerate() {
                if now_done.contains(k) {
                    out.push((*k, h[i].as_bytes().to_vec()));
                }
            }
        } else {
            for k in now_done {
                let s = &mut ws[w].held.get_mut(&k).unwrap().s;
                let h = c.call("State::finalize", || s.finalize())?;
                out.push((k, h.as_bytes().to_vec()));
            }
        }
        for (task, digest) in out {
            net.send(c, cut, || Ev::ToCoordinator(Msg::Result { task, digest: digest.clone() }));
        }
    }
    Ok(())
}

fn take(held: &mut BTreeMap<usize, Held>, lanes: &[usize]) -> Vec<b2::State> {
    lanes.iter().map(|k| std::mem::replace(&mut held.get_mut(k).unwrap().s, b2::State::new())).collect()
}
fn put(held: &mut BTreeMap<usize, Held>, lanes: &[usize], pool: Vec<b2::State>) {
    for (k, s) in lanes.iter().zip(pool) {
        held.get_mut(k).unwrap().s = s;
    }
}
