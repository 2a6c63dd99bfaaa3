//! Nodes that exchange ranges and sets over an unreliable network: C19.
//!
//! Everything but the code under test and the encoders is simulated: nodes, their timers and disks,
//! the network and virtual time. A seeded queue of timed events decides what happens next.

use crate::anyset::*;
use crate::disk::{gen_fmt, load, load_as, save, save_as, ty, Fmt};
use crate::elem::{domain, set_domain, Dom, Elem, Overflow};
use crate::gen::{gen_range, window, Win};
use crate::model::MSet;
use crate::rt::*;
use crate::{ensure, ev, viol};
use rangetools::{BoundedRange, BoundedSet, Rangetools, UnboundedSet};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------------------------------------
// Virtual time and the network

pub struct Net<M> {
    pub now: u64,
    seq: u64,
    queue: BTreeMap<(u64, u64), M>,
    /// Group of each node; messages between groups are lost.
    group: Vec<u32>,
    /// Per mille: lost, sent twice, held up.
    loss: u32,
    dup: u32,
    slow: u32,
    newest: Vec<Vec<u64>>,
}

impl<M: Clone> Net<M> {
    pub fn new(n: usize) -> Net<M> {
        let rate = |r: [u32; 4]| r[pick(&[2, 3, 2, 1])];
        let (loss, dup, slow) = (rate([0, 50, 200, 500]), rate([0, 50, 200, 400]), rate([0, 100, 300, 600]));
        ev!("network of {n}: loss {loss} duplication {dup} delay {slow} per mille");
        Net {
            now: 0,
            seq: 0,
            queue: BTreeMap::new(),
            group: vec![0; n],
            loss,
            dup,
            slow,
            newest: vec![vec![0; n]; n],
        }
    }
    pub fn at(&mut self, delay: u64, m: M) {
        self.seq += 1;
        self.queue.insert((self.now + delay, self.seq), m);
    }
    pub fn send(&mut self, from: usize, to: usize, m: M) {
        stat("messages_sent");
        if self.loss > 0 && draw(1000) >= 1000 - self.loss {
            stat("fault.message_lost");
            nontrivial();
            ev!("{} n{from} -> n{to}: lost", self.now);
            return;
        }
        let copies = if self.dup > 0 && draw(1000) >= 1000 - self.dup { 2 } else { 1 };
        if copies == 2 {
            stat("fault.message_duplicated");
            nontrivial();
        }
        for _ in 0..copies {
            let mut d = 1 + draw(5) as u64;
            if self.slow > 0 && draw(1000) >= 1000 - self.slow {
                stat("fault.message_delayed");
                d += 10 * (1 + draw(30) as u64);
            }
            let t = self.now + d;
            if t < self.newest[from][to] {
                stat("fault.message_overtaken");
                nontrivial();
            }
            self.newest[from][to] = self.newest[from][to].max(t);
            self.at(d, m.clone());
        }
    }
    pub fn pop(&mut self) -> Option<M> {
        let ((t, _), m) = self.queue.pop_first()?;
        self.now = t;
        Some(m)
    }
    pub fn cut(&self, a: usize, b: usize) -> bool {
        self.group[a] != self.group[b]
    }
    /// Every node on one of two sides.
    pub fn split(&mut self) {
        self.group.iter_mut().for_each(|g| *g = draw(2));
    }
    pub fn heal(&mut self) {
        self.group.iter_mut().for_each(|g| *g = 0);
    }
    pub fn calm(&mut self) {
        (self.loss, self.dup, self.slow) = (0, 0, 0);
        self.group.iter_mut().for_each(|g| *g = 0);
    }
}

// ---------------------------------------------------------------------------------------------
// Replicas of two grow-only sets (what was added and what was removed) over all range and set types

/// A set on the wire or on disk, and what it must contain.
#[derive(Clone)]
struct Packed {
    ty: crate::disk::Ty,
    fmt: Fmt,
    bytes: Vec<u8>,
    m: MSet,
}

fn pack(v: &Val, fmt: Fmt) -> Res<Packed> {
    let set = if v.s.is_std() { plain(&"to_set", || v.s.clone().to_set())? } else { v.s.clone() };
    let mut bytes = vec![];
    if let Err(e) = plain(&"saving", || save(&set, fmt, &mut bytes))? {
        viol!("save-failed", "saving {} failed: {e}", v.s.kind());
    }
    Ok(Packed { ty: ty(&set), fmt, bytes, m: v.m.clone() })
}

/// None: the data is incomplete.
fn unpack(p: &Packed, torn: Option<usize>) -> Res<Option<Val>> {
    let n = torn.unwrap_or(p.bytes.len());
    match plain(&"loading", || load(p.ty, p.fmt, &mut &p.bytes[..n]))? {
        Ok(s) => {
            ensure!(n == p.bytes.len(), "took-torn-data", "{n} bytes of {} were accepted as a whole set", p.bytes.len());
            Ok(Some(Val { s, m: p.m.clone() }))
        }
        Err(e) => {
            ensure!(torn.is_some(), "load-failed", "a set that was sent whole does not load: {e}");
            Ok(None)
        }
    }
}

#[derive(Clone)]
struct State {
    added: Val,
    removed: Val,
}

struct Node {
    st: State,
    disk: Option<(Packed, Packed)>,
    up: bool,
    incarnation: u32,
    /// What each peer is known to have had, in which incarnation.
    known: Vec<Option<(u32, Val)>>,
    /// Timers run this many times too slow, in halves.
    skew: u64,
    stalled_until: u64,
}

#[derive(Clone)]
enum Msg {
    Timer(usize, u32),
    Restart(usize),
    /// sender, its incarnation, receiver, what was added (or what the receiver may lack of it), what
    /// was removed
    Gossip(usize, u32, usize, Packed, Packed),
    Heal,
}

fn nothing() -> Val {
    Val { s: BoundedSet::<Elem>::empty().into(), m: MSet::empty() }
}

const MAX: u64 = 60;

/// An operation on states, compared with the model.
fn op2(
    what: &str,
    o: Opts,
    f: impl FnOnce() -> Any,
    m: MSet,
    thorough: bool,
) -> Res<Option<Val>> {
    let s = match call(o, f) {
        Out::Fault if o.fault_at > 0 => {
            nontrivial();
            return Ok(None);
        }
        o => o.expect_ok(&what)?,
    };
    // What the model keeps is a count of pieces put together; many are merged.
    let n = 1 + 2 * m.n_intervals();
    let m = m.at_most(n);
    if thorough || chance(1, 3) {
        check_val(&what, &s, &m, None)?;
    }
    Ok(Some(Val { s, m }))
}

fn minus(what: &str, a: &Val, b: &Val) -> Res<Val> {
    let m = a.m.inter(&b.m.complement());
    let swap = chance(1, 3);
    let r = op2(
        what,
        Opts { budget: 100_000_000, ..Opts::default() },
        || {
            let c = b.s.clone().complement();
            if swap {
                c.intersection(a.s.clone())
            } else {
                a.s.clone().intersection(c)
            }
        },
        m,
        false,
    )?;
    Ok(r.expect("no fault injected"))
}

fn merge(what: &str, a: &Val, b: &Val, o: Opts) -> Res<Option<Val>> {
    let m = a.m.union(&b.m);
    let swap = chance(1, 3);
    op2(
        what,
        o,
        || if swap { b.s.clone().union(a.s.clone()) } else { a.s.clone().union(b.s.clone()) },
        m,
        false,
    )
}

fn persist(n: &mut Node, i: usize, now: u64) -> Res {
    let fmt = gen_fmt();
    let new = (pack(&n.st.added, fmt)?, pack(&n.st.removed, fmt)?);
    n.disk = Some(new);
    ev!("{now} n{i} saved its state");
    Ok(())
}

fn gossip_from(nodes: &mut [Node], net: &mut Net<Msg>, i: usize, to: usize, whole: bool) -> Res {
    let fmt = gen_fmt();
    let inc = nodes[i].incarnation;
    let known = if whole { None } else { nodes[i].known[to].clone() };
    let (kind, a, r) = match known {
        Some((_, k)) => {
            stat("deltas_sent");
            let d = minus("what a peer lacks", &nodes[i].st.added, &k)?;
            // it cannot have any of it
            if let Some(want) = disjointness(&d.m, &k.m) {
                let got = plain(&"disjoint", || d.s.clone().disjoint(k.s.clone()))?;
                ensure!(
                    got == want,
                    "wrong-overlap",
                    "disjoint is {got} for {} and {}",
                    d.m.show(),
                    k.m.show()
                );
            }
            ("delta", d, nodes[i].st.removed.clone())
        }
        None => ("state", nodes[i].st.added.clone(), nodes[i].st.removed.clone()),
    };
    let m = Msg::Gossip(i, inc, to, pack(&a, fmt)?, pack(&r, fmt)?);
    ev!("{} n{i} -> n{to}: {kind} {} {}", net.now, a.m.show(), r.m.show());
    net.send(i, to, m);
    Ok(())
}

fn receive(nodes: &mut [Node], net: &Net<Msg>, from: usize, inc: u32, to: usize, a: &Packed, r: &Packed, calm: bool) -> Res {
    let now = net.now;
    if net.cut(from, to) {
        stat("fault.message_lost_in_partition");
        nontrivial();
        return Ok(());
    }
    if !nodes[to].up {
        stat("fault.message_to_a_dead_node");
        nontrivial();
        return Ok(());
    }
    let torn = if !calm && chance(1, 25) && a.bytes.len() > 0 { Some(draw(a.bytes.len() as u32) as usize) } else { None };
    let Some(a) = unpack(a, torn)? else {
        stat("fault.message_torn");
        nontrivial();
        return Ok(());
    };
    let r = unpack(r, None)?.expect("whole");
    let fault_at = if !calm && chance(1, 6) { 1 + draw(40) as u64 } else { 0 };
    let n = &mut nodes[to];
    let o = Opts { fault_at, ..Opts::default() };
    let Some(added) = merge("merging what was added", &n.st.added, &a, o)? else {
        ev!("{now} n{to} failed to merge from n{from}");
        if chance(1, 2) {
            crash(nodes, to, now);
        }
        return Ok(());
    };
    let removed = merge("merging what was removed", &n.st.removed, &r, Opts::default())?.expect("no fault");
    // idempotent, and nothing that was there is gone
    let gone = minus("what a merge lost", &n.st.added, &added)?;
    ensure!(gone.m.is_void(), "harness", "the model lost something");
    check_empty(&"what a merge lost", &gone.s, &gone.m, Opts::default())?;
    n.st = State { added, removed };
    // It has at least this much, as long as it does not crash.
    let mine = match &n.known[from] {
        Some((k, v)) if *k == inc => merge("what a peer is known to have", v, &a, Opts::default())?.expect("no fault"),
        _ => a,
    };
    n.known[from] = Some((inc, mine));
    ev!("{now} n{to} merged from n{from}: {} {}", n.st.added.m.show(), n.st.removed.m.show());
    stat("merges");
    Ok(())
}

fn crash(nodes: &mut [Node], i: usize, now: u64) {
    stat("fault.node_crash");
    nontrivial();
    ev!("{now} n{i} crashed");
    let n = &mut nodes[i];
    n.up = false;
    n.incarnation += 1;
    n.st = State { added: nothing(), removed: nothing() };
    n.known.iter_mut().for_each(|k| *k = None);
}

fn restart(nodes: &mut [Node], i: usize, now: u64) -> Res {
    let n = &mut nodes[i];
    if n.up {
        return Ok(());
    }
    if let Some((a, r)) = &n.disk {
        n.st = State { added: unpack(a, None)?.expect("whole"), removed: unpack(r, None)?.expect("whole") };
        check_val(&"a state loaded after a crash", &n.st.added.s, &n.st.added.m, None)?;
    }
    n.up = true;
    stat("restarts");
    ev!("{now} n{i} restarted with {} {}", n.st.added.m.show(), n.st.removed.m.show());
    Ok(())
}

/// What is in force: added and not removed.
fn check_live(n: &Node, i: usize) -> Res<Val> {
    let v = minus("what is added and not removed", &n.st.added, &n.st.removed)?;
    check_val(&format_args!("what n{i} has added and not removed"), &v.s, &v.m, None)?;
    Ok(v)
}

fn replicas(w: &Win) -> Res {
    let n = 2 + draw_usize(4);
    let mut net: Net<Msg> = Net::new(n);
    let mut nodes: Vec<Node> = (0..n)
        .map(|_| Node {
            st: State { added: nothing(), removed: nothing() },
            disk: None,
            up: true,
            incarnation: 1,
            known: vec![None; n],
            skew: [2, 1, 4, 9][pick(&[3, 1, 1, 1])],
            stalled_until: 0,
        })
        .collect();
    for (i, x) in nodes.iter().enumerate() {
        if x.skew != 2 {
            stat("fault.clock_skew");
        }
        let d = draw(10) as u64;
        net.at(d, Msg::Timer(i, 1));
    }
    // ranges without an end would soon swallow everything: in few episodes only
    let open_ends = chance(1, 4);
    let avg = [15, 40, 100][pick(&[2, 2, 1])];
    while more(avg) {
        let sp = span_start();
        let Some(m) = net.pop() else { break };
        let now = net.now;
        stat("steps");
        match m {
            Msg::Timer(i, inc) => {
                if !nodes[i].up || nodes[i].incarnation != inc {
                    span_end(sp);
                    continue;
                }
                let next = (1 + draw(12) as u64) * nodes[i].skew / 2 + 1;
                net.at(next, Msg::Timer(i, inc));
                if now < nodes[i].stalled_until {
                    span_end(sp);
                    continue;
                }
                match pick(&[5, 5, 2, 2, 1, 1, 1]) {
                    0 | 2 => {
                        let v = if open_ends && chance(1, 6) {
                            primitive(w)
                        } else {
                            let (r, m) = gen_range::<Elem>(w);
                            Val { s: r.into(), m }
                        };
                        let add = chance(2, 3);
                        let st = &nodes[i].st;
                        if st.added.m.pieces + st.removed.m.pieces > MAX {
                            span_end(sp);
                            continue;
                        }
                        let old = if add { &st.added } else { &st.removed };
                        let new = merge("a local change", old, &v, Opts::default())?.expect("no fault");
                        ev!("{now} n{i} {} {}", if add { "adds" } else { "removes" }, v.m.show());
                        if add {
                            nodes[i].st.added = new;
                        } else {
                            nodes[i].st.removed = new;
                        }
                    }
                    1 => {
                        let to = (i + 1 + draw_usize(n - 1)) % n;
                        let whole = chance(1, 3);
                        gossip_from(&mut nodes, &mut net, i, to, whole)?;
                    }
                    3 => {
                        if chance(1, 4) {
                            // dies while writing: the old file stays
                            stat("fault.crash_while_saving");
                            crash(&mut nodes, i, now);
                            let d = 1 + draw(40) as u64;
                            net.at(d, Msg::Restart(i));
                        } else {
                            persist(&mut nodes[i], i, now)?;
                        }
                    }
                    4 => {
                        crash(&mut nodes, i, now);
                        let d = 1 + draw(40) as u64;
                        net.at(d, Msg::Restart(i));
                    }
                    5 => {
                        if chance(1, 2) {
                            stat("fault.partition");
                            nontrivial();
                            for k in 0..n {
                                net.group[k] = draw(2);
                            }
                            ev!("{now} partition {:?}", net.group);
                            let d = 5 + draw(60) as u64;
                            net.at(d, Msg::Heal);
                        } else {
                            stat("fault.node_stalled");
                            let d = 10 + draw(60) as u64;
                            nodes[i].stalled_until = now + d;
                            ev!("{now} n{i} stalls for {d}");
                        }
                    }
                    _ => {
                        check_live(&nodes[i], i)?;
                    }
                }
            }
            Msg::Restart(i) => {
                restart(&mut nodes, i, now)?;
                let inc = nodes[i].incarnation;
                net.at(1, Msg::Timer(i, inc));
            }
            Msg::Gossip(from, inc, to, a, r) => {
                if now < nodes[to].stalled_until {
                    let d = nodes[to].stalled_until - now;
                    net.at(d, Msg::Gossip(from, inc, to, a, r));
                } else {
                    receive(&mut nodes, &net, from, inc, to, &a, &r, false)?;
                    if !nodes[to].up {
                        let d = 1 + draw(40) as u64;
                        net.at(d, Msg::Restart(to));
                    }
                }
            }
            Msg::Heal => {
                net.group.iter_mut().for_each(|g| *g = 0);
                ev!("{now} healed");
            }
        }
        span_end(sp);
    }
    // The faults stop. What is under way still arrives.
    net.calm();
    for i in 0..n {
        let now = net.now;
        restart(&mut nodes, i, now)?;
        nodes[i].stalled_until = 0;
    }
    while let Some(m) = net.pop() {
        if let Msg::Gossip(from, inc, to, a, r) = m {
            receive(&mut nodes, &net, from, inc, to, &a, &r, true)?;
        }
    }
    let mut want_a = MSet::empty();
    let mut want_r = MSet::empty();
    for x in &nodes {
        want_a = want_a.union(&x.st.added.m);
        want_r = want_r.union(&x.st.removed.m);
    }
    // One exchange of whole states, in a seeded order, must do.
    for i in 0..n {
        for k in 1..n {
            gossip_from(&mut nodes, &mut net, i, (i + k) % n, true)?;
        }
    }
    while let Some(m) = net.pop() {
        if let Msg::Gossip(from, inc, to, a, r) = m {
            receive(&mut nodes, &net, from, inc, to, &a, &r, true)?;
        }
    }
    let (lo, hi) = (domain().lo, domain().hi);
    for (i, x) in nodes.iter().enumerate() {
        ensure!(
            x.st.added.m.elements(lo, hi) == want_a.elements(lo, hi),
            "harness",
            "the models of the replicas do not converge"
        );
        check_val(&format_args!("n{i} after the exchange: added"), &x.st.added.s, &want_a, None)?;
        check_val(&format_args!("n{i} after the exchange: removed"), &x.st.removed.s, &want_r, None)?;
        check_live(x, i)?;
        // as the nodes themselves would find out
        let y = &nodes[(i + 1) % n];
        for (a, b) in [(&x.st.added, &y.st.added), (&y.st.removed, &x.st.removed)] {
            let extra = minus("the difference of two replicas", a, b)?;
            check_empty(&"the difference of two replicas", &extra.s, &extra.m, Opts::default())?;
            check_val(&"the difference of two replicas", &extra.s, &extra.m, None)?;
        }
    }
    stat("replica_histories");
    stat_n("virtual_time", net.now);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// A transfer with acknowledgements: every element arrives exactly once

#[derive(Clone)]
enum Tx {
    Send,
    Chunk(Vec<u8>),
    Ack(Vec<u8>),
    Restart,
    Heal,
}

fn enc<T: Serialize>(v: &T, fmt: Fmt) -> Res<Vec<u8>> {
    let mut b = vec![];
    if let Err(e) = plain(&"saving", || save_as(v, fmt, &mut b))? {
        viol!("save-failed", "saving a set failed: {e}");
    }
    Ok(b)
}
fn dec<T: DeserializeOwned>(b: &[u8], fmt: Fmt) -> Res<T> {
    match plain(&"loading", || load_as::<T>(fmt, &mut &b[..]))? {
        Ok(v) => Ok(v),
        Err(e) => viol!("load-failed", "a set that was sent whole does not load: {e}"),
    }
}

fn ords<T: Dom>(what: &str, s: &BoundedSet<T>, back: bool) -> Res<Vec<i128>> {
    let v: Vec<T> = plain(&what, || {
        let it = s.clone().into_iter();
        if back {
            it.rev().take(5000).collect()
        } else {
            it.take(5000).collect()
        }
    })?;
    let mut v: Vec<i128> = v.into_iter().map(T::o).collect();
    if back {
        v.reverse();
    }
    Ok(v)
}

fn same(what: &str, got: &[i128], want: &BTreeSet<i128>) -> Res {
    let want: Vec<i128> = want.iter().copied().collect();
    ensure!(got == want, "wrong-members", "{what}: {got:?}, expected {want:?}");
    Ok(())
}

fn transfer<T: Dom + Serialize + DeserializeOwned>(w: &Win) -> Res {
    let fmt = [Fmt::Json, Fmt::Bincode][draw_usize(2)];
    let mut net: Net<Tx> = Net::new(2);
    // what is to be sent
    let mut all: BoundedSet<T> = BoundedSet::empty();
    let mut want: BTreeSet<i128> = BTreeSet::new();
    for _ in 0..1 + draw(12) {
        let (r, m) = gen_range::<T>(w);
        let e = m.elements(T::lo(), T::hi());
        if e.iter().map(|(a, b)| (*b as u128).wrapping_sub(*a as u128)).any(|n| n > 30) || want.len() > 60 {
            continue;
        }
        all = plain(&"union", || all.union(r))?;
        want.extend(e.into_iter().flat_map(|(a, b)| a..=b));
    }
    same("what is to be sent", &ords("iteration", &all, false)?, &want)?;
    ev!("to send {want:?}");
    let chunk = 1 + draw(9) as usize;
    // sender
    let mut acked: BoundedSet<T> = BoundedSet::empty();
    let mut macked: BTreeSet<i128> = BTreeSet::new();
    // receiver: what it has, and what it did with it; saved together
    let mut got: BoundedSet<T> = BoundedSet::empty();
    let mut applied: Vec<i128> = vec![];
    let mut disk: (Vec<u8>, Vec<i128>) = (enc(&got, fmt)?, vec![]);
    let mut up = true;
    let mut calm = false;
    let mut rounds_left = 0usize;
    net.at(0, Tx::Send);
    let avg = [12, 40, 90][pick(&[2, 2, 1])];
    let mut going = true;
    loop {
        if !calm && !(going && more(avg)) {
            calm = true;
            net.calm();
            // every round brings a whole chunk over; one more to be told
            rounds_left = want.len() / chunk + 3;
            if !up {
                got = dec(&disk.0, fmt)?;
                applied = disk.1.clone();
                up = true;
                stat("restarts");
            }
        }
        let Some(m) = net.pop() else {
            going = false;
            if calm {
                break;
            }
            continue;
        };
        let sp = span_start();
        let now = net.now;
        stat("steps");
        match m {
            Tx::Send => {
                if !calm && chance(1, 15) {
                    stat("fault.partition");
                    nontrivial();
                    ev!("{now} partition");
                    net.group[1] = 1;
                    net.at(5 + draw(40) as u64, Tx::Heal);
                }
                let back = chance(1, 4);
                let missing: BoundedSet<T> = {
                    let (a, k) = (all.clone(), acked.clone());
                    let swap = chance(1, 3);
                    call(Opts { budget: 100_000_000, ..Opts::default() }, || {
                        let c: UnboundedSet<T> = k.complement();
                        if swap {
                            c.intersection(a)
                        } else {
                            a.intersection(c)
                        }
                    })
                    .expect_ok(&"what is missing")?
                };
                let mm: BTreeSet<i128> = want.difference(&macked).copied().collect();
                same("what is missing", &ords("iteration", &missing, back)?, &mm)?;
                let empty = plain(&"is_empty", || missing.is_empty())?;
                ensure!(!empty || mm.is_empty(), "wrong-emptiness", "reported empty: {mm:?}");
                if mm.is_empty() {
                    ev!("{now} all acknowledged");
                    span_end(sp);
                    if calm {
                        break;
                    }
                    going = false;
                    continue;
                }
                if calm {
                    ensure!(rounds_left > 0, "no-progress", "the transfer does not finish: {mm:?} still missing");
                    rounds_left -= 1;
                }
                // some consecutive missing elements, from a seeded place (from the start at the end)
                let skip = if calm { 0 } else { draw_usize(mm.len()) };
                let part: Vec<T> = plain(&"iteration", || {
                    let it = missing.clone().into_iter();
                    if back {
                        let mut v: Vec<T> = it.rev().skip(skip).take(chunk).collect();
                        v.reverse();
                        v
                    } else {
                        it.skip(skip).take(chunk).collect()
                    }
                })?;
                let mut mpart: Vec<i128> = if back {
                    mm.iter().rev().skip(skip).take(chunk).copied().collect()
                } else {
                    mm.iter().skip(skip).take(chunk).copied().collect()
                };
                if back {
                    mpart.reverse();
                }
                let po: Vec<i128> = part.iter().map(|x| x.o()).collect();
                ensure!(po == mpart, "wrong-iteration", "a chunk is {po:?}, expected {mpart:?}");
                let (a, b) = (part[0], part[part.len() - 1]);
                let piece: BoundedSet<T> = plain(&"cutting out a chunk", || missing.intersection(BoundedRange::from(a..=b)))?;
                same("a chunk", &ords("iteration", &piece, false)?, &mpart.iter().copied().collect())?;
                ev!("{now} sends {mpart:?}");
                let bytes = enc(&piece, fmt)?;
                net.send(0, 1, Tx::Chunk(bytes));
                // once the faults have stopped, an answer is here before the next turn
                let d = if calm { 20 } else { 3 + draw(12) as u64 };
                net.at(d, Tx::Send);
            }
            Tx::Chunk(bytes) => {
                if !up || net.cut(0, 1) {
                    stat(if up { "fault.message_lost_in_partition" } else { "fault.message_to_a_dead_node" });
                    nontrivial();
                    span_end(sp);
                    continue;
                }
                let c: BoundedSet<T> = dec(&bytes, fmt)?;
                let have: BTreeSet<i128> = applied.iter().copied().collect();
                let mc = ords("iteration", &c, false)?;
                let mf: BTreeSet<i128> = mc.iter().copied().filter(|x| !have.contains(x)).collect();
                // an overlap test first, as a receiver would to spare itself the work
                let dup = plain(&"intersects", || c.clone().intersects(got.clone()))?;
                let mdup = mc.iter().any(|x| have.contains(x));
                ensure!(dup || !mdup, "wrong-overlap", "a chunk {mc:?} is reported not to overlap {have:?}");
                let fault_at = if T::is_sim() && !calm && chance(1, 6) { 1 + draw(30) as u64 } else { 0 };
                let out = call(Opts { fault_at, budget: 100_000_000, ..Opts::default() }, || {
                    let k: UnboundedSet<T> = got.clone().complement();
                    let fresh: BoundedSet<T> = c.clone().intersection(k);
                    let all: BoundedSet<T> = got.clone().union(c.clone());
                    (fresh, all)
                });
                let (fresh, now_has) = match out {
                    Out::Fault if fault_at > 0 => {
                        nontrivial();
                        ev!("{now} the receiver failed to take a chunk");
                        span_end(sp);
                        continue;
                    }
                    o => o.expect_ok(&"taking a chunk")?,
                };
                let f = ords("iteration", &fresh, chance(1, 3))?;
                same("what is new in a chunk", &f, &mf)?;
                applied.extend(&f);
                got = now_has;
                ev!("{now} takes {f:?}");
                if !calm && chance(1, 8) {
                    stat("fault.node_crash");
                    nontrivial();
                    ev!("{now} the receiver crashed before saving");
                    up = false;
                    net.at(1 + draw(30) as u64, Tx::Restart);
                    span_end(sp);
                    continue;
                }
                disk = (enc(&got, fmt)?, applied.clone());
                if !calm && chance(1, 8) {
                    stat("fault.node_crash");
                    nontrivial();
                    ev!("{now} the receiver crashed after saving");
                    up = false;
                    net.at(1 + draw(30) as u64, Tx::Restart);
                    span_end(sp);
                    continue;
                }
                net.send(1, 0, Tx::Ack(disk.0.clone()));
            }
            Tx::Heal => net.group[1] = 0,
            Tx::Ack(bytes) => {
                if net.cut(0, 1) {
                    stat("fault.message_lost_in_partition");
                    span_end(sp);
                    continue;
                }
                let a: BoundedSet<T> = dec(&bytes, fmt)?;
                let ma = ords("iteration", &a, false)?;
                let swap = chance(1, 2);
                acked = plain(&"merging acknowledgements", || {
                    if swap {
                        a.union(acked)
                    } else {
                        acked.union(a)
                    }
                })?;
                macked.extend(ma);
                same("what is acknowledged", &ords("iteration", &acked, false)?, &macked)?;
                ev!("{now} acknowledged {}", macked.len());
            }
            Tx::Restart => {
                if !up {
                    got = dec(&disk.0, fmt)?;
                    applied = disk.1.clone();
                    up = true;
                    stat("restarts");
                    ev!("{now} the receiver restarted");
                }
            }
        }
        span_end(sp);
    }
    // exactly once, and nothing else
    let mut sorted = applied.clone();
    sorted.sort();
    if calm {
        let w: Vec<i128> = want.iter().copied().collect();
        ensure!(sorted == w, "not-exactly-once", "delivered {sorted:?}, expected {w:?}");
    }
    let n = sorted.len();
    sorted.dedup();
    ensure!(n == sorted.len(), "not-exactly-once", "delivered twice: {applied:?}");
    stat("transfers");
    stat_n("virtual_time", net.now);
    Ok(())
}

pub fn c19() -> Res {
    match pick(&[3, 2, 2]) {
        0 => set_domain(0, 255, Overflow::Panic),
        1 => set_domain(-1000, 1000, Overflow::Panic),
        _ => set_domain(i64::MIN as i128, i64::MAX as i128, Overflow::Panic),
    }
    let d = domain();
    ev!("domain {}..={}", d.lo, d.hi);
    while more(3) {
        let sp = span_start();
        episode_start();
        let ends = chance(1, 3);
        if chance(1, 2) {
            let w = window::<Elem>(8, ends);
            let w = if chance(1, 3) { w.widened(200) } else { w };
            replicas(&w)?;
        } else {
            match pick(&[5, 1, 1, 1, 1]) {
                0 => one::<Elem>(ends)?,
                1 => one::<i32>(ends)?,
                2 => one::<u8>(ends)?,
                3 => one::<u64>(ends)?,
                _ => one::<char>(ends)?,
            }
        }
        episode_end();
        span_end(sp);
    }
    Ok(())
}

fn one<T: Dom + Serialize + DeserializeOwned>(ends: bool) -> Res {
    let w = window::<T>(if T::is_sim() { 8 } else { 0 }, ends);
    let w = if chance(1, 2) { w.widened(60) } else { w };
    transfer::<T>(&w)
}
