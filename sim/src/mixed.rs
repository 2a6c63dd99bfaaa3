//! Nodes of two releases that exchange and take over each other's data: C20.
//!
//! One release is the code under test, the other the frozen release 0.1.4 (sim/released). Nodes are
//! upgraded and rolled back, crash and restart from what either release has saved, and send each
//! other sets over the simulated network of C19.

use crate::anyset::*;
use crate::disk::{gen_fmt, load_as, save_as, Fmt, Ty};
use crate::elem::{domain, set_domain, Dom, Elem, Overflow};
use crate::gen::{window, Win};
use crate::model::{after, before, MSet, NEG, POS};
use crate::net::Net;
use crate::rt::*;
use crate::{ensure, ev, viol};
use rangetools_released as old;
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Rel {
    Released,
    Current,
}
use Rel::*;

// ---------------------------------------------------------------------------------------------
// The values of the frozen release

#[derive(Clone, Debug)]
enum Old {
    Br(old::BoundedRange<Elem>),
    Lbr(old::LowerBoundedRange<Elem>),
    Ubr(old::UpperBoundedRange<Elem>),
    Ur(old::UnboundedRange),
    Er(old::EmptyRange<Elem>),
    Bs(old::BoundedSet<Elem>),
    Lbs(old::LowerBoundedSet<Elem>),
    Ubs(old::UpperBoundedSet<Elem>),
    Us(old::UnboundedSet<Elem>),
}

macro_rules! from {
    ($($v:ident($t:ty)),*) => { $(impl From<$t> for Old { fn from(x: $t) -> Old { Old::$v(x) } })* };
}
from!(
    Br(old::BoundedRange<Elem>),
    Lbr(old::LowerBoundedRange<Elem>),
    Ubr(old::UpperBoundedRange<Elem>),
    Ur(old::UnboundedRange),
    Er(old::EmptyRange<Elem>),
    Bs(old::BoundedSet<Elem>),
    Lbs(old::LowerBoundedSet<Elem>),
    Ubs(old::UpperBoundedSet<Elem>),
    Us(old::UnboundedSet<Elem>)
);

macro_rules! each {
    ($a:expr, $x:ident => $body:expr) => {
        match $a {
            Old::Br($x) => $body,
            Old::Lbr($x) => $body,
            Old::Ubr($x) => $body,
            Old::Ur($x) => $body,
            Old::Er($x) => $body,
            Old::Bs($x) => $body,
            Old::Lbs($x) => $body,
            Old::Ubs($x) => $body,
            Old::Us($x) => $body,
        }
    };
}

impl Old {
    fn ty(&self) -> Ty {
        match self {
            Old::Br(_) => Ty::Br,
            Old::Lbr(_) => Ty::Lbr,
            Old::Ubr(_) => Ty::Ubr,
            Old::Ur(_) => Ty::Ur,
            Old::Er(_) => Ty::Er,
            Old::Bs(_) => Ty::Bs,
            Old::Lbs(_) => Ty::Lbs,
            Old::Ubs(_) => Ty::Ubs,
            Old::Us(_) => Ty::Us,
        }
    }
    fn union(self, o: Old) -> Old {
        each!(self, x => each!(o, y => Old::from(old::Rangetools::union(x, y))))
    }
    fn contains(&self, e: Elem) -> bool {
        each!(self, x => x.contains(e))
    }
    fn save(&self, fmt: Fmt, b: &mut Vec<u8>) -> Result<(), String> {
        each!(self, x => save_as(x, fmt, b))
    }
    fn load(t: Ty, fmt: Fmt, mut b: &[u8]) -> Result<Old, String> {
        let r = &mut b;
        match t {
            Ty::Br => load_as::<old::BoundedRange<Elem>>(fmt, r).map(Old::from),
            Ty::Lbr => load_as::<old::LowerBoundedRange<Elem>>(fmt, r).map(Old::from),
            Ty::Ubr => load_as::<old::UpperBoundedRange<Elem>>(fmt, r).map(Old::from),
            Ty::Ur => load_as::<old::UnboundedRange>(fmt, r).map(Old::from),
            Ty::Er => load_as::<old::EmptyRange<Elem>>(fmt, r).map(Old::from),
            Ty::Bs => load_as::<old::BoundedSet<Elem>>(fmt, r).map(Old::from),
            Ty::Lbs => load_as::<old::LowerBoundedSet<Elem>>(fmt, r).map(Old::from),
            Ty::Ubs => load_as::<old::UpperBoundedSet<Elem>>(fmt, r).map(Old::from),
            Ty::Us => load_as::<old::UnboundedSet<Elem>>(fmt, r).map(Old::from),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Values of either release

#[derive(Clone, Debug)]
enum Either {
    O(Old),
    N(Any),
}

#[derive(Clone)]
struct Held {
    v: Either,
    m: MSet,
}

#[derive(Clone)]
struct Packed {
    by: Rel,
    ty: Ty,
    fmt: Fmt,
    bytes: Vec<u8>,
    m: MSet,
}

fn check(what: &dyn std::fmt::Display, h: &Held) -> Res {
    match &h.v {
        Either::N(s) => check_val(what, s, &h.m, None),
        Either::O(s) => {
            let (lo, hi) = (domain().lo, domain().hi);
            let mut probes = vec![];
            h.m.probes(lo, hi, &mut probes);
            for p in probes {
                let got = plain(what, || s.contains(Elem::mk(p)))?;
                ensure!(
                    got == h.m.contains(p),
                    "wrong-members",
                    "{what}: in the released code contains({p}) is {got}, expected {} ({:?} should be {})",
                    h.m.contains(p),
                    s.ty(),
                    h.m.show()
                );
            }
            Ok(())
        }
    }
}

fn pack(h: &Held, fmt: Fmt) -> Res<Packed> {
    let mut bytes = vec![];
    let (by, ty, r) = match &h.v {
        Either::N(s) => {
            (Current, crate::disk::ty(s), plain(&"saving", || crate::disk::save(s, fmt, &mut bytes))?)
        }
        Either::O(s) => (Released, s.ty(), plain(&"saving", || s.save(fmt, &mut bytes))?),
    };
    if let Err(e) = r {
        viol!("save-failed", "saving {ty:?} in {by:?} failed: {e}");
    }
    Ok(Packed { by, ty, fmt, bytes, m: h.m.clone() })
}

fn unpack(p: &Packed, rel: Rel) -> Res<Held> {
    stat(match (p.by, rel) {
        (Released, Current) => "loads_of_released_data_in_current_code",
        (Current, Released) => "loads_of_current_data_in_released_code",
        _ => "loads_within_one_release",
    });
    let r = match rel {
        Current => plain(&"loading", || crate::disk::load(p.ty, p.fmt, &mut &p.bytes[..]))?.map(Either::N),
        Released => plain(&"loading", || Old::load(p.ty, p.fmt, &p.bytes))?.map(Either::O),
    };
    match r {
        Ok(v) => {
            let h = Held { v, m: p.m.clone() };
            check(&format_args!("{:?} saved as {:?} by {:?}, loaded by {rel:?}", p.ty, p.fmt, p.by), &h)?;
            Ok(h)
        }
        Err(e) => viol!(
            "load-failed",
            "{:?} saved as {:?} by {:?} does not load in {rel:?}: {e}; it should be {}; data {}",
            p.ty,
            p.fmt,
            p.by,
            p.m.show(),
            String::from_utf8_lossy(&p.bytes[..p.bytes.len().min(300)])
        ),
    }
}

/// The same range in both releases.
fn both(w: &Win, open: bool) -> (Any, Old, MSet) {
    let (a, b) = w.pair();
    let (x, y) = (Elem::mk(a), Elem::mk(b));
    use rangetools as new;
    let k = if open { pick(&[3, 2, 1, 1, 2, 2, 1, 1, 1, 1, 1]) } else { pick(&[3, 2, 1, 1]) };
    match k {
        0 | 1 | 2 | 3 => {
            let (xl, xh) = (k & 1 == 1, k & 2 == 2);
            let m = MSet::range(if xl { after(a) } else { before(a) }, if xh { after(b) } else { before(b) });
            let nl = if xl { new::LowerBound::excluded(x) } else { new::LowerBound::included(x) };
            let nh = if xh { new::UpperBound::included(y) } else { new::UpperBound::excluded(y) };
            let ol = if xl { old::LowerBound::excluded(x) } else { old::LowerBound::included(x) };
            let oh = if xh { old::UpperBound::included(y) } else { old::UpperBound::excluded(y) };
            (new::BoundedRange::new(nl, nh).into(), old::BoundedRange::new(ol, oh).into(), m)
        }
        4 => (
            new::LowerBoundedRange::new(new::LowerBound::included(x)).into(),
            old::LowerBoundedRange::new(old::LowerBound::included(x)).into(),
            MSet::range(before(a), POS),
        ),
        5 => (
            new::UpperBoundedRange::new(new::UpperBound::excluded(x)).into(),
            old::UpperBoundedRange::new(old::UpperBound::excluded(x)).into(),
            MSet::range(NEG, before(a)),
        ),
        6 => (
            new::LowerBoundedRange::new(new::LowerBound::excluded(x)).into(),
            old::LowerBoundedRange::new(old::LowerBound::excluded(x)).into(),
            MSet::range(after(a), POS),
        ),
        7 => (
            new::UpperBoundedRange::new(new::UpperBound::included(x)).into(),
            old::UpperBoundedRange::new(old::UpperBound::included(x)).into(),
            MSet::range(NEG, after(a)),
        ),
        8 => (new::EmptyRange::new().into(), old::EmptyRange::new().into(), MSet::empty()),
        9 => (new::UnboundedRange::new().into(), old::UnboundedRange::new().into(), MSet::full()),
        _ => (new::BoundedSet::empty().into(), old::BoundedSet::empty().into(), MSet::empty()),
    }
}

fn fresh(w: &Win, rel: Rel, open: bool) -> Held {
    let (n, o, m) = both(w, open);
    Held { v: if rel == Current { Either::N(n) } else { Either::O(o) }, m }
}

fn merge(what: &str, a: &Held, b: &Held, fault_at: u64) -> Res<Option<Held>> {
    let m = a.m.union(&b.m);
    let n = 1 + 2 * m.n_intervals();
    let m = m.at_most(n);
    let swap = chance(1, 3);
    let r = call(Opts { fault_at, ..Opts::default() }, || match (&a.v, &b.v) {
        (Either::N(x), Either::N(y)) => {
            let (x, y) = (x.clone(), y.clone());
            Either::N(if swap { y.union(x) } else { x.union(y) })
        }
        (Either::O(x), Either::O(y)) => {
            let (x, y) = (x.clone(), y.clone());
            Either::O(if swap { y.union(x) } else { x.union(y) })
        }
        _ => unreachable!("values of two releases in one node"),
    });
    let v = match r {
        Out::Fault if fault_at > 0 => {
            nontrivial();
            return Ok(None);
        }
        r => r.expect_ok(&what)?,
    };
    let h = Held { v, m };
    if chance(1, 3) {
        check(&what, &h)?;
    }
    Ok(Some(h))
}

// ---------------------------------------------------------------------------------------------
// A cluster

struct Node {
    rel: Rel,
    st: Held,
    disk: Packed,
    up: bool,
    incarnation: u32,
}

#[derive(Clone)]
enum Msg {
    Timer(usize, u32),
    Restart(usize, Rel),
    Gossip(usize, usize, Packed),
    Heal,
}

fn other(r: Rel) -> Rel {
    if r == Current {
        Released
    } else {
        Current
    }
}

fn crash(n: &mut Node, i: usize, now: u64) {
    stat("fault.node_crash");
    nontrivial();
    n.up = false;
    n.incarnation += 1;
    ev!("{now} n{i} down");
}

fn restart(n: &mut Node, i: usize, rel: Rel, now: u64) -> Res {
    if n.up {
        return Ok(());
    }
    if rel != n.rel {
        stat(if rel == Current { "fault.upgrade" } else { "fault.rollback" });
    }
    n.rel = rel;
    n.st = unpack(&n.disk, rel)?;
    n.up = true;
    stat("restarts");
    ev!("{now} n{i} starts with {rel:?}: {}", n.st.m.show());
    Ok(())
}

fn cluster(w: &Win) -> Res {
    let n = 2 + draw_usize(3);
    let mut net: Net<Msg> = Net::new(n);
    let open = chance(1, 3);
    let mut nodes = vec![];
    for i in 0..n {
        let rel = if chance(1, 2) { Current } else { Released };
        let st = fresh(w, rel, open);
        let disk = pack(&st, gen_fmt())?;
        ev!("n{i} {rel:?}: {}", st.m.show());
        nodes.push(Node { rel, st, disk, up: true, incarnation: 1 });
        let d = draw(10) as u64;
        net.at(d, Msg::Timer(i, 1));
    }
    let avg = [12, 35, 80][pick(&[2, 2, 1])];
    while more(avg) {
        let sp = span_start();
        let Some(m) = net.pop() else { break };
        let now = net.now;
        stat("steps");
        match m {
            Msg::Timer(i, inc) => {
                if nodes[i].up && nodes[i].incarnation == inc {
                    let d = 1 + draw(12) as u64;
                    net.at(d, Msg::Timer(i, inc));
                    timer(&mut nodes, &mut net, i, w, open)?;
                }
            }
            Msg::Restart(i, rel) => {
                restart(&mut nodes[i], i, rel, now)?;
                if chance(1, 6) {
                    // the start fails after loading, before anything is saved; perhaps rolled back
                    stat("fault.failed_start");
                    crash(&mut nodes[i], i, now);
                    let to = if chance(1, 2) { other(rel) } else { rel };
                    net.at(1 + draw(10) as u64, Msg::Restart(i, to));
                } else {
                    if chance(1, 2) {
                        // rewrites its file in its own way
                        nodes[i].disk = pack(&nodes[i].st, gen_fmt())?;
                    }
                    let d = 1 + draw(12) as u64;
                    net.at(d, Msg::Timer(i, nodes[i].incarnation));
                }
            }
            Msg::Gossip(from, to, p) => receive(&mut nodes, &mut net, from, to, &p, false)?,
            Msg::Heal => net.heal(),
        }
        span_end(sp);
    }
    // The faults stop, everybody is up in some release, and everybody hears from everybody.
    net.calm();
    for i in 0..n {
        let rel = if chance(1, 2) { nodes[i].rel } else { other(nodes[i].rel) };
        let now = net.now;
        restart(&mut nodes[i], i, rel, now)?;
    }
    while let Some(m) = net.pop() {
        if let Msg::Gossip(from, to, p) = m {
            receive(&mut nodes, &mut net, from, to, &p, true)?;
        }
    }
    let mut want = MSet::empty();
    for x in &nodes {
        want = want.union(&x.st.m);
    }
    for i in 0..n {
        for k in 1..n {
            let p = pack(&nodes[i].st, gen_fmt())?;
            net.send(i, (i + k) % n, Msg::Gossip(i, (i + k) % n, p));
        }
    }
    while let Some(m) = net.pop() {
        if let Msg::Gossip(from, to, p) = m {
            receive(&mut nodes, &mut net, from, to, &p, true)?;
        }
    }
    for (i, x) in nodes.iter().enumerate() {
        let h = Held { v: x.st.v.clone(), m: want.clone() };
        check(&format_args!("n{i} ({:?}) after the exchange", x.rel), &h)?;
    }
    stat("clusters");
    stat_n("virtual_time", net.now);
    Ok(())
}

fn timer(nodes: &mut [Node], net: &mut Net<Msg>, i: usize, w: &Win, open: bool) -> Res {
    let n = nodes.len();
    let now = net.now;
    match pick(&[5, 5, 2, 2, 1]) {
        0 => {
            if nodes[i].st.m.pieces > 40 {
                return Ok(());
            }
            let v = fresh(w, nodes[i].rel, open && chance(1, 6));
            ev!("{now} n{i} adds {}", v.m.show());
            nodes[i].st = merge("a local change", &nodes[i].st, &v, 0)?.expect("no fault");
        }
        1 => {
            let to = (i + 1 + draw_usize(n - 1)) % n;
            let p = pack(&nodes[i].st, gen_fmt())?;
            ev!("{now} n{i} -> n{to}: {:?} as {:?} by {:?}", p.ty, p.fmt, p.by);
            net.send(i, to, Msg::Gossip(i, to, p));
        }
        2 => {
            nodes[i].disk = pack(&nodes[i].st, gen_fmt())?;
            ev!("{now} n{i} saved");
        }
        3 => {
            // a planned change of release, with or without saving first, or a crash
            if chance(1, 2) {
                nodes[i].disk = pack(&nodes[i].st, gen_fmt())?;
            }
            let rel = if chance(2, 3) { other(nodes[i].rel) } else { nodes[i].rel };
            crash(&mut nodes[i], i, now);
            net.at(1 + draw(30) as u64, Msg::Restart(i, rel));
        }
        _ => {
            stat("fault.partition");
            nontrivial();
            net.split();
            ev!("{now} partition");
            net.at(5 + draw(60) as u64, Msg::Heal);
        }
    }
    Ok(())
}

fn receive(nodes: &mut [Node], net: &mut Net<Msg>, from: usize, to: usize, p: &Packed, calm: bool) -> Res {
    let now = net.now;
    if !nodes[to].up || net.cut(from, to) {
        stat(if nodes[to].up { "fault.message_lost_in_partition" } else { "fault.message_to_a_dead_node" });
        nontrivial();
        return Ok(());
    }
    let rel = nodes[to].rel;
    if p.by != rel {
        nontrivial();
    }
    let h = unpack(p, rel)?;
    let fault_at = if !calm && chance(1, 8) { 1 + draw(40) as u64 } else { 0 };
    match merge("merging", &nodes[to].st, &h, fault_at)? {
        Some(v) => {
            nodes[to].st = v;
            ev!("{now} n{to} ({rel:?}) took what n{from} sent: {}", nodes[to].st.m.show());
        }
        None => ev!("{now} n{to} failed to merge"),
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// An archive: bounds and ranges over other element types, kept and fetched by either release

fn round<N, O>(what: &str, n: &N, o: &O) -> Res
where
    N: Serialize + DeserializeOwned + PartialEq + Debug,
    O: Serialize + DeserializeOwned + PartialEq + Debug,
{
    let fmt = gen_fmt();
    let (mut bn, mut bo) = (vec![], vec![]);
    ev!("{what} as {fmt:?}: {n:?}");
    if let Err(e) = plain(&"saving", || save_as(n, fmt, &mut bn))? {
        viol!("save-failed", "saving {what} as {fmt:?} failed: {e}");
    }
    if let Err(e) = plain(&"saving", || save_as(o, fmt, &mut bo))? {
        viol!("harness", "saving {what} in the released code as {fmt:?} failed: {e}");
    }
    stat("archived");
    nontrivial();
    match plain(&"loading", || load_as::<N>(fmt, &mut &bo[..]))? {
        Ok(v) => {
            let same = plain(&"==", || v == *n)?;
            ensure!(same, "wrong-value", "{what} saved as {fmt:?} by the released code loads as {v:?}, expected {n:?}")
        }
        Err(e) => viol!("load-failed", "{what} saved as {fmt:?} by the released code does not load: {e} ({n:?})"),
    }
    match plain(&"loading", || load_as::<O>(fmt, &mut &bn[..]))? {
        Ok(v) => {
            let same = plain(&"==", || v == *o)?;
            ensure!(same, "wrong-value", "{what} saved as {fmt:?} loads in the released code as {v:?}, expected {o:?}")
        }
        Err(e) => viol!("load-failed", "{what} saved as {fmt:?} does not load in the released code: {e} ({n:?})"),
    }
    Ok(())
}

fn archive<T>(name: &str, mk: &dyn Fn() -> T) -> Res
where
    T: Clone + Debug + PartialEq + Serialize + DeserializeOwned,
{
    use rangetools as new;
    let (a, b) = (mk(), mk());
    let (il, ih) = (chance(1, 2), chance(1, 2));
    let nb = |t: T, i: bool| if i { new::Bound::Included(t) } else { new::Bound::Excluded(t) };
    let ob = |t: T, i: bool| if i { old::Bound::Included(t) } else { old::Bound::Excluded(t) };
    let (nl, nh) = (new::LowerBound::from(nb(a.clone(), il)), new::UpperBound::from(nb(b.clone(), ih)));
    let (ol, oh) = (old::LowerBound::from(ob(a.clone(), il)), old::UpperBound::from(ob(b.clone(), ih)));
    match draw(7) {
        0 => round(&format!("Bound<{name}>"), &nb(a.clone(), il), &ob(a, il)),
        1 => round(&format!("LowerBound<{name}>"), &nl, &ol),
        2 => round(&format!("UpperBound<{name}>"), &nh, &oh),
        3 => round(
            &format!("BoundedRange<{name}>"),
            &new::BoundedRange { start: nl, end: nh },
            &old::BoundedRange { start: ol, end: oh },
        ),
        4 => round(
            &format!("LowerBoundedRange<{name}>"),
            &new::LowerBoundedRange { start: nl },
            &old::LowerBoundedRange { start: ol },
        ),
        5 => round(
            &format!("UpperBoundedRange<{name}>"),
            &new::UpperBoundedRange { end: nh },
            &old::UpperBoundedRange { end: oh },
        ),
        _ => round(
            &format!("(Option<LowerBoundedRange<{name}>>, UnboundedRange)"),
            &(Some(new::LowerBoundedRange { start: nl }), new::UnboundedRange::new()),
            &(Some(old::LowerBoundedRange { start: ol }), old::UnboundedRange::new()),
        ),
    }
}

pub fn c20() -> Res {
    match pick(&[3, 2, 2]) {
        0 => set_domain(0, 255, Overflow::Panic),
        1 => set_domain(-1000, 1000, Overflow::Panic),
        _ => set_domain(i64::MIN as i128, i64::MAX as i128, Overflow::Panic),
    }
    let d = domain();
    ev!("domain {}..={}", d.lo, d.hi);
    while more(3) {
        let sp = span_start();
        episode_start();
        if chance(4, 5) {
            let w = window::<Elem>(30, chance(1, 3));
            let w = if chance(1, 3) { w.widened(200) } else { w };
            cluster(&w)?;
        } else {
            while more(6) {
                let sp = span_start();
                match draw(6) {
                    0 => archive::<i32>("i32", &|| draw_u64() as i32)?,
                    1 => archive::<u8>("u8", &|| draw_u64() as u8)?,
                    2 => archive::<u64>("u64", &draw_u64)?,
                    3 => archive::<char>("char", &|| char::from_u32(draw(0xd800)).unwrap_or('a'))?,
                    4 => archive::<String>("String", &|| {
                        ["", "a", "Included", "start", "\u{1F600}\"\\", "zz z"][draw_usize(6)].to_string()
                    })?,
                    _ => archive::<(i8, bool)>("(i8, bool)", &|| (draw_u64() as i8, chance(1, 2)))?,
                }
                span_end(sp);
            }
        }
        episode_end();
        span_end(sp);
    }
    Ok(())
}
