//! Workloads over storage: C07 (saving and loading through failing storage) and C08 (damaged data).
//!
//! The disk is simulated: files have durable and cached contents, writes and reads can be short,
//! interrupted or fail, the disk can be full, and a crash can come at any byte, after which only
//! durable contents survive. The (de)serialisers (serde, serde_json, ciborium, bincode) and the
//! code under test are real.

use crate::anyset::*;
use crate::elem::{domain, set_domain, set_even_only, set_stored_top, Dom, Elem, Overflow};
use crate::gen::{window, Win};
use crate::model::MSet;
use crate::rt::*;
use crate::{ensure, ev, viol};
use rangetools::{
    BoundedRange, BoundedSet, EmptyRange, LowerBound, LowerBoundedRange, LowerBoundedSet, Rangetools,
    UnboundedRange, UnboundedSet, UpperBound, UpperBoundedRange, UpperBoundedSet,
};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::panic::resume_unwind;

type E = Elem;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt {
    Json,
    Pretty,
    /// Read through a slice in memory.
    JsonSlice,
    /// Read through an in-memory tree.
    JsonTree,
    Cbor,
    /// Read through an in-memory tree.
    CborTree,
    Bincode,
}

const FMTS: [Fmt; 7] =
    [Fmt::Json, Fmt::Bincode, Fmt::Cbor, Fmt::JsonSlice, Fmt::JsonTree, Fmt::CborTree, Fmt::Pretty];

pub fn gen_fmt() -> Fmt {
    FMTS[draw_usize(FMTS.len())]
}

pub fn save_as<T: Serialize>(v: &T, fmt: Fmt, w: &mut dyn Write) -> Result<(), String> {
    match fmt {
        Fmt::Json | Fmt::JsonSlice => serde_json::to_writer(w, v).map_err(|e| e.to_string()),
        Fmt::Pretty => serde_json::to_writer_pretty(w, v).map_err(|e| e.to_string()),
        Fmt::JsonTree => {
            let t = serde_json::to_value(v).map_err(|e| e.to_string())?;
            serde_json::to_writer(w, &t).map_err(|e| e.to_string())
        }
        Fmt::Cbor => ciborium::into_writer(v, w).map_err(|e| e.to_string()),
        Fmt::CborTree => {
            let t = ciborium::Value::serialized(v).map_err(|e| e.to_string())?;
            ciborium::into_writer(&t, w).map_err(|e| e.to_string())
        }
        Fmt::Bincode => bincode::serialize_into(w, v).map_err(|e| e.to_string()),
    }
}

pub fn load_as<T: DeserializeOwned>(fmt: Fmt, r: &mut dyn Read) -> Result<T, String> {
    match fmt {
        Fmt::Json | Fmt::Pretty => serde_json::from_reader(r).map_err(|e| e.to_string()),
        Fmt::JsonSlice => {
            let mut b = vec![];
            r.read_to_end(&mut b).map_err(|e| e.to_string())?;
            serde_json::from_slice(&b).map_err(|e| e.to_string())
        }
        Fmt::JsonTree => {
            let t: Value = serde_json::from_reader(r).map_err(|e| e.to_string())?;
            serde_json::from_value(t).map_err(|e| e.to_string())
        }
        Fmt::Cbor => ciborium::from_reader(r).map_err(|e| e.to_string()),
        Fmt::CborTree => {
            let t: ciborium::Value = ciborium::from_reader(r).map_err(|e| e.to_string())?;
            t.deserialized().map_err(|e| e.to_string())
        }
        Fmt::Bincode => bincode::deserialize_from(r).map_err(|e| e.to_string()),
    }
}

/// The crate's own types; the standard ranges are turned into them first.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Bs,
    Lbs,
    Us,
    Ubs,
    Br,
    Lbr,
    Ubr,
    Ur,
    Er,
}
const TYS: [Ty; 9] = [Ty::Bs, Ty::Lbs, Ty::Us, Ty::Ubs, Ty::Br, Ty::Lbr, Ty::Ubr, Ty::Ur, Ty::Er];

pub fn ty(v: &Any) -> Ty {
    match v {
        Any::Br(_) => Ty::Br,
        Any::Lbr(_) => Ty::Lbr,
        Any::Ubr(_) => Ty::Ubr,
        Any::Ur(_) => Ty::Ur,
        Any::Er(_) => Ty::Er,
        Any::Bs(_) => Ty::Bs,
        Any::Lbs(_) => Ty::Lbs,
        Any::Ubs(_) => Ty::Ubs,
        Any::Us(_) => Ty::Us,
        _ => unreachable!("standard range"),
    }
}

pub fn save(v: &Any, fmt: Fmt, w: &mut dyn Write) -> Result<(), String> {
    match v {
        Any::Br(x) => save_as(x, fmt, w),
        Any::Lbr(x) => save_as(x, fmt, w),
        Any::Ubr(x) => save_as(x, fmt, w),
        Any::Ur(x) => save_as(x, fmt, w),
        Any::Er(x) => save_as(x, fmt, w),
        Any::Bs(x) => save_as(x, fmt, w),
        Any::Lbs(x) => save_as(x, fmt, w),
        Any::Ubs(x) => save_as(x, fmt, w),
        Any::Us(x) => save_as(x, fmt, w),
        _ => unreachable!("standard range"),
    }
}

pub fn load(t: Ty, fmt: Fmt, r: &mut dyn Read) -> Result<Any, String> {
    match t {
        Ty::Br => load_as::<BoundedRange<E>>(fmt, r).map(Any::from),
        Ty::Lbr => load_as::<LowerBoundedRange<E>>(fmt, r).map(Any::from),
        Ty::Ubr => load_as::<UpperBoundedRange<E>>(fmt, r).map(Any::from),
        Ty::Ur => load_as::<UnboundedRange>(fmt, r).map(Any::from),
        Ty::Er => load_as::<EmptyRange<E>>(fmt, r).map(Any::from),
        Ty::Bs => load_as::<BoundedSet<E>>(fmt, r).map(Any::from),
        Ty::Lbs => load_as::<LowerBoundedSet<E>>(fmt, r).map(Any::from),
        Ty::Ubs => load_as::<UpperBoundedSet<E>>(fmt, r).map(Any::from),
        Ty::Us => load_as::<UnboundedSet<E>>(fmt, r).map(Any::from),
    }
}

fn load_de<'de, D: serde::Deserializer<'de>>(t: Ty, d: D) -> Result<Any, D::Error> {
    match t {
        Ty::Br => BoundedRange::<E>::deserialize(d).map(Any::from),
        Ty::Lbr => LowerBoundedRange::<E>::deserialize(d).map(Any::from),
        Ty::Ubr => UpperBoundedRange::<E>::deserialize(d).map(Any::from),
        Ty::Ur => UnboundedRange::deserialize(d).map(Any::from),
        Ty::Er => EmptyRange::<E>::deserialize(d).map(Any::from),
        Ty::Bs => BoundedSet::<E>::deserialize(d).map(Any::from),
        Ty::Lbs => LowerBoundedSet::<E>::deserialize(d).map(Any::from),
        Ty::Ubs => UpperBoundedSet::<E>::deserialize(d).map(Any::from),
        Ty::Us => UnboundedSet::<E>::deserialize(d).map(Any::from),
    }
}

// ---------------------------------------------------------------------------------------------
// The simulated disk

#[derive(Default, Clone)]
struct File {
    durable: Vec<u8>,
    cached: Vec<u8>,
}

#[derive(Default)]
struct Disk {
    files: BTreeMap<&'static str, File>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum WFault {
    None,
    Eio(usize),
    /// The device is full after this many bytes.
    Full(usize),
    /// The process dies after this many bytes.
    Crash(usize),
    /// The error goes away: only one call fails.
    Once(usize),
    Flush,
}

struct Writer<'a> {
    file: &'a mut File,
    at: usize,
    fault: WFault,
    fired: bool,
    /// At most this many bytes a call; 0: any number.
    chop: usize,
    /// Every n-th call is interrupted; 0: none.
    eintr: usize,
    calls: usize,
    shorts: u64,
    intrs: u64,
}

impl Write for Writer<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let _quiet = Quiet::new();
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.eintr > 0 && self.calls % self.eintr == 0 {
            self.intrs += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = b.len();
        if self.chop > 0 && n > self.chop {
            n = self.chop;
            self.shorts += 1;
        }
        match self.fault {
            WFault::Eio(k) | WFault::Full(k) | WFault::Crash(k) if self.at + n > k => {
                let room = k.saturating_sub(self.at);
                self.file.cached.extend_from_slice(&b[..room]);
                self.at += room;
                if room > 0 && matches!(self.fault, WFault::Full(_)) {
                    return Ok(room);
                }
                self.fired = true;
                return match self.fault {
                    // (a buffer dropped by another unwinding writes once more)
                    WFault::Crash(_) if !std::thread::panicking() => resume_unwind(Box::new(ConsumerMark)),
                    WFault::Full(_) => Err(io::Error::other("no space left on device")),
                    _ => Err(io::Error::other("input/output error")),
                };
            }
            WFault::Once(k) if !self.fired && self.at + n > k => {
                self.fired = true;
                return Err(io::Error::other("input/output error"));
            }
            _ => {}
        }
        self.file.cached.extend_from_slice(&b[..n]);
        self.at += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.fault == WFault::Flush {
            self.fired = true;
            return Err(io::Error::other("input/output error"));
        }
        Ok(())
    }
}

struct Reader<'a> {
    data: &'a [u8],
    at: usize,
    /// Fails after this many bytes.
    fail: Option<usize>,
    fired: bool,
    chop: usize,
    eintr: usize,
    calls: usize,
    shorts: u64,
    intrs: u64,
}

impl<'a> Reader<'a> {
    fn plain(data: &'a [u8]) -> Reader<'a> {
        Reader { data, at: 0, fail: None, fired: false, chop: 0, eintr: 0, calls: 0, shorts: 0, intrs: 0 }
    }
}

impl Read for Reader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let _quiet = Quiet::new();
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.eintr > 0 && self.calls % self.eintr == 0 {
            self.intrs += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = b.len().min(self.data.len() - self.at);
        if self.chop > 0 && n > self.chop {
            n = self.chop;
            self.shorts += 1;
        }
        if let Some(k) = self.fail {
            if self.at >= k {
                self.fired = true;
                return Err(io::Error::other("input/output error"));
            }
            n = n.min(k - self.at);
        }
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn chop() -> usize {
    [0usize, 1, 3, 7, 64][pick(&[3, 2, 1, 1, 1])]
}
fn eintr() -> usize {
    [0usize, 2, 3, 5][pick(&[3, 1, 1, 1])]
}

impl Disk {
    /// What a crash leaves of a file: its durable bytes, and of what was written since any prefix.
    fn crash(&mut self) {
        for f in self.files.values_mut() {
            let keep = if f.cached.starts_with(&f.durable) {
                let extra = f.cached.len() - f.durable.len();
                f.durable.len() + if extra > 0 { draw(extra as u32 + 1) as usize } else { 0 }
            } else {
                // rewritten since: the old bytes are gone or going
                draw(f.cached.len() as u32 + 1) as usize
            };
            let cut = f.cached[..keep].to_vec();
            if cut.len() < f.cached.len() {
                stat("fault.torn_tail");
            }
            f.durable = cut.clone();
            f.cached = cut;
        }
    }
    fn sync(&mut self, name: &'static str) {
        if let Some(f) = self.files.get_mut(name) {
            f.durable = f.cached.clone();
        }
    }
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
enum Saved {
    Ok,
    Err,
    Crash,
    /// An element's own code panicked.
    Panic,
}

/// Saves with the given storage faults, element faults and, through a buffer, errors that surface
/// late. `truncate`: start the file afresh.
fn do_save(v: &Any, fmt: Fmt, file: &mut File, fault: WFault, o: Opts, truncate: bool) -> Res<(Saved, bool)> {
    if truncate {
        file.cached.clear();
    }
    let buffer = [0usize, 1, 16, 300][pick(&[3, 1, 1, 1])];
    let mut w = Writer {
        file,
        at: 0,
        fault,
        fired: false,
        chop: chop(),
        eintr: eintr(),
        calls: 0,
        shorts: 0,
        intrs: 0,
    };
    let out = call(o, || {
        if buffer > 0 {
            let mut b = io::BufWriter::with_capacity(buffer, &mut w);
            let r = save(v, fmt, &mut b).and_then(|_| b.flush().map_err(|e| e.to_string()));
            // A failed buffer must not write again when dropped.
            let (_, _) = b.into_parts();
            r
        } else {
            save(v, fmt, &mut w).and_then(|_| w.flush().map_err(|e| e.to_string()))
        }
    });
    let elem_fault = ctl_after().fault_fired;
    let (fired, shorts, intrs) = (w.fired, w.shorts, w.intrs);
    stat_n("fault.short_write", shorts);
    stat_n("fault.interrupted_write", intrs);
    if fired {
        stat(match fault {
            WFault::Eio(_) | WFault::Once(_) => "fault.write_error",
            WFault::Full(_) => "fault.disk_full",
            WFault::Crash(_) => "fault.crash_in_write",
            _ => "fault.flush_error",
        });
    }
    if fired || elem_fault || shorts + intrs > 0 {
        nontrivial();
    }
    let r = match out {
        Out::Ok(Ok(())) => Saved::Ok,
        Out::Ok(Err(e)) => {
            ensure!(
                fired || elem_fault,
                "save-failed",
                "saving {} failed although nothing else did: {e}",
                v.kind()
            );
            Saved::Err
        }
        Out::Consumer => Saved::Crash,
        Out::Fault => Saved::Panic,
        o => {
            let _ = o.expect_ok(&"saving")?;
            unreachable!()
        }
    };
    ev!("save {} {fmt:?} {fault:?} fired {fired} element {elem_fault}: {r:?}", v.kind());
    Ok((r, fired || elem_fault))
}

enum Loaded {
    Value(Any),
    Error(#[allow(dead_code)] String),
    Panic,
}

fn do_load(t: Ty, fmt: Fmt, data: &[u8], fail: Option<usize>, o: Opts) -> Res<(Loaded, bool)> {
    let mut r = Reader { fail, chop: chop(), eintr: eintr(), ..Reader::plain(data) };
    let buffer = [0usize, 1, 16, 300][pick(&[3, 1, 1, 1])];
    let out = call(o, || {
        if buffer > 0 {
            load(t, fmt, &mut io::BufReader::with_capacity(buffer, &mut r))
        } else {
            load(t, fmt, &mut r)
        }
    });
    let elem_fault = ctl_after().fault_fired;
    stat_n("fault.short_read", r.shorts);
    stat_n("fault.interrupted_read", r.intrs);
    if r.fired {
        stat("fault.read_error");
    }
    if r.fired || elem_fault || r.shorts + r.intrs > 0 {
        nontrivial();
    }
    let fired = r.fired || elem_fault;
    let l = match out {
        Out::Ok(Ok(v)) => Loaded::Value(v),
        Out::Ok(Err(e)) => Loaded::Error(e),
        Out::Fault => Loaded::Panic,
        o => {
            let _ = o.expect_ok(&"loading")?;
            unreachable!()
        }
    };
    ev!(
        "load {t:?} {fmt:?} {} bytes failing {fail:?} element {elem_fault}: {}",
        data.len(),
        match &l {
            Loaded::Value(_) => "a value",
            Loaded::Error(_) => "error",
            Loaded::Panic => "panic",
        }
    );
    Ok((l, fired))
}

fn no_fault() -> Opts {
    Opts::default()
}

/// Loading data that a successful save left: must give exactly the value.
fn check_load(v: &Val, fmt: Fmt, data: &[u8]) -> Res {
    let (l, _) = do_load(ty(&v.s), fmt, data, None, no_fault())?;
    match l {
        Loaded::Value(x) => same(v, &x, "loaded"),
        Loaded::Error(e) => viol!(
            "load-failed",
            "loading what was saved fails: {e} ({} {} as {fmt:?}: {})",
            v.s.kind(),
            v.m.show(),
            show(data)
        ),
        Loaded::Panic => viol!("stray-fault", "loading panicked"),
    }
}

fn same(v: &Val, got: &Any, what: &str) -> Res {
    let eq = plain(&"comparing", || *got == v.s)?;
    ensure!(
        eq,
        "loaded-different",
        "{what} {} is {:?}, not equal to what was saved, {:?}",
        v.s.kind(),
        got,
        v.s
    );
    check_val(&format!("{what} value"), got, &v.m, None)
}

fn show(data: &[u8]) -> String {
    match std::str::from_utf8(data) {
        Ok(s) => s.to_string(),
        Err(_) => data.iter().map(|b| format!("{b:02x}")).collect(),
    }
}

/// A value of one of the crate's own types.
fn gen_val(w: &Win) -> Res<Val> {
    let mut a = primitive(w);
    let wide;
    let k = [0u32, 1, 2, 4, 9, 40][pick(&[2, 4, 6, 4, 2, 1])];
    let w = if k == 40 {
        wide = w.widened(400);
        &wide
    } else {
        w
    };
    for _ in 0..k {
        let mut v = primitive(w);
        if w.short && !matches!(v.s, Any::Rg(_) | Any::RgIncl(_) | Any::Br(_)) {
            // the others swallow what is there
            let (r, m) = crate::gen::gen_range::<E>(w);
            v = Val { s: r.into(), m };
        }
        let which = if w.short { pick(&[30, 1, 1, 1]) } else { pick(&[5, 1, 1, 1]) };
        let (s, m) = match which {
            0 => (plain(&"union", || a.s.clone().union(v.s))?, a.m.union(&v.m)),
            1 => {
                let c = plain(&"complement", || v.s.complement())?;
                (plain(&"intersection", || a.s.clone().intersection(c))?, a.m.inter(&v.m.complement()))
            }
            2 => (plain(&"intersection", || a.s.clone().intersection(v.s))?, a.m.inter(&v.m)),
            _ => (plain(&"complement", || a.s.clone().complement())?, a.m.complement()),
        };
        a = Val { s, m };
    }
    if a.s.is_std() {
        a.s = plain(&"to_inner", || a.s.to_inner())?;
    }
    if chance(1, 3) {
        a.s = plain(&"to_set", || a.s.to_set())?;
    }
    ev!("value {} {}", a.s.kind(), a.m.show());
    Ok(a)
}

fn encode(v: &Any, fmt: Fmt) -> Res<Vec<u8>> {
    let mut b = vec![];
    plain(&"saving", || save(v, fmt, &mut b))?
        .map_err(|e| Viol { class: "save-failed", msg: format!("saving {} fails: {e}", v.kind()) })?;
    Ok(b)
}

fn gen_wfault(len: usize) -> WFault {
    let at = draw(len as u32 + 1) as usize;
    match pick(&[3, 2, 2, 2, 2, 1]) {
        0 => WFault::None,
        1 => WFault::Eio(at),
        2 => WFault::Full(at),
        3 => WFault::Crash(at),
        4 => WFault::Once(at),
        _ => WFault::Flush,
    }
}

fn elem_fault(n: u64) -> Opts {
    // the n-th element's own (de)serialisation fails, with an error or a panic
    Opts { serde_fault_at: 1 + draw((n + 1) as u32) as u64, serde_panics: chance(1, 2), ..Opts::default() }
}

fn disk_domain() {
    match pick(&[3, 2, 2, 1]) {
        0 => set_domain(0, 255, Overflow::Panic),
        1 => set_domain(-20, 60, Overflow::Panic),
        2 => set_domain(-100_000, 100_000, Overflow::Panic),
        _ => set_domain(i64::MIN as i128, i64::MAX as i128, Overflow::Panic),
    }
    ev!("domain {}..={}", domain().lo, domain().hi);
}

// ---------------------------------------------------------------------------------------------
// C07

pub fn c07() -> Res {
    set_even_only(false);
    disk_domain();
    while more(4) {
        let sp = span_start();
        episode_start();
        let ends = chance(1, 3);
        let w = window::<E>(8, ends);
        match pick(&[4, 3, 3, 2, 1]) {
            0 => file_episode(&w)?,
            1 => journal_episode(&w)?,
            2 => parts_episode(&w)?,
            3 => element_episode(&w)?,
            _ => builtin_episode()?,
        }
        episode_end();
        span_end(sp);
    }
    Ok(())
}

/// One file that is rewritten again and again, in place or through a temporary file.
fn file_episode(w: &Win) -> Res {
    let fmt = gen_fmt();
    let atomic = chance(1, 2);
    ev!("file {fmt:?} atomic {atomic}");
    let mut disk = Disk::default();
    // The value that a load must yield; or, after a save in place that did not finish, the one it
    // may yield.
    let mut acked: Option<Val> = None;
    let mut inflight: Option<Val> = None;
    while more(5) {
        let sp = span_start();
        stat("steps");
        match pick(&[3, 2, 1]) {
            0 => {
                let v = gen_val(w)?;
                let clean = encode(&v.s, fmt)?;
                let fault = gen_wfault(clean.len());
                let o = if chance(1, 6) { elem_fault(v.m.pieces * 2) } else { no_fault() };
                let name = if atomic { "tmp" } else { "data" };
                let f = disk.files.entry(name).or_default();
                let (r, _) = do_save(&v.s, fmt, f, fault, o, true)?;
                check_val(&"the value, after saving it", &v.s, &v.m, None)?;
                match r {
                    Saved::Ok => {
                        // sync, rename; the crash can come between
                        match if atomic { pick(&[6, 1, 1]) } else { pick(&[6, 1, 0]) } {
                            0 => {
                                disk.sync(name);
                                if atomic {
                                    let f = disk.files.remove("tmp").unwrap_or_default();
                                    disk.files.insert("data", f);
                                }
                                acked = Some(v);
                                inflight = None;
                            }
                            1 => {
                                stat("fault.crash_before_sync");
                                nontrivial();
                                disk.crash();
                                disk.files.remove("tmp");
                                if !atomic {
                                    acked = None;
                                    inflight = Some(v);
                                }
                            }
                            _ => {
                                stat("fault.crash_before_rename");
                                nontrivial();
                                disk.sync("tmp");
                                disk.crash();
                                disk.files.remove("tmp");
                            }
                        }
                    }
                    Saved::Crash => {
                        disk.crash();
                        disk.files.remove("tmp");
                        if !atomic {
                            acked = None;
                            inflight = Some(v);
                        }
                    }
                    Saved::Err | Saved::Panic => {
                        disk.files.remove("tmp");
                        if !atomic {
                            acked = None;
                            inflight = Some(v);
                        }
                    }
                }
            }
            1 => {
                if let Some(f) = disk.files.get("data") {
                    let data = f.cached.clone();
                    let fail = chance(1, 3).then(|| draw(data.len() as u32 + 1) as usize);
                    if let Some(v) = &acked {
                        let o = if chance(1, 5) { elem_fault(v.m.pieces * 2) } else { no_fault() };
                        let (l, fired) = do_load(ty(&v.s), fmt, &data, fail, o)?;
                        match l {
                            Loaded::Value(x) if fired => viol!(
                                "error-swallowed",
                                "a read error during loading was swallowed: got {x:?}"
                            ),
                            Loaded::Value(x) => same(v, &x, "loaded")?,
                            Loaded::Error(e) => ensure!(
                                fired,
                                "load-failed",
                                "loading what was saved fails: {e} ({} as {fmt:?}: {})",
                                v.m.show(),
                                show(&data)
                            ),
                            Loaded::Panic => {}
                        }
                        // and again, undisturbed
                        check_load(v, fmt, &data)?;
                    } else if let Some(v) = &inflight {
                        let (l, fired) = do_load(ty(&v.s), fmt, &data, fail, no_fault())?;
                        partial(v, fmt, l, fired, &data)?;
                    }
                }
            }
            _ => {
                stat("fault.crash_idle");
                disk.crash();
            }
        }
        if atomic || acked.is_some() {
            if let (Some(v), Some(f)) = (&acked, disk.files.get("data")) {
                check_load(v, fmt, &f.cached)?;
            }
        }
        span_end(sp);
    }
    Ok(())
}

/// Loading what an unfinished save of `v` left: an error, or, if all that matters is there, `v`.
fn partial(v: &Val, fmt: Fmt, l: Loaded, fired: bool, data: &[u8]) -> Res {
    match l {
        Loaded::Value(x) => {
            ensure!(!fired, "error-swallowed", "a read error during loading was swallowed: got {x:?}");
            let eq = plain(&"comparing", || x == v.s)?;
            ensure!(
                eq,
                "partial-loaded",
                "incomplete data loads as {x:?}; saved was {:?} ({fmt:?}: {})",
                v.s,
                show(data)
            );
            same(v, &x, "loaded")
        }
        Loaded::Error(_) => Ok(()),
        Loaded::Panic => viol!("stray-fault", "loading panicked"),
    }
}

/// Several values appended to one file; a crash tears the tail.
fn journal_episode(w: &Win) -> Res {
    let fmt = [Fmt::Json, Fmt::Bincode, Fmt::Cbor, Fmt::Pretty][draw_usize(4)];
    ev!("journal {fmt:?}");
    let mut disk = Disk::default();
    disk.files.entry("log").or_default();
    let mut acked: Vec<Val> = vec![];
    let mut dead = false;
    let mut torn: Option<Val> = None;
    while more(5) && !dead {
        let sp = span_start();
        stat("steps");
        let v = gen_val(w)?;
        let clean = encode(&v.s, fmt)?;
        let f = disk.files.get_mut("log").unwrap();
        let before = f.cached.len();
        let fault = if chance(1, 4) { gen_wfault(clean.len()) } else { WFault::None };
        let o = if chance(1, 10) { elem_fault(v.m.pieces * 2) } else { no_fault() };
        let (r, _) = do_save(&v.s, fmt, f, fault, o, false)?;
        match r {
            Saved::Ok => {
                disk.sync("log");
                acked.push(v);
            }
            Saved::Err | Saved::Panic => {
                if chance(1, 2) {
                    // roll back and go on
                    f.cached.truncate(before);
                } else {
                    torn = (f.cached.len() > before).then_some(v);
                    dead = true;
                }
            }
            Saved::Crash => {
                disk.crash();
                let n = disk.files["log"].cached.len();
                torn = (n > before).then_some(v);
                dead = true;
            }
        }
        span_end(sp);
    }
    let data = disk.files["log"].cached.clone();
    // Recovery: read the values back, one after the other, from one stream.
    let mut r = Reader { chop: chop(), eintr: eintr(), ..Reader::plain(&data) };
    let tys: Vec<Ty> = acked.iter().map(|v| ty(&v.s)).collect();
    let tail = torn.as_ref().map(|v| ty(&v.s));
    let got: Vec<Result<Any, String>> = plain(&"reading the journal", || {
        let mut out = vec![];
        match fmt {
            Fmt::Bincode => {
                for t in tys.iter().chain(tail.iter()) {
                    out.push(load(*t, fmt, &mut r));
                }
            }
            Fmt::Cbor => {
                for t in tys.iter().chain(tail.iter()) {
                    out.push(load(*t, fmt, &mut r));
                }
            }
            _ => {
                let mut de = serde_json::Deserializer::from_reader(&mut r);
                for t in tys.iter().chain(tail.iter()) {
                    out.push(load_de(*t, &mut de).map_err(|e| e.to_string()));
                }
            }
        }
        out
    })?;
    stat_n("fault.short_read", r.shorts);
    stat_n("fault.interrupted_read", r.intrs);
    ev!("recovered {} of {} values, torn tail {}", acked.len(), got.len(), torn.is_some());
    if torn.is_some() {
        nontrivial();
    }
    for (i, v) in acked.iter().enumerate() {
        match &got[i] {
            Ok(x) => same(v, x, "recovered")?,
            Err(e) => viol!("load-failed", "value {i} of the journal cannot be recovered: {e}"),
        }
    }
    if let (Some(v), Some(l)) = (&torn, got.into_iter().nth(acked.len())) {
        let l = match l {
            Ok(x) => Loaded::Value(x),
            Err(e) => Loaded::Error(e),
        };
        partial(v, fmt, l, false, &data)?;
    }
    Ok(())
}

fn objects<'a>(v: &'a mut Value, out: &mut Vec<*mut serde_json::Map<String, Value>>) {
    match v {
        Value::Object(m) => {
            if !m.is_empty() {
                out.push(m as *mut _);
            }
            for (_, x) in m.iter_mut() {
                objects(x, out);
            }
        }
        Value::Array(a) => {
            for x in a.iter_mut() {
                objects(x, out);
            }
        }
        _ => {}
    }
}

/// Data cut off at any byte, and data that lacks a part.
fn parts_episode(w: &Win) -> Res {
    let v = gen_val(w)?;
    nontrivial();
    for _ in 0..1 + draw(3) {
        let fmt = gen_fmt();
        let data = encode(&v.s, fmt)?;
        check_load(&v, fmt, &data)?;
        // Cut at every byte of small files, at some of big ones.
        let step = 1 + data.len() / 160;
        let off = if step > 1 { draw(step as u32) as usize } else { 0 };
        let mut k = off;
        while k < data.len() {
            let l = plain(&"loading", || load(ty(&v.s), fmt, &mut Reader::plain(&data[..k])))?;
            stat("fault.truncated");
            let l = match l {
                Ok(x) => Loaded::Value(x),
                Err(e) => Loaded::Error(e),
            };
            partial(&v, fmt, l, false, &data[..k])?;
            k += step;
        }
        // An unreadable byte.
        let mut k = off;
        let step = step * 3;
        while k < data.len() {
            let mut r = Reader { fail: Some(k), ..Reader::plain(&data) };
            let l = plain(&"loading", || load(ty(&v.s), fmt, &mut r))?;
            stat("fault.read_error");
            if let (Ok(x), true) = (&l, r.fired) {
                viol!("error-swallowed", "a read error at byte {k} was swallowed: got {x:?} from {}", show(&data));
            }
            k += step;
        }
        ev!("cut {fmt:?} {} bytes", data.len());
    }
    if matches!(ty(&v.s), Ty::Er | Ty::Ur) {
        return Ok(());
    }
    let tree: Value = serde_json::from_slice(&encode(&v.s, Fmt::Json)?)
        .map_err(|e| Viol { class: "bad-json", msg: e.to_string() })?;
    // Drop every component in turn.
    let n = {
        let mut t = tree.clone();
        let mut o = vec![];
        objects(&mut t, &mut o);
        o.len()
    };
    for i in 0..n {
        let mut k = 0;
        loop {
            let mut t = tree.clone();
            let mut o = vec![];
            objects(&mut t, &mut o);
            // Safety: the pointers point into `t`, and only one is used.
            let m = unsafe { &mut *o[i] };
            let Some(key) = m.keys().nth(k).cloned() else { break };
            m.remove(&key);
            drop(o);
            stat("fault.missing_part");
            let bytes = serde_json::to_vec(&t).unwrap_or_default();
            for fmt in [Fmt::Json, Fmt::JsonTree] {
                let l = plain(&"loading", || load(ty(&v.s), fmt, &mut Reader::plain(&bytes)))?;
                let l = match l {
                    Ok(x) => Loaded::Value(x),
                    Err(e) => Loaded::Error(e),
                };
                partial(&v, fmt, l, false, &bytes)?;
            }
            let mut cb = vec![];
            if ciborium::into_writer(&t, &mut cb).is_ok() {
                let l = plain(&"loading", || load(ty(&v.s), Fmt::Cbor, &mut Reader::plain(&cb)))?;
                let l = match l {
                    Ok(x) => Loaded::Value(x),
                    Err(e) => Loaded::Error(e),
                };
                partial(&v, Fmt::Cbor, l, false, &cb)?;
            }
            k += 1;
        }
    }
    ev!("dropped the parts of {n} components");
    Ok(())
}

/// Every element's own (de)serialisation fails in turn, and comparisons fail during loading.
fn element_episode(w: &Win) -> Res {
    let v = gen_val(w)?;
    let fmt = gen_fmt();
    let data = encode(&v.s, fmt)?;
    let n = ctl_after().serdes;
    for at in 1..=n.min(40) {
        let panics = chance(1, 3);
        let mut b = vec![];
        let o = Opts { serde_fault_at: at, serde_panics: panics, ..Opts::default() };
        match call(o, || save(&v.s, fmt, &mut b)) {
            Out::Ok(Err(_)) | Out::Fault => nontrivial(),
            Out::Ok(Ok(())) => {
                viol!("error-swallowed", "element {at} could not be saved, but saving reports success: {}", show(&b))
            }
            o => {
                let _ = o.expect_ok(&"saving")?;
            }
        }
        let mut r = Reader::plain(&data);
        let o = Opts { serde_fault_at: at, serde_panics: panics, ..Opts::default() };
        let out = call(o, || load(ty(&v.s), fmt, &mut r));
        let fired = ctl_after().fault_fired;
        match out {
            Out::Ok(Err(_)) | Out::Fault => {}
            Out::Ok(Ok(x)) => {
                ensure!(!fired, "error-swallowed", "element {at} could not be loaded, but loading gives {x:?}");
                same(&v, &x, "loaded")?;
            }
            o => {
                o.expect_ok(&"loading")?.ok();
            }
        }
    }
    // Loading compares elements, too; a panic there must come out, and a retry succeed.
    let _ = plain(&"loading", || load(ty(&v.s), fmt, &mut Reader::plain(&data)))?;
    let calls = ctl_after().calls;
    for _ in 0..calls.min(6) {
        let at = 1 + draw(calls as u32) as u64;
        let o = Opts { fault_at: at, ..Opts::default() };
        match call(o, || load(ty(&v.s), fmt, &mut Reader::plain(&data))) {
            Out::Fault => nontrivial(),
            o => match o.expect_ok(&"loading")? {
                Ok(x) => same(&v, &x, "loaded")?,
                Err(e) => viol!("load-failed", "loading what was saved fails: {e}"),
            },
        }
    }
    ev!("failed {n} elements in turn, as {fmt:?}");
    check_val(&"the value, after failed saves", &v.s, &v.m, None)?;
    let again = encode(&v.s, fmt)?;
    check_load(&v, fmt, &again)
}

/// Built-in element types, whose own encodings differ between formats.
fn builtin_episode() -> Res {
    fn one<T: Dom + Serialize + DeserializeOwned>() -> Res {
        use crate::gen::{gen_bounded, gen_lower, Bounded, Lower};
        let ends = chance(1, 2);
        let w = window::<T>(8, ends);
        let mut fmt = gen_fmt();
        // serde_json's in-memory tree has no 128-bit numbers
        if fmt == Fmt::JsonTree {
            fmt = Fmt::Json;
        }
        fn trip<V: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(
            v: &V,
            fmt: Fmt,
            m: &MSet,
        ) -> Res {
            let mut f = File::default();
            let mut wr = Writer {
                file: &mut f,
                at: 0,
                fault: WFault::None,
                fired: false,
                chop: chop(),
                eintr: eintr(),
                calls: 0,
                shorts: 0,
                intrs: 0,
            };
            plain(&"saving", || save_as(v, fmt, &mut wr))?
                .map_err(|e| Viol { class: "save-failed", msg: format!("saving {v:?} as {fmt:?} fails: {e}") })?;
            let (s, i) = (wr.shorts, wr.intrs);
            stat_n("fault.short_write", s);
            stat_n("fault.interrupted_write", i);
            let mut r = Reader { chop: chop(), eintr: eintr(), ..Reader::plain(&f.cached) };
            let x = plain(&"loading", || load_as::<V>(fmt, &mut r))?.map_err(|e| Viol {
                class: "load-failed",
                msg: format!("loading {v:?} as {fmt:?} fails: {e} ({})", show(&f.cached)),
            })?;
            ensure!(x == *v, "loaded-different", "saved {v:?}, loaded {x:?}");
            for k in [f.cached.len() / 2, f.cached.len().saturating_sub(1)] {
                if k < f.cached.len() {
                    let l = plain(&"loading", || load_as::<V>(fmt, &mut Reader::plain(&f.cached[..k])))?;
                    stat("fault.truncated");
                    if let Ok(x) = l {
                        ensure!(x == *v, "partial-loaded", "{k} of {} bytes of {v:?} load as {x:?}", f.cached.len());
                    }
                }
            }
            ev!("{fmt:?} {}", m.show());
            Ok(())
        }
        if chance(1, 2) {
            let (b, m) = gen_bounded::<T>(&w, false)?;
            match b {
                Bounded::R(x) => trip(&x, fmt, &m),
                Bounded::S(x) => trip(&x, fmt, &m),
            }
        } else {
            let (b, m) = gen_lower::<T>(&w, false)?;
            match b {
                Lower::R(x) => trip(&x, fmt, &m),
                Lower::S(x) => trip(&x, fmt, &m),
            }
        }
    }
    nontrivial();
    match draw(8) {
        0 => one::<u8>(),
        1 => one::<char>(),
        2 => one::<i64>(),
        3 => one::<u64>(),
        4 => one::<i8>(),
        5 => one::<i128>(),
        6 => one::<u128>(),
        _ => one::<usize>(),
    }
}

// ---------------------------------------------------------------------------------------------
// C08

const MARGIN: i128 = 8;

/// Stored values lie in a small domain, so that membership can be asked of every element. In
/// strict mode the element type accepts only even numbers from storage; then any room between two
/// bounds holds an element, and emptiness and overlap tests have one right answer.
pub fn c08() -> Res {
    let strict = chance(2, 3);
    set_even_only(strict);
    let hi = [40i128, 16, 80, 160][pick(&[6, 2, 2, 1])];
    // Endless sets need room above their bounds.
    set_domain(0, hi + MARGIN, Overflow::Panic);
    set_stored_top(hi as i64);
    ev!("domain 0..={hi}+{MARGIN} strict {strict}");
    while more(6) {
        let sp = span_start();
        episode_start();
        c08_episode(strict)?;
        episode_end();
        span_end(sp);
    }
    set_even_only(false);
    set_stored_top(i64::MAX);
    Ok(())
}

fn stored_num(hi: i64, strict: bool) -> i64 {
    let n = draw(hi as u32 + 1) as i64;
    if strict && chance(19, 20) {
        n & !1
    } else {
        n
    }
}

fn nodes(v: &mut Value, out: &mut Vec<*mut Value>) {
    out.push(v as *mut _);
    match v {
        Value::Object(m) => m.iter_mut().for_each(|(_, x)| nodes(x, out)),
        Value::Array(a) => a.iter_mut().for_each(|x| nodes(x, out)),
        _ => {}
    }
}

fn pick_node(root: &mut Value, want: impl Fn(&Value) -> bool) -> Option<&mut Value> {
    let mut all = vec![];
    nodes(root, &mut all);
    // Safety: each pointer points into `root`; one is used at a time, and one is returned.
    let fit: Vec<*mut Value> = all.into_iter().filter(|p| want(unsafe { &**p })).collect();
    if fit.is_empty() {
        return None;
    }
    let i = draw_usize(fit.len());
    let p = fit[i];
    Some(unsafe { &mut *p })
}

fn mutate_tree(t: &mut Value, other: &Value, hi: i64, strict: bool) -> Option<&'static str> {
    let is_list = |v: &Value| v.as_array().map_or(false, |a| !a.is_empty());
    match pick(&[6, 3, 3, 2, 3, 3, 2, 1, 1, 2]) {
        0 => {
            let n = pick_node(t, |v| v.is_i64() || v.is_u64())?;
            *n = stored_num(hi, strict).into();
            Some("damage.number")
        }
        1 => {
            let a = pick_node(t, is_list)?.as_array_mut()?;
            let (i, j) = (draw_usize(a.len()), draw_usize(a.len()));
            a.swap(i, j);
            Some("damage.reordered")
        }
        2 => {
            let a = pick_node(t, is_list)?.as_array_mut()?;
            let x = a[draw_usize(a.len())].clone();
            let at = draw_usize(a.len() + 1);
            a.insert(at, x);
            Some("damage.duplicated")
        }
        3 => {
            let a = pick_node(t, is_list)?.as_array_mut()?;
            let at = draw_usize(a.len());
            a.remove(at);
            Some("damage.dropped")
        }
        4 => {
            // pieces of another value of the same type
            let mut o = other.clone();
            let src = pick_node(&mut o, is_list)?.as_array()?.clone();
            let a = pick_node(t, Value::is_array)?.as_array_mut()?;
            for x in src {
                if chance(1, 2) {
                    let at = draw_usize(a.len() + 1);
                    a.insert(at, x);
                }
            }
            Some("damage.spliced")
        }
        5 => {
            // a whole component replaced by the corresponding one of another value
            let mut o = other.clone();
            let src = pick_node(&mut o, Value::is_object)?.clone();
            let keys: Vec<String> = src.as_object()?.keys().cloned().collect();
            let dst = pick_node(t, |v| {
                v.as_object().map_or(false, |m| m.keys().cloned().collect::<Vec<_>>() == keys)
            })?;
            *dst = src;
            Some("damage.replaced")
        }
        6 => {
            // included <-> excluded and the like: another key used elsewhere in the data
            let mut o = other.clone();
            let from = pick_node(&mut o, |v| v.as_object().map_or(false, |m| m.len() == 1))?;
            let key = from.as_object()?.keys().next()?.clone();
            let dst = pick_node(t, |v| v.as_object().map_or(false, |m| m.len() == 1))?.as_object_mut()?;
            let old = dst.keys().next()?.clone();
            let x = dst.remove(&old)?;
            dst.insert(key, x);
            Some("damage.renamed")
        }
        7 => {
            let m = pick_node(t, |v| v.as_object().map_or(false, |m| !m.is_empty()))?.as_object_mut()?;
            let key = m.keys().nth(draw_usize(m.len()))?.clone();
            m.remove(&key);
            Some("damage.missing")
        }
        8 => {
            let n = pick_node(t, |_| true)?;
            *n = match draw(5) {
                0 => Value::Null,
                1 => Value::Array(vec![]),
                2 => Value::Bool(true),
                3 => stored_num(hi, strict).into(),
                _ => Value::String("Full".into()),
            };
            Some("damage.replaced_by_junk")
        }
        _ => {
            // the bounds of one piece swapped
            let m = pick_node(t, |v| v.as_object().map_or(false, |m| m.len() == 2))?.as_object_mut()?;
            let keys: Vec<String> = m.keys().cloned().collect();
            let (a, b) = (m[&keys[0]].clone(), m[&keys[1]].clone());
            m[&keys[0]] = b;
            m[&keys[1]] = a;
            Some("damage.bounds_swapped")
        }
    }
}

fn mutate_bytes(b: &mut Vec<u8>, other: &[u8]) -> &'static str {
    if b.is_empty() {
        return "damage.none";
    }
    let n = b.len();
    match pick(&[4, 3, 2, 2, 1, 2, 1]) {
        0 => {
            let i = draw_usize(n);
            b[i] ^= 1 << draw(8);
            "damage.bit_flip"
        }
        1 => {
            let i = draw_usize(n);
            b[i] = b[i].wrapping_add(1 + draw(4) as u8).wrapping_sub(2);
            "damage.byte_changed"
        }
        2 => {
            // a lost block reads as zeros
            let i = draw_usize(n);
            let k = 1 + draw_usize(16);
            for x in b.iter_mut().skip(i).take(k) {
                *x = 0;
            }
            "damage.lost_block"
        }
        3 => {
            let i = draw_usize(n);
            let k = (1 + draw_usize(24)).min(n - i);
            let part = b[i..i + k].to_vec();
            let at = draw_usize(n + 1);
            let tail = b.split_off(at);
            b.extend(part);
            b.extend(tail);
            "damage.block_duplicated"
        }
        4 => {
            let i = draw_usize(n);
            let k = (1 + draw_usize(24)).min(n - i);
            b.drain(i..i + k);
            "damage.block_dropped"
        }
        5 => {
            // a misdirected write: a block of another file
            if !other.is_empty() {
                let k = 1 + draw_usize(other.len().min(32));
                let i = draw_usize(other.len() - k + 1);
                let at = draw_usize(n);
                for (d, s) in b.iter_mut().skip(at).zip(&other[i..i + k]) {
                    *d = *s;
                }
            }
            "damage.misdirected_block"
        }
        _ => {
            let k = 1 + draw_usize(8.min(n));
            b.truncate(n - k.min(n));
            b.extend_from_slice(other);
            "damage.torn_and_mixed"
        }
    }
}

fn gen_stored(t: Ty, w: &Win) -> Res<Val> {
    // a value of the given type; the generator is asked again a few times
    for _ in 0..6 {
        let v = gen_val(w)?;
        if ty(&v.s) == t {
            return Ok(v);
        }
    }
    let f = gen_val(w)?;
    // direct constructions
    let (a, b) = w.pair();
    let (x, y) = (E::mk(a), E::mk(b));
    let s: Any = match t {
        Ty::Br => BoundedRange::from(x..y).into(),
        Ty::Lbr => LowerBoundedRange::from(x..).into(),
        Ty::Ubr => UpperBoundedRange::from(..y).into(),
        Ty::Ur => UnboundedRange::new().into(),
        Ty::Er => EmptyRange::new().into(),
        Ty::Bs => plain(&"union", || (x..y).union(E::mk(w.lo)..E::mk(w.lo + 1)))?.into(),
        Ty::Lbs => plain(&"union", || (x..).union(E::mk(w.lo)..E::mk(w.lo + 1)))?.into(),
        Ty::Ubs => plain(&"union", || (..x).union(E::mk(w.hi)..=E::mk(w.hi)))?.into(),
        Ty::Us => plain(&"union", || (..x).union(y..))?.into(),
    };
    Ok(Val { s, m: f.m })
}

/// Data of type `t`, written from scratch: any pieces in any order, in the shape that saving uses.
fn synth(t: Ty, hi: i64, strict: bool) -> Res<Option<Value>> {
    // The shape comes from saved values, so that it is right whatever the code calls its parts.
    let e = |v: i64| E::mk(v as i128);
    let n = [2usize, 3, 4, 6, 1, 14][pick(&[4, 3, 2, 1, 1, 1])];
    let mut pieces = vec![];
    for _ in 0..n {
        let (mut a, mut b) = (stored_num(hi, strict), stored_num(hi, strict));
        if a > b && !chance(1, 6) {
            std::mem::swap(&mut a, &mut b);
        }
        if chance(1, 3) {
            b = (a + [0, 2, 4][draw_usize(3)]).min(hi & !1);
        }
        let lo = if chance(1, 3) { LowerBound::excluded(e(a)) } else { LowerBound::included(e(a)) };
        let up = if chance(1, 3) { UpperBound::included(e(b)) } else { UpperBound::excluded(e(b)) };
        pieces.push(BoundedRange::new(lo, up));
    }
    let (x, y) = (stored_num(hi, strict), stored_num(hi, strict));
    // A template with the right number of pieces in its list, then every piece replaced.
    let template: Any = plain(&"building", || -> Any {
        let base = BoundedSet::from(BoundedRange::from(e(0)..e(2)));
        match t {
            Ty::Bs => base.into(),
            Ty::Lbs => base.union(e(hi)..).into(),
            Ty::Ubs => (..e(0)).union(e(2)..e(4)).into(),
            _ => (..e(0)).union(e(2)..e(4)).union(e(hi)..).into(),
        }
    })?;
    let mut tree: Value = serde_json::from_slice(&encode(&template, Fmt::Json)?)
        .map_err(|e| Viol { class: "bad-json", msg: e.to_string() })?;
    let mut list = vec![];
    for p in &pieces {
        let b = encode(&Any::from(*p), Fmt::Json)?;
        list.push(serde_json::from_slice(&b).map_err(|e| Viol { class: "bad-json", msg: e.to_string() })?);
    }
    let Some(a) = pick_node(&mut tree, Value::is_array) else { return Ok(None) };
    *a = Value::Array(list);
    // the open ends
    if t != Ty::Bs {
        let mut all = vec![];
        nodes(&mut tree, &mut all);
        let mut k = 0;
        for p in all {
            // Safety: each points into `tree` and nothing else does now.
            let v = unsafe { &mut *p };
            if v.is_i64() || v.is_u64() {
                if v.as_i64() == Some(hi) {
                    *v = x.into();
                    k += 1;
                } else if v.as_i64() == Some(0) && k == 0 {
                    *v = y.into();
                }
            }
        }
    }
    Ok(Some(tree))
}

fn c08_win() -> Win {
    let hi = domain().hi - MARGIN;
    Win { lo: 0, hi, far: false, min: 0, max: hi, short: chance(1, 3) }
}

fn c08_episode(strict: bool) -> Res {
    let w = c08_win();
    let hi = w.hi as i64;
    set_even_only(false);
    let t = TYS[pick(&[6, 6, 4, 4, 3, 1, 1, 1, 1])];
    let mode = pick(&[3, 3, 4]);
    let fmt;
    let mut data;
    let mut what = String::new();
    if mode == 0 && matches!(t, Ty::Bs | Ty::Lbs | Ty::Ubs | Ty::Us) {
        let Some(tree) = synth(t, hi, strict)? else { return Ok(()) };
        what.push_str("arranged");
        stat("damage.arranged");
        (fmt, data) = from_tree(&tree)?;
    } else {
        let v = gen_stored(t, &w)?;
        let o = gen_stored(t, &w)?;
        if mode == 1 {
            fmt = gen_fmt();
            data = encode(&v.s, fmt)?;
            let other = encode(&o.s, fmt)?;
            let k = 1 + pick(&[4, 2, 1]);
            for _ in 0..k {
                let d = mutate_bytes(&mut data, &other);
                stat(d);
                what.push_str(d);
            }
        } else {
            let mut tree: Value = serde_json::from_slice(&encode(&v.s, Fmt::Json)?)
                .map_err(|e| Viol { class: "bad-json", msg: e.to_string() })?;
            let other: Value = serde_json::from_slice(&encode(&o.s, Fmt::Json)?)
                .map_err(|e| Viol { class: "bad-json", msg: e.to_string() })?;
            if strict {
                evens(&mut tree);
            }
            let mut other = other;
            if strict {
                evens(&mut other);
            }
            let k = [1usize, 2, 4, 8][pick(&[3, 3, 2, 1])];
            for _ in 0..k {
                if let Some(d) = mutate_tree(&mut tree, &other, hi, strict) {
                    stat(d);
                    what.push_str(d);
                }
            }
            (fmt, data) = from_tree(&tree)?;
        }
    }
    nontrivial();
    set_even_only(strict);
    ev!("{t:?} {fmt:?} {what}: {}", show(&data));
    let r = plain(&"loading damaged data", || load(t, fmt, &mut Reader::plain(&data)));
    set_even_only(false);
    match r? {
        Err(_) => {
            stat("rejected");
            Ok(())
        }
        Ok(v) => {
            stat("accepted");
            well_formed(&v, strict, &data)
        }
    }
}

fn evens(t: &mut Value) {
    let mut all = vec![];
    nodes(t, &mut all);
    for p in all {
        // Safety: each points into `t` and nothing else does.
        let v = unsafe { &mut *p };
        if let Some(n) = v.as_i64() {
            *v = (n & !1).into();
        }
    }
}

fn from_tree(t: &Value) -> Res<(Fmt, Vec<u8>)> {
    let fmt = [Fmt::Json, Fmt::JsonTree, Fmt::Cbor, Fmt::JsonSlice, Fmt::CborTree][draw_usize(5)];
    let mut b = vec![];
    match fmt {
        Fmt::Cbor | Fmt::CborTree => {
            let _ = ciborium::into_writer(t, &mut b);
        }
        _ => b = serde_json::to_vec(t).unwrap_or_default(),
    }
    Ok((fmt, b))
}

type Members = Vec<bool>;

fn members(v: &Any) -> Res<Members> {
    (0..=domain().hi).map(|p| plain(&"contains", || v.contains(E::mk(p)))).collect()
}

fn shows(m: &Members) -> String {
    let l: Vec<String> =
        m.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i.to_string()).collect();
    format!("[{}]", l.join(" "))
}

/// Iteration, size and emptiness agree with membership.
fn agree(what: &dyn std::fmt::Display, v: &Any, want: &Members, strict: bool) -> Res {
    let got = members(v)?;
    ensure!(
        got == *want,
        "wrong-members",
        "{what}: has members {}, expected {} ({v:?})",
        shows(&got),
        shows(want)
    );
    let any = want.iter().any(|b| *b);
    let e = plain(what, || v.is_empty())?;
    ensure!(!(e && any), "wrong-emptiness", "{what}: reported empty with members {} ({v:?})", shows(want));
    if strict {
        let open = matches!(ty(v), Ty::Ubs | Ty::Us | Ty::Ubr | Ty::Ur | Ty::Lbs | Ty::Lbr);
        ensure!(e || any || open, "wrong-emptiness", "{what}: reported not empty without members ({v:?})");
    }
    let list: Vec<i128> = (0..=domain().hi).filter(|p| want[*p as usize]).collect();
    let hi = domain().hi;
    match v {
        Any::Bs(_) | Any::Br(_) => {
            let k = list.len() + 3;
            let out = call(Opts { budget: 400_000, ..Opts::default() }, || v.clone().iterate(k));
            let (f, b) = out.expect_ok(what)?.expect("can be iterated");
            let f: Vec<i128> = f.iter().map(|x| x.o()).collect();
            ensure!(f == list, "wrong-iteration", "{what}: iterates as {f:?}, members are {list:?} ({v:?})");
            let mut b: Vec<i128> = b.unwrap_or_default().iter().map(|x| x.o()).collect();
            b.reverse();
            ensure!(b == list, "wrong-iteration", "{what}: iterates backwards as {b:?}, members are {list:?} ({v:?})");
            let skip = draw_usize(k);
            let (hint, count, nth, nth_back) = plain(what, || match v {
                Any::Bs(x) => {
                    let i = x.clone().into_iter();
                    (i.size_hint(), i.clone().count(), i.clone().nth(skip), i.clone().nth_back(skip))
                }
                Any::Br(x) => {
                    let i = x.into_iter();
                    (i.size_hint(), i.clone().count(), i.clone().nth(skip), i.clone().nth_back(skip))
                }
                _ => unreachable!(),
            })?;
            let n = list.len();
            ensure!(
                hint == (n, Some(n)) && count == n,
                "wrong-size",
                "{what}: size hint {hint:?}, count {count}, members {n} ({v:?})"
            );
            ensure!(
                nth.map(|x| x.o()) == list.get(skip).copied()
                    && nth_back.map(|x| x.o()) == list.iter().rev().nth(skip).copied(),
                "wrong-iteration",
                "{what}: nth({skip}) is {nth:?}, nth_back {nth_back:?}, members are {list:?} ({v:?})"
            );
        }
        Any::Lbs(_) | Any::Lbr(_) => {
            // keep clear of the end of the domain
            let k = list.iter().filter(|p| **p <= hi - 4).count();
            let out = call(Opts { budget: 400_000, ..Opts::default() }, || v.clone().iterate(k));
            let (f, _) = out.expect_ok(what)?.expect("can be iterated");
            let f: Vec<i128> = f.iter().map(|x| x.o()).collect();
            ensure!(
                f == list[..k],
                "wrong-iteration",
                "{what}: iterates as {f:?}, members are {:?} ({v:?})",
                &list[..k]
            );
            if k > 0 {
                let skip = draw_usize(k);
                let nth = plain(what, || match v {
                    Any::Lbs(x) => x.clone().into_iter().nth(skip),
                    Any::Lbr(x) => x.clone().into_iter().nth(skip),
                    _ => unreachable!(),
                })?;
                ensure!(
                    nth.map(|x| x.o()) == Some(list[skip]),
                    "wrong-iteration",
                    "{what}: nth({skip}) is {nth:?}, members are {list:?} ({v:?})"
                );
            }
        }
        _ => {}
    }
    Ok(())
}

fn well_formed(v: &Any, strict: bool, data: &[u8]) -> Res {
    let m = members(v)?;
    let what = format!("loaded from {}", show(data));
    agree(&what, v, &m, strict)?;
    // Later operations, among them with other loaded-like values.
    let mut cur = (v.clone(), m);
    let n = 1 + draw(4);
    for _ in 0..n {
        let w = c08_win();
        let mut o = primitive(&w);
        if strict {
            // only even bounds
            o = even_primitive(&w);
        }
        let om: Members = (0..=domain().hi).map(|p| o.m.contains(p)).collect();
        let swap = chance(1, 2);
        let op = pick(&[3, 3, 3, 2, 1]);
        let zip = |f: fn(bool, bool) -> bool| -> Members {
            cur.1.iter().zip(&om).map(|(a, b)| f(*a, *b)).collect()
        };
        let (a, b) = if swap { (o.s.clone(), cur.0.clone()) } else { (cur.0.clone(), o.s.clone()) };
        let (name, s, want) = match op {
            0 => ("union", plain(&"union", || a.union(b))?, zip(|a, b| a || b)),
            1 => ("intersection", plain(&"intersection", || a.intersection(b))?, zip(|a, b| a && b)),
            2 => (
                "complement",
                plain(&"complement", || cur.0.clone().complement())?,
                cur.1.iter().map(|b| !b).collect(),
            ),
            3 => {
                let (d, i) = (
                    plain(&"disjoint", || a.clone().disjoint(b.clone()))?,
                    plain(&"intersects", || a.intersects(b))?,
                );
                let common = cur.1.iter().zip(&om).any(|(a, b)| *a && *b);
                ensure!(d != i, "wrong-overlap", "{what}: disjoint and intersects both {d}");
                ensure!(!(d && common), "wrong-overlap", "{what}: reported disjoint from {}", o.m.show());
                if strict {
                    // both open at the same end: they meet beyond the domain
                    let up = |t: &Any| matches!(t, Any::Lbs(_) | Any::Lbr(_) | Any::Us(_) | Any::Ur(_) | Any::RgFrom(_) | Any::RgFull(_));
                    let down = |t: &Any| matches!(t, Any::Ubs(_) | Any::Ubr(_) | Any::Us(_) | Any::Ur(_) | Any::RgTo(_) | Any::RgToIncl(_) | Any::RgFull(_));
                    let beyond = (up(&cur.0) && up(&o.s)) || (down(&cur.0) && down(&o.s));
                    ensure!(
                        d || common || beyond,
                        "wrong-overlap",
                        "{what}: reported to intersect {}",
                        o.m.show()
                    );
                }
                continue;
            }
            _ => ("to_set", plain(&"to_set", || cur.0.clone().to_set())?, cur.1.clone()),
        };
        ev!("{name} {}", o.m.show());
        let what = format!("{what}, then {name} with {} {}", o.s.kind(), o.m.show());
        let s = if s.is_std() { plain(&"to_inner", || s.to_inner())? } else { s };
        agree(&what, &s, &want, strict)?;
        cur = (s, want);
    }
    // Saving it and loading it again changes no member.
    if chance(1, 2) {
        let fmt = gen_fmt();
        let b = encode(&cur.0, fmt)?;
        let r = plain(&"loading", || load(ty(&cur.0), fmt, &mut Reader::plain(&b)))?;
        match r {
            Ok(x) => agree(&format!("{what}, ..., saved and loaded"), &x, &cur.1, strict)?,
            Err(e) => viol!("load-failed", "{what}, ..., saved again cannot be loaded: {e}"),
        }
    }
    Ok(())
}

/// A primitive range whose bounds are even.
fn even_primitive(w: &Win) -> Val {
    use crate::model::{after, before, NEG, POS};
    let (a, b) = w.pair();
    let (a, b) = (a & !1, b & !1);
    let (x, y) = (E::mk(a), E::mk(b));
    let (s, m): (Any, MSet) = match pick(&[3, 3, 3, 2, 2, 2, 2]) {
        0 => ((x..y).into(), MSet::range(before(a), before(b))),
        1 => ((x..=y).into(), MSet::range(before(a), after(b))),
        2 => ((x..).into(), MSet::range(before(a), POS)),
        3 => ((..y).into(), MSet::range(NEG, before(b))),
        4 => (
            BoundedRange::new(LowerBound::excluded(x), UpperBound::excluded(y)).into(),
            MSet::range(after(a), before(b)),
        ),
        5 => (LowerBoundedRange::new(LowerBound::excluded(x)).into(), MSet::range(after(a), POS)),
        _ => (UpperBoundedRange::new(UpperBound::included(y)).into(), MSet::range(NEG, after(b))),
    };
    Val { s, m }
}

// ---------------------------------------------------------------------------------------------
// C18: memory taken while loading

/// Stored data, often damaged so that it promises more than it holds, loaded and dropped again.
/// Returns the number of bytes of data and the most that loading took at a time.
#[cfg(feature = "mem")]
pub fn load_for_memory() -> Res<(usize, i64)> {
    use crate::alloc;
    let w = window::<E>(8, false);
    let v = gen_val(&w)?;
    let fmt = gen_fmt();
    let mut data = encode(&v.s, fmt)?;
    let k = pick(&[1, 3, 2, 1]);
    for _ in 0..k {
        if data.is_empty() {
            break;
        }
        if chance(2, 3) {
            // a length that is not true: lengths are numbers of one to eight bytes
            let at = if chance(1, 2) { 0 } else { draw_usize(data.len()) };
            let n = 1 + draw_usize(8);
            let x = if chance(1, 3) { 0xff } else { draw(256) as u8 };
            for b in data.iter_mut().skip(at).take(n) {
                *b = x;
            }
            stat("damage.false_length");
        } else {
            let name = mutate_bytes(&mut data, &[]);
            stat(name);
        }
        nontrivial();
    }
    if chance(1, 5) {
        let n = draw_usize(data.len() + 1);
        data.truncate(n);
        stat("damage.cut_short");
    }
    let fail = if chance(1, 4) { Some(draw_usize(data.len() + 1)) } else { None };
    let o = if chance(1, 4) { elem_fault(v.m.pieces * 2) } else { no_fault() };
    let before = alloc::live();
    alloc::reset_peak();
    let (l, _) = do_load(ty(&v.s), fmt, &data, fail, o)?;
    let most = alloc::peak() - before;
    drop(l);
    Ok((data.len(), most))
}
