// native harness: lxi-device (P01..P04)
#![allow(dead_code, unused_imports)]
#[path = "common.rs"]
#[macro_use]
mod common_h;
use common_h::*;
use futures::task::{waker, ArcWake};
use futures::{FutureExt, StreamExt};
use lxi_device::lock::{LockHandle, Mutex, RemoteLockHandle, SharedLock, SharedLockError, SharedLockMode, SpinMutex};
use lxi_device::util::EchoDevice;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

#[derive(Clone, Debug, PartialEq)]
struct Model {
    key: Option<Vec<u8>>,
    hs: Vec<bool>,
    he: Vec<bool>,
}
#[derive(Debug, PartialEq, Clone, Copy)]
enum E {
    Already,
    ByShared,
    ByExcl,
    Unlocked,
    Busy,
    Other,
}
fn e(x: &SharedLockError) -> E {
    match x {
        SharedLockError::AlreadyLocked => E::Already,
        SharedLockError::AlreadyUnlocked => E::Unlocked,
        SharedLockError::LockedByShared => E::ByShared,
        SharedLockError::LockedByExclusive => E::ByExcl,
        SharedLockError::Busy => E::Busy,
        _ => E::Other,
    }
}
impl Model {
    fn num(&self) -> u32 {
        self.hs.iter().filter(|x| **x).count() as u32
    }
    fn excl(&self) -> bool {
        self.he.iter().any(|x| *x)
    }
    fn can(&self, i: usize) -> Result<(), E> {
        if self.he[i] || (!self.excl() && (self.hs[i] || self.num() == 0)) {
            Ok(())
        } else if self.excl() {
            Err(E::ByExcl)
        } else {
            Err(E::ByShared)
        }
    }
    // None: refused with an error that the property does not name
    fn try_x(&mut self, i: usize) -> bool {
        let ok = !self.he[i] && !self.excl() && (self.num() == 0 || self.hs[i]);
        if ok {
            self.he[i] = true;
        }
        ok
    }
    fn try_s(&mut self, i: usize, k: &[u8]) -> bool {
        let ok = !self.hs[i] && ((self.num() == 0 && !self.excl()) || (self.num() > 0 && self.key.as_deref() == Some(k)));
        if ok {
            self.hs[i] = true;
            self.key = Some(k.to_vec());
        }
        ok
    }
    fn try_any(&mut self, i: usize, k: &[u8]) -> bool {
        if k.is_empty() {
            self.try_x(i)
        } else {
            self.try_s(i, k)
        }
    }
    fn grantable(&self, i: usize, w: &Want) -> bool {
        let mut m = self.clone();
        match w {
            Want::Dev => self.can(i).is_ok(),
            Want::X => m.try_x(i),
            Want::S(k) => m.try_s(i, k),
            Want::Any(k) => m.try_any(i, k),
        }
    }
    fn release(&mut self, i: usize) -> bool {
        let had = self.hs[i] || self.he[i];
        self.hs[i] = false;
        self.he[i] = false;
        if self.num() == 0 {
            self.key = None;
        }
        had
    }
}
#[derive(Clone, Debug)]
enum Want {
    Dev,
    X,
    S(Vec<u8>),
    Any(Vec<u8>),
}

type H = Arc<SpinMutex<LockHandle<EchoDevice>>>;

struct Flag(AtomicBool);
impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst);
    }
}

const KEYS: [&[u8]; 8] = [b"", b"a", b"b", b"ab", b"\0a", b"A", b"a\0", b"a "];

fn check_all(m: &Model, hs: &[H]) {
    for (i, h) in hs.iter().enumerate() {
        let h = h.lock();
        let (x, n) = h.lock_info();
        ensure!(x == m.excl(), "lock_info of handle {i} says exclusive={x}, holders say {}", m.excl());
        ensure!(n == m.num(), "lock_info of handle {i} says {n} shared holders, there are {}", m.num());
        ensure!(h.has_shared() == m.hs[i] && h.has_exclusive() == m.he[i], "handle {i} holds ({},{}) instead of ({},{})", h.has_shared(), h.has_exclusive(), m.hs[i], m.he[i]);
        let c = h.can_lock().map_err(|x| e(&x));
        ensure!(c == m.can(i), "can_lock of handle {i} is {c:?}, should be {:?}", m.can(i));
    }
}

fn p01(c: &mut Ctx) {
    c.rule = "random histories of acquire/release/drop by 2..4 handles compared with a reference lock after every step".into();
    while c.more() {
        let n = 2 + c.rng.us(3);
        let shared = SharedLock::new();
        let dev = Arc::new(Mutex::new(EchoDevice));
        let mut hs: Vec<H> = (0..n).map(|_| Arc::new(SpinMutex::new(LockHandle::new(shared.clone(), dev.clone())))).collect();
        let mut m = Model { key: None, hs: vec![false; n], he: vec![false; n] };
        let mut ops = format!("handles={n}");
        let len = 1 + c.rng.us(16);
        c.case(String::new());
        check_all(&m, &hs);
        for _ in 0..len {
            let i = c.rng.us(n);
            let k = KEYS[c.rng.us(KEYS.len())];
            let o = c.rng.below(12);
            ops += &format!("; {}", match o { 0..=2 => format!("{i}.try_acquire({k:?})"), 3 => format!("{i}.try_acquire_exclusive"), 4 | 5 => format!("{i}.try_acquire_shared({k:?})"),
                6 => format!("{i}.remote.try_acquire({k:?})"), 7 | 8 => format!("{i}.try_release"), 9 => format!("{i}.force_release"), 10 => format!("{i}.drop+new"), _ => format!("{i}.async_acquire({k:?}) polled once") });
            set_case(ops.clone());
            let m0 = m.clone();
            match o {
                0..=6 => {
                    let (got, want) = match o {
                        3 => (hs[i].lock().try_acquire_exclusive(), m.try_x(i)),
                        4 | 5 => (hs[i].lock().try_acquire_shared(k), m.try_s(i, k)),
                        6 => (RemoteLockHandle::new(hs[i].clone()).try_acquire(k), m.try_any(i, k)),
                        _ => (hs[i].lock().try_acquire(k), m.try_any(i, k)),
                    };
                    ensure!(got.is_ok() == want, "request is {got:?}, but granted should be {want} in {m0:?}");
                    if let Err(x) = got {
                        let named = e(&x);
                        ensure!(named == E::Already || (named == E::ByExcl && m0.excl()) || (named == E::ByShared && m0.num() > 0), "refused with {named:?} in {m0:?}");
                        ensure!(named != E::Already || m0.hs[i] || m0.he[i], "AlreadyLocked for a handle that holds nothing");
                    }
                }
                7 | 8 => {
                    let had = m.release(i);
                    let r = hs[i].lock().try_release();
                    ensure!(r.is_ok() == had, "release of {m0:?} is {r:?}");
                }
                9 => {
                    m.release(i);
                    hs[i].lock().force_release();
                }
                10 => {
                    m.release(i);
                    hs[i] = Arc::new(SpinMutex::new(LockHandle::new(shared.clone(), dev.clone())));
                }
                _ => {
                    let mut g = hs[i].lock();
                    let ok = m.grantable(i, &Want::Any(k.to_vec()));
                    let mine = if k.is_empty() { m.he[i] } else { m.hs[i] || (m.num() == 0 && m.he[i]) };
                    let w = waker(Arc::new(Flag(AtomicBool::new(false))));
                    let mut f = Box::pin(g.async_acquire(k));
                    let r = f.as_mut().poll(&mut Context::from_waker(&w));
                    match r {
                        Poll::Ready(Ok(())) => ensure!(ok, "async acquire granted in {m0:?}"),
                        Poll::Ready(Err(x)) => ensure!(mine, "async acquire refused with {x:?} in {m0:?}"),
                        Poll::Pending => ensure!(!ok && !mine, "async acquire keeps waiting in {m0:?}"),
                    }
                    if ok {
                        m.try_any(i, k);
                    }
                }
            }
            c.evals += 1;
            check_all(&m, &hs);
        }
    }
}

struct Waiter {
    who: usize,
    want: Want,
    desc: String,
    fut: Pin<Box<dyn Future<Output = (Result<(), E>, Option<Box<dyn std::any::Any>>)>>>,
    flag: Arc<Flag>,
}

fn wait_for(h: &H, want: &Want) -> Pin<Box<dyn Future<Output = (Result<(), E>, Option<Box<dyn std::any::Any>>)>>> {
    let h = h.clone();
    let want = want.clone();
    Box::pin(async move {
        let r = RemoteLockHandle::new(h);
        match want {
            Want::Dev => match r.async_lock().await {
                Ok(g) => {
                    drop(g);
                    (Ok(()), None)
                }
                Err(x) => (Err(e(&x)), None),
            },
            Want::X => (r.async_acquire(b"").await.map_err(|x| e(&x)), None),
            Want::S(k) | Want::Any(k) => (r.async_acquire(&k).await.map_err(|x| e(&x)), None),
        }
    })
}

// a handle that is used locally while it waits (it is only given back when the wait is over)
fn wait_local(shared: &Arc<SpinMutex<SharedLock>>, dev: &Arc<Mutex<EchoDevice>>, want: &Want, keep: bool) -> Pin<Box<dyn Future<Output = (Result<(), E>, Option<Box<dyn std::any::Any>>)>>> {
    let mut h = LockHandle::new(shared.clone(), dev.clone());
    let want = want.clone();
    Box::pin(async move {
        let r = match &want {
            Want::Dev => h.async_lock().await.map(|g| drop(g)),
            Want::X => h.async_acquire_exclusive().await,
            Want::S(k) => h.async_acquire_shared(k).await,
            Want::Any(k) => h.async_acquire(k).await,
        };
        let r = r.map_err(|x| e(&x));
        (r, if keep { Some(Box::new(h) as Box<dyn std::any::Any>) } else { None })
    })
}

// P02 and P03: waiting accesses and acquisitions, woken only through the lock's own notifications
fn waits(c: &mut Ctx, p02: bool) {
    c.rule = "random histories with waiting accesses/acquisitions polled only when woken; no waiter may sleep when its condition holds, none may get the device while locked out".into();
    while c.more() {
        // now and then many clients that wait
        let crowd = c.rng.one_in(300);
        let n = if crowd { 20 + c.rng.us(130) } else { 2 + c.rng.us(3) };
        let shared = SharedLock::new();
        let dev = Arc::new(Mutex::new(EchoDevice));
        // the last slots belong to local waiters
        let nl = 2;
        let hs: Vec<H> = (0..n).map(|_| Arc::new(SpinMutex::new(LockHandle::new(shared.clone(), dev.clone())))).collect();
        let mut m = Model { key: None, hs: vec![false; n + nl], he: vec![false; n + nl] };
        let mut kept: Vec<Option<Box<dyn std::any::Any>>> = (0..nl).map(|_| None).collect();
        let mut ws: Vec<Waiter> = vec![];
        let mut guard = None;
        let mut ops = format!("handles={n}");
        c.case(String::new());
        if crowd && m.try_any(0, b"") {
            ops += "; 0.try_acquire([])";
            hs[0].lock().try_acquire(b"").unwrap();
        }
        let rounds = if crowd { 2 * n } else { 2 + c.rng.us(14) };
        for r in 0..rounds {
            // a crowd comes before anything else happens
            let i = if crowd && r < n { r } else { c.rng.us(n) };
            let k = KEYS[c.rng.us(3)];
            let o = if crowd && r < n { 0 } else { c.rng.below(16) };
            let before = m.clone();
            let registered: Vec<usize> = (0..ws.len()).collect();
            for w in &ws {
                w.flag.0.store(false, Ordering::SeqCst);
            }
            match o {
                0..=3 => {
                    // a new waiter; one per handle
                    if ws.iter().any(|w| w.who == i) {
                        continue;
                    }
                    let want = match c.rng.below(3) { 0 => Want::X, 1 => Want::S(KEYS[1 + c.rng.us(2)].to_vec()), _ => Want::Dev };
                    let desc = format!("{i} waits for {want:?}");
                    ops += &format!("; {desc}");
                    ws.push(Waiter { who: i, fut: wait_for(&hs[i], &want), want, desc, flag: Arc::new(Flag(AtomicBool::new(true))) });
                }
                4 | 5 => {
                    let l = c.rng.us(nl);
                    let who = n + l;
                    if kept[l].is_some() || ws.iter().any(|w| w.who == who) {
                        if kept[l].take().is_some() {
                            m.release(who);
                            ops += &format!("; {who} dropped");
                        } else {
                            // give up waiting
                            ws.retain(|w| w.who != who);
                            ops += &format!("; {who} gives up");
                        }
                    } else {
                        let want = match c.rng.below(4) { 0 => Want::X, 1 => Want::S(KEYS[1 + c.rng.us(2)].to_vec()), 2 => Want::Any(KEYS[c.rng.us(3)].to_vec()), _ => Want::Dev };
                        let desc = format!("{who} (local) waits for {want:?}");
                        ops += &format!("; {desc}");
                        ws.push(Waiter { who, fut: wait_local(&shared, &dev, &want, true), want, desc, flag: Arc::new(Flag(AtomicBool::new(true))) });
                    }
                }
                6..=8 => {
                    ops += &format!("; {i}.try_acquire({k:?})");
                    set_case(ops.clone());
                    let want = m.try_any(i, k);
                    let got = hs[i].lock().try_acquire(k);
                    if p02 { if got.is_ok() != want { break; } }
                    ensure!(got.is_ok() == want, "request is {got:?} in {before:?}");
                }
                9..=12 => {
                    ops += &format!("; {i}.release");
                    m.release(i);
                    hs[i].lock().force_release();
                }
                13 => {
                    if guard.is_none() {
                        guard = dev.try_lock();
                        ops += "; device busy";
                    } else {
                        guard = None;
                        ops += "; device free";
                    }
                }
                _ => {
                    ops += &format!("; {i}.try_lock");
                    set_case(ops.clone());
                    let h = hs[i].lock();
                    let remote = c.rng.flip();
                    let r = if remote {
                        drop(h);
                        let rh = RemoteLockHandle::new(hs[i].clone());
                        let x = futures::executor::block_on(rh.try_lock()).map(|_| ()).map_err(|x| e(&x));
                        x
                    } else {
                        let x = h.try_lock().map(|_| ()).map_err(|x| e(&x));
                        x
                    };
                    // a waiter that was handed the device mutex but has not run yet may make it busy
                    match (m.can(i), r) {
                        (Ok(()), Ok(())) => ensure!(guard.is_none(), "device given out while it is in use"),
                        (Ok(()), Err(E::Busy)) => ensure!(guard.is_some() || !ws.is_empty(), "busy although nobody uses the device"),
                        (Err(a), Err(b)) => ensure!(a == b, "try_lock of {i} refused with {b:?}, should be {a:?}"),
                        (a, b) => fail(&format!("try_lock of handle {i} is {b:?}, should be {a:?} in {m:?}")),
                    }
                }
            }
            set_case(ops.clone());
            let granted = m != before && (m.num() > before.num() || (m.excl() && !before.excl()));
            let freed = (before.excl() && !m.excl()) || (before.num() > 0 && m.num() == 0);
            if !p02 && (granted || freed) && (6..=12).contains(&o) {
                for &j in &registered {
                    // a waiter for the device that is only blocked by the device mutex is registered too
                    ensure!(ws[j].flag.0.load(Ordering::SeqCst), "'{}' was not woken by the last operation", ws[j].desc);
                }
            }
            // run woken waiters
            loop {
                let Some(j) = ws.iter().position(|w| w.flag.0.load(Ordering::SeqCst)) else { break };
                ws[j].flag.0.store(false, Ordering::SeqCst);
                let w = waker(ws[j].flag.clone());
                let who = ws[j].who;
                let can = m.grantable(who, &ws[j].want);
                let r = ws[j].fut.as_mut().poll(&mut Context::from_waker(&w));
                if let Poll::Ready((r, keep)) = r {
                    match r {
                        Ok(()) => {
                            ensure!(can, "'{}' completed although {m:?} does not allow it", ws[j].desc);
                            if matches!(ws[j].want, Want::Dev) {
                                ensure!(guard.is_none(), "'{}' got the device while it is in use", ws[j].desc);
                            }
                        }
                        Err(x) => {
                            let mine = match &ws[j].want { Want::X => m.he[who], Want::S(_) => m.hs[who] || (m.num() == 0 && m.he[who]), Want::Any(k) => if k.is_empty() { m.he[who] } else { m.hs[who] || m.he[who] }, Want::Dev => false };
                            ensure!(mine, "'{}' gave up with {x:?} in {m:?}", ws[j].desc);
                        }
                    }
                    let before = m.clone();
                    if r.is_ok() {
                        match ws[j].want.clone() {
                            Want::X => { m.try_x(who); }
                            Want::S(k) => { m.try_s(who, &k); }
                            Want::Any(k) => { m.try_any(who, &k); }
                            Want::Dev => {}
                        }
                    }
                    if who >= n {
                        if matches!(ws[j].want, Want::Dev) || r.is_err() { drop(keep); m.release(who); } else { kept[who - n] = keep; }
                    }
                    ws.remove(j);
                    let _ = before;
                }
                c.evals += 1;
            }
            // nobody sleeps through what it waits for
            for w in &ws {
                if m.grantable(w.who, &w.want) && !(matches!(w.want, Want::Dev) && guard.is_some()) {
                    fail(&format!("'{}' still sleeps although {m:?} allows it", w.desc));
                }
            }
        }
        c.distinct.insert(c.evals);
    }
}

fn p04(c: &mut Ctx) {
    c.rule = "random subscribe/clone/close/read/broadcast histories compared with one queue per receiver".into();
    while c.more() {
        let mut s = lxi_device::status::Sender::new();
        let mut other = s.clone();
        // receiver, expected queue
        let mut rs: Vec<(lxi_device::status::Receiver, Vec<u8>)> = vec![];
        let mut ops = String::new();
        c.case(String::new());
        if c.rng.one_in(50) {
            let n = 20 + c.rng.us(300);
            ops += &format!("; {n} times subscribe");
            for _ in 0..n {
                rs.push((s.get_new_receiver(), vec![]));
            }
        }
        for _ in 0..(1 + c.rng.us(20)) {
            match c.rng.below(8) {
                0 | 1 => {
                    ops += "; subscribe";
                    rs.push((if c.rng.flip() { s.get_new_receiver() } else { other.get_new_receiver() }, vec![]));
                }
                2 => {
                    if !rs.is_empty() {
                        let i = c.rng.us(rs.len());
                        if c.rng.flip() {
                            ops += &format!("; drop {i}");
                            rs.remove(i);
                        } else {
                            ops += &format!("; close {i}");
                            rs[i].0.close();
                            rs.remove(i);
                        }
                    }
                }
                3 | 4 => {
                    if !rs.is_empty() {
                        let i = c.rng.us(rs.len());
                        ops += &format!("; read {i}");
                        set_case(ops.clone());
                        let got = rs[i].0.next().now_or_never();
                        if rs[i].1.is_empty() {
                            ensure!(got.is_none(), "receiver {i} got {got:?}, nothing was sent");
                        } else {
                            let w = rs[i].1.remove(0);
                            ensure!(got == Some(Some(w)), "receiver {i} got {got:?}, should be {w}");
                        }
                    }
                }
                _ => {
                    let b = c.rng.byte();
                    ops += &format!("; send {b}");
                    // a channel(1) has room for one message plus one per sender
                    if c.rng.flip() { s.send_status(b) } else { other.send_status(b) }
                    for r in rs.iter_mut() {
                        if r.1.len() < 2 {
                            r.1.push(b);
                        }
                    }
                }
            }
            c.evals += 1;
            set_case(ops.clone());
        }
        for (i, (r, q)) in rs.iter_mut().enumerate() {
            for w in q.iter() {
                let got = r.next().now_or_never();
                ensure!(got == Some(Some(*w)), "receiver {i} got {got:?} at the end, should be {w}");
            }
            let got = r.next().now_or_never();
            ensure!(got.is_none(), "receiver {i} got {got:?}, nothing more was sent");
        }
        c.distinct.insert(c.evals);
    }
}

fn main() {
    let mut c = Ctx::start();
    match c.prop.as_str() {
        "P01" => p01(&mut c),
        "P02" => waits(&mut c, true),
        "P03" => waits(&mut c, false),
        "P04" => p04(&mut c),
        _ => {}
    }
    c.done()
}
