"""device/src/lock.rs: P01 lock bookkeeping, P02 access, P03 wake-ups."""
import re
from rx import File, Render, Contract, Lost, select_arms, break_to_return
from vx import Group
from common import wrap

PRELUDE = r'''
// ---- trusted stand-ins for futures::oneshot, spin::Mutex, futures::lock::Mutex ------------------------------
pub struct Sender<T> { pub id: Ghost<int>, pub x: Option<T> }
pub struct Receiver<T> { pub id: Ghost<int>, pub at: Ghost<int>, pub x: Option<T> }
impl<T> Sender<T> {
    #[verifier::external_body]
    fn send(self, t: T) -> (r: core::result::Result<(), T>) { unimplemented!() }
}
impl<T> Receiver<T> {
    // notes the time at which the receiver was registered
    #[verifier::external_body]
    fn vx_at(self, clock: Ghost<int>) -> (r: Self) ensures r.id == self.id, r.at@ == clock@ { unimplemented!() }
    // sleeps until notified: only allowed if the state was checked again after the registration
    // w counts the notifications: only executions with finitely many are considered where a loop has to end
    #[verifier::external_body]
    async fn vx_wait(self, clock: Ghost<int>, w: &mut Ghost<int>) -> (r: core::result::Result<T, ()>)
        requires /*P03*/ self.at@ < clock@ ensures final(w)@ == old(w)@ + 1, final(w)@ <= vx_finite() { unimplemented!() }
    // one branch of select!
    #[verifier::external_body]
    async fn vx_event(self, w: &mut Ghost<int>) -> (r: core::result::Result<T, ()>) ensures final(w)@ == old(w)@ + 1, final(w)@ <= vx_finite() { unimplemented!() }
}
#[verifier::external_body]
fn channel<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.id == r.1.id { unimplemented!() }
uninterp spec fn vx_finite() -> int;
#[verifier::external_body]
fn vx_choose() -> (r: u8) { unimplemented!() }
// Vec::drain(..), consumed completely
#[verifier::external_body]
fn vx_drain_all<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }

// a mutex whose content is arbitrary (within `rely`) each time it is taken; `log` records, for each critical
// section, the content when it was taken and when it was given back
pub struct SpinMutex<T> { pub v: T, pub log: Ghost<Seq<(T, T)>> }
impl<T> SpinMutex<T> {
    #[verifier::external_body]
    fn new(v: T) -> (r: Self) ensures r.v == v, r.log@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn lock(&mut self) -> (g: &mut T) ensures final(self).log@ == old(self).log@.push((*g, *final(g))) { unimplemented!() }
}
impl SpinMutex<SharedLock> {
    #[verifier::external_body]
    fn lock_as(&mut self, hs: Ghost<bool>, he: Ghost<bool>) -> (g: &mut SharedLock)
        ensures final(self).log@ == old(self).log@.push((*g, *final(g))), rely(g.ls(), hs@, he@) { unimplemented!() }
}
impl<T> Clone for SpinMutex<T> {
    #[verifier::external_body]
    fn clone(&self) -> Self { unimplemented!() }
}
pub struct MutexGuard<T> { pub at: Ghost<int>, pub x: Option<T> }
pub struct Mutex<T> { pub x: Option<T> }
impl<T> Mutex<T> {
    #[verifier::external_body]
    async fn lock(&self, clock: Ghost<int>, w: &mut Ghost<int>) -> (g: MutexGuard<T>) ensures g.at == clock, final(w)@ == old(w)@ + 1, final(w)@ <= vx_finite() { unimplemented!() }
    #[verifier::external_body]
    fn try_lock(&self, clock: Ghost<int>) -> (g: Option<MutexGuard<T>>) ensures g is Some ==> g->0.at == clock { unimplemented!() }
}
impl<T> Clone for Mutex<T> {
    #[verifier::external_body]
    fn clone(&self) -> Self { unimplemented!() }
}
type Arc<T> = T;


// ---- specification -----------------------------------------------------------------------------------------------
pub struct LS { pub key: Option<Seq<u8>>, pub num: int, pub excl: bool, pub waiters: Seq<int> }
impl SharedLock {
    pub open spec fn ls(&self) -> LS {
        LS { key: match self.shared_lock { Some(k) => Some(k@), None => None }, num: self.num_shared_locks as int,
             excl: self.exclusive_lock, waiters: self.event@.map(|i: int, s: Sender<()>| s.id@) }
    }
}
// what a handle may assume about the lock when it enters a critical section (discharged by `lemma_rely`)
pub open spec fn rely(s: LS, hs: bool, he: bool) -> bool {
    &&& (s.key is Some <==> s.num > 0)
    &&& (hs ==> s.num > 0)
    &&& (he ==> s.excl)
    &&& 0 <= s.num < 0xffff_ffff
}
// P02: is a handle that holds (hs, he) allowed to use the device?
pub open spec fn allowed(s: LS, hs: bool, he: bool) -> bool { he || (!s.excl && (hs || s.num == 0)) }
// the error that names the lock in the way
pub open spec fn names(e: SharedLockError, s: LS) -> bool {
    if s.excl { e is LockedByExclusive } else { e is LockedByShared }
}
pub open spec fn prefix(a: Seq<int>, b: Seq<int>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub open spec fn same(a: LS, b: LS) -> bool { a.key == b.key && a.num == b.num && a.excl == b.excl }
pub open spec fn quiet(e: (SharedLock, SharedLock)) -> bool {
    same(e.0.ls(), e.1.ls()) && prefix(e.0.ls().waiters, e.1.ls().waiters)
}
// only sections that change nothing (they may register waiters) were added
pub open spec fn ext(a: Seq<(SharedLock, SharedLock)>, b: Seq<(SharedLock, SharedLock)>) -> bool {
    &&& a.len() <= b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
    &&& forall|i: int| a.len() <= i < b.len() ==> quiet(#[trigger] b[i])
}
// as ext, followed by one section that may have changed something
pub open spec fn ext1(a: Seq<(SharedLock, SharedLock)>, b: Seq<(SharedLock, SharedLock)>) -> bool {
    &&& b.len() > a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
    &&& forall|i: int| a.len() <= i < b.len() - 1 ==> quiet(#[trigger] b[i])
}
pub open spec fn checked(a: Seq<(SharedLock, SharedLock)>, b: Seq<(SharedLock, SharedLock)>, hs: bool, he: bool, r: Result<(), SharedLockError>) -> bool {
    &&& ext(a, b)
    &&& r is Ok ==> he || (b.len() > a.len() && allowed(b.last().0.ls(), hs, he))
    &&& r is Err ==> b.len() > a.len() && !allowed(b.last().0.ls(), hs, he) && names(r->Err_0, b.last().0.ls())
}
// P01: the transitions
pub open spec fn excl_ok(s: LS, hs: bool, he: bool) -> bool { !he && !s.excl && (s.num == 0 || hs) }
pub open spec fn shared_ok(s: LS, hs: bool, he: bool, k: Seq<u8>) -> bool {
    !hs && ((s.num == 0 && !s.excl) || (s.num > 0 && s.key == Some(k)))
}
pub open spec fn step_excl(a: LS, b: LS, hs: bool, he: bool, hs2: bool, he2: bool, ok: bool) -> bool {
    &&& ok <==> excl_ok(a, hs, he)
    &&& ok ==> b.key == a.key && b.num == a.num && b.excl && hs2 == hs && he2
    &&& !ok ==> same(a, b) && hs2 == hs && he2 == he && prefix(a.waiters, b.waiters)
}
pub open spec fn step_shared(a: LS, b: LS, hs: bool, he: bool, hs2: bool, he2: bool, k: Seq<u8>, ok: bool) -> bool {
    &&& ok <==> shared_ok(a, hs, he, k)
    &&& ok ==> b.key == Some(k) && b.num == a.num + 1 && b.excl == a.excl && hs2 && he2 == he
    &&& !ok ==> same(a, b) && hs2 == hs && he2 == he && prefix(a.waiters, b.waiters)
}
pub open spec fn step_release(a: LS, b: LS, hs: bool, he: bool, hs2: bool, he2: bool) -> bool {
    &&& !hs2 && !he2
    &&& b.num == a.num - (if hs { 1int } else { 0 })
    &&& b.key == (if b.num == 0 { None } else { a.key })
    &&& b.excl == (a.excl && !he)
}
pub open spec fn freed(a: LS, b: LS) -> bool { (a.excl && !b.excl) || (a.num > 0 && b.num == 0) }
// ---- histories: one exclusive holder, one key, exact counts, whatever the handles do ------------------------------
// `sharers`, `owner`, `keys`: who holds what according to the handles themselves
pub struct G { pub s: LS, pub sharers: Set<int>, pub owner: Option<int>, pub keys: Map<int, Seq<u8>> }
pub open spec fn inv(g: G) -> bool {
    &&& g.sharers.finite() && g.sharers.len() == g.s.num && 0 <= g.s.num
    &&& (g.s.key is Some <==> g.s.num > 0)
    &&& (g.s.excl <==> g.owner is Some)
    &&& forall|i: int| #[trigger] g.sharers.contains(i) ==> g.s.key == Some(g.keys[i])
}
pub open spec fn hs_of(g: G, i: int) -> bool { g.sharers.contains(i) }
pub open spec fn he_of(g: G, i: int) -> bool { g.owner == Some(i) }
pub open spec fn others_kept(g: G, g2: G, i: int) -> bool {
    forall|j: int| j != i ==> (#[trigger] hs_of(g2, j) == hs_of(g, j) && he_of(g2, j) == he_of(g, j) && (hs_of(g, j) ==> g2.keys[j] == g.keys[j]))
}
pub open spec fn upd(g: G, s: LS, i: int, hs: bool, he: bool, k: Seq<u8>) -> G {
    G { s, sharers: if hs { g.sharers.insert(i) } else { g.sharers.remove(i) },
        owner: if he { Some(i) } else if g.owner == Some(i) { None } else { g.owner },
        keys: if hs && !hs_of(g, i) { g.keys.insert(i, k) } else { g.keys } }
}
// what every handle relies on follows from the invariant
proof fn lemma_rely(g: G, i: int)
    requires inv(g), g.s.num < 0xffff_ffff
    ensures rely(g.s, hs_of(g, i), he_of(g, i))
{
    if hs_of(g, i) { assert(g.sharers.len() > 0) by { if g.sharers.len() == 0 { assert(g.sharers =~= Set::empty()); } } }
}
proof fn lemma_excl(g: G, i: int, b: LS, hs2: bool, he2: bool, ok: bool)
    requires inv(g), step_excl(g.s, b, hs_of(g, i), he_of(g, i), hs2, he2, ok)
    ensures /*P01*/ inv(upd(g, b, i, hs2, he2, Seq::empty())), others_kept(g, upd(g, b, i, hs2, he2, Seq::empty()), i)
{
    let g2 = upd(g, b, i, hs2, he2, Seq::empty());
    assert(g2.sharers =~= g.sharers);
}
proof fn lemma_shared(g: G, i: int, b: LS, hs2: bool, he2: bool, k: Seq<u8>, ok: bool)
    requires inv(g), step_shared(g.s, b, hs_of(g, i), he_of(g, i), hs2, he2, k, ok)
    ensures /*P01*/ inv(upd(g, b, i, hs2, he2, k)), others_kept(g, upd(g, b, i, hs2, he2, k), i)
{
    let g2 = upd(g, b, i, hs2, he2, k);
    if ok {
        assert(g2.sharers.len() == g.sharers.len() + 1);
        if g.s.num == 0 {
            assert forall|j: int| #[trigger] g2.sharers.contains(j) implies g2.s.key == Some(g2.keys[j]) by {
                if j != i { assert(g.sharers.contains(j)); assert(g.sharers.remove(j).len() == g.sharers.len() - 1); }
            }
        }
    } else {
        assert(g2.sharers =~= g.sharers);
    }
}
proof fn lemma_release(g: G, i: int, b: LS, hs2: bool, he2: bool)
    requires inv(g), step_release(g.s, b, hs_of(g, i), he_of(g, i), hs2, he2)
    ensures /*P01*/ inv(upd(g, b, i, hs2, he2, Seq::empty())), others_kept(g, upd(g, b, i, hs2, he2, Seq::empty()), i)
{
    let g2 = upd(g, b, i, hs2, he2, Seq::empty());
    if !hs_of(g, i) { assert(g2.sharers =~= g.sharers); }
    else { assert(g2.sharers.len() == g.sharers.len() - 1); }
    if g2.s.num == 0 { assert forall|j: int| #[trigger] g2.sharers.contains(j) implies g2.s.key == Some(g2.keys[j]) by {
        assert(g2.sharers.remove(j).len() == g2.sharers.len() - 1); } }
}
'''


def w(o, n):
    return f"{n}.has_shared == {o}.has_shared && {n}.has_exclusive == {o}.has_exclusive"


SPECS = r"""
pub open spec fn kept<D>(o: LockHandle<D>, n: LockHandle<D>) -> bool { n.has_shared == o.has_shared && n.has_exclusive == o.has_exclusive }
pub open spec fn woke(e: (SharedLock, SharedLock)) -> bool { e.1.ls().waiters.len() == 0 }
pub open spec fn acq_x<D>(o: LockHandle<D>, n: LockHandle<D>, r: Result<(), SharedLockError>) -> bool {
    let (a, b) = (o.parent.log@, n.parent.log@);
    match r {
        Ok(_) => ext1(a, b) && step_excl(b.last().0.ls(), b.last().1.ls(), o.has_shared, o.has_exclusive, n.has_shared, n.has_exclusive, true),
        Err(e) => ext(a, b) && kept(o, n) && if o.has_exclusive { e is AlreadyLocked } else {
            b.len() > a.len() && !excl_ok(b.last().0.ls(), o.has_shared, o.has_exclusive) && names(e, b.last().0.ls()) }
    }
}
pub open spec fn acq_s<D>(o: LockHandle<D>, n: LockHandle<D>, k: Seq<u8>, r: Result<(), SharedLockError>) -> bool {
    let (a, b) = (o.parent.log@, n.parent.log@);
    match r {
        Ok(_) => ext1(a, b) && step_shared(b.last().0.ls(), b.last().1.ls(), o.has_shared, o.has_exclusive, n.has_shared, n.has_exclusive, k, true),
        Err(e) => ext(a, b) && kept(o, n) && if o.has_shared { e is AlreadyLocked } else {
            let s = b.last().0.ls();
            b.len() > a.len() && !shared_ok(s, o.has_shared, o.has_exclusive, k)
            && if s.num > 0 { e is LockedByShared } else if o.has_exclusive { e is AlreadyLocked } else { e is LockedByExclusive } }
    }
}
pub open spec fn acq<D>(o: LockHandle<D>, n: LockHandle<D>, k: Seq<u8>, r: Result<(), SharedLockError>) -> bool {
    if k.len() == 0 { acq_x(o, n, r) } else { acq_s(o, n, k, r) }
}
pub open spec fn rel<D>(o: LockHandle<D>, n: LockHandle<D>) -> bool {
    let (a, b) = (o.parent.log@, n.parent.log@);
    ||| (ext1(a, b) && step_release(b.last().0.ls(), b.last().1.ls(), o.has_shared, o.has_exclusive, n.has_shared, n.has_exclusive))
    ||| (!o.has_shared && !o.has_exclusive && kept(o, n) && ext(a, b))
}
pub open spec fn rel_wakes<D>(o: LockHandle<D>, n: LockHandle<D>) -> bool {
    let (a, b) = (o.parent.log@, n.parent.log@);
    b.len() > a.len() && freed(b.last().0.ls(), b.last().1.ls()) ==> woke(b.last())
}
"""
MUT = [(r"&self\b", "&mut self")]
PAR = [(r"(\w+)\.parent\s*\.lock\(\)", r"\1.parent.lock_as(Ghost(\1.has_shared), Ghost(\1.has_exclusive))", False)]
CL = "self.parent.log@.len() as int"
CR = "self.handle.log@.len() as int"


def waits(c):
    return TYPED + [(r"\bdrop\(\w+\);", "", False), break_to_return, select_arms(True), (r"\.listen\(\)", rf".listen().vx_at(Ghost({c}))", False),
            (r"(?<![\w.)])([A-Za-z_]\w*)\.await\b", rf"\1.vx_wait(Ghost({c}), &mut vx_w).await", False),
            (r"\.vx_event\(\)", ".vx_event(&mut vx_w)", False), (r"\.device\s*\.try_lock\(\)", rf".device.try_lock(Ghost({c}))", False), (r"\.device\s*\.lock\(\)", rf".device.lock(Ghost({c}), &mut vx_w)", False)]


OPENL = ""
W0 = "let mut vx_w: Ghost<int> = Ghost(0);"
LG, LG2 = "old(self).parent.log@", "final(self).parent.log@"
TYPED = [(r"let mut (\w+)\s*=\s*None;", r"let mut \1: Option<Receiver<()>> = None;", False)]


def inv(clock, ext):
    def mk(f, it):
        # the local that keeps the registered receiver
        m = re.search(r"let mut (\w+)[^=;]*=\s*None;", it.text())
        n = m.group(1) if m else "listener"
        return f"invariant {ext}, {n} is Some ==> {n}->0.at@ <= {clock}, vx_w@ <= vx_finite() || vx_w@ == 0\n/*P03*/ decreases vx_finite() - vx_w@, (if {n} is Some {{ 0int }} else {{ 1int }})"
    return ("loop", mk)


INV = inv(CL, f"ext({LG}, self.parent.log@), kept(*old(self), *self)")
DRAIN = [(r"self\.event\s*\.drain\(\.\.\)", "vx_drain_all(&mut self.event)", False)]


def build():
    f = File("device/src/lock.rs")
    R = Render("lock")
    T = f.toks
    out = []
    for k, n in (("enum", "SharedLockError"), ("enum", "SharedLockMode"), ("struct", "SharedLock"), ("struct", "LockHandle"), ("struct", "RemoteLockHandle")):
        it = f.find(k, n)
        out.append(R.clean(f, it.head, it.hi, []))
    C = {}
    keepls = "same(old(self).ls(), final(self).ls())"
    C["SharedLock::new"] = Contract("ensures /*P01*/ r.v.ls().num == 0 && !r.v.ls().excl && r.v.ls().key is None, /*P03*/ r.v.ls().waiters.len() == 0")
    C["SharedLock::num_shared_locks"] = Contract("ensures /*P01*/ r == self.ls().num")
    C["SharedLock::exclusive_lock"] = Contract("ensures /*P01*/ r == self.ls().excl")
    for n in ("notify_release", "notify_acquired"):
        C["SharedLock::" + n] = Contract(f"ensures /*P01*/ {keepls}, /*P03*/ final(self).ls().waiters.len() == 0",
                                         loops=[("for", f"invariant same(old(self).ls(), self.ls()), self.event@.len() == 0", "")], rw=DRAIN)
    C["SharedLock::listen"] = Contract(f"ensures /*P01*/ {keepls}, /*P03*/ final(self).ls().waiters =~= old(self).ls().waiters.push(r.id@)")
    C["SharedLock::next_id"] = Contract("ensures /*P01*/ same(old(self).ls(), final(self).ls()), final(self).ls().waiters == old(self).ls().waiters")
    lh = "LockHandle::"
    C[lh + "new"] = Contract("ensures /*P01*/ !r.has_shared && !r.has_exclusive", sig=[(r"parent: Arc", "mut parent: Arc")])
    C[lh + "lock_info"] = Contract(f"""ensures /*P01*/ ext({LG}, {LG2}) && kept(*old(self), *final(self)),
        /*P01*/ {LG2}.len() > {LG}.len() && r.0 == {LG2}.last().0.ls().excl && r.1 == {LG2}.last().0.ls().num""", sig=MUT, rw=PAR)
    C[lh + "can_lock"] = Contract(f"ensures /*P02,P01*/ checked({LG}, {LG2}, old(self).has_shared, old(self).has_exclusive, r), kept(*old(self), *final(self))", sig=MUT, rw=PAR)
    wk = f"/*P03*/ r is Ok ==> woke({LG2}.last())"
    C[lh + "try_acquire"] = Contract(f"ensures /*P01*/ acq(*old(self), *final(self), lockstr@, r), {wk}")
    C[lh + "try_acquire_exclusive"] = Contract(f"ensures /*P01*/ acq_x(*old(self), *final(self), r), {wk}", rw=PAR)
    C[lh + "try_acquire_shared"] = Contract(f"ensures /*P01*/ acq_s(*old(self), *final(self), lockstr@, r), {wk}", rw=PAR)
    acc = f"""/*P01*/ r is Err ==> r->Err_0 is AlreadyLocked && ext({LG}, {LG2}) && kept(*old(self), *final(self)), {wk}"""
    C[lh + "async_acquire"] = Contract(f"ensures /*P01*/ r is Ok ==> acq(*old(self), *final(self), lockstr@, r), {acc}")
    C[lh + "async_acquire_exclusive"] = Contract(f"ensures /*P01*/ r is Ok ==> acq_x(*old(self), *final(self), r), {acc}", loops=[INV], rw=PAR + waits(CL), pre=W0)
    C[lh + "async_acquire_shared"] = Contract(f"ensures /*P01*/ r is Ok ==> acq_s(*old(self), *final(self), lockstr@, r), {acc}", loops=[INV], rw=PAR + waits(CL), pre=W0)
    C[lh + "try_release"] = Contract(f"""ensures /*P01*/ rel(*old(self), *final(self)),
        /*P01*/ !final(self).has_shared && !final(self).has_exclusive,
        /*P01*/ r is Err <==> !old(self).has_shared && !old(self).has_exclusive, r is Err ==> r->Err_0 is AlreadyUnlocked,
        /*P12*/ r is Ok ==> (r->Ok_0 is Exclusive <==> old(self).has_exclusive),
        /*P03*/ rel_wakes(*old(self), *final(self))""", rw=PAR)
    C[lh + "force_release"] = Contract("""ensures /*P01*/ rel(*old(self), *final(self)), !final(self).has_shared && !final(self).has_exclusive,
        /*P03*/ rel_wakes(*old(self), *final(self))""")
    got = f"{LG2}.len() > {LG}.len() && allowed({LG2}.last().0.ls(), final(self).has_shared, final(self).has_exclusive) && r->Ok_0.at@ < {LG2}.len()"
    C[lh + "try_lock"] = Contract(f"""ensures /*P02*/ ext({LG}, {LG2}) && kept(*old(self), *final(self)),
        /*P02*/ r is Ok ==> old(self).has_exclusive || ({got}),
        /*P02*/ r is Err ==> r->Err_0 is Busy || ({LG2}.len() > {LG}.len() && !allowed({LG2}.last().0.ls(), old(self).has_shared, old(self).has_exclusive)
              && names(r->Err_0, {LG2}.last().0.ls()))""", sig=MUT, rw=PAR + waits(CL))
    C[lh + "async_lock"] = Contract(f"""ensures /*P02*/ ext({LG}, {LG2}) && kept(*old(self), *final(self)),
        /*P02*/ r is Ok, /*P02*/ old(self).has_exclusive || ({got})""", sig=MUT, rw=PAR + waits(CL), loops=[INV], pre=W0)
    C[lh + "inner_lock"] = Contract("", pre=W0, sig=MUT, rw=waits(CL))
    C[lh + "has_shared"] = Contract("ensures r == self.has_shared")
    C[lh + "has_exclusive"] = Contract("ensures r == self.has_exclusive")
    C["Drop::drop"] = Contract("""ensures /*P01*/ rel(*old(self), *final(self)), !final(self).has_shared && !final(self).has_exclusive,
        /*P03*/ rel_wakes(*old(self), *final(self))""")
    rh = "RemoteLockHandle::"
    HL, HL2 = "old(self).handle.log@", "final(self).handle.log@"
    hext = f"hext({HL}, {HL2})"
    RINV = inv(CR, f"hext({HL}, self.handle.log@)")
    C[rh + "new"] = Contract("", sig=[(r"handle: Arc", "mut handle: Arc")])
    C[rh + "can_lock"] = Contract(f"""ensures /*P02*/ {hext} && {HL2}.len() > {HL}.len(),
       /*P02*/ hchecked({HL2}.last(), r)""", sig=MUT)
    rgot = f"{HL2}.len() > {HL}.len() && hallowed({HL2}.last()) && r->Ok_0.at@ < {HL2}.len()"
    C[rh + "try_lock"] = Contract(f"""ensures /*P02*/ {hext}, /*P02*/ r is Ok ==> {rgot},
        /*P02*/ r is Err ==> r->Err_0 is Busy || ({HL2}.len() > {HL}.len() && hchecked({HL2}.last(), Err(r->Err_0)))""", sig=MUT, rw=waits(CR))
    C[rh + "async_lock"] = Contract(f"""ensures /*P02*/ {hext}, /*P02*/ r is Ok, /*P02*/ {rgot}""", sig=MUT, rw=PAR + waits(CR), loops=[RINV], pre=W0)
    C[rh + "inner_lock"] = Contract("", pre=W0, sig=MUT, rw=waits(CR))
    C[rh + "try_acquire"] = Contract(f"""ensures /*P01*/ hext1({HL}, {HL2}) && acq({HL2}.last().0, {HL2}.last().1, lockstr@, r),
        /*P03*/ r is Ok ==> woke({HL2}.last().1.parent.log@.last())""", sig=MUT)
    C[rh + "async_acquire"] = Contract(f"""ensures /*P01*/ hext1({HL}, {HL2}) && acq({HL2}.last().0, {HL2}.last().1, lockstr@, r),
        /*P01*/ r is Err ==> r->Err_0 is AlreadyLocked,
        /*P03*/ r is Ok ==> woke({HL2}.last().1.parent.log@.last())""", sig=MUT, rw=PAR + waits(CR), loops=[RINV], pre=W0)
    for hdr, pre in (("impl SharedLock", "SharedLock::"), ("impl<DEV>LockHandle<DEV>", lh), ("impl<DEV>Drop for LockHandle<DEV>", "Drop::"), ("impl<DEV>RemoteLockHandle<DEV>", rh)):
        ims = f.impls(lambda h: h == hdr)
        if not ims:
            raise Lost(f"{hdr} not found")
        for im in ims:
            head = "impl<DEV> LockHandle<DEV>" if pre == "Drop::" else R.clean(f, im.head, im.body, [])
            body = []
            for m in im.members:
                if m.kind != "fn":
                    continue
                body.append(R.fn(m, C.get(pre + m.name), pre + m.name))
            out.append(head + " {\n" + "\n".join(body) + "}\n")
    known = {q for q, _, _, _ in R.functions}
    for q in C:
        if q not in known:
            R.flag(f"{q} is gone")
    txt = "\n".join(out)
    txt = txt.replace("Arc::new(", "(")
    txt = re.sub(r"MutexGuard<'_,\s*", "MutexGuard<", txt)
    return Group("lock", wrap(PRELUDE, SPECS, HSPECS, txt), R, trusted=TRUST, default_props=["P01", "P02", "P03"], panic_props=["P01"], ends_props=["P03"])


HSPECS = r"""
// the handle behind a RemoteLockHandle: in each critical section it is only used to look or to register
pub open spec fn hquiet<D>(e: (LockHandle<D>, LockHandle<D>)) -> bool { kept(e.0, e.1) && ext(e.0.parent.log@, e.1.parent.log@) }
pub open spec fn hext<D>(a: Seq<(LockHandle<D>, LockHandle<D>)>, b: Seq<(LockHandle<D>, LockHandle<D>)>) -> bool {
    &&& a.len() <= b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
    &&& forall|i: int| a.len() <= i < b.len() ==> hquiet(#[trigger] b[i])
}
spec fn hext1<D>(a: Seq<(LockHandle<D>, LockHandle<D>)>, b: Seq<(LockHandle<D>, LockHandle<D>)>) -> bool {
    &&& b.len() > a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
    &&& forall|i: int| a.len() <= i < b.len() - 1 ==> hquiet(#[trigger] b[i])
}
spec fn hchecked<D>(e: (LockHandle<D>, LockHandle<D>), r: Result<(), SharedLockError>) -> bool {
    checked(e.0.parent.log@, e.1.parent.log@, e.0.has_shared, e.0.has_exclusive, r)
}
pub open spec fn hallowed<D>(e: (LockHandle<D>, LockHandle<D>)) -> bool {
    e.0.has_exclusive || (e.1.parent.log@.len() > e.0.parent.log@.len() && allowed(e.1.parent.log@.last().0.ls(), e.0.has_shared, e.0.has_exclusive))
}
"""
TRUST = ["spin::Mutex gives exclusive access to its content for each critical section; sections of other handles in between are arbitrary within `rely`, which lemma_rely derives from the invariant that lemma_excl/lemma_shared/lemma_release preserve (induction over the history is the standard rely-guarantee argument, not itself mechanised)",
         "fewer than 2^32-1 handles share one lock at a time",
         "futures oneshot: a receiver resolves once its sender sends or is dropped; futures::lock::Mutex gives the device to one holder; select! completes with the value of one of its branches",
         "Arc<T> is transparent", "log macros have no effect"]
