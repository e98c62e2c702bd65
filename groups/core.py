"""vxi11: P16 links, P17 write and read, P18 control operations (core and abort channel)."""
import copy, re
from rx import File, XFile, Render, Contract, Lost, select_arms, combinators
from vx import Group
from common import wrap
import rx
import hislip as H
import onc
import rpc

CORE = "vxi11/src/server/vxi11/core_service.rs"
MOD = "vxi11/src/server/vxi11/mod.rs"
ABORT = "vxi11/src/server/vxi11/abort_service.rs"

ITEMS = r'''
// ---- trusted stand-ins: the device behind its lock ---------------------------------------------------------------------
enum Call { Exec(Seq<u8>, Option<Seq<u8>>), Trig(Source, Result<(), LxiDeviceError>), Clear(Result<(), LxiDeviceError>), Remote(bool, Result<(), LxiDeviceError>), Lockout(bool), Status(Result<u8, LxiDeviceError>) }
// the device while access is granted: `calls` is what was done to it
// ok: the lock admits this client
struct VxDev { calls: Ghost<Seq<Call>>, ok: Ghost<bool> }
impl VxDev {
    #[verifier::external_body]
    fn execute(&mut self, cmd: &[u8]) -> (r: Option<Vec<u8>>)
        requires /*P02*/ old(self).ok@ ensures final(self).ok == old(self).ok, final(self).calls@ == old(self).calls@.push(Call::Exec(cmd@, match r { Some(v) => Some(v@), None => None })) { unimplemented!() }
    #[verifier::external_body]
    fn trigger(&mut self, s: Source) -> (r: Result<(), LxiDeviceError>) requires /*P02*/ old(self).ok@ ensures final(self).ok == old(self).ok, final(self).calls@ == old(self).calls@.push(Call::Trig(s, r)) { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) -> (r: Result<(), LxiDeviceError>) requires /*P02*/ old(self).ok@ ensures final(self).ok == old(self).ok, final(self).calls@ == old(self).calls@.push(Call::Clear(r)) { unimplemented!() }
    #[verifier::external_body]
    fn set_remote(&mut self, b: bool) -> (r: Result<(), LxiDeviceError>) requires /*P02*/ old(self).ok@ ensures final(self).ok == old(self).ok, final(self).calls@ == old(self).calls@.push(Call::Remote(b, r)) { unimplemented!() }
    #[verifier::external_body]
    fn set_local_lockout(&mut self, b: bool) requires /*P02*/ old(self).ok@ ensures final(self).ok == old(self).ok, final(self).calls@ == old(self).calls@.push(Call::Lockout(b)) { unimplemented!() }
    #[verifier::external_body]
    fn get_status(&mut self) -> (r: Result<u8, LxiDeviceError>) ensures final(self).ok == old(self).ok, final(self).calls@ == old(self).calls@.push(Call::Status(r)) { unimplemented!() }
}
struct Duration { ms: u64 }
impl Duration {
    fn from_millis(n: u64) -> (r: Duration) ensures r.ms == n { Duration { ms: n } }
    #[verifier::external_body]
    fn from_secs(n: u64) -> (r: Duration) ensures r.ms as int == n as int * 1000 { unimplemented!() }
}
struct TimeoutError;
// what was asked of the lock (group lock), for how long, and what came of it
enum Op { Access(Option<int>, Result<Seq<Call>, SharedLockError>), Acquire(Option<int>, Result<(), SharedLockError>), Release(Result<SharedLockMode, SharedLockError>), Force, Shared, Inner(Seq<Call>) }
struct LockHandle { log: Ghost<Seq<Op>>, lock: Ghost<int>, dev: Ghost<int> }
impl LockHandle {
    spec fn same(self, o: Self) -> bool { self.lock == o.lock && self.dev == o.dev }
    #[verifier::external_body]
    fn new(parent: VxArc, device: VxArc) -> (r: Self) ensures r.lock == parent.id, r.dev == device.id, r.log@ == Seq::<Op>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn try_lock(&mut self) -> (r: Result<&mut VxDev, SharedLockError>)
        ensures r is Ok ==> (*(r->Ok_0)).ok@ && (*(r->Ok_0)).calls@ == Seq::<Call>::empty() && final(self).log@ == old(self).log@.push(Op::Access(None, Ok(final(r->Ok_0).calls@))),
            r is Err ==> final(self).log@ == old(self).log@.push(Op::Access(None, Err(r->Err_0))), final(self).same(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    fn inner_lock(&mut self) -> (g: &mut VxDev)
        ensures !(*g).ok@, (*g).calls@ == Seq::<Call>::empty(), final(self).log@ == old(self).log@.push(Op::Inner(final(g).calls@)), final(self).same(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    fn try_acquire_exclusive(&mut self) -> (r: Result<(), SharedLockError>) ensures final(self).log@ == old(self).log@.push(Op::Acquire(None, r)), final(self).same(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    fn try_release(&mut self) -> (r: Result<SharedLockMode, SharedLockError>) ensures final(self).log@ == old(self).log@.push(Op::Release(r)), final(self).same(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    fn force_release(&mut self) ensures final(self).log@ == old(self).log@.push(Op::Force), final(self).same(*old(self)) { unimplemented!() }
}
// async_std::future::timeout around async_lock and async_acquire_exclusive
#[verifier::external_body]
fn vx_lock_timeout(d: Duration, h: &mut LockHandle) -> (r: Result<Result<&mut VxDev, SharedLockError>, TimeoutError>)
    ensures r is Ok && r->Ok_0 is Ok ==> (*(r->Ok_0->Ok_0)).ok@ && (*(r->Ok_0->Ok_0)).calls@ == Seq::<Call>::empty() && final(h).log@ == old(h).log@.push(Op::Access(Some(d.ms as int), Ok(final(r->Ok_0->Ok_0).calls@))),
        r is Ok && r->Ok_0 is Err ==> final(h).log@ == old(h).log@.push(Op::Access(Some(d.ms as int), Err(r->Ok_0->Err_0))),
        r is Err ==> final(h).log@ == old(h).log@.push(Op::Access(Some(d.ms as int), Err(SharedLockError::Timeout))), final(h).same(*old(h)) { unimplemented!() }
#[verifier::external_body]
fn vx_acquire_timeout(d: Duration, h: &mut LockHandle) -> (r: Result<Result<(), SharedLockError>, TimeoutError>)
    ensures final(h).log@ == old(h).log@.push(Op::Acquire(Some(d.ms as int), match r { Ok(x) => x, Err(_) => Err(SharedLockError::Timeout) })), final(h).same(*old(h)) { unimplemented!() }
#[verifier::external_body]
fn vx_choose() -> (r: u8) { unimplemented!() }
struct VxArc { id: Ghost<int> }
impl VxArc {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.id == self.id { unimplemented!() }
}
// (device, lock) by sub-address
struct DeviceMap { m: Ghost<Map<Seq<char>, (int, int)>> }
impl DeviceMap {
    #[verifier::external_body]
    fn get(&self, s: &String) -> (r: Option<&(VxArc, VxArc)>)
        ensures r is Some <==> self.m@.contains_key(s@), r is Some ==> ((*r->0).0.id@, (*r->0).1.id@) == self.m@[s@] { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, s: String, x: (VxArc, VxArc)) -> (r: Option<(VxArc, VxArc)>) ensures final(self).m@ == old(self).m@.insert(s@, (x.0.id@, x.1.id@)) { unimplemented!() }
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.m@ == Map::<Seq<char>, (int, int)>::empty() { unimplemented!() }
}
// the two ends of the abort signal
struct Sender { ch: Ghost<int> }
struct Receiver { ch: Ghost<int>, n: Ghost<int> }
#[verifier::external_body]
fn channel(n: usize) -> (r: (Sender, Receiver)) ensures r.0.ch == r.1.ch, r.1.n@ == 0 { unimplemented!() }
impl Sender {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn vx_send(&mut self, s: &mut Ghost<Seq<int>>) -> (r: Result<(), ()>) ensures *final(self) == *old(self), final(s)@ == old(s)@.push(old(self).ch@) { unimplemented!() }
}
impl Receiver {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<()>) ensures final(self).n@ == old(self).n@ + 1, final(self).ch == old(self).ch { unimplemented!() }
}
// std HashMap with u32 keys
#[verifier::reject_recursive_types(V)]
struct HashMap<K, V> { m: Ghost<Map<u32, V>>, k: core::marker::PhantomData<K> }
impl<V> HashMap<u32, V> {
    spec fn view(&self) -> Map<u32, V> { self.m@ }
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Map::<u32, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<u32, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &u32) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &u32) -> (r: Option<&V>) ensures r is Some <==> self@.contains_key(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &u32) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.contains_key(*k), r is None ==> final(self)@ == old(self)@, r is Some ==> *(r->0) == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: u32, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &u32) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.contains_key(*k), r is Some ==> r->0 == old(self)@[*k] { unimplemented!() }
    #[verifier::external_body]
    fn vx_cloned(&self, k: &u32) -> (r: Option<V>) ensures r is Some <==> self@.contains_key(*k), r is Some ==> r->0 == self@[*k] { unimplemented!() }
    // drain: the entries in any order
    #[verifier::external_body]
    fn vx_take_any(&mut self) -> (r: Option<(u32, V)>)
        ensures r is None ==> old(self)@ == Map::<u32, V>::empty() && final(self)@ == old(self)@,
            r is Some ==> old(self)@.contains_key((r->0).0) && (r->0).1 == old(self)@[(r->0).0] && final(self)@ == old(self)@.remove((r->0).0) { unimplemented!() }
}
fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
// Vec::try_reserve: an error means that there is no memory
uninterp spec fn vx_oom() -> bool;
#[verifier::external_body]
fn vx_reserve(v: &mut Vec<u8>, n: usize) -> (r: Result<(), ()>) ensures final(v)@ == old(v)@, r is Err ==> vx_oom() { unimplemented!() }
fn vx_extend(v: &mut Vec<u8>, d: &[u8]) ensures final(v)@ == old(v)@ + d@ { let ghost o = v@; v.extend_from_slice(d); proof { assert(v@ =~= o + d@); } }
#[verifier::external_body]
fn vx_drain(v: &mut Vec<u8>, a: usize, b: usize) -> (r: Vec<u8>)
    requires /*P17,P24*/ a <= b <= old(v)@.len()
    ensures r@ == old(v)@.subrange(a as int, b as int), final(v)@ == old(v)@.take(a as int) + old(v)@.skip(b as int) { unimplemented!() }
// Iterator::position
fn vx_position(v: &Vec<u8>, x: u8) -> (r: Option<usize>)
    ensures match r { Some(i) => i < v@.len() && i < usize::MAX && v@[i as int] == x && forall|j: int| 0 <= j < i ==> v@[j] != x, None => forall|j: int| 0 <= j < v@.len() ==> v@[j] != x }
{
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> v@[j] != x decreases v@.len() - i { if v[i] == x { return Some(i); } i += 1; }
    None
}
// the task that sends service requests for a link
struct JoinHandle { id: Ghost<int> }
#[verifier::external_body]
fn vx_cancel(t: JoinHandle, s: &mut Ghost<Seq<int>>) ensures final(s)@ == old(s)@.push(t.id@) { unimplemented!() }
#[verifier::external_body]
fn vx_spawn(c: VxSrq, r: VxStatus, h: &Opaque) -> (t: JoinHandle) { unimplemented!() }
// the stream of status changes
struct VxStatus { got: Ghost<Seq<Option<u8>>> }
impl VxStatus {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<u8>) ensures final(self).got@ == old(self).got@.push(r) { unimplemented!() }
}
struct StatusSender { id: Ghost<int> }
impl StatusSender {
    #[verifier::external_body]
    fn get_new_receiver(&mut self) -> (r: VxStatus) ensures *final(self) == *old(self) { unimplemented!() }
}
struct VxiSrqClient { host: Ghost<int>, port: Ghost<int>, prog: Ghost<int>, vers: Ghost<int>, udp: Ghost<bool>, sent: Ghost<Seq<Seq<u8>>> }
impl VxiSrqClient {
    #[verifier::external_body]
    fn new(host_addr: u32, host_port: u16, prog_num: u32, prog_vers: u32, udp: bool) -> (r: Result<Self, Error>)
        ensures r is Ok ==> r->Ok_0.host@ == host_addr && r->Ok_0.port@ == host_port && r->Ok_0.prog@ == prog_num && r->Ok_0.vers@ == prog_vers && r->Ok_0.udp@ == udp { unimplemented!() }
    #[verifier::external_body]
    fn device_intr_srq(&mut self, handle: &Vec<u8>) -> (r: Result<(), RpcError>)
        ensures final(self).sent@ == old(self).sent@.push(handle@), final(self).host == old(self).host, final(self).port == old(self).port, final(self).prog == old(self).prog, final(self).vers == old(self).vers, final(self).udp == old(self).udp { unimplemented!() }
}
// Arc<Mutex<Option<VxiSrqClient>>> and Arc<Mutex<VxiInner>>: shared with others, one entry per critical section
struct VxSrq { log: Ghost<Seq<(Option<VxiSrqClient>, Option<VxiSrqClient>)>> }
impl VxSrq {
    #[verifier::external_body]
    fn lock(&mut self) -> (g: &mut Option<VxiSrqClient>) ensures final(self).log@ == old(self).log@.push((*g, *final(g))) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
struct VxInner { log: Ghost<Seq<(VxiInner, VxiInner)>>, init: Ghost<VxiInner>, id: Ghost<int> }
impl VxInner {
    // fewer than 2^32 links are open
    #[verifier::external_body]
    fn lock(&mut self) -> (g: &mut VxiInner) ensures final(self).log@ == old(self).log@.push((*g, *final(g))), exists|k: u32| !#[trigger] (*g).links@.contains_key(k) { unimplemented!() }
}
// Mutex<HashMap<u32, Link>>: the links of this session; its calls run one after the other
struct VxLinks { m: HashMap<u32, Link> }
impl VxLinks {
    spec fn view(&self) -> Map<u32, Link> { self.m@ }
    #[verifier::external_body]
    fn lock(&mut self) -> (g: &mut HashMap<u32, Link>) ensures *g == old(self).m, final(self).m == *final(g) { unimplemented!() }
}
fn vx_stop<T>() -> T requires false { loop invariant false decreases 0int { } }
'''
CODES = r'''
// ---- error codes of VXI-11 (table B.2) ----------------------------------------------------------------------------------
impl vstd::std_specs::convert::FromSpecImpl<LxiDeviceError> for DeviceErrorCode {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: LxiDeviceError) -> Self { match e { LxiDeviceError::NotSupported => DeviceErrorCode::OperationNotSupported, LxiDeviceError::IoTimeout => DeviceErrorCode::IoTimeout, LxiDeviceError::IoError => DeviceErrorCode::IoError } }
}
impl vstd::std_specs::convert::FromSpecImpl<SharedLockError> for DeviceErrorCode {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: SharedLockError) -> Self { match e {
        SharedLockError::AlreadyLocked | SharedLockError::AlreadyUnlocked => DeviceErrorCode::NoLockHeldByThisLink,
        SharedLockError::Timeout | SharedLockError::LockedByShared | SharedLockError::LockedByExclusive => DeviceErrorCode::DeviceLockedByAnotherLink,
        SharedLockError::Aborted => DeviceErrorCode::Abort,
        SharedLockError::Busy => DeviceErrorCode::DeviceNotAccessible,
    } }
}
impl<T: Into<DeviceErrorCode>> vstd::std_specs::convert::FromSpecImpl<Result<(), T>> for DeviceErrorCode {
    open spec fn obeys_from_spec() -> bool { <T as vstd::std_specs::convert::IntoSpec<DeviceErrorCode>>::obeys_into_spec() }
    open spec fn from_spec(r: Result<(), T>) -> Self { match r { Ok(_) => DeviceErrorCode::NoError, Err(e) => vstd::std_specs::convert::IntoSpec::into_spec(e) } }
}
impl vstd::std_specs::convert::FromSpecImpl<u32> for DeviceLink {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: u32) -> Self { DeviceLink(x) }
}
'''
SPEC = r'''
spec fn lockcode(e: SharedLockError) -> DeviceErrorCode { vstd::std_specs::convert::FromSpec::from_spec(e) }
spec fn devcode(r: Result<(), LxiDeviceError>) -> DeviceErrorCode { match r { Ok(_) => DeviceErrorCode::NoError, Err(e) => vstd::std_specs::convert::FromSpec::from_spec(e) } }
spec fn one<T>(a: Seq<T>, b: Seq<T>) -> bool { b.len() == a.len() + 1 && b == a.push(b.last()) }
// the abort arm won: nothing was asked of the lock any more (or what was asked came to nothing)
spec fn aborted(a: Link, b: Link) -> bool { b.handle.log == a.handle.log && b.abort.n@ == a.abort.n@ + 1 }
spec fn kept(a: Link, b: Link) -> bool { a.id == b.id && b.handle.same(a.handle) && a.abort.ch == b.abort.ch && a.srq_handle == b.srq_handle }
spec fn limit(f: DeviceFlags, ms: u32) -> Option<int> { if f.0 & 1 != 0 { Some(ms as int) } else { None } }
// access to the device was asked for once and granted (what was then done to the device) or not
spec fn accessed(a: Link, b: Link, f: DeviceFlags, ms: u32, r: Result<Seq<Call>, SharedLockError>) -> bool {
    &&& kept(a, b)
    &&& (one(a.handle.log@, b.handle.log@) && b.handle.log@.last() == Op::Access(limit(f, ms), r) && b.abort == a.abort) || (f.0 & 1 != 0 && aborted(a, b) && r == Err::<Seq<Call>, SharedLockError>(SharedLockError::Aborted))
}
spec fn the_access(a: Link, b: Link) -> Result<Seq<Call>, SharedLockError> {
    if b.handle.log == a.handle.log { Err(SharedLockError::Aborted) } else { b.handle.log@.last()->Access_1 }
}
spec fn acquired(a: Link, b: Link, f: DeviceFlags, ms: u32, r: Result<(), SharedLockError>) -> bool {
    &&& kept(a, b) && a.in_buf@ == b.in_buf@ && a.out_buf@ == b.out_buf@
    &&& (one(a.handle.log@, b.handle.log@) && b.handle.log@.last() == Op::Acquire(limit(f, ms), r) && b.abort == a.abort) || (f.0 & 1 != 0 && aborted(a, b) && r == Err::<(), SharedLockError>(SharedLockError::Aborted))
}
spec fn the_acquire(a: Link, b: Link) -> Result<(), SharedLockError> {
    if b.handle.log == a.handle.log { Err(SharedLockError::Aborted) } else { b.handle.log@.last()->Acquire_1 }
}
spec fn queues(a: Link, b: Link) -> bool { a.in_buf@ == b.in_buf@ && a.out_buf@ == b.out_buf@ }
spec fn is_one(c: Seq<Call>, x: Call) -> bool { c.len() == 1 && c[0] == x }
// ---- P17
spec fn wrote(a: Link, b: Link, p: DeviceWriteParms, resp: DeviceWriteResp) -> bool {
    let r = the_access(a, b);
    &&& accessed(a, b, p.flags, p.lock_timeout, r)
    &&& match r {
        Err(e) => queues(a, b) && resp.error == lockcode(e) && resp.size == 0,
        Ok(c) => {
            &&& resp.error is NoError && resp.size == p.data.0@.len() as u32
            &&& if p.flags.0 & 8 != 0 {
                c.len() == 1 && c[0] is Exec && c[0]->Exec_0 == a.in_buf@ + p.data.0@ && b.in_buf@.len() == 0 && b.out_buf@ == (match c[0]->Exec_1 { Some(v) => a.out_buf@ + v, None => a.out_buf@ })
            } else { c.len() == 0 && b.in_buf@ == a.in_buf@ + p.data.0@ && b.out_buf@ == a.out_buf@ }
        },
    }
}
// how much of the queue a read may return
#[verifier::opaque]
spec fn first(q: Seq<u8>, x: u8) -> int decreases q.len() { if q.len() == 0 { 0 } else if q[0] == x { 1 } else { 1 + first(q.skip(1), x) } }
proof fn lemma_first(q: Seq<u8>, x: u8)
    ensures 0 <= first(q, x) <= q.len(), forall|i: int| 0 <= i < q.len() && q[i] == x && (forall|j: int| 0 <= j < i ==> q[j] != x) ==> first(q, x) == i + 1, (forall|j: int| 0 <= j < q.len() ==> q[j] != x) ==> first(q, x) == q.len()
    decreases q.len()
{
    reveal_with_fuel(first, 2);
    if q.len() > 0 {
        let t = q.skip(1);
        lemma_first(t, x);
        assert forall|i: int| 0 <= i < q.len() && q[i] == x && (forall|j: int| 0 <= j < i ==> q[j] != x) implies first(q, x) == i + 1 by {
            if i > 0 { assert(q[0] != x); assert(t[i - 1] == x); assert forall|j: int| 0 <= j < i - 1 implies t[j] != x by { assert(q[j + 1] != x); } }
        }
        if forall|j: int| 0 <= j < q.len() ==> q[j] != x { assert(q[0] != x); assert forall|j: int| 0 <= j < t.len() implies t[j] != x by { assert(q[j + 1] != x); } }
    }
}
spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
spec fn amount(q: Seq<u8>, p: DeviceReadParms) -> int { if p.flags.0 & 0x80 != 0 { least(first(q, p.term_char), p.request_size as int) } else { least(q.len() as int, p.request_size as int) } }
spec fn reasons(q: Seq<u8>, p: DeviceReadParms, n: int) -> u32 {
    ((if n == p.request_size { 1u32 } else { 0 }) + (if p.flags.0 & 0x80 != 0 && n > 0 && q[n - 1] == p.term_char { 2u32 } else { 0 }) + (if n == q.len() { 4u32 } else { 0 })) as u32
}
spec fn did_read(a: Link, b: Link, p: DeviceReadParms, resp: DeviceReadResp) -> bool {
    let r = the_access(a, b);
    let n = amount(a.out_buf@, p);
    &&& accessed(a, b, p.flags, p.lock_timeout, r)
    &&& match r {
        Err(e) => queues(a, b) && resp.error == lockcode(e) && resp.data.0@.len() == 0,
        Ok(c) => c.len() == 0 && resp.error is NoError && a.in_buf@ == b.in_buf@ && resp.data.0@ == a.out_buf@.take(n) && b.out_buf@ == a.out_buf@.skip(n) && resp.reason == reasons(a.out_buf@, p, n),
    }
}
// ---- P18
spec fn status_read(a: Link, b: Link, p: DeviceGenericParms, resp: DeviceReadStbResp) -> bool {
    let r = the_access(a, b);
    &&& accessed(a, b, p.flags, p.lock_timeout, r) && queues(a, b)
    &&& match r {
        Err(e) => resp.error == lockcode(e),
        Ok(c) => c.len() == 1 && c[0] is Status && match c[0]->Status_0 {
            Ok(s) => resp.error is NoError && resp.stb == ((s & 0xefu8) | (if a.out_buf@.len() > 0 { 0x10u8 } else { 0u8 })),
            Err(e) => resp.error == devcode(Err(e)),
        },
    }
}
// one call of the device, its result reported
spec fn device_op(a: Link, b: Link, p: DeviceGenericParms, error: DeviceErrorCode, want: spec_fn(Call) -> Option<Result<(), LxiDeviceError>>) -> bool {
    let r = the_access(a, b);
    &&& accessed(a, b, p.flags, p.lock_timeout, r)
    &&& match r { Err(e) => error == lockcode(e), Ok(c) => c.len() == 1 && want(c[0]) is Some && error == devcode(want(c[0])->0) }
}
spec fn is_trigger(c: Call) -> Option<Result<(), LxiDeviceError>> { match c { Call::Trig(Source::Bus, r) => Some(r), _ => None } }
spec fn is_clear(c: Call) -> Option<Result<(), LxiDeviceError>> { match c { Call::Clear(r) => Some(r), _ => None } }
spec fn is_remote(c: Call, on: bool) -> Option<Result<(), LxiDeviceError>> { match c { Call::Remote(b, r) => if b == on { Some(r) } else { None }, _ => None } }
spec fn triggered(a: Link, b: Link, p: DeviceGenericParms, resp: DeviceError) -> bool { queues(a, b) && device_op(a, b, p, resp.error, |c: Call| is_trigger(c)) }
spec fn cleared(a: Link, b: Link, p: DeviceGenericParms, resp: DeviceError) -> bool {
    device_op(a, b, p, resp.error, |c: Call| is_clear(c)) && (the_access(a, b) is Ok ==> b.in_buf@.len() == 0 && b.out_buf@.len() == 0)
}
spec fn remoted(a: Link, b: Link, p: DeviceGenericParms, resp: DeviceError) -> bool { queues(a, b) && device_op(a, b, p, resp.error, |c: Call| is_remote(c, true)) }
spec fn localed(a: Link, b: Link, p: DeviceGenericParms, resp: DeviceError) -> bool { queues(a, b) && device_op(a, b, p, resp.error, |c: Call| is_remote(c, false)) }
spec fn locked(a: Link, b: Link, p: DeviceLockParms, resp: DeviceError) -> bool {
    let r = the_acquire(a, b);
    acquired(a, b, p.flags, p.lock_timeout, r) && resp.error == (match r { Ok(_) => DeviceErrorCode::NoError, Err(e) => lockcode(e) })
}
spec fn unlocked(a: Link, b: Link, p: DeviceLink, resp: DeviceError) -> bool {
    &&& kept(a, b) && queues(a, b) && b.abort == a.abort && one(a.handle.log@, b.handle.log@) && b.handle.log@.last() is Release
    &&& resp.error == (match b.handle.log@.last()->Release_0 { Ok(_) => DeviceErrorCode::NoError, Err(e) => lockcode(e) })
}
spec fn srq_set(a: Link, b: Link, p: DeviceEnableSrqParms, resp: DeviceError) -> bool {
    a.id == b.id && b.handle == a.handle && b.abort == a.abort && queues(a, b) && resp.error is NoError && (b.srq_handle is Some <==> p.enable)
}
spec fn no_cmd(a: Link, b: Link, p: DeviceDocmdParms, resp: DeviceDocmdResp) -> bool { a == b && resp.error is OperationNotSupported }
// ---- P16
// the other parts of the session and the server
spec fn quiet(o: VxiCoreSession, n: VxiCoreSession) -> bool { o.inner.log == n.inner.log && o.srq.log == n.srq.log && o.cancelled == n.cancelled && n.async_port == o.async_port && n.max_recv_size == o.max_recv_size }
spec fn no_change(o: VxiCoreSession, n: VxiCoreSession) -> bool { quiet(o, n) && o.links@ == n.links@ }
spec fn bad_lid(o: VxiCoreSession, n: VxiCoreSession, lid: u32) -> bool { !o.links@.contains_key(lid) && no_change(o, n) }
// only this link may change
spec fn on_link(o: VxiCoreSession, n: VxiCoreSession, lid: u32) -> bool { o.links@.contains_key(lid) && quiet(o, n) && n.links@ == o.links@.insert(lid, n.links@[lid]) }
spec fn new_entry(s: (VxiInner, VxiInner), name: Seq<char>, id: u32, ch: int) -> bool {
    s.0.devices.m@.contains_key(name) && !s.0.links@.contains_key(id) && s.1.devices == s.0.devices && exists|x: Sender| x.ch@ == ch && s.1.links@ == #[trigger] s.0.links@.insert(id, x)
}
spec fn no_entry(s: (VxiInner, VxiInner)) -> bool { s.1.links@ == s.0.links@ && s.1.devices == s.0.devices }
spec fn entry_gone(s: (VxiInner, VxiInner), id: u32) -> bool { s.1.links@ == s.0.links@.remove(id) && s.1.devices == s.0.devices }
spec fn fresh_link(l: Link, s: (VxiInner, VxiInner), name: Seq<char>, id: u32) -> bool {
    l.id == id && l.in_buf@.len() == 0 && l.out_buf@.len() == 0 && l.srq_handle is None && (l.handle.dev@, l.handle.lock@) == s.0.devices.m@[name]
}
spec fn created(o: VxiCoreSession, n: VxiCoreSession, p: CreateLinkParms, resp: CreateLinkResp) -> bool {
    let k = o.inner.log@.len() as int;
    let s = n.inner.log@[k];
    &&& n.srq.log == o.srq.log && n.cancelled == o.cancelled && n.inner.log@.len() > k
    &&& resp.abort_port == o.async_port && resp.max_recv_size == o.max_recv_size
    &&& if !s.0.devices.m@.contains_key(p.device@) { n.inner.log@ == o.inner.log@.push(s) && no_entry(s) && resp.error is InvalidAddress && n.links@ == o.links@ }
        else if resp.error is NoError {
            let l = n.links@[resp.lid.0];
            &&& n.inner.log@ == o.inner.log@.push(s) && new_entry(s, p.device@, resp.lid.0, l.abort.ch@) && n.links@ == o.links@.insert(resp.lid.0, l) && fresh_link(l, s, p.device@, resp.lid.0)
            &&& if p.lock_device { l.handle.log@.len() == 1 && l.handle.log@[0] is Acquire && l.handle.log@[0]->Acquire_0 == Some(p.lock_timeout as int) && l.handle.log@[0]->Acquire_1 is Ok } else { l.handle.log@.len() == 0 }
        } else {
            // the lock could not be had (in time)
            &&& p.lock_device && (resp.error is DeviceLockedByAnotherLink || resp.error is NoLockHeldByThisLink || resp.error is Abort || resp.error is DeviceNotAccessible)
            &&& n.links@ == o.links@ && n.inner.log@ == o.inner.log@.push(s).push(n.inner.log@[k + 1]) && exists|id: u32, ch: int| #[trigger] new_entry(s, p.device@, id, ch) && entry_gone(n.inner.log@[k + 1], id)
        }
}
spec fn destroyed(o: VxiCoreSession, n: VxiCoreSession, p: DeviceLink, resp: DeviceError) -> bool {
    if o.links@.contains_key(p.0) {
        &&& resp.error is NoError && n.links@ == o.links@.remove(p.0) && n.srq.log == o.srq.log
        &&& one(o.inner.log@, n.inner.log@) && entry_gone(n.inner.log@.last(), p.0)
        &&& n.cancelled@ == (match o.links@[p.0].srq_handle { Some(t) => o.cancelled@.push(t.id@), None => o.cancelled@ })
    } else { resp.error is InvalidLinkIdentifier && no_change(o, n) }
}
spec fn srq_enabled(o: VxiCoreSession, n: VxiCoreSession, p: DeviceEnableSrqParms, resp: DeviceError) -> bool {
    if o.links@.contains_key(p.lid.0) {
        let (a, b) = (o.links@[p.lid.0], n.links@[p.lid.0]);
        &&& n.links@ == o.links@.insert(p.lid.0, b) && srq_set(a, b, p, resp) && n.srq.log == o.srq.log
        &&& o.inner.log == n.inner.log || (one(o.inner.log@, n.inner.log@) && no_entry(n.inner.log@.last()))
        &&& n.cancelled@ == (match a.srq_handle { Some(t) => o.cancelled@.push(t.id@), None => o.cancelled@ })
    } else { resp.error is InvalidLinkIdentifier && no_change(o, n) }
}
spec fn chan_made(o: VxiCoreSession, n: VxiCoreSession, p: DeviceRemoteFunc, resp: DeviceError) -> bool {
    &&& n.links@ == o.links@ && n.inner.log == o.inner.log && n.cancelled == o.cancelled && one(o.srq.log@, n.srq.log@)
    &&& match n.srq.log@.last() {
        (Some(c), d) => d == Some(c) && resp.error is ChannelAlreadyEstablished,
        (None, Some(c)) => resp.error is NoError && c.host@ == p.host_addr && c.port@ == p.host_port && c.prog@ == p.prog_num && c.vers@ == p.prog_vers && c.udp@ == (p.prog_family is Udp),
        (None, None) => resp.error is ChannelNotEstablished,
    }
}
spec fn chan_closed(o: VxiCoreSession, n: VxiCoreSession, resp: DeviceError) -> bool {
    &&& n.links@ == o.links@ && n.inner.log == o.inner.log && n.cancelled == o.cancelled && one(o.srq.log@, n.srq.log@)
    &&& n.srq.log@.last().1 is None && (resp.error is NoError <==> n.srq.log@.last().0 is Some) && (!(resp.error is NoError) ==> resp.error is ChannelNotEstablished)
}
spec fn call_refused(r: Result<(), RpcError>, old_ret: Seq<u8>, new_ret: Seq<u8>) -> bool { r is Err && old_ret == new_ret && !(r->Err_0 is RpcMissmatch || r->Err_0 is AuthError || r->Err_0 is Portmap) }
spec fn garbage(r: Result<(), RpcError>) -> bool { r is Err && (r->Err_0 is Io || r->Err_0 is GarbageArgs) }
'''
# procedure -> (name, parameter type, response type, property, what has to hold: (link relation or None, session relation or None))
ARMS = [
    (10, "CREATE_LINK", "CreateLinkParms", "CreateLinkResp", "P16", None, "created"),
    (11, "DEVICE_WRITE", "DeviceWriteParms", "DeviceWriteResp", "P17", "wrote", None),
    (12, "DEVICE_READ", "DeviceReadParms", "DeviceReadResp", "P17", "did_read", None),
    (13, "DEVICE_READSTB", "DeviceGenericParms", "DeviceReadStbResp", "P18", "status_read", None),
    (14, "DEVICE_TRIGGER", "DeviceGenericParms", "DeviceError", "P18", "triggered", None),
    (15, "DEVICE_CLEAR", "DeviceGenericParms", "DeviceError", "P18", "cleared", None),
    (16, "DEVICE_REMOTE", "DeviceGenericParms", "DeviceError", "P18", "remoted", None),
    (17, "DEVICE_LOCAL", "DeviceGenericParms", "DeviceError", "P18", "localed", None),
    (18, "DEVICE_LOCK", "DeviceLockParms", "DeviceError", "P18", "locked", None),
    (19, "DEVICE_UNLOCK", "DeviceLink", "DeviceError", "P18", "unlocked", None),
    (20, "DEVICE_ENABLE_SRQ", "DeviceEnableSrqParms", "DeviceError", "P26", None, "srq_enabled"),
    (22, "DEVICE_DOCMD", "DeviceDocmdParms", "DeviceDocmdResp", "P18", "no_cmd", None),
    (23, "DESTROY_LINK", "DeviceLink", "DeviceError", "P16", None, "destroyed"),
    (25, "CREATE_INTR_CHAN", "DeviceRemoteFunc", "DeviceError", "P26", None, "chan_made"),
    (26, "DESTROY_INTR_CHAN", None, "DeviceError", "P26", None, "chan_closed"),
]
# the builder (P25)
SETUP = r'''
// ---- trusted stand-ins: the port mapper -------------------------------------------------------------------------------------
// the port mapper could not be reached / it has the mapping / it did not accept the mapping
uninterp spec fn vx_no_conn() -> bool;
uninterp spec fn vx_has(m: Mapping) -> bool;
uninterp spec fn vx_refused(m: Mapping) -> bool;
struct VxAddrs;
struct PortMapperClient { c: Ghost<int> }
impl PortMapperClient {
    #[verifier::external_body]
    fn connect_tcp(a: VxAddrs) -> (r: Result<Self, Error>) ensures r is Err ==> vx_no_conn() { unimplemented!() }
    #[verifier::external_body]
    fn set(&mut self, m: Mapping) -> (r: Result<bool, RpcError>) ensures r is Ok && r->Ok_0 ==> vx_has(m), r is Err || !r->Ok_0 ==> vx_refused(m) { unimplemented!() }
    #[verifier::external_body]
    fn unset(&mut self, m: Mapping) -> (r: Result<bool, RpcError>) { unimplemented!() }
    #[verifier::external_body]
    fn register(&mut self, m: Mapping) -> (r: Result<(), RpcError>) ensures r is Ok ==> vx_has(m), r is Err ==> vx_refused(m) { unimplemented!() }
}
spec fn core_at(p: u16) -> Mapping { Mapping { prog: 0x0607AF, vers: 1, prot: 6, port: p as u32 } }
spec fn async_at(p: u16) -> Mapping { Mapping { prog: 0x0607B0, vers: 1, prot: 6, port: p as u32 } }
// VxiInner in its Arc and Mutex: the initial state, and which one it is
impl VxInner {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.init == self.init, r.id == self.id { unimplemented!() }
}
fn vx_and(a: &mut bool, b: bool) ensures *final(a) == (*old(a) && b) { if !b { *a = false; } }
'''


def arm_copy(consts, keep, other):
    """one copy of `call` per procedure: the arms of the other procedures become unreachable"""
    def rw(txt):
        f = File("<arm>", "fn x() " + txt)
        T = f.toks
        ms = [i for i in range(len(T) - 3) if T[i].t == "match" and T[i + 1].t == "proc" and T[i + 2].t == "{"]
        if len(ms) != 1:
            return txt
        i, e = ms[0] + 3, f.m[ms[0] + 2]
        ed = []
        while i < e:
            ar = f.skip_to(i, ("=>",), e)
            if ar >= e:
                break
            pat = rx.src_of(f, i, ar)
            b = ar + 1
            end = f.m[b] + 1 if T[b].t == "{" else f.skip_to(b, (",",), e)
            names = set(re.findall(r"\b[A-Z][A-Z0-9_]+\b", pat))
            mine = (keep in names) if keep else not (names & set(consts))
            if not mine and not (keep and pat.strip() == "_" and other) and (keep is None or pat.strip() not in ("_",)):
                ed.append((T[b].s, T[end - 1].e, "{ vx_stop() }"))
            i = end + 1 if end < e and T[end].t == "," else end
        return rx.apply(f.src, len("fn x() "), len(f.src), ed)
    rw.__doc__ = "the arms of other procedures are replaced by a call that requires false"
    return rw


def waits(txt):
    """timeout(D, H.async_lock()) and timeout(D, H.async_acquire_exclusive()) -> the stand-ins with a time limit"""
    for _ in range(6):
        f = File("<wait>", "fn x() " + txt)
        T = f.toks
        for i in range(len(T) - 2):
            if T[i].t == "timeout" and T[i + 1].t == "(":
                a = rx._args(f, i + 1)
                if len(a) != 2:
                    continue
                m = re.fullmatch(r"(.*?)\s*\.\s*(async_lock|async_acquire_exclusive)\(\)", rx.src_of(f, *a[1]).strip(), re.S)
                if not m:
                    continue
                lo, e = i, f.m[i + 1]
                while T[lo - 1].t == "::" and T[lo - 2].k == "id":
                    lo -= 2
                if T[e + 1].t == "." and T[e + 2].t == "fuse":
                    e = f.m[e + 3]
                nm = "vx_lock_timeout" if m.group(2) == "async_lock" else "vx_acquire_timeout"
                txt = f.src[len("fn x() "):T[lo].s] + f"{nm}({rx.src_of(f, *a[0])}, &mut {m.group(1)})" + f.src[T[e].e:]
                break
        else:
            return txt
    return txt


def parens(txt):
    """the choice that replaces select! is one expression"""
    f = File("<par>", "fn x() " + txt)
    T = f.toks
    ed = []
    for i in range(len(T) - 4):
        if T[i].t == "match" and T[i + 1].t == "vx_choose":
            b = f.skip_to(i, ("{",))
            e = f.m[b]
            if T[e + 1].t == ".":
                ed += [(T[i].s, T[i].s, "("), (T[e].e, T[e].e, ")")]
    return rx.apply(f.src, len("fn x() "), len(f.src), ed)


def spawned(f):
    """the body of task::spawn(async move { .. }) inside a function body text -> (text with the call of the stand-in, the task's body)"""
    T = f.toks
    for i in range(len(T) - 6):
        if T[i].t == "spawn" and T[i + 1].t == "(" and T[i + 2].t == "async":
            lo = i
            while T[lo - 1].t == "::" and T[lo - 2].k == "id":
                lo -= 2
            b = i + 3 if T[i + 3].t == "{" else i + 4
            return T[lo].s, T[f.m[i + 1]].e, rx.src_of(f, b, f.m[b] + 1)
    return None


def spawn_rw(txt):
    """task::spawn(async move { .. }) -> the stand-in; what the task does is verified apart"""
    f = File("<sp>", "fn x() " + txt)
    h = spawned(f)
    if not h:
        return txt
    return f.src[len("fn x() "):h[0]] + "vx_spawn(client, reader, &parms.handle)" + f.src[h[1]:]


def closures(txt):
    txt = re.sub(r"([\w.]+)\s*\.iter\(\)\s*\.position\(\|(\w+)\|\s*(?:\2\.eq\(&([\w.]+)\)|\*\2\s*==\s*([\w.]+)|([\w.]+)\s*==\s*\*\2)\s*\)", lambda m: f"vx_position(&{m[1]}, {m[3] or m[4] or m[5]})", txt)
    return re.sub(r"([\w.]+)\s*\.iter\(\)\s*\.position\(\|&(\w+)\|\s*\2\s*==\s*([\w.]+)\s*\)", r"vx_position(&\1, \3)", txt)


NOAWAIT = (r"\s*\.await\b", "", False)
RW = [spawn_rw, select_arms(), waits, NOAWAIT, (r"\b([\w.]+)\s*\.try_reserve(?:_exact)?\(((?:[^()]|\(\))*)\)", r"vx_reserve(&mut \1, \2)", False), parens, combinators, (r"\b(?:xdr|vxi11)::", "", False), closures,
      (r"JoinHandle<Result<\(\), RpcError>>", "JoinHandle", False), (r"\bcore::cmp::min\b|\bstd::cmp::min\b|\bcmp::min\b", "min", False),
      (r"&parms\.data(?!\.)", "&parms.data.0", False), (r"\bparms\.data\.len\(\)", "parms.data.0.len()", False),
      (r"\b([\w.]+)\.extend(?:_from_slice)?\((&?[\w.]+)\)", r"vx_extend(&mut \1, \2)", False),
      (r"\b([\w.]+)\.drain\(\s*(?:0)?\.\.\s*(\w+)\s*\)(?:\s*\.collect(?:::<[^()]*>)?\(\))?", r"vx_drain(&mut \1, 0, \2)", False), (r"\bdata\.collect\(\)", "data", False),
      (r"\b(\w+)\.cancel\(\)", r"vx_cancel(\1, &mut self.cancelled)", False),
      (r"(\bparms\.[\w.]+)\s*==\s*(DeviceAddrFamily::\w+)", r"matches!(\1, \2)", False)]
LEM = r'''
broadcast proof fn l_or(a: u32, b: u32) requires a < 8, b == 1 || b == 2 || b == 4 ensures #[trigger] (a | b) == (if b == 1 { if a == 0 { 1u32 } else if a == 2 { 3u32 } else if a == 4 { 5u32 } else if a == 6 { 7u32 } else { a } } else if b == 2 { if a == 0 { 2u32 } else if a == 1 { 3u32 } else if a == 4 { 6u32 } else if a == 5 { 7u32 } else { a } } else { if a == 0 { 4u32 } else if a == 1 { 5u32 } else if a == 2 { 6u32 } else if a == 3 { 7u32 } else { a } }) {
    assert(a < 8 ==> (a | 1) == (if a == 0 { 1u32 } else if a == 2 { 3u32 } else if a == 4 { 5u32 } else if a == 6 { 7u32 } else { a })) by(bit_vector);
    assert(a < 8 ==> (a | 2) == (if a == 0 { 2u32 } else if a == 1 { 3u32 } else if a == 4 { 6u32 } else if a == 5 { 7u32 } else { a })) by(bit_vector);
    assert(a < 8 ==> (a | 4) == (if a == 0 { 4u32 } else if a == 1 { 5u32 } else if a == 2 { 6u32 } else if a == 3 { 7u32 } else { a })) by(bit_vector);
}
broadcast proof fn l_or0(a: u8) ensures #[trigger] (a | 0u8) == a { assert(a | 0u8 == a) by(bit_vector); }
broadcast proof fn l_drop(s: Seq<u8>, n: int) requires 0 <= n <= s.len() ensures #[trigger] (s.take(0) + s.skip(n)) == s.skip(n), s.subrange(0, n) == s.take(n) { assert(s.take(0) + s.skip(n) =~= s.skip(n)); }
broadcast proof fn l_push<T>(s: Seq<T>, x: T) ensures (#[trigger] s.push(x)).last() == x, s.push(x).contains(x), s.push(x).len() == s.len() + 1, s.push(x)[s.len() as int] == x { assert(s.push(x)[s.len() as int] == x); }
broadcast proof fn l_push2<T>(s: Seq<T>, x: T, y: T) requires s.contains(y) ensures #[trigger] s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
broadcast proof fn l_rm<V>(m: Map<u32, V>, k: u32) ensures !m.contains_key(k) ==> #[trigger] m.remove(k) == m { if !m.contains_key(k) { assert(m.remove(k) =~= m); } }
broadcast group cl { l_rm, l_or, l_or0, l_drop, l_push, l_push2 }
'''


def types(R, f, fm):
    ed = lambda t: re.sub(r"<DEV>", "", t)
    out = []
    for n in ("Link", "VxiInner", "VxiServerBuilder"):
        s = fm.find("struct", n)
        out.append(ed(R.clean(fm, s.head, s.hi, [])))
    s = f.find("struct", "VxiCoreSession")
    out.append(ed(R.clean(f, s.head, s.hi, [])).rstrip()[:-1].rstrip().rstrip(",") + ", cancelled: Ghost<Seq<int>> }")
    s = f.find("struct", "VxiCoreServer")
    out.append(ed(R.clean(f, s.head, s.hi, [])))
    s = File(ABORT).find("struct", "VxiAsyncServer")
    out.append(ed(R.clean(f if False else s.f, s.head, s.hi, [])))
    t = "\n".join(out)
    for a, b in ((r"Arc<Mutex<VxiInner>>", "VxInner"), (r"\bMutex<HashMap<u32,\s*Link>>", "VxLinks"), (r"Arc<Mutex<Option<VxiSrqClient>>>", "VxSrq"),
                 (r"JoinHandle<Result<\(\),\s*RpcError>>", "JoinHandle"), (r"\b(Sender|Receiver)<\(\)>", r"\1"), (r"\bpeer:\s*SocketAddr\s*,", "peer: VxPeer,")):
        t = re.sub(a, b, t)
    return t


def enums(R):
    out = []
    for path, n in (("device/src/lib.rs", "DeviceError"), ("device/src/trigger.rs", "Source"), ("device/src/lock.rs", "SharedLockError"), ("device/src/lock.rs", "SharedLockMode")):
        fd = File(path)
        e = fd.find("enum", n)
        out.append(onc.pubify(R.clean(fd, e.head, e.hi, [])).replace("enum DeviceError", "enum LxiDeviceError"))
    return "//RAW\n" + "\n".join(out)


def members(f, header, name):
    im = [i for i in f.items if i.kind == "impl" and not i.is_test() and re.match(header, i.header)]
    ms = [m for i in im for m in i.members if m.kind == "fn" and (name is None or m.name == name)]
    if name and len(ms) != 1:
        raise Lost(f"{header} {name}: {len(ms)} found")
    return ms[0] if name else ms


def call_contract(k, name, P, Rsp, prop, link, sess):
    bad = f"!old(self).links@.contains_key(p.{'0' if P == 'DeviceLink' else 'lid.0'})"
    lid = "p.0" if P == "DeviceLink" else "p.lid.0"
    if P is None:
        body = f"/*{prop}*/ r is Ok, /*{prop}*/ exists|resp: {Rsp}| final(ret).sent() == #[trigger] resp.put(old(ret).sent()) && {sess}(*old(self), *final(self), resp)"
    else:
        if link:
            rel = f"if old(self).links@.contains_key({lid}) {{ on_link(*old(self), *final(self), {lid}) && {link}(old(self).links@[{lid}], final(self).links@[{lid}], p, resp) }} else {{ no_change(*old(self), *final(self)) && resp.error is InvalidLinkIdentifier }}"
        else:
            rel = f"{sess}(*old(self), *final(self), p, resp)"
        oom = " || (r->Err_0 is SystemErr && vx_oom())" if name == "DEVICE_WRITE" else ""
        body = f"""/*{prop}*/ r is Err ==> ({P}::rest(old(args).rem()) is None && garbage(r) && no_change(*old(self), *final(self))){oom},
            /*P15,{prop}*/ r is Err ==> final(ret).sent() == old(ret).sent(),
            /*{prop}*/ r is Ok ==> {P}::rest(old(args).rem()) is Some && exists|p: {P}, resp: {Rsp}| #[trigger] {P}::val(old(args).rem(), &p) && final(ret).sent() == #[trigger] resp.put(old(ret).sent()) && ({rel})"""
    return body


def build():
    f = XFile(CORE, ("get_link", "lock_device"))
    fm = File(MOD)
    fa = File(ABORT)
    R = Render("core")
    pre = onc.prelude(R)
    pre.append(rpc.error(R, File(rpc.SRC), verify=False))
    out = []
    fv = File("vxi11/src/common/vxi11/mod.rs")
    consts = [it.name for it in fv.items if it.kind == "const"]
    for it in fv.items:
        if it.kind == "const":
            out.append(R.clean(fv, it.head, it.hi, []))
    out.append(types(R, f, fm))
    # error codes
    fx = File(onc.FILES["vxi11"])
    for h, hd in ((r"impl From<LxiDeviceError> for (xdr::)?DeviceErrorCode", "impl From<LxiDeviceError> for DeviceErrorCode"),
                  (r"impl From<SharedLockError> for (xdr::)?DeviceErrorCode", "impl From<SharedLockError> for DeviceErrorCode"),
                  (r"impl<T>\s*From<Result<\(\),T>> for (xdr::)?DeviceErrorCode", "impl<T: Into<DeviceErrorCode>> From<Result<(), T>> for DeviceErrorCode")):
        m = members(fm, h, "from")
        out.append(hd + " {\n" + R.fn(m, Contract("", rw=[(r"\bxdr::", "", False)], sig=None), hd[5:].replace(" for ", "::")) .replace("xdr::", "") + "}\n")
    m = members(fx, r"impl From<u32> for DeviceLink", "from")
    out.append("impl From<u32> for DeviceLink {\n" + R.fn(m, Contract(""), "DeviceLink::from") + "}\n")
    fl = []
    for nm, bit in (("is_waitlock", "1"), ("is_end", "8"), ("is_termcharset", "0x80")):
        m = members(fx, r"impl DeviceFlags", nm)
        fl.append(R.fn(m, Contract(f"ensures /*P16,P17,P18*/ r == (self.0 & {bit} != 0)\n", rw=[(r"\bSelf::(\w+)", r"Self::\1", False)]), f"DeviceFlags::{nm}"))
    out.append("impl DeviceFlags {\n" + "\n".join(fl) + "}\n")
    # links
    LT = [(r"LockHandle<DEV>", "LockHandle"), (r"Sender<\(\)>", "Sender")]
    C = {"new": Contract("ensures /*P16*/ fresh(r.0, id, handle) && r.0.abort.ch == r.1.ch && r.0.abort.n@ == 0\n", sig=LT),
         "clear": Contract("ensures /*P18*/ final(self).in_buf@.len() == 0 && final(self).out_buf@.len() == 0 && final(self).id == old(self).id && final(self).handle == old(self).handle && final(self).abort == old(self).abort && final(self).srq_handle == old(self).srq_handle\n"),
         "close": Contract("ensures /*P16*/ released(old(self).handle, final(self).handle)\n", pre="broadcast use cl;")}
    body = [R.fn(m, C.pop(m.name, None), f"Link::{m.name}") for m in members(fm, r"impl<DEV>\s*Link<DEV>", None)]
    if C:
        raise Lost("Link::" + ", ".join(C))
    dr = [m for m in members(fm, r"impl<DEV>\s*Drop for Link<DEV>", None) if m.name == "drop"]
    dc = "ensures /*P16*/ released(old(self).handle, final(self).handle)\n"
    if dr:
        body.append(re.sub(r"\bfn drop\b", "fn vx_drop", R.fn(dr[0], Contract(dc), "Link::drop"), count=1))
    else:
        R.functions.append(("Link::drop", MOD, 1, True))
        body.append("//@fn Link::drop\nfn vx_drop(&mut self)\n    " + dc + "{ }\n//@end\n")
    out.append("impl Link {\n" + "\n".join(body) + "}\n")
    A = "#[verifier::exec_allows_no_decreases_clause]"
    same = "final(self).devices == old(self).devices && final(self).links@ == old(self).links@"
    C = {"new": Contract("ensures /*P16,P25*/ r.init@.devices == devices && r.init@.links@ == Map::<u32, Sender>::empty() && r.init@.status == status\n", sig=[(r"\bDeviceMap<DEV>", "DeviceMap"), (r"Arc<Mutex<Self>>", "VxInner")], rw=[(r"Arc::new\(\s*Mutex::new\(", "vx_inner(("), ]),
         "next_link_id": Contract(f"requires exists|k: u32| !#[trigger] old(self).links@.contains_key(k) ensures /*P16*/ !old(self).links@.contains_key(r), {same}\n", attrs=A, loops=[("while", "invariant self.devices == old(self).devices, self.links@ == old(self).links@\n", "")]),
         "new_link": Contract("requires exists|k: u32| !#[trigger] old(self).links@.contains_key(k) ensures /*P16*/ r is Ok <==> old(self).devices.m@.contains_key(subaddr@), /*P16*/ r is Err ==> no_entry((*old(self), *final(self))),\n            /*P16*/ r is Ok ==> new_entry((*old(self), *final(self)), subaddr@, r->Ok_0.0, r->Ok_0.1.abort.ch@) && fresh_link(r->Ok_0.1, (*old(self), *final(self)), subaddr@, r->Ok_0.0) && r->Ok_0.1.handle.log@.len() == 0\n", sig=[(r"Link<DEV>", "Link")]),
         "remove_link": Contract("ensures /*P16*/ entry_gone((*old(self), *final(self)), lid)\n")}
    body = [R.fn(m, C.pop(m.name, None), f"VxiInner::{m.name}") for m in members(fm, r"impl<DEV>\s*VxiInner<DEV>", None)]
    if C:
        raise Lost("VxiInner::" + ", ".join(C))
    out.append("impl VxiInner {\n" + "\n".join(body) + "}\n")
    # the builder
    fp = File(onc.FILES["pmap"])
    im = rpc.impl_fns(fp, r"impl Mapping$")
    out.append("impl Mapping {\n" + R.fn(im.members[0], Contract("ensures /*P19,P20,P25*/ r.prog == prog && r.vers == vers && r.prot == prot && r.port == port\n"), "Mapping::new") + "}\n")
    fmm = File("vxi11/src/common/portmapper/mod.rs")
    for it in fmm.items:
        if it.kind == "const" and it.name not in consts:
            out.append(R.clean(fmm, it.head, it.hi, []))
    bsig = [(r"\bDeviceMap<DEV>", "DeviceMap", False), (r"Arc<(VxiCoreServer|VxiAsyncServer)<DEV>>", r"\1", False), (r"Arc<(?:Mutex<DEV>|SpinMutex<SharedLock>)>", "VxArc", False), (r"impl ToSocketAddrs", "VxAddrs", False)]
    brw = [NOAWAIT, (r"\bArc::new\(", "(", False), (r"\b(\w+) &= (portmap.*?);", r"vx_and(&mut \1, \2);", False), (r"(: )?\bDefault::default\(\)", lambda m: ": DeviceMap::default()" if m[1] else "Self::default()", False)]
    C = {"default": Contract("ensures /*P25*/ r.devices.m@ == Map::<Seq<char>, (int, int)>::empty()\n", sig=bsig, rw=brw),
         "new": Contract("ensures /*P25*/ r.devices.m@ == Map::<Seq<char>, (int, int)>::empty()\n", sig=bsig, rw=brw),
         "core_port": Contract("ensures /*P25*/ r.core_port == core_port && r.async_port == self.async_port && r.devices == self.devices\n", sig=bsig, rw=brw),
         "async_port": Contract("ensures /*P25*/ r.async_port == async_port && r.core_port == self.core_port && r.devices == self.devices\n", sig=bsig, rw=brw),
         "device": Contract("ensures /*P16,P25*/ r.devices.m@ == self.devices.m@.insert(subaddr@, (dev.id@, shared_lock.id@)) && r.core_port == self.core_port && r.async_port == self.async_port\n", sig=bsig, rw=brw),
         "register_portmap": Contract("ensures /*P25*/ r is Ok ==> r->Ok_0 == self && self.core_port != 0 && self.async_port != 0 && vx_has(core_at(self.core_port)) && vx_has(async_at(self.async_port)),\n            /*P25*/ r is Err ==> self.core_port == 0 || self.async_port == 0 || vx_no_conn() || vx_refused(core_at(self.core_port)) || vx_refused(async_at(self.async_port))\n", sig=bsig, rw=brw, pre="broadcast use vx_question;"),
         "build": Contract("ensures /*P25*/ r.0.core_port == self.core_port && r.0.async_port == self.async_port && r.1.async_port == self.async_port, /*P16,P25*/ r.0.inner.id == r.1.inner.id && r.0.inner.init == r.1.inner.init && r.0.inner.init@.devices == self.devices && r.0.inner.init@.links@ == Map::<u32, Sender>::empty() && r.0.inner.init@.status == status, /*P25*/ r.0.max_recv_size >= 1024\n", sig=bsig, rw=brw + [(r"\bVxiAsyncServer \{", "VxiAsyncServer { sent: Ghost(Seq::empty()),", False)])}
    body = []
    for h in (r"impl<DEV>\s*Default for VxiServerBuilder<DEV>", r"impl<DEV>\s*VxiServerBuilder<DEV>"):
        body += [R.fn(m, C.pop(m.name, None), f"VxiServerBuilder::{m.name}") for m in members(fm, h, None)]
    if C:
        raise Lost("VxiServerBuilder::" + ", ".join(C))
    out.append("impl VxiServerBuilder {\n" + re.sub(r"\basync fn\b", "fn", "\n".join(body)) + "}\n")
    # the core service
    sig = [(r"self\s*:\s*Arc<Self>", "&mut self"), (r"(?:io::)?Cursor<Vec<u8>>", "Cursor"), (r"\bwhere\s*Self\s*:\s*Sync,?", "")]
    m = members(f, r"impl<DEV>\s*RpcService for VxiCoreSession<DEV>", "call")
    names = [a[1] for a in ARMS]
    body = []
    P0 = "broadcast use {vxl::all, vx_question, cl}; "
    LP = [None] * len(rx.find_loops(f, m.body + 1, f.m[m.body]))    # loops of the service request task
    for k, n, P, Rsp, prop, link, sess in ARMS:
        spec = f"requires prog == 0x0607AF, vers == 1, proc == {k}\n        ensures " + call_contract(k, n, P, Rsp, prop, link, sess)
        c = Contract(spec, attrs="#[verifier::rlimit(60)]" if n == "DEVICE_READ" else "", sig=sig, rw=[arm_copy(names, n, False)] + RW, loops=LP, pre=P0 + ("proof { lemma_reads(); }" if n == "DEVICE_READ" else ""))
        t = R.fn(m, c, f"VxiCoreSession::call [{n}]")
        body.append(re.sub(r"\bfn call\b", f"fn call_{k}", t, count=1))
    known = " || ".join(f"proc == {a[0]}" for a in ARMS)
    disp = f"""requires !(prog == 0x0607AF && vers == 1 && ({known}))
        ensures /*P15,P16*/ no_change(*old(self), *final(self)) && final(ret).sent() == old(ret).sent(),
            /*P15,P18*/ prog != 0x0607AF ==> r is Err && r->Err_0 is ProgUnavail,
            /*P15,P18*/ prog == 0x0607AF && vers != 1 ==> r is Err && r->Err_0 is ProgMissmatch && r->Err_0->ProgMissmatch_0.low == 1 && r->Err_0->ProgMissmatch_0.high == 1,
            /*P15,P18*/ prog == 0x0607AF && vers == 1 && proc == 0 ==> r is Ok,
            /*P15,P18*/ prog == 0x0607AF && vers == 1 && proc != 0 ==> r is Err && r->Err_0 is ProcUnavail"""
    t = R.fn(m, Contract(disp, sig=sig, rw=[arm_copy(names, None, True)] + RW, loops=LP, pre=P0), "VxiCoreSession::call [other]")
    body.append(re.sub(r"\bfn call\b", "fn call_other", t, count=1))
    cl = members(f, r"impl<DEV>\s*VxiCoreSession<DEV>", "close_links")
    body.append(R.fn(cl, Contract("ensures /*P16*/ final(self).links@ == Map::<u32, Link>::empty(), /*P16*/ one(old(self).inner.log@, final(self).inner.log@), /*P16*/ forall|k: u32| old(self).links@.contains_key(k) ==> !#[trigger] final(self).inner.log@.last().1.links@.contains_key(k),\n            /*P16*/ forall|k: u32| #[trigger] old(self).links@.contains_key(k) && old(self).links@[k].srq_handle is Some ==> final(self).cancelled@.contains(old(self).links@[k].srq_handle->0.id@)\n",
                                  sig=[(r"&self", "&mut self")], rw=[drain_rw] + RW[3:],
                                  loops=[("for", CLOSE_INV, "")], attrs=A + "\n#[verifier::loop_isolation(false)]", pre="broadcast use cl;"), "VxiCoreSession::close_links"))
    out.append("impl VxiCoreSession {\n" + "\n".join(body) + "}\n")
    # what a service request task does
    src = File("<call>", f.src[f.toks[m.head].s:f.toks[m.hi - 1].e])
    h = spawned(src)
    if not h:
        raise Lost("the service request task")
    ft = File(CORE, "async fn srq_task(mut reader: VxStatus, client: VxSrq, parms: DeviceEnableSrqParms) -> Result<(), RpcError> " + h[2])
    out.append(R.fn(ft.items[0], Contract(SRQ, sig=[(r"mut reader: VxStatus", "reader: &mut VxStatus"), (r"client: VxSrq", "client: &mut VxSrq")], rw=[NOAWAIT] + RW[6:], attrs=A,
                                          loops=[("while", SRQ_INV, "")], pre="broadcast use vx_question;"), "service request task"))
    # abort
    ma = members(fa, r"impl<DEV>\s*RpcService for VxiAsyncServer<DEV>", "call")
    spec = """ensures
            /*P15,P16*/ r is Err ==> final(ret).sent() == old(ret).sent() && final(self).sent == old(self).sent && final(self).inner.log == old(self).inner.log,
            /*P15,P16*/ prog != 0x0607B0 ==> r is Err && r->Err_0 is ProgUnavail,
            /*P15,P16*/ prog == 0x0607B0 && vers != 1 ==> r is Err && r->Err_0 is ProgMissmatch && r->Err_0->ProgMissmatch_0.low == 1 && r->Err_0->ProgMissmatch_0.high == 1,
            /*P15,P16*/ prog == 0x0607B0 && vers == 1 && proc == 0 ==> r is Ok && final(ret).sent() == old(ret).sent() && final(self).sent == old(self).sent && final(self).inner.log == old(self).inner.log,
            /*P15,P16*/ prog == 0x0607B0 && vers == 1 && proc != 0 && proc != 1 ==> r is Err && r->Err_0 is ProcUnavail,
            /*P16*/ prog == 0x0607B0 && vers == 1 && proc == 1 && DeviceLink::rest(old(args).rem()) is None ==> garbage(r),
            /*P16*/ prog == 0x0607B0 && vers == 1 && proc == 1 && DeviceLink::rest(old(args).rem()) is Some ==> r is Ok && exists|p: DeviceLink, resp: DeviceError| #[trigger] DeviceLink::val(old(args).rem(), &p) && final(ret).sent() == #[trigger] resp.put(old(ret).sent())
                && one(old(self).inner.log@, final(self).inner.log@) && no_entry(final(self).inner.log@.last()) && aborts(final(self).inner.log@.last().0.links@, p.0, resp, old(self).sent@, final(self).sent@)
"""
    t = R.fn(ma, Contract(spec, sig=sig, rw=RW[1:] + [(r"\.links\.get\(([^()]*)\)\.cloned\(\)", r".links.vx_cloned(\1)", False), (r"\b(\w+)\.try_send\(\(\)\)", r"\1.vx_send(&mut self.sent)", False)], pre=P0), "VxiAsyncServer::call")
    out.append("impl VxiAsyncServer {\n" + t + "}\n")
    txt = "\n".join(out)
    txt = txt.replace("struct VxiAsyncServer {", "struct VxiAsyncServer { sent: Ghost<Seq<int>>,", 1)
    return Group("core", wrap(*pre, enums(R), ITEMS, CODES, SPEC, SETUP, LINKS, LEM, txt, broadcast=("vxl::all",)), R,
                 trusted=[onc.CURSOR_TRUST] + TRUST, exact=("execute", "trigger", "get_status", "set_remote", "set_local_lockout", "inner_lock", "async_lock", "try_lock", "can_lock"), default_props=["P16"], panic_props=["P24"],
                 fn_props={q: ["P16", "P17", "P18"] for q in ("From<LxiDeviceError>::DeviceErrorCode", "From<SharedLockError>::DeviceErrorCode", "T: Into<DeviceErrorCode>> From<Result<(), T>>::DeviceErrorCode")})


def drain_rw(txt):
    """for (a, b) in X.drain() -> take the entries out one by one, in any order"""
    return re.sub(r"\bfor \((\w+),\s*(?:mut )?(\w+)\) in ([\w.()]+?)\.lock\(\)(?:\s*\.await)?\s*\.drain\(\)\s*(invariant.*?)?\{", r"let vx_m = \3.lock();\n while let Some((\1, mut \2)) = vx_m.vx_take_any() \4{", txt, count=1, flags=re.S)


LINKS = r'''
struct VxPeer;
spec fn fresh(l: Link, id: u32, h: LockHandle) -> bool { l.id == id && l.handle == h && l.srq_handle is None && l.in_buf@.len() == 0 && l.out_buf@.len() == 0 }
spec fn released(a: LockHandle, b: LockHandle) -> bool { b.log@.len() > a.log@.len() && b.log@.contains(Op::Force) && b.same(a) }
proof fn lemma_reads() ensures forall|q: Seq<u8>, x: u8| #![trigger first(q, x)] 0 <= first(q, x) <= q.len() && (forall|i: int| 0 <= i < q.len() && #[trigger] q[i] == x && (forall|j: int| 0 <= j < i ==> q[j] != x) ==> first(q, x) == i + 1) && ((forall|j: int| 0 <= j < q.len() ==> q[j] != x) ==> first(q, x) == q.len()) {
    assert forall|q: Seq<u8>, x: u8| #![trigger first(q, x)] 0 <= first(q, x) <= q.len() && (forall|i: int| 0 <= i < q.len() && #[trigger] q[i] == x && (forall|j: int| 0 <= j < i ==> q[j] != x) ==> first(q, x) == i + 1) && ((forall|j: int| 0 <= j < q.len() ==> q[j] != x) ==> first(q, x) == q.len()) by { lemma_first(q, x); }
}
// an abort succeeds exactly if the link is open, and then signals that link
spec fn aborts(open: Map<u32, Sender>, id: u32, resp: DeviceError, s0: Seq<int>, s1: Seq<int>) -> bool {
    if open.contains_key(id) { resp.error is NoError && s1 == s0.push(open[id].ch@) } else { resp.error is InvalidLinkIdentifier && s1 == s0 }
}
// every status change is announced once with the link's handle, if the interrupt channel is open
spec fn srq_sent(log: Seq<(Option<VxiSrqClient>, Option<VxiSrqClient>)>, h: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < log.len() ==> match #[trigger] log[i] { (Some(a), Some(b)) => b.sent@ == a.sent@.push(h) && a.host == b.host && a.port == b.port && a.prog == b.prog && a.vers == b.vers && a.udp == b.udp, (None, None) => true, _ => false }
}
#[verifier::external_body]
fn vx_inner(x: VxiInner) -> (r: VxInner) ensures r.init@ == x, r.log@.len() == 0 { unimplemented!() }
'''
CLOSE_INV = r'''invariant
            forall|k: u32| old(self).links@.contains_key(k) && !(#[trigger] vx_m@.contains_key(k)) ==> !inner.links@.contains_key(k),
            forall|k: u32| #[trigger] vx_m@.contains_key(k) ==> old(self).links@.contains_key(k) && vx_m@[k] == old(self).links@[k],
            forall|k: u32| #[trigger] old(self).links@.contains_key(k) && !vx_m@.contains_key(k) && old(self).links@[k].srq_handle is Some ==> self.cancelled@.contains(old(self).links@[k].srq_handle->0.id@)
'''
SRQ = r'''requires old(client).log@.len() == 0, old(reader).got@.len() == 0
    ensures /*P26*/ srq_sent(final(client).log@, parms.handle.0@), /*P26*/ final(reader).got@.len() > 0 && final(reader).got@.last() is None, /*P26*/ final(client).log@.len() == final(reader).got@.len() - 1
'''
SRQ_INV = r'''invariant_except_break client.log@.len() == reader.got@.len(), reader.got@.len() > 0 ==> reader.got@.last() is Some
            invariant srq_sent(client.log@, parms.handle.0@)
            ensures client.log@.len() == reader.got@.len() - 1, reader.got@.last() is None
'''
TRUST = ["the device does what its methods do; calls are logged with arguments and results", "SharedLock operations and what came of them are logged (their meaning: group lock)",
         "async_std::future::timeout limits the wait to the given time; select! completes with one of its branches", "std HashMap, Vec::drain, Iterator::position, Vec::extend as documented",
         "the calls of one connection run one after the other (serve_tcp_stream, group rpc)", "fewer than 2^32 links are open"]
