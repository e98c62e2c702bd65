"""hislip/src/server/mod.rs InnerServer: P07 session registry."""
from rx import File, Render, Contract, Lost
from vx import Group
from common import wrap

PRELUDE = r'''
// ---- trusted stand-ins ---------------------------------------------------------------------------------------------
// Arc/Weak: `id` is the allocation.  `gone`: no strong reference was left when the function under contract was entered;
// `live`: one is still there when it returns (so a weak reference that is neither dies meanwhile).
struct Arc<T> { v: T, id: Ghost<int> }
#[verifier::reject_recursive_types(T)]
struct Weak<T> { id: Ghost<int>, gone: Ghost<bool>, live: Ghost<bool>, x: core::marker::PhantomData<T> }
impl<T> Arc<T> {
    #[verifier::external_body]
    fn new(v: T) -> (r: Self) ensures r.v == v { unimplemented!() }
    #[verifier::external_body]
    fn downgrade(a: &Arc<T>) -> (w: Weak<T>) ensures w.id == a.id, !w.gone@ { unimplemented!() }
}
impl<T> Weak<T> {
    #[verifier::external_body]
    fn strong_count(&self) -> (n: usize) ensures self.gone@ ==> n == 0, self.live@ ==> n > 0 { unimplemented!() }
    #[verifier::external_body]
    fn upgrade(&self) -> (r: Option<Arc<T>>) ensures self.gone@ ==> r is None, self.live@ ==> r is Some, r is Some ==> r->0.id == self.id { unimplemented!() }
}
struct Mutex<T> { v: T }
impl<T> Mutex<T> { fn new(v: T) -> (r: Self) ensures r.v == v { Mutex { v } } }
struct SpinMutex<T> { v: T }
impl<T> SpinMutex<T> { fn new(v: T) -> (r: Self) ensures r.v == v { SpinMutex { v } } }
#[verifier::reject_recursive_types(DEV)]
struct LockHandle<DEV> { x: core::marker::PhantomData<DEV> }
#[derive(Clone, Copy)]
struct Protocol(u16);
trait Device {}
struct SharedSession { protocol: Protocol, fresh: Ghost<bool> }
impl SharedSession {
    #[verifier::external_body]
    fn new(protocol: Protocol) -> (r: Self) ensures r.protocol == protocol, r.fresh@ { unimplemented!() }
}
#[verifier::external_body]
fn vx_string() -> (r: String) { unimplemented!() }
// std::collections::HashMap with the keys u16
#[verifier::reject_recursive_types(V)]
struct HashMap<K, V> { m: Ghost<Map<u16, V>>, k: core::marker::PhantomData<K> }
impl<V> HashMap<u16, V> {
    spec fn view(&self) -> Map<u16, V> { self.m@ }
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@.dom() == Set::<u16>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@.dom() == Set::<u16>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &u16) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &u16) -> (r: Option<&V>) ensures r is Some <==> self@.contains_key(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: u16, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &u16) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.dom().len(), self@.dom().finite() { unimplemented!() }
    // the closure decides for each entry, in any order
    #[verifier::external_body]
    fn retain<F: FnMut(&u16, &mut V) -> bool>(&mut self, f: F)
        ensures
            forall|k: u16| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k] && kept(f, k, old(self)@[k], true),
            forall|k: u16| #[trigger] old(self)@.contains_key(k) && !final(self)@.contains_key(k) ==> kept(f, k, old(self)@[k], false) { unimplemented!() }
}
// f may answer b for the entry (k, v), leaving it as it is
spec fn kept<V, F: FnMut(&u16, &mut V) -> bool>(f: F, k: u16, v: V, b: bool) -> bool { exists|r: &mut V| *r == v && #[trigger] call_ensures(f, (&k, r), b) }

// the session's client is gone / the session is alive throughout
spec fn gone<DEV: Device>(h: SessionHandle<DEV>) -> bool { h.shared.gone@ || h.device.gone@ }
spec fn live<DEV: Device>(h: SessionHandle<DEV>) -> bool { h.shared.live@ && h.device.live@ }
// b is a, possibly without sessions that are not alive
spec fn only_dead<DEV: Device>(a: Map<u16, SessionHandle<DEV>>, b: Map<u16, SessionHandle<DEV>>) -> bool {
    &&& forall|k: u16| #[trigger] b.contains_key(k) ==> a.contains_key(k) && b[k] == a[k]
    &&& forall|k: u16| #[trigger] a.contains_key(k) && live(a[k]) ==> b.contains_key(k)
}
spec fn none_gone<DEV: Device>(b: Map<u16, SessionHandle<DEV>>) -> bool { forall|k: u16| #[trigger] b.contains_key(k) ==> !gone(b[k]) }
spec fn no_id<DEV: Device>(m: Map<u16, SessionHandle<DEV>>) -> bool { forall|k: u16| k % 2 == 0 ==> #[trigger] m.contains_key(k) }
broadcast proof fn l_ins<V>(m: Map<u16, V>, k: u16, v: V)
    ensures !m.contains_key(k) ==> (#[trigger] m.insert(k, v)).remove(k) == m, m.insert(k, v).dom() == m.dom().insert(k) {
    if !m.contains_key(k) { assert(m.insert(k, v).remove(k) =~= m); }
    assert(m.insert(k, v).dom() =~= m.dom().insert(k));
}
// how far the counter is from the place where the search began
spec fn up(o: u16, s: u16) -> int { if s > o { (s - o) as int } else { (s - o + 0x10000) as int } }
spec fn dist(o: u16, s: u16) -> int { if o >= s { (o - s) as int } else { (o - s + 0x10000) as int } }
'''
TRUST = ["Arc/Weak: strong_count is 0 and upgrade None if all strong references were gone before, >0 and Some if one outlives the call, either way otherwise; upgrade gives the allocation that was downgraded",
         "HashMap<u16, _>: contains_key, get, insert, len, retain as documented", "error texts are arbitrary strings",
         "the registry is only used under its mutex, so each method runs on its own"]
RW = [(r'"(?:[^"\\]|\\.)*"\s*\.(?:to_string|into|to_owned)\(\)', "vx_string()", False),
      (r"Default::default\(\)", "HashMap::default()", False)]


def closure_spec(txt):
    """retain's closure gets its own postcondition"""
    import re
    m = re.search(r"\.\s*retain\(\s*\|\s*(\w+)\s*,\s*(\w+)\s*\|", txt)
    if not m:
        return txt
    i, d = m.end(), 1
    while i < len(txt) and d:
        d += {"(": 1, ")": -1}.get(txt[i], 0)
        i += 1
    k, v, body = m.group(1), m.group(2), txt[m.end():i - 1].strip().rstrip(",")
    k = "vx_k" if k == "_" else k
    return txt[:m.start()] + f".retain(|{k}: &u16, {v}: &mut SessionHandle<DEV>| -> (r: bool) ensures r ==> !gone(*old({v})), !r ==> !live(*old({v})) {{ {body} }})" + txt[i:]


def cursor(f):
    """the place that new_session_id counts in: the field, or a local"""
    import re
    for im in f.items:
        for m in getattr(im, "members", None) or []:
            if m.kind == "fn" and m.name == "new_session_id":
                x = re.search(r"contains_key\(&([\w.]+)\)", m.text())
                return (x.group(1) if x else "self.session_id"), "while" if "while" in m.text() else "loop"
    return "self.session_id", "while"


def build():
    f = File("hislip/src/server/mod.rs")
    fe = File("hislip/src/common/errors.rs")
    R = Render("registry")
    out = []
    for n in ("Error", "FatalErrorCode", "NonFatalErrorCode"):
        it = fe.find("enum", n)
        out.append(("#[derive(Clone, Copy)]\n" if any("Copy" in a for a in it.attrs) else "") + R.clean(fe, it.head, it.hi, []))
    for n in ("SessionHandle", "InnerServer"):
        it = f.find("struct", n)
        out.append("#[verifier::reject_recursive_types(DEV)]\n" + R.clean(f, it.head, it.hi, []).replace("where\n    DEV: Device,", "").replace("<DEV>", "<DEV: Device>", 1))
    for n in ("SessionInfo", "NewSession"):
        it = f.find("type", n)
        out.append(R.clean(f, it.head, it.hi, []))
    CUR, KIND = cursor(f)
    O, N = "old(self).sessions@", "final(self).sessions@"
    C = {
        "SessionHandle::new": Contract("ensures /*P07*/ r.shared == session, /*P07*/ r.device == handle"),
        "SessionHandle::active": Contract("ensures /*P07*/ gone(*self) ==> !r, /*P07*/ live(*self) ==> r"),
        "InnerServer::new": Contract("ensures /*P07*/ r.v.v.sessions@.dom() == Set::<u16>::empty(), /*P07*/ r.v.v.max_num_sessions == max_num_sessions, /*P07*/ r.v.v.session_id % 2 == 0", rw=RW),
        "InnerServer::new_session_id": Contract(f"""requires old(self).session_id % 2 == 0
            ensures /*P07*/ {N} == {O}, /*P07*/ final(self).max_num_sessions == old(self).max_num_sessions, /*P07*/ final(self).session_id % 2 == 0,
                /*P07*/ r is Ok ==> r->Ok_0 % 2 == 0 && !{O}.contains_key(r->Ok_0) && r->Ok_0 == final(self).session_id,
                /*P07*/ r is Err ==> no_id({O}) && r->Err_0 is Fatal && r->Err_0->Fatal_0 is MaximumClientsExceeded""", rw=RW,
            loops=[(KIND, f"""invariant {CUR} % 2 == 0, self.session_id % 2 == 0, origin % 2 == 0, self.sessions@ == old(self).sessions@, self.max_num_sessions == old(self).max_num_sessions,
                """ + (f"""forall|k: u16| k % 2 == 0 && dist(origin, k) > dist(origin, {CUR}) ==> #[trigger] old(self).sessions@.contains_key(k),
            decreases dist(origin, {CUR})""" if KIND == "while" else f"""{CUR} == origin || forall|k: u16| k % 2 == 0 && up(origin, k) <= up(origin, {CUR}) ==> #[trigger] old(self).sessions@.contains_key(k),
            decreases (if {CUR} == origin {{ 0x10000 }} else {{ 0x10000 - up(origin, {CUR}) }})"""))]),
        "InnerServer::create_session": Contract(f"""requires old(self).session_id % 2 == 0
            ensures /*P07*/ final(self).session_id % 2 == 0, /*P07*/ final(self).max_num_sessions == old(self).max_num_sessions,
                /*P07*/ r is Ok ==> {{ let n = r->Ok_0; let g = {N}.remove(n.0);
                    ({O}.contains_key(n.0) ==> !live({O}[n.0])) && only_dead({O}, g) && none_gone(g) && {N}.contains_key(n.0)
                    && {N}[n.0].shared.id == n.1.id && {N}[n.0].device.id == n.2.id && {N}.dom().len() <= final(self).max_num_sessions
                    && n.1.v.v.protocol == protocol && n.1.v.v.fresh@ && n.2.v.v == handle }},
                /*P07*/ r is Err ==> only_dead({O}, {N}) && none_gone({N}) && ({N}.dom().len() >= final(self).max_num_sessions || no_id({N}))
                    && r->Err_0 is Fatal && r->Err_0->Fatal_0 is MaximumClientsExceeded""", rw=RW, pre="broadcast use l_ins;"),
        "InnerServer::get_session": Contract(f"""ensures /*P07*/ {N} == {O}, /*P07*/ final(self).session_id == old(self).session_id, /*P07*/ final(self).max_num_sessions == old(self).max_num_sessions,
            /*P07*/ r is Some ==> {O}.contains_key(session_id) && (r->0).0.id == {O}[session_id].shared.id && (r->0).1.id == {O}[session_id].device.id && !gone({O}[session_id]),
            /*P07*/ r is None ==> !{O}.contains_key(session_id) || !live({O}[session_id])"""),
        "InnerServer::gc_sessions": Contract(f"""ensures /*P07*/ only_dead({O}, {N}), /*P07*/ none_gone({N}),
            /*P07*/ final(self).session_id == old(self).session_id, /*P07*/ final(self).max_num_sessions == old(self).max_num_sessions""", rw=[closure_spec]),
    }
    seen = set()
    for hdr in ("SessionHandle", "InnerServer"):
        im = [x for x in f.items if x.kind == "impl" and x.header.startswith("impl<DEV>" + hdr)]
        if not im:
            raise Lost("impl " + hdr)
        body = []
        for m in im[0].members:
            if m.kind == "fn":
                q = hdr + "::" + m.name
                seen.add(q)
                body.append(R.fn(m, C.get(q), q))
        out.append(f"impl<DEV: Device> {hdr}<DEV> {{\n" + "\n".join(body) + "}\n")
    for q in C:
        if q not in seen:
            R.flag(f"{q} is gone")
    return Group("registry", wrap(PRELUDE, "\n".join(out)), R, trusted=TRUST, default_props=["P07"], panic_props=["P07", "P23"])
