"""device/src/status.rs: P04 broadcast of status changes."""
import re
from rx import File, Render, Contract, Lost, apply
from vx import Group
from common import wrap

PRELUDE = r'''
type Arc<T> = T;
// a spinlock; `log` records, for each critical section, the content when it was taken and when it was given back
struct Mutex<T> { v: T, log: Ghost<Seq<(T, T)>> }
impl<T> Mutex<T> {
    #[verifier::external_body]
    fn new(v: T) -> (r: Self) ensures r.v == v, r.log@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn lock(&mut self) -> (g: &mut T) ensures final(self).log@ == old(self).log@.push((*g, *final(g))) { unimplemented!() }
}
// futures::channel::mpsc, bounded: one sending end per receiver
mod mpsc {
    use vstd::prelude::*;
    verus! {
    pub struct V { pub id: int, pub q: Seq<u8>, pub open: bool }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { x: core::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { x: core::marker::PhantomData<T> }
    #[verifier::external_body]
    pub struct TrySendError {}
    impl Sender<u8> {
        // v().q: everything that was accepted by the channel, in order; open: the receiver is still there
        pub uninterp spec fn v(&self) -> V;
        pub uninterp spec fn room(&self) -> bool;
        #[verifier::external_body]
        pub fn try_send(&mut self, b: u8) -> (r: Result<(), TrySendError>)
            ensures final(self).v() == (if old(self).v().open && old(self).room() { V { q: old(self).v().q.push(b), ..old(self).v() } } else { old(self).v() }),
                r is Ok <==> old(self).v().open && old(self).room() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_closed(&self) -> (r: bool) ensures r == !self.v().open { unimplemented!() }
    }
    impl Receiver<u8> {
        pub uninterp spec fn id(&self) -> int;
    }
    #[verifier::external_body]
    pub fn channel(n: usize) -> (r: (Sender<u8>, Receiver<u8>))
        ensures r.0.v().id == r.1.id(), r.0.v().open, r.0.room(), r.0.v().q.len() == 0 { unimplemented!() }
    }
}
pub struct S0 { pub v: mpsc::V, pub room: bool }
spec fn s0(s: mpsc::Sender<u8>) -> S0 { S0 { v: s.v(), room: s.room() } }
// what a broadcast must do to one live receiver
spec fn sent(e: S0, b: u8) -> mpsc::V { if e.room { mpsc::V { q: e.v.q.push(b), ..e.v } } else { e.v } }
// ... and to the list: closed ones go, live ones stay, in order
spec fn after(s: Seq<S0>, b: u8) -> Seq<mpsc::V> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let p = after(s.drop_last(), b);
        if s.last().v.open { p.push(sent(s.last(), b)) } else { p }
    }
}
spec fn vs(s: Seq<mpsc::Sender<u8>>) -> Seq<mpsc::V> { s.map(|i: int, x: mpsc::Sender<u8>| x.v()) }
spec fn ss(s: Seq<mpsc::Sender<u8>>) -> Seq<S0> { s.map(|i: int, x: mpsc::Sender<u8>| s0(x)) }
// every live receiver got exactly that byte once (if there was room) and is kept; nothing else is in the list
proof fn lemma_after(s: Seq<S0>, b: u8, i: int)
    requires 0 <= i < s.len()
    ensures /*P04*/ s[i].v.open ==> after(s, b).contains(sent(s[i], b)), /*P04*/ after(s, b).len() <= s.len()
    decreases s.len()
{
    let p = after(s.drop_last(), b);
    if s.len() > 1 { lemma_after(s.drop_last(), b, if i < s.len() - 1 { i } else { 0 }); }
    if i < s.len() - 1 {
        if s[i].v.open {
            assert(s.drop_last()[i] == s[i]);
            let k = choose|k: int| 0 <= k < p.len() && p[k] == sent(s[i], b);
            if s.last().v.open { assert(after(s, b)[k] == p[k]); }
        }
    } else if s[i].v.open { assert(after(s, b)[p.len() as int] == sent(s[i], b)); }
}
proof fn lemma_step(s: Seq<S0>, b: u8, k: int)
    requires 0 <= k < s.len()
    ensures after(s.take(k + 1), b) == (if s[k].v.open { after(s.take(k), b).push(sent(s[k], b)) } else { after(s.take(k), b) })
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
'''
TRUST = ["spin::Mutex: exclusive access to the list of senders for each critical section",
         "futures mpsc::Sender: try_send queues the byte exactly if the receiver is alive and there is room; is_closed tells whether the receiver is gone; a new channel has room for a byte; the receiver gets what was queued in order",
         "Vec::retain_mut visits every element once in order and keeps those for which the closure is true (expanded to that loop)"]


def expand_retain(txt):
    """X.retain_mut(|e| BODY) -> the loop that defines it"""
    f = File("<retain>", "fn x() " + txt)
    T = f.toks
    for i, t in enumerate(T):
        if t.t == "retain_mut" and T[i - 1].t == "." and T[i + 1].t == "(" and T[i + 2].t == "|" and T[i + 4].t == "|":
            recv, var = T[i - 2].t, T[i + 3].t
            e = f.m[i + 1]
            body = f.src[T[i + 5].s:T[e - 1].e]
            if re.search(r"\breturn\b|\?", body):
                return txt
            new = f"""{{
        let ghost vx_l0 = ss({recv}@); let ghost mut vx_k: int = 0; let ghost vx_b = status;
        proof {{ assert(vx_l0.take(0) =~= Seq::<S0>::empty()); assert(vs({recv}@.take(0)) =~= after(vx_l0.take(0), vx_b)); assert(ss({recv}@.skip(0)) =~= vx_l0.skip(0)); }}
        let mut vx_i: usize = 0;
        while vx_i < {recv}.len()
            invariant vx_i <= {recv}@.len(), 0 <= vx_k <= vx_l0.len(), {recv}@.len() - vx_i == vx_l0.len() - vx_k,
                vs({recv}@.take(vx_i as int)) == after(vx_l0.take(vx_k), vx_b), ss({recv}@.skip(vx_i as int)) == vx_l0.skip(vx_k), vx_b == status,
            decreases {recv}@.len() - vx_i
        {{
            let ghost vx_before = {recv}@;
            proof {{ assert(s0(vx_before[vx_i as int]) == ss(vx_before.skip(vx_i as int))[0]); assert(vx_l0.skip(vx_k)[0] == vx_l0[vx_k]); lemma_step(vx_l0, vx_b, vx_k); }}
            let vx_keep = {{ let {var} = &mut {recv}[vx_i]; {body} }};
            proof {{ assert(ss({recv}@.skip(vx_i as int + 1)) =~= vx_l0.skip(vx_k + 1)) by {{
                        assert forall|j: int| 0 <= j < {recv}@.len() - vx_i - 1 implies #[trigger] ss({recv}@.skip(vx_i as int + 1))[j] == vx_l0.skip(vx_k + 1)[j] by {{
                            assert(ss(vx_before.skip(vx_i as int))[j + 1] == vx_l0.skip(vx_k)[j + 1]); }} }};
                     assert({recv}@.take(vx_i as int) =~= vx_before.take(vx_i as int)); vx_k = vx_k + 1; }}
            if vx_keep {{
                proof {{ assert(vs({recv}@.take(vx_i as int + 1)) =~= vs({recv}@.take(vx_i as int)).push({recv}@[vx_i as int].v())); }}
                vx_i += 1;
            }} else {{
                let ghost vx_b2 = {recv}@;
                {recv}.remove(vx_i);
                proof {{ assert({recv}@.take(vx_i as int) =~= vx_b2.take(vx_i as int)); assert({recv}@.skip(vx_i as int) =~= vx_b2.skip(vx_i as int + 1)); }}
            }}
        }}
        proof {{ assert(vx_l0.take(vx_k) =~= vx_l0); assert({recv}@.take(vx_i as int) =~= {recv}@); }}
        }}"""
            s = f.src[:T[i - 2].s] + new + f.src[T[e].e:]
            return s[len("fn x() "):]
    return txt


def build():
    f = File("device/src/status.rs")
    R = Render("status")
    out = [R.clean(f, f.find("struct", "Sender").head, f.find("struct", "Sender").hi, []).replace("Sender", "Sender", 1)]
    ty = f.find("type", "Receiver")
    out.append(R.clean(f, ty.head, ty.hi, []))
    LG, LG2 = "old(self).senders.log@", "final(self).senders.log@"
    C = {
        "send_status": Contract(f"""ensures /*P04*/ {LG2}.len() == {LG}.len() + 1, /*P04*/ forall|i: int| 0 <= i < {LG}.len() ==> #[trigger] {LG2}[i] == {LG}[i],
            /*P04*/ vs({LG2}.last().1@) == after(ss({LG2}.last().0@), status)""", rw=[expand_retain],
            pre=f"let ghost vx_log = self.senders.log@;", anchors=[]),
        "get_new_receiver": Contract(f"""ensures /*P04*/ {LG2}.len() == {LG}.len() + 1, /*P04*/ forall|i: int| 0 <= i < {LG}.len() ==> #[trigger] {LG2}[i] == {LG}[i],
            /*P04*/ ({{ let a = ss({LG2}.last().0@); let b = ss({LG2}.last().1@);
               b.len() == a.len() + 1 && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]) && b.last().v.id == r.id() && b.last().v.open && b.last().room && b.last().v.q.len() == 0 }})""",
            anchors=[(r"\w+\s*\.\s*push\s*\(\s*\w+\s*\)\s*;", "after", " proof { vx_push(); } ")]),
        "new": Contract("ensures /*P04*/ r.senders.v@.len() == 0"),
    }
    im = f.find("impl", header="impl Sender")
    body = []
    for m in im.members:
        if m.kind == "fn":
            c = C.pop(m.name, None)
            if c and m.name == "get_new_receiver":
                c.anchors = []
            body.append(R.fn(m, c, "Sender::" + m.name))
    for n in C:
        R.flag(f"Sender::{n} is gone")
    out.append("impl Sender {\n" + "\n".join(body) + "}\n")
    txt = "\n".join(out).replace("Arc::new(", "(")
    nl = len(re.findall(r"\.lock\(\)", txt))
    pre = PRELUDE
    a = pre.index("mod mpsc {")
    b = pre.index("pub struct S0")
    return Group("status", wrap(pre[:a], "//RAW\n" + pre[a:b], pre[b:], txt), R, trusted=TRUST, default_props=["P04"], panic_props=["P04"])
