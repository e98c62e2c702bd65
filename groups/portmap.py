"""vxi11: P19 the static portmapper."""
import re
from rx import File, Render, Contract, Lost
from vx import Group
from common import wrap
import rx
import hislip as H
import onc
import rpc

SRC = "vxi11/src/server/portmapper.rs"
SPEC = r'''
// RFC 1833 section 3
spec fn lookup(s: Seq<Mapping>, q: Mapping) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if hit(s[0], q) { s[0].port as int } else { lookup(s.skip(1), q) }
}
spec fn hit(m: Mapping, q: Mapping) -> bool { m.prog == q.prog && m.vers == q.vers && m.prot == q.prot }
proof fn lemma_lookup(s: Seq<Mapping>, q: Mapping)
    ensures forall|i: int| 0 <= i < s.len() && hit(#[trigger] s[i], q) && (forall|j: int| 0 <= j < i ==> !hit(#[trigger] s[j], q)) ==> lookup(s, q) == s[i].port,
        (forall|i: int| 0 <= i < s.len() ==> !hit(#[trigger] s[i], q)) ==> lookup(s, q) == 0,
        lookup(s, q) >= 0
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.skip(1);
        lemma_lookup(t, q);
        assert forall|i: int| 0 <= i < s.len() && hit(#[trigger] s[i], q) && (forall|j: int| 0 <= j < i ==> !hit(#[trigger] s[j], q)) implies lookup(s, q) == s[i].port by {
            if i > 0 { assert(hit(t[i - 1], q)); assert(!hit(s[0], q)); assert forall|j: int| 0 <= j < i - 1 implies !hit(#[trigger] t[j], q) by { assert(!hit(s[j + 1], q)); } }
        }
        if forall|i: int| 0 <= i < s.len() ==> !hit(#[trigger] s[i], q) {
            assert(!hit(s[0], q));
            assert forall|i: int| 0 <= i < t.len() implies !hit(#[trigger] t[i], q) by { assert(!hit(s[i + 1], q)); }
        }
    }
}
// the list of all mappings: each preceded by true, the end marked by false
spec fn listed(s: Seq<Mapping>, o: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { o } else { s.last().put(true.put(listed(s.drop_last(), o))) } }
// slice::Iter::find, as documented
fn vx_find<'a, T, F: Fn(&T) -> bool>(s: &'a [T], f: F) -> (r: Option<&'a T>)
    requires forall|x: &T| #[trigger] call_requires(f, (x,))
    ensures match r { Some(x) => exists|i: int| 0 <= i < s@.len() && #[trigger] s@[i] == *x && call_ensures(f, (&s@[i],), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] s@[j],), false),
        None => forall|j: int| 0 <= j < s@.len() ==> call_ensures(f, (&#[trigger] s@[j],), false) }
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|x: &T| #[trigger] call_requires(f, (x,)), forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] s@[j],), false)
        decreases s@.len() - i
    {
        if f(&s[i]) { return Some(&s[i]); }
        i += 1;
    }
    None
}
'''
CALL = """ensures
    // what the dispatcher relies on
    /*P15,P19*/ r is Err ==> final(ret).sent() == old(ret).sent() && !(r->Err_0 is RpcMissmatch || r->Err_0 is AuthError || r->Err_0 is Portmap),
    /*P19*/ prog != 100000 <==> r is Err && r->Err_0 is ProgUnavail,
    /*P19*/ prog == 100000 && vers != 2 ==> r is Err && r->Err_0 is ProgMissmatch && r->Err_0->ProgMissmatch_0.low == 2 && r->Err_0->ProgMissmatch_0.high == 2,
    /*P19*/ prog == 100000 && vers == 2 && proc == 0 ==> r is Ok && final(ret).sent() == old(ret).sent(),
    /*P19*/ prog == 100000 && vers == 2 && proc == 3 && Mapping::rest(old(args).rem()) is None ==> r is Err && (r->Err_0 is Io || r->Err_0 is GarbageArgs),
    /*P19*/ prog == 100000 && vers == 2 && proc == 3 && Mapping::rest(old(args).rem()) is Some ==> r is Ok && exists|q: Mapping| #[trigger] Mapping::val(old(args).rem(), &q) && (lookup(self.mappings@, q) < 0x1_0000 ==> final(ret).sent() == (lookup(self.mappings@, q) as u32).put(old(ret).sent())),
    /*P19*/ prog == 100000 && vers == 2 && proc == 4 ==> r is Ok && final(ret).sent() == false.put(listed(self.mappings@, old(ret).sent())),
    /*P19*/ prog == 100000 && vers == 2 && proc != 0 && proc != 3 && proc != 4 ==> r is Err && r->Err_0 is ProcUnavail
"""


def find_rw(txt):
    """xs.iter().find(|m| COND) -> vx_find(&xs, the same closure with its result as its contract)"""
    f = File("<find>", "fn x() " + txt)
    T = f.toks
    pre = len("fn x() ")
    for i in range(len(T) - 8):
        if T[i].t == "." and T[i + 1].t == "iter" and T[i + 2].t == "(" and T[f.m[i + 2] + 1].t == "." and T[f.m[i + 2] + 2].t == "find":
            o = f.m[i + 2] + 3
            a = rx._args(f, o)
            cl = rx._closure(f, *a[0]) if len(a) == 1 else None
            if not cl:
                return txt
            j = i - 1
            while T[j - 1].t in (".",):
                j -= 2
            body = cl[1].strip()
            if body.startswith("{") and body.endswith("}"):
                body = body[1:-1].strip()
            p = cl[0].strip().lstrip("&")
            return f.src[pre:T[j].s] + f"vx_find({rx.src_of(f, j, i).rstrip()}.as_slice(), |{p}: &Mapping| -> (vx_b: bool) ensures vx_b == ({body}) {{ {body} }})" + f.src[T[f.m[o]].e:]
    return txt


def build():
    f = File(SRC)
    R = Render("portmap")
    pre = onc.prelude(R)
    pre.append(rpc.error(R, File(rpc.SRC), verify=False))
    out = []
    fm = File("vxi11/src/common/portmapper/mod.rs")
    for it in fm.items:
        if it.kind == "const":
            out.append(R.clean(fm, it.head, it.hi, []))
    st = f.find("struct", "StaticPortMap")
    out.append(re.sub(r"\bxdr::", "", R.clean(f, st.head, st.hi, [])))
    im = [i for i in f.items if i.kind == "impl" and re.match(r"impl\s*<const N\s*:\s*usize>\s*RpcService for StaticPortMap", i.header)]
    if len(im) != 1:
        raise Lost("impl RpcService for StaticPortMap")
    sig = [(r"self\s*:\s*Arc<Self>", "&self"), (r"io::Cursor<Vec<u8>>|\bCursor<Vec<u8>>", "Cursor")]
    loops = [("for", "        invariant ret.sent() == listed(self.mappings@.take(it.index@), old(ret).sent()),\n", "it", "",
              "proof { assert(self.mappings@.take(it.index@ + 1).drop_last() =~= self.mappings@.take(it.index@)); }")]
    C = {"call": Contract(CALL, sig=sig, loops=loops, attrs="#[verifier::loop_isolation(false)]",
                          pre="broadcast use {vxl::all, vx_question}; proof { assert forall|q: Mapping| (#[trigger] Mapping::val(old(args).rem(), &q)) implies lookup(self.mappings@, q) >= 0 && (forall|i: int| 0 <= i < self.mappings@.len() && hit(#[trigger] self.mappings@[i], q) && (forall|j: int| 0 <= j < i ==> !hit(#[trigger] self.mappings@[j], q)) ==> lookup(self.mappings@, q) == self.mappings@[i].port) && ((forall|i: int| 0 <= i < self.mappings@.len() ==> !hit(#[trigger] self.mappings@[i], q)) ==> lookup(self.mappings@, q) == 0) by { lemma_lookup(self.mappings@, q); }; assert(self.mappings@.take(self.mappings@.len() as int) =~= self.mappings@); }",
                          rw=[(r"\bxdr::", "", False), find_rw, rx.combinators])}
    body = [R.fn(m, C.get(m.name), f"StaticPortMap::{m.name}") for m in im[0].members if m.kind == "fn"]
    if not body:
        raise Lost("StaticPortMap::call")
    out.append("impl<const N: usize> StaticPortMap<N> {\n" + "\n".join(body) + "}\n")
    return Group("portmap", wrap(*pre, SPEC, "\n".join(out), broadcast=("vxl::all",)), R,
                 trusted=[onc.CURSOR_TRUST, "registered ports are below 65536"], default_props=["P19"], panic_props=["P24"])
