"""vxi11: P14 record marking (RFC 5531 section 11)."""
import re
from rx import File, Render, Contract, Lost
from vx import Group
from common import wrap
import rx
import hislip as H
import hmsg

SPEC = r'''
// RFC 5531 section 11: a fragment is a 4-byte header, the last-fragment bit and a 31-bit length, followed by that many bytes;
// a record is one or more fragments, exactly the last of which has the bit set
spec fn f_ok(s: Seq<u8>) -> bool { s.len() >= 4 }
spec fn f_head(s: Seq<u8>) -> int { be(s.take(4)) }
spec fn f_len(s: Seq<u8>) -> int { f_head(s) % 0x8000_0000 }
spec fn f_last(s: Seq<u8>) -> bool { f_head(s) >= 0x8000_0000 }
spec fn f_full(s: Seq<u8>) -> bool { f_ok(s) && s.len() >= 4 + f_len(s) }
spec fn f_data(s: Seq<u8>) -> Seq<u8> { s.subrange(4, 4 + f_len(s)) }
spec fn f_rest(s: Seq<u8>) -> Seq<u8> { s.skip(4 + f_len(s)) }
// s starts with the fragments that give the record r (after the bytes a that are already there), and goes on with rest
spec fn record(s: Seq<u8>, a: Seq<u8>, r: Seq<u8>, rest: Seq<u8>) -> bool decreases s.len() {
    f_full(s) && if f_last(s) { r == a + f_data(s) && rest == f_rest(s) } else { record(f_rest(s), a + f_data(s), r, rest) }
}
// the stream ends inside a record
spec fn cut(s: Seq<u8>) -> bool decreases s.len() { !f_full(s) || (!f_last(s) && cut(f_rest(s))) }
// the record is larger than the limit: some prefix of its fragments already is
spec fn large(s: Seq<u8>, n: int, maxlen: int) -> bool decreases s.len() {
    f_ok(s) && (n + f_len(s) > maxlen || (f_full(s) && !f_last(s) && large(f_rest(s), n + f_len(s), maxlen)))
}
// the fragments seen so far: from s0 with nothing to s with a
spec fn so_far(s0: Seq<u8>, a0: Seq<u8>, s: Seq<u8>, a: Seq<u8>) -> bool decreases s0.len() {
    (s0 == s && a0 == a) || (f_full(s0) && !f_last(s0) && so_far(f_rest(s0), a0 + f_data(s0), s, a))
}
proof fn lemma_far(s0: Seq<u8>, a0: Seq<u8>, s: Seq<u8>, a: Seq<u8>)
    requires so_far(s0, a0, s, a)
    ensures f_full(s) && !f_last(s) ==> so_far(s0, a0, f_rest(s), a + f_data(s)),
        forall|r: Seq<u8>, rest: Seq<u8>| record(s, a, r, rest) ==> record(s0, a0, r, rest),
        cut(s) ==> cut(s0), forall|m: int| #[trigger] large(s, a.len() as int, m) ==> large(s0, a0.len() as int, m),
    decreases s0.len()
{
    lemma_range(s); lemma_range(s0); reveal_with_fuel(cut, 2); reveal_with_fuel(large, 2); reveal_with_fuel(record, 2); reveal_with_fuel(so_far, 2);
    if s0 == s && a0 == a {
        if f_full(s) && !f_last(s) {
            assert(so_far(f_rest(s), a + f_data(s), f_rest(s), a + f_data(s)));
        }
    } else {
        lemma_far(f_rest(s0), a0 + f_data(s0), s, a);
    }
}
proof fn lemma_range(s: Seq<u8>) ensures f_ok(s) ==> 0 <= f_head(s) < 0x1_0000_0000, f_ok(s) ==> 0 <= f_len(s) < 0x8000_0000 {
    if f_ok(s) { lemma_be_range(s.take(4)); reveal_with_fuel(pow256, 5); }
}
proof fn lemma_be_range(s: Seq<u8>) ensures 0 <= be(s) < pow256(s.len()) decreases s.len() {
    if s.len() > 0 { lemma_be_range(s.drop_last()); assert(pow256(s.len()) == 256 * pow256((s.len() - 1) as nat)); }
}
// a record that was sent is received unchanged
spec fn sent_record(d: Seq<u8>) -> Seq<u8> { enc_be(0x8000_0000 + d.len() as int, 4) + d }
proof fn lemma_roundtrip(d: Seq<u8>, t: Seq<u8>, maxlen: int)
    requires d.len() < 0x8000_0000, d.len() <= maxlen
    ensures /*P14*/ record(sent_record(d) + t, Seq::empty(), d, t), /*P14*/ !cut(sent_record(d) + t), /*P14*/ !large(sent_record(d) + t, 0, maxlen)
{
    let s = sent_record(d) + t;
    lemma_pow(); lemma_be(0x8000_0000 + d.len() as int, 4);
    assert(s.take(4) =~= enc_be(0x8000_0000 + d.len() as int, 4));
    assert(f_data(s) =~= d); assert(f_rest(s) =~= t); assert(Seq::<u8>::empty() + d =~= d);
}
// and no other record or rest can be read from any stream: the fragmentation determines it
proof fn lemma_unique(s: Seq<u8>, a: Seq<u8>, r1: Seq<u8>, t1: Seq<u8>, r2: Seq<u8>, t2: Seq<u8>)
    requires record(s, a, r1, t1), record(s, a, r2, t2)
    ensures /*P14*/ r1 == r2, /*P14*/ t1 == t2, /*P14*/ !cut(s)
    decreases s.len()
{
    if f_full(s) && !f_last(s) { lemma_range(s); lemma_unique(f_rest(s), a + f_data(s), r1, t1, r2, t2); }
}
// how a record is split into fragments makes no difference: one more fragment in front
proof fn lemma_split(s: Seq<u8>, a: Seq<u8>, d: Seq<u8>, r: Seq<u8>, t: Seq<u8>)
    requires record(s, a + d, r, t), d.len() < 0x8000_0000
    ensures /*P14*/ record(enc_be(d.len() as int, 4) + d + s, a, r, t)
{
    let x = enc_be(d.len() as int, 4) + d + s;
    lemma_pow(); lemma_be(d.len() as int, 4);
    assert(x.take(4) =~= enc_be(d.len() as int, 4));
    assert(f_data(x) =~= d); assert(f_rest(x) =~= s);
}
'''
LEM = r'''//RAW
mod vxl {
    use vstd::prelude::*;
    verus! {
    pub broadcast proof fn l_mask(x: u32) ensures (#[trigger] (x & 0x7fff_ffffu32)) == x % 0x8000_0000u32 { assert(x & 0x7fff_ffffu32 == x % 0x8000_0000u32) by(bit_vector); }
    pub broadcast proof fn l_top(x: u32) ensures (#[trigger] (x & 0x8000_0000u32)) == (if x >= 0x8000_0000u32 { 0x8000_0000u32 } else { 0u32 }) { assert((x & 0x8000_0000u32) == (if x >= 0x8000_0000u32 { 0x8000_0000u32 } else { 0u32 })) by(bit_vector); }
    pub broadcast proof fn l_or(x: u32) ensures x < 0x8000_0000u32 ==> (#[trigger] (0x8000_0000u32 | x)) == x + 0x8000_0000u32 { if x < 0x8000_0000u32 { assert(x < 0x8000_0000u32 ==> (0x8000_0000u32 | x) == add(x, 0x8000_0000u32)) by(bit_vector); } }
    pub broadcast proof fn l_shr(x: u32) ensures (#[trigger] (x >> 31)) == (if x >= 0x8000_0000u32 { 1u32 } else { 0u32 }) { assert((x >> 31) == (if x >= 0x8000_0000u32 { 1u32 } else { 0u32 })) by(bit_vector); }
    pub broadcast proof fn l_masku(x: usize) ensures (#[trigger] (x & 0x7fff_ffffusize)) == x % 0x8000_0000usize { assert(x & 0x7fff_ffffusize == x % 0x8000_0000usize) by(bit_vector); }
    pub broadcast proof fn l_skip(s: Seq<u8>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len() ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b) { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
    pub broadcast proof fn l_take(s: Seq<u8>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len() ensures #[trigger] s.skip(a).take(b) == s.subrange(a, a + b) { assert(s.skip(a).take(b) =~= s.subrange(a, a + b)); }
    pub broadcast proof fn l_tt(s: Seq<u8>, n: int) requires s.len() == n ensures #[trigger] s.take(n) == s { assert(s.take(n) =~= s); }
    pub broadcast proof fn l_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] (a + b + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
    pub broadcast group all { l_mask, l_top, l_shr, l_or, l_masku, l_skip, l_take, l_tt, l_assoc }
    }
}
'''
FRAG = SPEC[SPEC.index("spec fn f_ok"):SPEC.index("// the fragments seen so far")] + SPEC[SPEC.index("spec fn sent_record"):SPEC.index("proof fn lemma_roundtrip")] + "uninterp spec fn vx_oom() -> bool; // an allocation failed\n"
READ = """requires maxlen <= isize::MAX as int
    ensures
    /*P14*/ r is Ok ==> record(old(reader).rem(), Seq::empty(), r->Ok_0@, final(reader).rem()) && r->Ok_0@.len() <= maxlen && final(reader).io_ok() == old(reader).io_ok(),
    /*P14*/ r is Err && old(reader).io_ok() ==> cut(old(reader).rem()) || large(old(reader).rem(), 0, maxlen as int) || vx_oom(),
"""
WRITE = """requires record@.len() < 0x8000_0000
    ensures /*P14*/ r is Ok ==> final(writer).sent() == old(writer).sent() + sent_record(record@) && final(writer).io_ok() == old(writer).io_ok(),
        /*P14*/ r is Err ==> !old(writer).io_ok()
"""
SIG = [(r"\bResult<(Vec<u8>|\(\))>", r"Result<\1, io::Error>")]
TRUST = ["futures AsyncRead/AsyncWrite: read_exact, take+read_to_end and write_all transfer exactly the bytes they report; they fail only at end of stream or when the transport fails",
         "byteorder reads and writes big-endian", "Vec::try_reserve changes no content", "records are shorter than 2^31 bytes when sent"]


def contracts():
    inv = """        invariant so_far(old(reader).rem(), Seq::empty(), reader.rem(), buf@), reader.io_ok() == old(reader).io_ok(), buf@.len() <= maxlen, maxlen <= isize::MAX as int,
"""
    return {
        "read_record": Contract(READ, mono=[("AsyncRead", "VxRead")], sig=SIG, attrs="#[verifier::exec_allows_no_decreases_clause]",
                                pre="broadcast use vxl::all; proof { lemma_far(reader.rem(), Seq::empty(), reader.rem(), Seq::empty()); }",
                                loops=[("loop", inv, "", "broadcast use vxl::all; let ghost vx_s = reader.rem(); let ghost vx_a = buf@; let ghost vx_l = large(vx_s, vx_a.len() as int, maxlen as int); proof { lemma_far(old(reader).rem(), Seq::empty(), vx_s, vx_a); lemma_range(vx_s); reveal_with_fuel(record, 2); reveal_with_fuel(cut, 2); reveal_with_fuel(large, 2); }", "")],
                                rw=[rx.break_to_return, (r"Vec::new\(\)", "vx_empty()", False), (r"(?<![:\w])ErrorKind::", "io::ErrorKind::", False), (r"\.try_reserve(_exact)?\(", ".vx_try_reserve(", False)]),
        "write_record": Contract(WRITE, mono=[("AsyncWrite", "VxWrite")], sig=SIG, pre="broadcast use vxl::all; proof { lemma_pow(); lemma_enc_len(0x8000_0000 + record@.len() as int, 4); }",
                                 rw=[]),
    }


def build():
    f = File("vxi11/src/common/onc_rpc/record.rs")
    R = Render("record")
    C = contracts()
    out = []
    for it in f.items:
        if it.is_test():
            continue
        if it.kind == "const":
            out.append(R.clean(f, it.head, it.hi, []))
        if it.kind == "fn":
            out.append(R.fn(it, C.get(it.name), it.name))
    for n in C:
        if n not in [x[0] for x in R.functions]:
            raise Lost(f"{n} not found")
    txt = "\n".join(out)
    return Group("record", wrap(H.IO, LEM, H.BYTES, H.BYTEORDER, STREAM, SPEC, txt, broadcast=("vxl::all",)), R, trusted=TRUST, exact=("write", "write_all", "flush"), default_props=["P14"], panic_props=["P24"])


STREAM = hmsg.STREAM.split("pub assume_specification<T, A: core::alloc")[0] + r'''
uninterp spec fn vx_oom() -> bool; // an allocation failed
trait VxReserve { fn vx_try_reserve(&mut self, n: usize) -> (r: Result<(), VxOom>); }
struct VxOom;
impl VxReserve for Vec<u8> {
    #[verifier::external_body] fn vx_try_reserve(&mut self, n: usize) -> (r: Result<(), VxOom>) ensures final(self)@ == old(self)@, r is Err ==> vx_oom() { unimplemented!() }
}
fn vx_empty() -> (r: Vec<u8>) ensures r@ == Seq::<u8>::empty() { Vec::new() }
'''
