"""Trusted facts about std that vstd lacks (part of every group's trusted base)."""

import re

from rx import VXOPT_TEXT

HEAD = "#![feature(allocator_api)]\nuse vstd::prelude::*;\nuse vstd::std_specs::cmp::*;\n"

AX = r'''
pub mod ax { use vstd::prelude::*; use vstd::std_specs::cmp::*; verus!{
pub broadcast axiom fn ax_eq1(a: &Vec<u8>, b: &[u8]) ensures #[trigger] <Vec<u8> as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ax_eq2() ensures #[trigger] <Vec<u8> as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq3(a: &[u8], b: &[u8]) ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ax_eq4() ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq5(a: &Vec<u8>, b: &Vec<u8>) ensures #[trigger] <Vec<u8> as PartialEqSpec<Vec<u8>>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ax_eq6() ensures #[trigger] <Vec<u8> as PartialEqSpec<Vec<u8>>>::obeys_eq_spec();
pub uninterp spec fn cloned_seq<T>(a: Seq<T>, b: Seq<T>) -> bool;
pub broadcast axiom fn ax_cloned_u8(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] cloned_seq::<u8>(a, b) ==> a == b;
} }
broadcast use {ax::ax_cloned_u8, ax::ax_eq1, ax::ax_eq2, ax::ax_eq3, ax::ax_eq4, ax::ax_eq5, ax::ax_eq6};
// whether a log level is enabled
#[verifier::external_body]
fn vx_logging() -> (r: bool) { unimplemented!() }
global size_of usize == 8;
pub assume_specification<T: core::default::Default> [core::mem::take::<T>](d: &mut T) -> (r: T)
    ensures r == *old(d), call_ensures(T::default, (), *final(d));
pub assume_specification<T> [core::mem::replace::<T>](d: &mut T, x: T) -> (r: T)
    ensures r == *old(d), *final(d) == x;
pub assume_specification<T> [core::option::Option::<T>::replace](o: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(x);
pub assume_specification<T: core::cmp::Ord> [core::cmp::min::<T>](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == core::cmp::Ordering::Greater { b } else { a });
pub assume_specification<T: core::cmp::Ord> [core::cmp::max::<T>](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == core::cmp::Ordering::Greater { a } else { b });
pub assume_specification<T> [core::mem::drop::<T>](x: T);
pub assume_specification<T, E> [core::result::Result::<T, E>::unwrap_or](x: Result<T, E>, d: T) -> (r: T)
    ensures r == (match x { Ok(v) => v, Err(_) => d });
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), ax::cloned_seq(s@, r@);
pub assume_specification<T: core::cmp::PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x);
pub assume_specification<T>[ <[T]>::split_last ](s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures r is None == (s@.len() == 0), r is Some ==> *(r->0).0 == s@.last() && (r->0).1@ == s@.drop_last();
pub open spec fn lower(x: u8) -> u8 { if 65 <= x <= 90 { (x + 32) as u8 } else { x } }
pub open spec fn upper(x: u8) -> u8 { if 97 <= x <= 122 { (x - 32) as u8 } else { x } }
pub open spec fn ieq(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i]) }
pub assume_specification[ <[u8]>::eq_ignore_ascii_case ](a: &[u8], b: &[u8]) -> (r: bool) ensures r == ieq(a@, b@);
pub assume_specification[ u8::eq_ignore_ascii_case ](a: &u8, b: &u8) -> (r: bool) ensures r == (lower(*a) == lower(*b));
pub assume_specification[ u8::to_ascii_lowercase ](a: &u8) -> (r: u8) ensures r == lower(*a);
pub assume_specification[ u8::to_ascii_uppercase ](a: &u8) -> (r: u8) ensures r == upper(*a);
pub assume_specification[ u8::is_ascii_digit ](a: &u8) -> (r: bool) ensures r == (48 <= *a <= 57);
pub assume_specification[ u8::is_ascii_whitespace ](a: &u8) -> (r: bool) ensures r == (*a == 32 || *a == 9 || *a == 10 || *a == 12 || *a == 13);
pub assume_specification[ u8::is_ascii_control ](a: &u8) -> (r: bool) ensures r == (*a < 32 || *a == 127);
pub assume_specification[ u8::is_ascii ](a: &u8) -> (r: bool) ensures r == (*a < 128);
pub assume_specification[ u8::abs_diff ](a: u8, b: u8) -> (r: u8) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[ u8::div_ceil ](a: u8, b: u8) -> (r: u8) requires b > 0 ensures r == (a + b - 1) / b as int;
pub assume_specification[ u8::count_ones ](a: u8) -> (r: u32) ensures (r == 0) == (a == 0), r <= 64;
pub assume_specification[ u16::abs_diff ](a: u16, b: u16) -> (r: u16) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[ u16::div_ceil ](a: u16, b: u16) -> (r: u16) requires b > 0 ensures r == (a + b - 1) / b as int;
pub assume_specification[ u16::count_ones ](a: u16) -> (r: u32) ensures (r == 0) == (a == 0), r <= 64;
pub assume_specification[ u32::abs_diff ](a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[ u32::div_ceil ](a: u32, b: u32) -> (r: u32) requires b > 0 ensures r == (a + b - 1) / b as int;
pub assume_specification[ u32::count_ones ](a: u32) -> (r: u32) ensures (r == 0) == (a == 0), r <= 64;
pub assume_specification[ u64::abs_diff ](a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[ u64::div_ceil ](a: u64, b: u64) -> (r: u64) requires b > 0 ensures r == (a + b - 1) / b as int;
pub assume_specification[ u64::count_ones ](a: u64) -> (r: u32) ensures (r == 0) == (a == 0), r <= 64;
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a + b - 1) / b as int;
pub assume_specification[ usize::count_ones ](a: usize) -> (r: u32) ensures (r == 0) == (a == 0), r <= 64;
'''

AX_TRUST = ["== between Vec<u8> and [u8] compares contents", "core::mem::take, core::mem::replace, Option::replace, core::cmp::min, core::cmp::max, <[T]>::to_vec, contains, split_last, abs_diff, div_ceil, count_ones as documented", "usize is 64 bits"]


def wrap(*parts, broadcast=()):
    def strip(p):
        if p.lstrip().startswith("//RAW"):   # nested modules keep their visibility
            return p
        p = re.sub(r"\bpub open spec fn", "spec fn", p)
        return re.sub(r"\bpub (?=(struct|enum|fn|async|trait|[a-z_]\w*:))", "", p)
    parts = [strip(p) for p in parts]
    ax = AX.replace("broadcast use {", "broadcast use {" + "".join(b + ", " for b in broadcast), 1)
    return HEAD + "verus! {\n" + ax + VXOPT_TEXT + "\n".join(parts) + "\nfn main() {}\n} // verus!\n"
