// Helpers the desugaring rules emit. All are verified, none is trusted, except where marked.
use vstd::prelude::*;
use vstd::slice::*;

verus! {

// 64-bit target (checked by Verus against the layout it compiles for)
global size_of usize == 8;


/// A chunk of a slice (rule D3): what `chunks`/`chunks_mut` hand out.
pub fn vx_sub<'a, T>(s: &'a [T], lo: usize, hi: usize) -> (r: &'a [T])
    requires lo <= hi <= s@.len(),
    ensures r@ == s@.subrange(lo as int, hi as int),
{ &s[lo..hi] }

pub fn vx_sub_mut<'a, T>(s: &'a mut [T], lo: usize, hi: usize) -> (r: &'a mut [T])
    requires lo <= hi <= old(s)@.len(),
    ensures
        r@ == old(s)@.subrange(lo as int, hi as int),
        final(r)@.len() == r@.len(),
        final(s)@.len() == old(s)@.len(),
        final(s)@ == old(s)@.subrange(0, lo as int) + final(r)@ + old(s)@.subrange(hi as int, old(s)@.len() as int),
        forall|k: int| 0 <= k < lo ==> #[trigger] final(s)@[k] == old(s)@[k],
        forall|k: int| lo <= k < hi ==> #[trigger] final(s)@[k] == final(r)@[k - lo],
        forall|k: int| hi <= k < old(s)@.len() ==> #[trigger] final(s)@[k] == old(s)@[k],
{ &mut s[lo..hi] }

pub open spec fn vx_view<T>(s: &[T]) -> Seq<T> { s@ }

/// vacuity canary: nothing is known about it, so asserting it must fail wherever control can reach
pub uninterp spec fn vx_canary(n: int) -> bool;

/// Chunk sizes and steps must not be zero (the iterator constructors panic otherwise).
pub fn vx_nonzero(n: usize) requires n > 0 {}

/// Diverging macros: reaching one is a failed obligation (rule D8).
pub fn vx_unreachable<T>() -> (r: T) requires false { vstd::pervasive::unreached() }

/// format! and friends: an opaque string (message texts are not part of any contract)
#[verifier::external_body]
pub fn vx_string() -> String { unimplemented!() }

/// vec![x; n]
pub fn vx_vec<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x,
{
    let mut v: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] v@[k] == x,
        decreases n - i,
    { v.push(x); i = i + 1; }
    v
}

/// comparison with a byte string (rule D16)
pub fn vx_same_bytes(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ == b@),
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a@.len(), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> #[trigger] a@[k] == b@[k],
        decreases a@.len() - i,
    { if a[i] != b[i] { assert(a@[i as int] != b@[i as int]); return false; } i = i + 1; }
    assert(a@ =~= b@);
    true
}
/// a vector extended by another one (rule D17)
pub fn vx_extend<T>(v: &mut Vec<T>, w: Vec<T>)
    ensures final(v)@ == old(v)@ + w@, final(v)@.subrange(old(v)@.len() as int, final(v)@.len() as int) == w@,
{ let ghost ww = w@; let mut w = w; v.append(&mut w); assert(v@.subrange(old(v)@.len() as int, v@.len() as int) =~= ww); }

} // verus!
