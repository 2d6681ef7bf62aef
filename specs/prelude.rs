// Contracts of the parts of std the code under verification uses.
//
// Two kinds of things live here:
//  * `#[verifier::external_body]` types and functions: assumed contracts of std (HashMap, HashSet,
//    LinkedList, BinaryHeap, Vec helpers, the iterator kernel It::next). These are trusted.
//  * everything else (all iterator adapters): verified here, from the kernel.
use vstd::prelude::*;
pub use vstd::multiset::Multiset;

// ---------------------------------------------------------------- small helpers

#[verifier::inline]
pub open spec fn same<A>(a: A, b: A) -> bool { a == b }

pub open spec fn spec_box<T>(x: T) -> Box<T> { Box::new(x) }

#[verifier::external_body]
pub fn vfmt() -> String { unimplemented!() }

#[verifier::external_body]
pub fn vpanic<T>() -> (r: T)
    requires false,
{ unimplemented!() }

/// In the specification logic a Vec is its sequence of elements (its capacity is not observable)
#[verifier::external_body]
pub broadcast proof fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>)
    requires #[trigger] a@ == #[trigger] b@,
    ensures a == b,
{ unimplemented!() }

/// Allocations never exceed isize::MAX bytes
#[verifier::external_body]
pub broadcast proof fn axiom_vec_len<T>(a: &Vec<T>)
    ensures (#[trigger] a@.len()) <= 0x7fff_ffff_ffff_ffff,
{ unimplemented!() }

pub trait VToString {
    spec fn text(&self) -> Seq<char>;
    fn to_string_(&self) -> (r: String)
        ensures r@ == self.text();
}
impl VToString for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { unimplemented!() }
}
impl VToString for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { unimplemented!() }
}

pub trait VClone: Sized {
    fn clone_(&self) -> (r: Self)
        ensures r == *self;
}
impl<T: VClone> VClone for Vec<T> {
    #[verifier::external_body]
    fn clone_(&self) -> (r: Self) { unimplemented!() }
}
impl<T: VClone> VClone for Option<T> {
    #[verifier::external_body]
    fn clone_(&self) -> (r: Self) { unimplemented!() }
}
impl<T: VClone> VClone for Box<T> {
    #[verifier::external_body]
    fn clone_(&self) -> (r: Self) { unimplemented!() }
}
impl VClone for u64 { fn clone_(&self) -> (r: Self) { *self } }
impl VClone for i64 { fn clone_(&self) -> (r: Self) { *self } }
impl VClone for usize { fn clone_(&self) -> (r: Self) { *self } }
impl VClone for bool { fn clone_(&self) -> (r: Self) { *self } }
impl<A: VClone, B: VClone> VClone for (A, B) {
    #[verifier::external_body]
    fn clone_(&self) -> (r: Self) { unimplemented!() }
}

/// Seq facts used everywhere
pub open spec fn sub_seq_of<T>(r: Seq<T>, s: Seq<T>) -> bool {
    exists|m: Seq<int>| is_embedding(m, r, s)
}
pub open spec fn is_embedding<T>(m: Seq<int>, r: Seq<T>, s: Seq<T>) -> bool {
    &&& m.len() == r.len()
    &&& forall|i: int| 0 <= i < m.len() ==> 0 <= #[trigger] m[i] < s.len() && r[i] == s[m[i]]
    &&& forall|i: int, j: int| 0 <= i < j < m.len() ==> m[i] < m[j]
}

/// the sequence of references to the elements of s
pub closed spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub broadcast proof fn lemma_refs_len<'a, T>(s: Seq<T>)
    ensures (#[trigger] refs::<T>(s)).len() == s.len(),
            s.no_duplicates() ==> refs::<T>(s).no_duplicates(),
{
    if s.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies refs::<T>(s)[i] != refs::<T>(s)[j] by {
            assert(s[i] != s[j]);
        }
    }
}
pub broadcast proof fn lemma_refs_index<'a, T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures *(#[trigger] refs::<T>(s)[i]) == s[i],
{ }
pub broadcast proof fn lemma_refs_contains<'a, T>(s: Seq<T>, x: &'a T)
    ensures #[trigger] refs::<T>(s).contains(x) <==> s.contains(*x),
{
    if s.contains(*x) {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == *x;
        assert(refs::<T>(s)[i] == x);
    }
    if refs::<T>(s).contains(x) {
        let i = choose|i: int| 0 <= i < s.len() && refs::<T>(s)[i] == x;
        assert(s[i] == *x);
    }
}
pub broadcast proof fn lemma_refs_contains_rev<'a, T>(s: Seq<T>, x: T)
    ensures (#[trigger] s.contains(x) && (#[trigger] refs::<T>(s)).len() >= 0) ==> refs::<T>(s).contains(&x),
{ lemma_refs_contains(s, &x); }

pub broadcast proof fn lemma_push_contains<T>(s: Seq<T>, y: T, x: T)
    ensures #[trigger] s.push(y).contains(x) <==> s.contains(x) || x == y,
{
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(y)[i] == x); }
    if x == y { assert(s.push(y)[s.len() as int] == x); }
}
pub broadcast proof fn lemma_push_nodup<T>(s: Seq<T>, y: T)
    ensures #[trigger] s.push(y).no_duplicates() <==> s.no_duplicates() && !s.contains(y),
{
    let t = s.push(y);
    if t.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(t[i] != t[j]); }
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(t[i] != t[s.len() as int]); }
    }
}
pub broadcast proof fn lemma_push_last<T>(s: Seq<T>, y: T)
    ensures #[trigger] s.push(y).drop_last() == s,
{ assert(s.push(y).drop_last() =~= s); }
/// bridge from indices to membership
pub broadcast proof fn lemma_index_contains<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures s.contains(#[trigger] s[i]),
{ }

// ---------------------------------------------------------------- iterators

/// The eager image of a std iterator over a finite collection: the elements it yields, in order.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { v: std::vec::IntoIter<T> }

impl<T> It<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;

    /// what has not been yielded yet
    pub open spec fn rest(&self) -> Seq<T> {
        if self.pos() == 0 { self.all() } else { self.all().subrange(self.pos(), self.all().len() as int) }
    }

    /// what has been yielded
    pub open spec fn done(&self) -> Seq<T> { self.all().subrange(0, self.pos()) }

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            final(self).all() == old(self).all(),
            0 <= old(self).pos() <= old(self).all().len(),
            0 <= final(self).pos() <= final(self).all().len(),
            match r {
                Some(x) => old(self).pos() < old(self).all().len() && x == old(self).all()[old(self).pos()]
                    && final(self).pos() == old(self).pos() + 1
                    && old(self).rest().len() > 0 && x == old(self).rest()[0]
                    && final(self).rest() == old(self).rest().drop_first()
                    && final(self).done() == old(self).done().push(x),
                None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos()
                    && old(self).rest().len() == 0
                    && old(self).done() == old(self).all() && final(self).done() == final(self).all(),
            },
    { self.v.next() }

    #[verifier::external_body]
    pub fn from_vec(v: Vec<T>) -> (r: It<T>)
        ensures r.all() == v@, r.pos() == 0,
    { unimplemented!() }

    #[verifier::external_body]
    proof fn range(&self)
        ensures 0 <= self.pos() <= self.all().len(),
    { unimplemented!() }

    /// a fresh iterator over the same remaining elements (used by the verified adapters below)
    #[verifier::external_body]
    fn restart(self) -> (r: It<T>)
        ensures r.all() == self.rest(), r.pos() == 0,
    { unimplemented!() }

    pub fn into_vec(self) -> (r: Vec<T>)
        ensures r@ == self.rest(),
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let mut out: Vec<T> = Vec::new();
        while let Some(x) = it.next()
            invariant it.all() == s, 0 <= it.pos() <= s.len(), out@ == s.subrange(0, it.pos()),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            out.push(x);
            assert(out@ =~= s.subrange(0, it.pos()));
        }
        assert(s.subrange(0, s.len() as int) =~= s);
        out
    }

    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (#[trigger] self.rest()[i],)),
        ensures
            r.pos() == 0,
            r.all().len() == self.rest().len(),
            forall|i: int| #![trigger r.all()[i]] #![trigger self.rest()[i]]
                0 <= i < self.rest().len() ==> call_ensures(f, (self.rest()[i],), r.all()[i]) && r.all().contains(r.all()[i]),
            self.pos() == 0 ==> self.rest() == self.all(),
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let mut out: Vec<U> = Vec::new();
        while let Some(x) = it.next()
            invariant it.all() == s, 0 <= it.pos() <= s.len(), out@.len() == it.pos(),
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                forall|i: int| 0 <= i < it.pos() ==> call_ensures(f, (s[i],), #[trigger] out@[i]),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            out.push(f(x));
        }
        It::from_vec(out)
    }

    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (&#[trigger] self.rest()[i],)),
        ensures
            r.pos() == 0,
            forall|x: T| #[trigger] r.all().contains(x) ==> self.rest().contains(x) && call_ensures(f, (&x,), true),
            forall|x: T| #[trigger] self.rest().contains(x) ==> call_ensures(f, (&x,), false) || r.all().contains(x),
            self.rest().no_duplicates() ==> r.all().no_duplicates(),
            sub_seq_of(r.all(), self.rest()),
            r.all().len() <= self.rest().len(),
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let ghost mut m: Seq<int> = Seq::empty();
        let mut out: Vec<T> = Vec::new();
        while let Some(x) = it.next()
            invariant it.all() == s, 0 <= it.pos() <= s.len(),
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (&#[trigger] s[i],)),
                forall|i: int| 0 <= i < out@.len() ==> s.contains(#[trigger] out@[i]) && call_ensures(f, (&out@[i],), true),
                forall|i: int| 0 <= i < it.pos() ==> call_ensures(f, (&#[trigger] s[i],), false) || out@.contains(s[i]),
                is_embedding(m, out@, s),
                forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] < it.pos(),
                out@.len() <= it.pos(),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            assert(s.contains(x));
            if f(&x) {
                let ghost o = out@;
                out.push(x);
                proof {
                    let p = it.pos() - 1;
                    m = m.push(p);
                    assert(out@[out@.len() - 1] == s[p]);
                    assert forall|i: int| 0 <= i < it.pos() implies call_ensures(f, (&#[trigger] s[i],), false) || out@.contains(s[i]) by {
                        if i < p && o.contains(s[i]) {
                            let k = choose|k: int| 0 <= k < o.len() && o[k] == s[i];
                            assert(out@[k] == s[i]);
                        }
                    }
                }
            }
        }
        proof {
            if s.no_duplicates() {
                assert forall|i: int, j: int| 0 <= i < out@.len() && 0 <= j < out@.len() && i != j implies out@[i] != out@[j] by {
                    assert(out@[i] == s[m[i]] && out@[j] == s[m[j]]);
                    if i < j { assert(m[i] < m[j]); } else { assert(m[j] < m[i]); }
                }
            }
        }
        It::from_vec(out)
    }

    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (#[trigger] self.rest()[i],)),
        ensures
            r.pos() == 0,
            exists|m: Seq<int>| filter_map_by(m, r.all(), self.rest(), f),
            self.pos() == 0 ==> self.rest() == self.all(),
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let ghost mut m: Seq<int> = Seq::empty();
        let mut out: Vec<U> = Vec::new();
        while let Some(x) = it.next()
            invariant it.all() == s, 0 <= it.pos() <= s.len(),
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                filter_map_by(m, out@, s.subrange(0, it.pos()), f),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            let ghost p = it.pos() - 1;
            let ghost s0 = s.subrange(0, p);
            let ghost s1 = s.subrange(0, p + 1);
            let ghost m0 = m;
            let ghost o = out@;
            let y = f(x);
            let ghost gy = y;
            if let Some(z) = y {
                out.push(z);
                proof { m = m.push(p); }
            }
            proof {
                assert forall|i: int| 0 <= i < m.len() implies 0 <= #[trigger] m[i] < s1.len() && call_ensures(f, (s1[m[i]],), Some(out@[i])) by {
                    if i < m0.len() { assert(m0[i] == m[i]); assert(s0[m[i]] == s1[m[i]]); }
                }
                assert forall|i: int| 0 <= i < s1.len() implies call_ensures(f, (#[trigger] s1[i],), None::<U>) || m.contains(i) by {
                    if i < p {
                        assert(s0[i] == s1[i]);
                        if m0.contains(i) { let k = choose|k: int| 0 <= k < m0.len() && m0[k] == i; assert(m[k] == i); }
                    } else if gy.is_some() {
                        assert(m[m.len() - 1] == i);
                    }
                }
            }
        }
        proof { assert(s.subrange(0, s.len() as int) =~= s); }
        It::from_vec(out)
    }

    pub fn all_<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (#[trigger] self.rest()[i],)),
        ensures
            self.pos() == 0 ==> self.rest() == self.all(),
            r ==> forall|i: int| 0 <= i < self.rest().len() ==> call_ensures(f, (#[trigger] self.rest()[i],), true),
            r ==> forall|x: T| #[trigger] self.rest().contains(x) ==> call_ensures(f, (x,), true),
            !r ==> exists|i: int| 0 <= i < self.rest().len() && call_ensures(f, (#[trigger] self.rest()[i],), false),
    {
        let mut it = self.restart();
        let ghost s = it.all();
        while let Some(x) = it.next()
            invariant it.all() == s, s == self.rest(), 0 <= it.pos() <= s.len(),
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                forall|i: int| 0 <= i < it.pos() ==> call_ensures(f, (#[trigger] s[i],), true),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            if !f(x) { return false; }
        }
        true
    }

    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (#[trigger] self.rest()[i],)),
        ensures
            self.pos() == 0 ==> self.rest() == self.all(),
            !r ==> forall|i: int| 0 <= i < self.rest().len() ==> call_ensures(f, (#[trigger] self.rest()[i],), false),
            !r ==> forall|x: T| #[trigger] self.rest().contains(x) ==> call_ensures(f, (x,), false),
            r ==> exists|i: int| 0 <= i < self.rest().len() && call_ensures(f, (#[trigger] self.rest()[i],), true),
    {
        let mut it = self.restart();
        let ghost s = it.all();
        while let Some(x) = it.next()
            invariant it.all() == s, s == self.rest(), 0 <= it.pos() <= s.len(),
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                forall|i: int| 0 <= i < it.pos() ==> call_ensures(f, (#[trigger] s[i],), false),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            if f(x) { return true; }
        }
        false
    }

    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (#[trigger] self.rest()[i],)),
            self.rest().len() <= usize::MAX,
        ensures
            self.pos() == 0 ==> self.rest() == self.all(),
            match r {
                Some(k) => 0 <= k < self.rest().len() && call_ensures(f, (self.rest()[k as int],), true)
                    && forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] self.rest()[i],), false),
                None => (forall|i: int| 0 <= i < self.rest().len() ==> call_ensures(f, (#[trigger] self.rest()[i],), false))
                    && (forall|x: T| #[trigger] self.rest().contains(x) ==> call_ensures(f, (x,), false)),
            },
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let mut k: usize = 0;
        while let Some(x) = it.next()
            invariant it.all() == s, s == self.rest(), 0 <= it.pos() <= s.len(), k == it.pos(), s.len() <= usize::MAX,
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                forall|i: int| 0 <= i < it.pos() ==> call_ensures(f, (#[trigger] s[i],), false),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            if f(x) { return Some(k); }
            k = k + 1;
        }
        None
    }

    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (&#[trigger] self.rest()[i],)),
        ensures
            self.pos() == 0 ==> self.rest() == self.all(),
            match r {
                Some(x) => self.rest().contains(x) && exists|k: int| 0 <= k < self.rest().len() && #[trigger] self.rest()[k] == x && call_ensures(f, (&x,), true)
                    && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self.rest()[i],), false),
                None => (forall|i: int| 0 <= i < self.rest().len() ==> call_ensures(f, (&#[trigger] self.rest()[i],), false))
                    && (forall|x: T| #[trigger] self.rest().contains(x) ==> call_ensures(f, (&x,), false)),
            },
    {
        let mut it = self.restart();
        let ghost s = it.all();
        while let Some(x) = it.next()
            invariant it.all() == s, s == self.rest(), 0 <= it.pos() <= s.len(),
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (&#[trigger] s[i],)),
                forall|i: int| 0 <= i < it.pos() ==> call_ensures(f, (&#[trigger] s[i],), false),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            if f(&x) {
                proof { let k = it.pos() - 1; assert(self.rest()[k] == x); }
                return Some(x);
            }
        }
        None
    }

    pub fn count(self) -> (r: usize)
        ensures r == self.rest().len(), self.rest().len() > 0 ==> self.rest().contains(self.rest()[0]),
            self.pos() == 0 ==> self.rest() == self.all(),
    {
        self.into_vec().len()
    }

    pub fn chain(self, o: It<T>) -> (r: It<T>)
        ensures r.pos() == 0, r.all() == self.rest() + o.rest(),
    {
        let mut out = self.into_vec();
        let mut w = o.into_vec();
        out.append(&mut w);
        It::from_vec(out)
    }

    pub fn skip(self, n: usize) -> (r: It<T>)
        ensures r.pos() == 0,
            r.all() == if n <= self.rest().len() { self.rest().subrange(n as int, self.rest().len() as int) } else { Seq::empty() },
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let mut k: usize = 0;
        while k < n
            invariant it.all() == s, 0 <= it.pos() <= s.len(), k <= n,
                it.pos() == if k <= s.len() { k as int } else { s.len() as int },
            decreases n - k
        {
            let _ = it.next();
            k = k + 1;
        }
        it.restart()
    }

    pub fn take(self, n: usize) -> (r: It<T>)
        ensures r.pos() == 0,
            r.all() == if n <= self.rest().len() { self.rest().subrange(0, n as int) } else { self.rest() },
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let mut out: Vec<T> = Vec::new();
        let mut k: usize = 0;
        while k < n
            invariant it.all() == s, 0 <= it.pos() <= s.len(), k <= n,
                it.pos() == if k <= s.len() { k as int } else { s.len() as int },
                out@ == s.subrange(0, it.pos()),
            decreases n - k
        {
            match it.next() {
                Some(x) => { out.push(x); assert(out@ =~= s.subrange(0, it.pos())); }
                None => {}
            }
            k = k + 1;
        }
        proof { assert(s.subrange(0, s.len() as int) =~= s); }
        It::from_vec(out)
    }

    pub fn step_by(self, n: usize) -> (r: It<T>)
        requires n > 0,
        ensures r.pos() == 0,
            times(r.all().len() - 1, n as int) < self.rest().len() <= times(r.all().len() as int, n as int),
            forall|i: int| #![trigger r.all()[i]] #![trigger times(i, n as int)] 0 <= i < r.all().len() ==> 0 <= times(i, n as int) < self.rest().len() && r.all()[i] == self.rest()[times(i, n as int)],
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let mut out: Vec<T> = Vec::new();
        let mut c: usize = 0;
        proof { reveal(times); assert(0 * n == 0) by (nonlinear_arith); }
        while let Some(x) = it.next()
            invariant it.all() == s, 0 <= it.pos() <= s.len(), c < n, times(out@.len() as int, n as int) == it.pos() + c,
                forall|i: int| #![trigger out@[i]] #![trigger times(i, n as int)] 0 <= i < out@.len() ==> 0 <= times(i, n as int) < s.len() && out@[i] == s[times(i, n as int)],
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            if c == 0 {
                let ghost o = out@.len() as int;
                assert(times(o, n as int) == it.pos() - 1);
                assert(x == s[it.pos() - 1]);
                let ghost o1 = out@;
                out.push(x);
                assert(out@[o] == x);
                proof {
                    lemma_times(o, n as int);
                    assert forall|i: int| #![trigger out@[i]] #![trigger times(i, n as int)] 0 <= i < out@.len() implies 0 <= times(i, n as int) < s.len() && out@[i] == s[times(i, n as int)] by {
                        if i < o { assert(out@[i] == o1[i]); } else { assert(i == o); }
                    }
                }
                c = n - 1;
            } else {
                c = c - 1;
            }
        }
        proof { lemma_times(out@.len() - 1, n as int); }
        It::from_vec(out)
    }

    pub fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (&#[trigger] self.rest()[i],)),
        ensures
            r.pos() == 0,
            exists|k: int| skipped_while(k, r.all(), self.rest(), f),
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let mut out: Vec<T> = Vec::new();
        let mut started = false;
        let ghost mut k: int = 0;
        while let Some(x) = it.next()
            invariant it.all() == s, 0 <= it.pos() <= s.len(), 0 <= k <= s.len(), k <= it.pos(),
                !started ==> k == it.pos(),
                started ==> k < s.len() && call_ensures(f, (&s[k],), false),
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (&#[trigger] s[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] s[i],), true),
                out@ == s.subrange(k, it.pos()),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            if !started {
                if f(&x) {
                    proof { k = k + 1; }
                    assert(out@ =~= s.subrange(k, it.pos()));
                } else {
                    started = true;
                    out.push(x);
                    assert(out@ =~= s.subrange(k, it.pos()));
                }
            } else {
                out.push(x);
                assert(out@ =~= s.subrange(k, it.pos()));
            }
        }
        proof { assert(skipped_while(k, out@, s, f)); }
        It::from_vec(out)
    }

    pub fn enumerate(self) -> (r: It<(usize, T)>)
        requires self.rest().len() <= usize::MAX,
        ensures r.pos() == 0, r.all().len() == self.rest().len(),
            self.pos() == 0 ==> self.rest() == self.all(),
            forall|i: int| #![trigger r.all()[i]] #![trigger self.rest()[i]] 0 <= i < r.all().len() ==> r.all()[i].0 == i && r.all()[i].1 == self.rest()[i],
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let mut out: Vec<(usize, T)> = Vec::new();
        let mut k: usize = 0;
        while let Some(x) = it.next()
            invariant it.all() == s, 0 <= it.pos() <= s.len(), out@.len() == it.pos(), k == it.pos(), s.len() <= usize::MAX,
                forall|i: int| 0 <= i < it.pos() ==> (#[trigger] out@[i]).0 == i && out@[i].1 == s[i],
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            out.push((k, x));
            k = k + 1;
        }
        It::from_vec(out)
    }

    pub fn zip<U>(self, o: It<U>) -> (r: It<(T, U)>)
        ensures r.pos() == 0,
            r.all().len() == if self.rest().len() <= o.rest().len() { self.rest().len() } else { o.rest().len() },
            forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).0 == self.rest()[i] && r.all()[i].1 == o.rest()[i],
    {
        let mut a = self.restart();
        let mut b = o.restart();
        let ghost s = a.all();
        let ghost t = b.all();
        let mut out: Vec<(T, U)> = Vec::new();
        let mut stop = false;
        while !stop
            invariant a.all() == s, b.all() == t, 0 <= a.pos() <= s.len(), 0 <= b.pos() <= t.len(),
                !stop ==> a.pos() == b.pos() && out@.len() == a.pos(),
                stop ==> out@.len() == if s.len() <= t.len() { s.len() } else { t.len() },
                out@.len() <= s.len(), out@.len() <= t.len(),
                forall|i: int| 0 <= i < out@.len() ==> (#[trigger] out@[i]).0 == s[i] && out@[i].1 == t[i],
            decreases s.len() - a.pos(), (if stop { 0int } else { 1int })
        {
            match a.next() {
                None => { stop = true; }
                Some(x) => match b.next() {
                    None => { stop = true; }
                    Some(y) => { out.push((x, y)); }
                },
            }
        }
        It::from_vec(out)
    }

    pub fn flat_map<C: IntoIt, F: Fn(T) -> C>(self, f: F) -> (r: It<C::Item>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (#[trigger] self.rest()[i],)),
        ensures
            r.pos() == 0,
            exists|cs: Seq<C>| flat_mapped(cs, r.all(), self.rest(), f),
    {
        let m = self.map(f);
        let r = m.flatten_of();
        proof { assert(flat_mapped(m.all(), r.all(), self.rest(), f)); }
        r
    }

    pub fn collect<C: FromIt<T>>(self) -> (r: C)
        ensures C::collected(self.rest(), r),
    {
        C::from_it(self)
    }

    /// rposition: the last index for which f holds
    pub fn rposition<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (#[trigger] self.rest()[i],)),
            self.rest().len() <= usize::MAX,
        ensures
            self.pos() == 0 ==> self.rest() == self.all(),
            match r {
                Some(k) => 0 <= k < self.rest().len() && call_ensures(f, (self.rest()[k as int],), true)
                    && forall|i: int| k < i < self.rest().len() ==> call_ensures(f, (#[trigger] self.rest()[i],), false),
                None => (forall|i: int| 0 <= i < self.rest().len() ==> call_ensures(f, (#[trigger] self.rest()[i],), false))
                    && (forall|x: T| #[trigger] self.rest().contains(x) ==> call_ensures(f, (x,), false)),
            },
    {
        let mut v = self.into_vec();
        let ghost s = v@;
        while v.len() > 0
            invariant s == self.rest(), v@.len() <= s.len(), v@ == s.subrange(0, v@.len() as int),
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                forall|i: int| v@.len() <= i < s.len() ==> call_ensures(f, (#[trigger] s[i],), false),
            decreases v@.len()
        {
            let x = v.pop().unwrap();
            assert(x == s[v@.len() as int]);
            assert(v@ =~= s.subrange(0, v@.len() as int));
            if f(x) { return Some(v.len()); }
        }
        None
    }

    /// std's contract, for a comparison that is a total order of the elements: a least element
    #[verifier::external_body]
    pub fn min_by<F: Fn(&T, &T) -> Ordering>(self, f: F) -> (r: Option<T>)
        requires forall|i: int, j: int| 0 <= i < self.rest().len() && 0 <= j < self.rest().len() ==> call_requires(f, (&#[trigger] self.rest()[i], &#[trigger] self.rest()[j])),
        ensures
            self.pos() == 0 ==> self.rest() == self.all(),
            match r {
                Some(x) => (exists|k: int| 0 <= k < self.rest().len() && #[trigger] self.rest()[k] == x)
                    && forall|i: int| 0 <= i < self.rest().len() ==> call_ensures(f, (&x, &#[trigger] self.rest()[i]), Ordering::Less) || call_ensures(f, (&x, &self.rest()[i]), Ordering::Equal),
                None => self.rest().len() == 0,
            },
    { unimplemented!() }

    pub fn min_by_key<K: VCmp, F: Fn(&T) -> K>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (&#[trigger] self.rest()[i],)),
        ensures
            self.pos() == 0 ==> self.rest() == self.all(),
            match r {
                Some(x) => self.rest().contains(x) && exists|ks: Seq<K>, m: int| #![trigger ks[m]] keyed(self.rest(), ks, &f) && 0 <= m < ks.len() && self.rest()[m] == x
                    && forall|i: int| 0 <= i < ks.len() ==> ks[m].cmp_val() <= (#[trigger] ks[i]).cmp_val(),
                None => self.rest().len() == 0,
            },
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let ghost mut ks: Seq<K> = Seq::empty();
        let ghost mut m: int = 0;
        match it.next() {
            None => { None }
            Some(first) => {
                let mut best = first;
                assert(best == s[0]);
                let mut key = f(&best);
                proof { ks = ks.push(key); assert(ks[0] == key); }
                while let Some(x) = it.next()
                    invariant it.all() == s, s == self.rest(), 0 < it.pos() <= s.len(), 0 <= m < it.pos(), best == s[m], key == ks[m], ks.len() == it.pos(),
                        forall|i: int| 0 <= i < s.len() ==> call_requires(f, (&#[trigger] s[i],)),
                        forall|i: int| 0 <= i < ks.len() ==> call_ensures(f, (&#[trigger] s[i],), ks[i]) && key.cmp_val() <= ks[i].cmp_val(),
                    ensures it.pos() == s.len(),
                    decreases s.len() - it.pos()
                {
                    let k = f(&x);
                    proof { ks = ks.push(k); assert(call_ensures(f, (&s[it.pos() - 1],), ks[it.pos() - 1])); }
                    match k.cmp_(&key) {
                        Ordering::Less => { best = x; key = k; proof { m = it.pos() - 1; } }
                        _ => { }
                    }
                }
                proof { assert(s.contains(s[m])); assert(keyed(s, ks, &f)); assert(ks[m] == key); }
                Some(best)
            }
        }
    }

    pub fn max_by_key<K: VCmp, F: Fn(&T) -> K>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (&#[trigger] self.rest()[i],)),
        ensures
            self.pos() == 0 ==> self.rest() == self.all(),
            match r {
                Some(x) => self.rest().contains(x) && exists|ks: Seq<K>, m: int| #![trigger ks[m]] keyed(self.rest(), ks, &f) && 0 <= m < ks.len() && self.rest()[m] == x
                    && forall|i: int| 0 <= i < ks.len() ==> ks[m].cmp_val() >= (#[trigger] ks[i]).cmp_val(),
                None => self.rest().len() == 0,
            },
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let ghost mut ks: Seq<K> = Seq::empty();
        let ghost mut m: int = 0;
        match it.next() {
            None => { None }
            Some(first) => {
                let mut best = first;
                assert(best == s[0]);
                let mut key = f(&best);
                proof { ks = ks.push(key); assert(ks[0] == key); }
                while let Some(x) = it.next()
                    invariant it.all() == s, s == self.rest(), 0 < it.pos() <= s.len(), 0 <= m < it.pos(), best == s[m], key == ks[m], ks.len() == it.pos(),
                        forall|i: int| 0 <= i < s.len() ==> call_requires(f, (&#[trigger] s[i],)),
                        forall|i: int| 0 <= i < ks.len() ==> call_ensures(f, (&#[trigger] s[i],), ks[i]) && key.cmp_val() >= ks[i].cmp_val(),
                    ensures it.pos() == s.len(),
                    decreases s.len() - it.pos()
                {
                    let k = f(&x);
                    proof { ks = ks.push(k); assert(call_ensures(f, (&s[it.pos() - 1],), ks[it.pos() - 1])); }
                    match k.cmp_(&key) {
                        Ordering::Less => { }
                        _ => { best = x; key = k; proof { m = it.pos() - 1; } }
                    }
                }
                proof { assert(s.contains(s[m])); assert(keyed(s, ks, &f)); assert(ks[m] == key); }
                Some(best)
            }
        }
    }

    /// itertools' unique: the elements, each once (in the order of their first occurrence)
    #[verifier::external_body]
    pub fn unique(self) -> (r: It<T>)
        ensures r.pos() == 0, r.all().no_duplicates(), r.all().len() <= self.rest().len(),
            self.pos() == 0 ==> self.rest() == self.all(),
            (r.all().len() == self.rest().len()) <==> self.rest().no_duplicates(),
            forall|x: T| #[trigger] r.all().contains(x) <==> self.rest().contains(x),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>)
        ensures r.pos() == 0, r.all() == self.rest().reverse(),
    { unimplemented!() }
}

/// ks are answers of f on the elements of s
pub open spec fn keyed<T, K, F: Fn(&T) -> K>(s: Seq<T>, ks: Seq<K>, f: &F) -> bool {
    ks.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger ks[i]] 0 <= i < s.len() ==> call_ensures(*f, (&s[i],), ks[i])
}
impl<T: VCmp> It<T> {
    pub fn min(self) -> (r: Option<T>)
        ensures
            self.pos() == 0 ==> self.rest() == self.all(),
            match r {
                Some(x) => self.rest().contains(x) && forall|i: int| 0 <= i < self.rest().len() ==> x.cmp_val() <= (#[trigger] self.rest()[i]).cmp_val(),
                None => self.rest().len() == 0,
            },
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let ghost mut m: int = 0;
        match it.next() {
            None => { None }
            Some(first) => {
                let mut best = first;
                while let Some(x) = it.next()
                    invariant it.all() == s, s == self.rest(), 0 < it.pos() <= s.len(), 0 <= m < it.pos(), best == s[m],
                        forall|i: int| 0 <= i < it.pos() ==> best.cmp_val() <= (#[trigger] s[i]).cmp_val(),
                    ensures it.pos() == s.len(),
                    decreases s.len() - it.pos()
                {
                    match x.cmp_(&best) {
                        Ordering::Less => { best = x; proof { m = it.pos() - 1; } }
                        _ => { }
                    }
                }
                proof { assert(s.contains(s[m])); }
                Some(best)
            }
        }
    }
    pub fn max(self) -> (r: Option<T>)
        ensures
            self.pos() == 0 ==> self.rest() == self.all(),
            match r {
                Some(x) => self.rest().contains(x) && forall|i: int| 0 <= i < self.rest().len() ==> x.cmp_val() >= (#[trigger] self.rest()[i]).cmp_val(),
                None => self.rest().len() == 0,
            },
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let ghost mut m: int = 0;
        match it.next() {
            None => { None }
            Some(first) => {
                let mut best = first;
                while let Some(x) = it.next()
                    invariant it.all() == s, s == self.rest(), 0 < it.pos() <= s.len(), 0 <= m < it.pos(), best == s[m],
                        forall|i: int| 0 <= i < it.pos() ==> best.cmp_val() >= (#[trigger] s[i]).cmp_val(),
                    ensures it.pos() == s.len(),
                    decreases s.len() - it.pos()
                {
                    match x.cmp_(&best) {
                        Ordering::Less => { }
                        _ => { best = x; proof { m = it.pos() - 1; } }
                    }
                }
                proof { assert(s.contains(s[m])); }
                Some(best)
            }
        }
    }
}

impl<C: IntoIt> It<C> {
    pub fn flatten(self) -> (r: It<C::Item>)
        ensures r.pos() == 0, is_flat(r.all(), self.rest()),
    {
        self.flatten_of()
    }

    pub fn flatten_of(self) -> (r: It<C::Item>)
        ensures r.pos() == 0, is_flat(r.all(), self.rest()),
    {
        let mut it = self.restart();
        let ghost s = it.all();
        let mut out: Vec<C::Item> = Vec::new();
        while let Some(c) = it.next()
            invariant it.all() == s, 0 <= it.pos() <= s.len(), is_flat(out@, s.subrange(0, it.pos())),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            let ghost o = out@;
            let ghost p = it.pos() - 1;
            let mut w = c.into_iter_().into_vec();
            let ghost ws = w@;
            out.append(&mut w);
            proof {
                assert(s.subrange(0, p + 1) =~= s.subrange(0, p).push(c));
                lemma_is_flat_push(o, s.subrange(0, p), c);
            }
        }
        proof { assert(s.subrange(0, s.len() as int) =~= s); }
        It::from_vec(out)
    }
}

/// r is the concatenation of the sequences of cs
pub open spec fn is_flat<C: IntoIt>(r: Seq<C::Item>, cs: Seq<C>) -> bool {
    &&& r == flat(cs)
    &&& forall|x: C::Item| #[trigger] r.contains(x) ==> exists|j: int| 0 <= j < cs.len() && (#[trigger] cs[j]).seq().contains(x)
    &&& forall|j: int, x: C::Item| 0 <= j < cs.len() && #[trigger] cs[j].seq().contains(x) ==> r.contains(x)
    &&& flat_disjoint(cs) ==> r.no_duplicates()
}
pub open spec fn flat<C: IntoIt>(cs: Seq<C>) -> Seq<C::Item>
    decreases cs.len()
{
    if cs.len() == 0 { Seq::empty() } else { flat(cs.drop_last()) + cs.last().seq() }
}
pub open spec fn flat_disjoint<C: IntoIt>(cs: Seq<C>) -> bool {
    &&& forall|j: int| 0 <= j < cs.len() ==> (#[trigger] cs[j]).seq().no_duplicates()
    &&& forall|i: int, j: int, x: C::Item|
        0 <= i < j < cs.len() && #[trigger] cs[i].seq().contains(x) ==> !#[trigger] cs[j].seq().contains(x)
}
pub proof fn lemma_is_flat_push<C: IntoIt>(o: Seq<C::Item>, cs: Seq<C>, c: C)
    requires is_flat(o, cs),
    ensures is_flat(o + c.seq(), cs.push(c)),
{
    let cs2 = cs.push(c);
    let r = o + c.seq();
    assert(cs2.drop_last() =~= cs);
    assert forall|i: int| 0 <= i < r.len() implies exists|j: int| 0 <= j < cs2.len() && (#[trigger] cs2[j]).seq().contains(#[trigger] r[i]) by {
        if i < o.len() {
            assert(o.contains(o[i]));
            let j = choose|j: int| 0 <= j < cs.len() && (#[trigger] cs[j]).seq().contains(o[i]);
            assert(cs2[j] == cs[j]);
            assert(cs2[j].seq().contains(r[i]));
        } else {
            assert(c.seq()[i - o.len()] == r[i]);
            assert(cs2[cs.len() as int].seq().contains(r[i]));
        }
    }
    assert forall|j: int, k: int| 0 <= j < cs2.len() && 0 <= k < cs2[j].seq().len() implies r.contains(#[trigger] cs2[j].seq()[k]) by {
        if j < cs.len() {
            assert(cs2[j] == cs[j]);
            assert(cs[j].seq().contains(cs[j].seq()[k]));
            assert(o.contains(cs[j].seq()[k]));
            let q = choose|q: int| 0 <= q < o.len() && o[q] == cs[j].seq()[k];
            assert(r[q] == cs[j].seq()[k]);
        } else {
            assert(r[o.len() + k] == c.seq()[k]);
        }
    }
    assert forall|x: C::Item| #[trigger] r.contains(x) implies exists|j: int| 0 <= j < cs2.len() && (#[trigger] cs2[j]).seq().contains(x) by {
        let i = choose|i: int| 0 <= i < r.len() && r[i] == x;
        assert(r[i] == x);
    }
    assert forall|j: int, x: C::Item| 0 <= j < cs2.len() && #[trigger] cs2[j].seq().contains(x) implies r.contains(x) by {
        let k = choose|k: int| 0 <= k < cs2[j].seq().len() && cs2[j].seq()[k] == x;
        assert(r.contains(cs2[j].seq()[k]));
    }
    if flat_disjoint(cs2) {
        assert(flat_disjoint(cs)) by {
            assert forall|j: int| 0 <= j < cs.len() implies (#[trigger] cs[j]).seq().no_duplicates() by { assert(cs2[j] == cs[j]); }
            assert forall|i: int, j: int, x: C::Item|
                0 <= i < j < cs.len() && #[trigger] cs[i].seq().contains(x) implies !#[trigger] cs[j].seq().contains(x) by {
                assert(cs2[i] == cs[i] && cs2[j] == cs[j]);
                assert(cs2[i].seq().contains(x));
            }
        }
        assert(c.seq().no_duplicates()) by { assert(cs2[cs.len() as int] == c); }
        assert forall|a: int, b: int| 0 <= a < b < r.len() implies r[a] != r[b] by {
            if b < o.len() {
                assert(o[a] != o[b]);
            } else if a >= o.len() {
                assert(c.seq()[a - o.len()] != c.seq()[b - o.len()]);
            } else {
                assert(o.contains(o[a]));
                let j = choose|j: int| 0 <= j < cs.len() && (#[trigger] cs[j]).seq().contains(o[a]);
                assert(cs2[j] == cs[j]);
                assert(cs2[cs.len() as int] == c);
                assert(cs2[j].seq().contains(o[a]));
                assert(c.seq()[b - o.len()] == r[b]);
                assert(cs2[cs.len() as int].seq().contains(r[b]));
            }
        }
    }
}

pub open spec fn flat_mapped<T, C: IntoIt, F: Fn(T) -> C>(cs: Seq<C>, r: Seq<C::Item>, s: Seq<T>, f: F) -> bool {
    &&& cs.len() == s.len()
    &&& forall|i: int| #![trigger cs[i]] #![trigger s[i]] 0 <= i < s.len() ==> call_ensures(f, (s[i],), cs[i])
    &&& is_flat(r, cs)
}
pub open spec fn filter_map_by<T, U, F: Fn(T) -> Option<U>>(m: Seq<int>, r: Seq<U>, s: Seq<T>, f: F) -> bool {
    &&& m.len() == r.len()
    &&& forall|i: int| #![trigger m[i]] #![trigger r[i]] 0 <= i < m.len() ==> 0 <= m[i] < s.len() && call_ensures(f, (s[m[i]],), Some(r[i]))
    &&& forall|i: int, j: int| 0 <= i < j < m.len() ==> m[i] < m[j]
    &&& forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (#[trigger] s[i],), None::<U>) || m.contains(i)
}
pub open spec fn skipped_while<T, F: Fn(&T) -> bool>(k: int, r: Seq<T>, s: Seq<T>, f: F) -> bool {
    &&& 0 <= k <= s.len()
    &&& r == s.subrange(k, s.len() as int)
    &&& forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] s[i],), true)
    &&& k < s.len() ==> call_ensures(f, (&s[k],), false)
}

/// What a for loop or an adapter can consume
pub trait IntoIt: Sized {
    type Item;
    spec fn seq(self) -> Seq<Self::Item>;
    fn into_iter_(self) -> (r: It<Self::Item>)
        ensures r.all() == self.seq(), r.pos() == 0;
}
impl<T> IntoIt for It<T> {
    type Item = T;
    open spec fn seq(self) -> Seq<T> { self.rest() }
    fn into_iter_(self) -> (r: It<T>) { self.restart() }
}
impl<T> IntoIt for Vec<T> {
    type Item = T;
    open spec fn seq(self) -> Seq<T> { self@ }
    fn into_iter_(self) -> (r: It<T>) { It::from_vec(self) }
}
impl<'a, T> IntoIt for &'a Vec<T> {
    type Item = &'a T;
    open spec fn seq(self) -> Seq<&'a T> { refs(self@) }
    fn into_iter_(self) -> (r: It<&'a T>) {
        self.iter_()
    }
}
impl<T> IntoIt for Option<T> {
    type Item = T;
    open spec fn seq(self) -> Seq<T> { match self { Some(x) => seq![x], None => Seq::empty() } }
    fn into_iter_(self) -> (r: It<T>) {
        let mut v: Vec<T> = Vec::new();
        match self { Some(x) => { v.push(x); } None => {} }
        assert(v@ =~= self.seq());
        It::from_vec(v)
    }
}
impl IntoIt for std::ops::Range<usize> {
    type Item = usize;
    open spec fn seq(self) -> Seq<usize> {
        if self.start <= self.end { Seq::new((self.end - self.start) as nat, |i: int| (self.start + i) as usize) } else { Seq::empty() }
    }
    fn into_iter_(self) -> (r: It<usize>) {
        let mut v: Vec<usize> = Vec::new();
        let mut i = self.start;
        while i < self.end
            invariant
                self.start <= self.end ==> self.start <= i <= self.end,
                i < self.end ==> self.start <= self.end,
                self.start > self.end ==> i == self.start,
                v@.len() == i - self.start,
                forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == self.start + k,
            decreases self.end - i
        {
            v.push(i);
            i = i + 1;
        }
        assert(v@ =~= self.seq());
        It::from_vec(v)
    }
}

/// `.iter()`
pub trait VIter<'a> {
    type Elem;
    spec fn view_seq(&'a self) -> Seq<Self::Elem>;
    fn iter_(&'a self) -> (r: It<Self::Elem>)
        ensures r.all() == self.view_seq(), r.pos() == 0;
}
impl<'a, T: 'a> VIter<'a> for Vec<T> {
    type Elem = &'a T;
    open spec fn view_seq(&'a self) -> Seq<&'a T> { refs(self@) }
    fn iter_(&'a self) -> (r: It<&'a T>) {
        let mut out: Vec<&'a T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant 0 <= i <= self@.len(), out@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] out@[k] == &self@[k],
            decreases self.len() - i
        {
            out.push(&self[i]);
            i = i + 1;
        }
        broadcast use {lemma_refs_len, lemma_refs_index};
        assert(out@ =~= self.view_seq());
        It::from_vec(out)
    }
}
impl<'a, T: 'a> VIter<'a> for [T] {
    type Elem = &'a T;
    open spec fn view_seq(&'a self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn iter_(&'a self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<'a, T: 'a> VIter<'a> for Option<T> {
    type Elem = &'a T;
    open spec fn view_seq(&'a self) -> Seq<&'a T> { match self { Some(x) => seq![x], None => Seq::empty() } }
    fn iter_(&'a self) -> (r: It<&'a T>) {
        let mut v: Vec<&'a T> = Vec::new();
        match self { Some(x) => { v.push(x); } None => {} }
        assert(v@ =~= self.view_seq());
        It::from_vec(v)
    }
}

/// `.collect()`
pub trait FromIt<T>: Sized {
    spec fn collected(s: Seq<T>, r: Self) -> bool;
    fn from_it(it: It<T>) -> (r: Self)
        ensures Self::collected(it.rest(), r);
}
impl<T> FromIt<T> for Vec<T> {
    open spec fn collected(s: Seq<T>, r: Vec<T>) -> bool { r@ == s }
    fn from_it(it: It<T>) -> (r: Vec<T>) { it.into_vec() }
}
impl<T> FromIt<T> for LinkedList<T> {
    open spec fn collected(s: Seq<T>, r: LinkedList<T>) -> bool { r@ == s }
    fn from_it(it: It<T>) -> (r: LinkedList<T>) {
        let mut it = it.restart();
        let ghost s = it.all();
        let mut out: LinkedList<T> = LinkedList::new();
        while let Some(x) = it.next()
            invariant it.all() == s, 0 <= it.pos() <= s.len(), out@ == s.subrange(0, it.pos()),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            out.push_back(x);
            assert(out@ =~= s.subrange(0, it.pos()));
        }
        assert(s.subrange(0, s.len() as int) =~= s);
        out
    }
}
impl<T> FromIt<T> for HashSet<T> {
    open spec fn collected(s: Seq<T>, r: HashSet<T>) -> bool { r@ == s.to_set() }
    fn from_it(it: It<T>) -> (r: HashSet<T>) {
        let mut it = it.restart();
        let ghost s = it.all();
        let mut out: HashSet<T> = HashSet::new();
        proof { assert(s.subrange(0, 0).to_set() =~= Set::<T>::empty()); }
        while let Some(x) = it.next()
            invariant it.all() == s, 0 <= it.pos() <= s.len(), out@ == s.subrange(0, it.pos()).to_set(),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            let ghost p = it.pos() - 1;
            out.insert(x);
            proof {
                let a = s.subrange(0, p);
                let b = s.subrange(0, p + 1);
                assert(b =~= a.push(x));
                assert forall|y: T| b.to_set().contains(y) <==> a.to_set().insert(x).contains(y) by {
                    if b.to_set().contains(y) { let k = choose|k: int| 0 <= k < b.len() && b[k] == y; if k < p { assert(a[k] == y); } }
                    if a.contains(y) { let k = choose|k: int| 0 <= k < a.len() && a[k] == y; assert(b[k] == y); }
                    assert(b[p] == x);
                }
                assert(b.to_set() =~= a.to_set().insert(x));
            }
        }
        assert(s.subrange(0, s.len() as int) =~= s);
        out
    }
}

// ---------------------------------------------------------------- Vec and slices

/// vec![a] and vec![a, b]
pub fn vvec1<T>(a: T) -> (r: Vec<T>)
    ensures r@ == seq![a], r@.len() == 1, r@[0] == a, forall|x: T| #[trigger] r@.contains(x) <==> x == a,
{
    let mut v = Vec::new();
    v.push(a);
    proof { assert(v@ =~= seq![a]); assert(v@[0] == a); }
    v
}
pub fn vvec2<T>(a: T, b: T) -> (r: Vec<T>)
    ensures r@ == seq![a, b], r@.len() == 2, r@[0] == a, r@[1] == b, forall|x: T| #[trigger] r@.contains(x) <==> x == a || x == b,
{
    let mut v = Vec::new();
    v.push(a);
    v.push(b);
    proof { assert(v@ =~= seq![a, b]); assert(v@[0] == a && v@[1] == b); }
    v
}

pub trait VVec<T> {
    spec fn elems(&self) -> Seq<T>;
    fn contains_(&self, x: &T) -> (r: bool)
        ensures r == self.elems().contains(*x);
    fn first_(&self) -> (r: Option<&T>)
        ensures r == (if self.elems().len() > 0 { Some(&self.elems()[0]) } else { None });
    fn last_(&self) -> (r: Option<&T>)
        ensures r == (if self.elems().len() > 0 { Some(&self.elems()[self.elems().len() - 1]) } else { None });
    fn to_vec_(&self) -> (r: Vec<T>)
        ensures r@ == self.elems();
    fn is_empty_(&self) -> (r: bool)
        ensures r == (self.elems().len() == 0);
    fn get_(&self, i: usize) -> (r: Option<&T>)
        ensures r == (if i < self.elems().len() { Some(&self.elems()[i as int]) } else { None });
    fn windows_(&self, n: usize) -> (r: It<&[T]>)
        requires n > 0,
        ensures r.pos() == 0,
            r.all().len() == if self.elems().len() >= n { self.elems().len() - n + 1 } else { 0 },
            forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i])@ == self.elems().subrange(i, i + n);
}
impl<T> VVec<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn contains_(&self, x: &T) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn first_(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn last_(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn to_vec_(&self) -> (r: Vec<T>) { unimplemented!() }
    fn is_empty_(&self) -> (r: bool) { self.len() == 0 }
    fn get_(&self, i: usize) -> (r: Option<&T>) { if i < self.len() { Some(&self[i]) } else { None } }
    #[verifier::external_body]
    fn windows_(&self, n: usize) -> (r: It<&[T]>) { unimplemented!() }
}
impl<T> VVec<T> for [T] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn contains_(&self, x: &T) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn first_(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn last_(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn to_vec_(&self) -> (r: Vec<T>) { unimplemented!() }
    fn is_empty_(&self) -> (r: bool) { self.len() == 0 }
    #[verifier::external_body]
    fn get_(&self, i: usize) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn windows_(&self, n: usize) -> (r: It<&[T]>) { unimplemented!() }
}

#[verifier::external_body]
pub fn vsub<T>(v: &Vec<T>, a: usize, b: usize) -> (r: &[T])
    requires a <= b <= v@.len(),
    ensures r@ == v@.subrange(a as int, b as int),
{ &v[a..b] }

pub trait VVecMut<T> {
    fn retain_<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).mseq().len() ==> call_requires(f, (&#[trigger] old(self).mseq()[i],)),
        ensures
            forall|x: T| #[trigger] final(self).mseq().contains(x) ==> old(self).mseq().contains(x) && call_ensures(f, (&x,), true),
            forall|x: T| #[trigger] old(self).mseq().contains(x) ==> call_ensures(f, (&x,), false) || final(self).mseq().contains(x),
            old(self).mseq().no_duplicates() ==> final(self).mseq().no_duplicates(),
            sub_seq_of(final(self).mseq(), old(self).mseq());
    spec fn mseq(&self) -> Seq<T>;
    fn rotate_left_(&mut self, k: usize)
        requires k <= old(self).mseq().len(),
        ensures final(self).mseq() == old(self).mseq().subrange(k as int, old(self).mseq().len() as int) + old(self).mseq().subrange(0, k as int);
    fn extend_<C: IntoIt<Item = T>>(&mut self, c: C)
        ensures final(self).mseq() == old(self).mseq() + c.seq();
}
impl<T> VVecMut<T> for Vec<T> {
    open spec fn mseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn retain_<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn rotate_left_(&mut self, k: usize) { unimplemented!() }
    fn extend_<C: IntoIt<Item = T>>(&mut self, c: C) {
        let mut v = c.into_iter_().into_vec();
        self.append(&mut v);
    }
}

pub trait VMinMax: Sized {
    fn min_(self, o: Self) -> Self;
    fn max_(self, o: Self) -> Self;
}
impl VMinMax for u64 {
    fn min_(self, o: u64) -> (r: u64) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } }
    fn max_(self, o: u64) -> (r: u64) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } }
}
impl VMinMax for usize {
    fn min_(self, o: usize) -> (r: usize) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } }
    fn max_(self, o: usize) -> (r: usize) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } }
}

pub trait VTryInto<U>: Sized {
    spec fn try_ok(self, u: U) -> bool;
    spec fn try_fits(self) -> bool;
    fn try_into_(self) -> (r: Result<U, ()>)
        ensures self.try_fits() ==> r.is_ok(), match r { Ok(u) => self.try_ok(u), Err(_) => true };
}
impl VTryInto<i64> for usize {
    open spec fn try_ok(self, u: i64) -> bool { u == self }
    open spec fn try_fits(self) -> bool { self <= i64::MAX }
    fn try_into_(self) -> (r: Result<i64, ()>) { if self <= i64::MAX as usize { Ok(self as i64) } else { Err(()) } }
}

// ---------------------------------------------------------------- HashMap

/// std::borrow::Borrow as the maps use it: a key type, and what it may be looked up by
pub trait VBorrow<Q>: Sized {
    spec fn key_of(q: Q) -> Self;
}
impl<T> VBorrow<T> for T {
    #[verifier::inline]
    open spec fn key_of(q: T) -> T { q }
}
impl<'a, T> VBorrow<T> for &'a T {
    #[verifier::inline]
    open spec fn key_of(q: T) -> &'a T { &q }
}

/// Contract of std::collections::HashMap for keys whose Eq and Hash are the derived ones
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<u8, (K, V)> }

impl<K, V> View for HashMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}
/// the elements of a map, in the (arbitrary but fixed) order of an unchanged map
pub open spec fn lists_set<T>(s: Seq<T>, d: Set<T>) -> bool {
    &&& s.no_duplicates()
    &&& forall|x: T| #[trigger] s.contains(x) <==> d.contains(x)
    &&& s.len() == d.len()
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    pub fn is_empty_(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { self.len() == 0 }
    #[verifier::external_body]
    pub fn contains_key<Q>(&self, k: &Q) -> (r: bool) where K: VBorrow<Q> ensures r == self@.contains_key(K::key_of(*k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_<Q>(&self, k: &Q) -> (r: Option<&V>) where K: VBorrow<Q>
        ensures match r { Some(v) => self@.contains_key(K::key_of(*k)) && *v == self@[K::key_of(*k)], None => !self@.contains_key(K::key_of(*k)) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q>(&mut self, k: &Q) -> (r: Option<&mut V>) where K: VBorrow<Q>
        ensures match r {
            Some(v) => old(self)@.contains_key(K::key_of(*k)) && *v == old(self)@[K::key_of(*k)] && final(self)@ == old(self)@.insert(K::key_of(*k), *final(v)),
            None => !old(self)@.contains_key(K::key_of(*k)) && final(self)@ == old(self)@,
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q>(&mut self, k: &Q) -> (r: Option<V>) where K: VBorrow<Q>
        ensures final(self)@ == old(self)@.remove(K::key_of(*k)),
            r == (if old(self)@.contains_key(K::key_of(*k)) { Some(old(self)@[K::key_of(*k)]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: It<&K>)
        ensures r.pos() == 0, r.all().no_duplicates(), r.all().len() == self@.dom().len(),
            forall|k: K| #[trigger] r.all().contains(&k) <==> self@.contains_key(k),
            forall|i: int| 0 <= i < r.all().len() ==> self@.contains_key(*#[trigger] r.all()[i]),
    { unimplemented!() }
    /// the keys, by value (the map can then be modified: used for `for (k, v) in &mut map`)
    #[verifier::external_body]
    pub fn keys_snapshot(&self) -> (r: It<K>)
        ensures r.pos() == 0, r.all().no_duplicates(), r.all().len() == self@.dom().len(),
            forall|k: K| #[trigger] r.all().contains(k) <==> self@.contains_key(k),
            forall|i: int| 0 <= i < r.all().len() ==> self@.contains_key(#[trigger] r.all()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: It<&V>)
        ensures r.pos() == 0, r.all().len() == self@.dom().len(),
            forall|i: int| 0 <= i < r.all().len() ==> exists|k: K| #[trigger] self@.contains_key(k) && self@[k] == *#[trigger] r.all()[i],
            forall|k: K| #[trigger] self@.contains_key(k) ==> r.all().contains(&self@[k]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_(&self) -> (r: It<(&K, &V)>)
        ensures r.pos() == 0, r.all().no_duplicates(), r.all().len() == self@.dom().len(),
            forall|i: int| 0 <= i < r.all().len() ==> self@.contains_key(*(#[trigger] r.all()[i]).0) && self@[*r.all()[i].0] == *r.all()[i].1,
            forall|k: K| #[trigger] self@.contains_key(k) ==> r.all().contains((&k, &self@[k])),
            forall|i: int, j: int| 0 <= i < j < r.all().len() ==> *(#[trigger] r.all()[i]).0 != *(#[trigger] r.all()[j]).0,
    { unimplemented!() }
}
impl<K, V: VClone> VClone for HashMap<K, V> {
    #[verifier::external_body]
    fn clone_(&self) -> (r: Self) { unimplemented!() }
}

// ---------------------------------------------------------------- HashSet

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { m: std::collections::HashMap<u8, T> }

impl<T> View for HashSet<T> {
    type V = Set<T>;
    uninterp spec fn view(&self) -> Set<T>;
}
impl<T> HashSet<T> {
    pub open spec fn spec_contains<Q>(&self, x: &Q) -> bool where T: VBorrow<Q> { self@.contains(T::key_of(*x)) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    pub fn is_empty_(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.len() == 0 }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(spec_contains)]
    pub fn contains_<Q>(&self, x: &Q) -> (r: bool) where T: VBorrow<Q> ensures r == self.spec_contains(x), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q>(&mut self, x: &Q) -> (r: bool) where T: VBorrow<Q>
        ensures final(self)@ == old(self)@.remove(T::key_of(*x)), r == old(self)@.contains(T::key_of(*x)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_(&self) -> (r: It<&T>)
        ensures r.pos() == 0, r.all().no_duplicates(), r.all().len() == self@.len(),
            forall|x: T| #[trigger] r.all().contains(&x) <==> self@.contains(x),
            forall|i: int| 0 <= i < r.all().len() ==> self@.contains(*#[trigger] r.all()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn intersection(&self, o: &HashSet<T>) -> (r: It<&T>)
        ensures r.pos() == 0,
            forall|x: T| #[trigger] r.all().contains(&x) <==> self@.contains(x) && o@.contains(x),
            forall|i: int| 0 <= i < r.all().len() ==> self@.contains(*#[trigger] r.all()[i]) && o@.contains(*r.all()[i]),
    { unimplemented!() }
}

// ---------------------------------------------------------------- LinkedList

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct LinkedList<T> { l: std::collections::LinkedList<T> }

impl<T> View for LinkedList<T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}
impl<T> LinkedList<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    pub fn is_empty_(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.len() == 0 }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first() && old(self)@ == seq![x] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        },
    { unimplemented!() }
}
pub type VecDeque<T> = LinkedList<T>;

// ---------------------------------------------------------------- ordering and BinaryHeap

/// The order of the type as its Ord implementation defines it (for types of /repo, the contract of
/// their `cmp` is checked against it)
pub trait VOrd: Sized {
    spec fn le(a: Self, b: Self) -> bool;
}
impl VOrd for u64 { open spec fn le(a: u64, b: u64) -> bool { a <= b } }
impl VOrd for i64 { open spec fn le(a: i64, b: i64) -> bool { a <= b } }
impl VOrd for usize { open spec fn le(a: usize, b: usize) -> bool { a <= b } }

pub use std::cmp::Ordering;
pub open spec fn int_cmp(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub trait VCmp {
    spec fn cmp_val(&self) -> int;
    fn cmp_(&self, o: &Self) -> (r: Ordering)
        ensures r == int_cmp(self.cmp_val(), o.cmp_val());
    fn partial_cmp_(&self, o: &Self) -> (r: Option<Ordering>)
        ensures r == Some(int_cmp(self.cmp_val(), o.cmp_val()));
}
impl VCmp for i64 {
    open spec fn cmp_val(&self) -> int { *self as int }
    fn cmp_(&self, o: &Self) -> (r: Ordering) { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
    fn partial_cmp_(&self, o: &Self) -> (r: Option<Ordering>) { Some(self.cmp_(o)) }
}
impl<'a, T: VCmp> VCmp for &'a T {
    open spec fn cmp_val(&self) -> int { (**self).cmp_val() }
    fn cmp_(&self, o: &Self) -> (r: Ordering) { (**self).cmp_(*o) }
    fn partial_cmp_(&self, o: &Self) -> (r: Option<Ordering>) { (**self).partial_cmp_(*o) }
}
impl VCmp for u64 {
    open spec fn cmp_val(&self) -> int { *self as int }
    fn cmp_(&self, o: &Self) -> (r: Ordering) { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
    fn partial_cmp_(&self, o: &Self) -> (r: Option<Ordering>) { Some(self.cmp_(o)) }
}
impl VCmp for usize {
    open spec fn cmp_val(&self) -> int { *self as int }
    fn cmp_(&self, o: &Self) -> (r: Ordering) { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
    fn partial_cmp_(&self, o: &Self) -> (r: Option<Ordering>) { Some(self.cmp_(o)) }
}

#[verifier::reject_recursive_types(T)]
pub struct Reverse<T>(pub T);
impl<T: VOrd> VOrd for Reverse<T> { open spec fn le(a: Self, b: Self) -> bool { T::le(b.0, a.0) } }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BinaryHeap<T> { l: std::vec::Vec<T> }

impl<T> View for BinaryHeap<T> {
    type V = Multiset<T>;
    uninterp spec fn view(&self) -> Multiset<T>;
}
impl<T: VOrd> BinaryHeap<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Multiset::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.insert(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self)@.count(x) > 0 && final(self)@ == old(self)@.remove(x)
                && forall|y: T| #[trigger] old(self)@.count(y) > 0 ==> T::le(y, x),
            None => old(self)@ == Multiset::<T>::empty() && final(self)@ == old(self)@,
        },
    { unimplemented!() }
}

pub broadcast proof fn lemma_done_start<T>(it: It<T>)
    ensures it.pos() == 0 ==> (#[trigger] it.done()) == Seq::<T>::empty(),
            0 <= it.pos() <= it.all().len() ==> it.done().len() == it.pos(),
{ if it.pos() == 0 { assert(it.done() =~= Seq::<T>::empty()); } }

pub broadcast group group_prelude {
    group_lean,
    lemma_index_contains,
}
pub broadcast group group_lean {
    lemma_done_start,
    axiom_vec_ext,
    axiom_vec_len,
    lemma_push_contains,
    lemma_push_nodup,
    lemma_push_last,
    lemma_refs_len,
    lemma_refs_index,
    lemma_refs_contains,
    lemma_refs_contains_rev,
}

// ---- text

/// the number that a non-empty list of digits denotes
pub open spec fn digits_val(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { digits_val(s.drop_last()) * 10 + (s.last() as u32 - '0' as u32) } }
pub open spec fn all_digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
/// the digits of s, after a sign
pub open spec fn after_plus(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s } }
pub open spec fn u64_text(s: Seq<char>) -> Option<u64> {
    let d = after_plus(s);
    if all_digits(d) && digits_val(d) <= u64::MAX { Some(digits_val(d) as u64) } else { None }
}
pub open spec fn i64_text(s: Seq<char>) -> Option<i64> {
    if s.len() > 0 && s[0] == '-' {
        let d = s.drop_first();
        if all_digits(d) && digits_val(d) <= i64::MAX + 1 { Some((0 - digits_val(d)) as i64) } else { None }
    } else {
        let d = after_plus(s);
        if all_digits(d) && digits_val(d) <= i64::MAX { Some(digits_val(d) as i64) } else { None }
    }
}
#[derive(Debug)]
#[verifier::external_body]
pub struct VParseErr { _r: u8 }
pub trait VFromStr: Sized { spec fn from_text(s: Seq<char>) -> Option<Self>; }
impl VFromStr for u64 { open spec fn from_text(s: Seq<char>) -> Option<u64> { u64_text(s) } }
impl VFromStr for usize { open spec fn from_text(s: Seq<char>) -> Option<usize> { match u64_text(s) { Some(x) => Some(x as usize), None => None } } }
impl VFromStr for i64 { open spec fn from_text(s: Seq<char>) -> Option<i64> { i64_text(s) } }
/// `.parse::<T>()`
pub trait VParse {
    spec fn text(&self) -> Seq<char>;
    fn parse_<T: VFromStr>(&self) -> (r: Result<T, VParseErr>)
        ensures match r { Ok(x) => T::from_text(self.text()) == Some(x), Err(_) => T::from_text(self.text()) is None };
}
impl VParse for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn parse_<T: VFromStr>(&self) -> (r: Result<T, VParseErr>) { unimplemented!() }
}
#[verifier::opaque]
pub open spec fn times(i: int, n: int) -> int { i * n }
pub proof fn lemma_times(i: int, n: int)
    ensures times(i + 1, n) == times(i, n) + n,
{ reveal(times); assert((i + 1) * n == i * n + n) by (nonlinear_arith); }
/// or_else and unwrap_or_else of an Option
pub trait VOrElse<T>: Sized {
    spec fn content(self) -> Option<T>;
    fn or_else_<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>)
        requires self.content() is None ==> call_requires(f, ()),
        ensures match self.content() { Some(x) => r == Some(x), None => call_ensures(f, (), r) };
    fn unwrap_or_else_<F: FnOnce() -> T>(self, f: F) -> (r: T)
        requires self.content() is None ==> call_requires(f, ()),
        ensures match self.content() { Some(x) => r == x, None => call_ensures(f, (), r) };
}
impl<T> VOrElse<T> for Option<T> {
    open spec fn content(self) -> Option<T> { self }
    fn or_else_<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) { match self { Some(x) => Some(x), None => f() } }
    fn unwrap_or_else_<F: FnOnce() -> T>(self, f: F) -> (r: T) { match self { Some(x) => x, None => f() } }
}
/// as_ref of an Option
pub trait VOptRef<T> {
    fn as_ref_(&self) -> Option<&T>;
}
impl<T> VOptRef<T> for Option<T> {
    fn as_ref_(&self) -> (r: Option<&T>)
        ensures match *self { Some(x) => r == Some(&x), None => r is None },
    { match self { Some(x) => Some(x), None => None } }
}
