## Trusted contracts of std items that vstd does not specify.  Every axiom and external_body function of this file is an
## assumption (listed in the evidence).  A `@rename a b` redirects the method call `.a(..)` of a function under contract to
## the extension method `b`, whose body is exactly the call `.a(..)`.
@rename cloned vx_cloned
@rename extend vx_extend
@rename get_mut vx_get_mut
@rename filter_map vx_filter_map
@crate
pub mod vstdx {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
use std::collections::HashMap;
use std::iter::Cloned;
use vstd::std_specs::iter::IteratorSpec;
verus!{
pub type SMap<K, V> = vstd::map::Map<K, V>;
pub type SSet<K> = vstd::set::Set<K>;
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct ExCloned<I>(std::iter::Cloned<I>);

/// The items a `Cloned` adaptor will yield.
pub uninterp spec fn cloned_items<I, T>(c: Cloned<I>) -> Seq<T>;

pub trait VxSliceIter<'a, T>: Sized {
    #[verifier::prophetic] spec fn vx_rest(self) -> Seq<&'a T>;
    fn vx_cloned(self) -> (r: Cloned<Self>) where T: Clone
    ensures
        cloned_items::<Self, T>(r).len() == self.vx_rest().len(),
        forall|i: int| 0 <= i < self.vx_rest().len() ==> cloned::<T>(*self.vx_rest()[i], #[trigger] cloned_items::<Self, T>(r)[i]);
}
impl<'a, T> VxSliceIter<'a, T> for std::slice::Iter<'a, T> {
    #[verifier::prophetic] open spec fn vx_rest(self) -> Seq<&'a T> { self.remaining() }
    #[verifier::external_body]
    fn vx_cloned(self) -> Cloned<Self> where T: Clone { self.cloned() }
}

pub trait VxVec<T>: Sized {
    spec fn vx_items(self) -> Seq<T>;
    fn vx_extend<'a>(&mut self, i: Cloned<std::slice::Iter<'a, T>>) where T: Clone
    ensures final(self).vx_items() == old(self).vx_items() + cloned_items::<_, T>(i);
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vx_items(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_extend<'a>(&mut self, i: Cloned<std::slice::Iter<'a, T>>) where T: Clone { self.extend(i) }
}

pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(s@[i], #[trigger] r@[i]);

pub open spec fn masked<T>(s: Seq<T>, m: Seq<bool>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { s } else if m.last() { masked(s.drop_last(), m.drop_last()).push(s.last()) } else { masked(s.drop_last(), m.drop_last()) }
}
pub assume_specification<T, A: std::alloc::Allocator, F: FnMut(&T) -> bool>[ Vec::<T, A>::retain ](v: &mut Vec<T, A>, f: F)
    requires forall|x: T| #[trigger] f.requires((&x,)),
    ensures exists|m: Seq<bool>| #![auto] m.len() == old(v)@.len() && (forall|i: int| 0 <= i < m.len() ==> f.ensures((&old(v)@[i],), m[i]))
        && final(v)@ == masked(old(v)@, m);
/// Proved: a mask computed by a predicate filters by it.
pub broadcast proof fn lemma_masked<T>(s: Seq<T>, m: Seq<bool>, p: spec_fn(T) -> bool)
    requires m.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> m[i] == p(s[i]),
    ensures #![trigger masked(s, m), s.filter(p)] masked(s, m) == s.filter(p)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { lemma_masked(s.drop_last(), m.drop_last(), p); }
}

// ---- hash maps
/// `for x in &map` / `for x in map` of the code is verified as `for x in vx_iter(&map)` / `for x in vx_entries(map)` (see `@@iter`).
pub open spec fn entries_of<K, V>(m: SMap<K, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub open spec fn unref2<K, V>(s: Seq<(&K, &V)>) -> Seq<(K, V)> { s.map_values(|p: (&K, &V)| (*p.0, *p.1)) }
/// `for x in e` over an opaque `impl Iterator` is verified as `for x in vx_items(e)`: the items, collected first.
pub fn vx_items<I: Iterator>(i: I) -> (r: Vec<I::Item>)
    requires i.obeys_prophetic_iter_laws(), i.decrease() is Some,
    ensures r@ == i.remaining(), i.will_return_none(),
{ i.collect() }
/// `E.filter_map(f)` of the code is verified as `E.vx_filter_map(f)`, the loop below.
pub open spec fn somes<B>(s: Seq<Option<B>>) -> Seq<B>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s.last() { Some(b) => somes(s.drop_last()).push(b), None => somes(s.drop_last()) } }
}
pub broadcast proof fn lemma_somes_push<B>(s: Seq<Option<B>>, o: Option<B>)
    ensures #[trigger] somes(s.push(o)) == match o { Some(b) => somes(s).push(b), None => somes(s) }
{
    assert(s.push(o).drop_last() =~= s);
}
pub broadcast proof fn lemma_somes_count<A, B>(s: Seq<A>, o: Seq<Option<B>>, p: spec_fn(A) -> bool)
    requires o.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] o[k] is Some) == p(s[k]),
    ensures #![trigger somes(o), s.filter(p)] somes(o).len() == s.filter(p).len()
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|k: int| 0 <= k < s.drop_last().len() implies (#[trigger] o.drop_last()[k] is Some) == p(s.drop_last()[k]) by { assert(o[k] == o.drop_last()[k]); }
        assert(o[s.len() - 1] is Some == p(s.last()));
        lemma_somes_count(s.drop_last(), o.drop_last(), p);
    }
}
pub trait VxIterator: Iterator + Sized {
    fn vx_filter_map<B, F: Fn(Self::Item) -> Option<B>>(self, f: F) -> (r: Vec<B>)
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some, forall|x: Self::Item| f.requires((x,)),
        ensures exists|o: Seq<Option<B>>| o.len() == self.remaining().len() && #[trigger] somes(o) == r@
            && (forall|k: int| 0 <= k < o.len() ==> f.ensures((#[trigger] self.remaining()[k],), o[k]));
}
impl<I: Iterator> VxIterator for I {
    fn vx_filter_map<B, F: Fn(Self::Item) -> Option<B>>(self, f: F) -> (r: Vec<B>) {
        let mut r = Vec::new();
        let ghost s = self.remaining();
        let ghost mut o: Seq<Option<B>> = Seq::empty();
        for x in it: vx_items(self)
            invariant it.seq() == s, o.len() == it.index(), somes(o) == r@, forall|x: Self::Item| f.requires((x,)),
                forall|k: int| 0 <= k < o.len() ==> f.ensures((#[trigger] it.seq()[k],), o[k]),
        {
            broadcast use lemma_somes_push;
            let v = f(x);
            proof { o = o.push(v); }
            match v { Some(b) => r.push(b), None => {} }
        }
        r
    }
}
pub fn vx_iter<'a, K, V>(m: &'a HashMap<K, V>) -> (r: std::collections::hash_map::Iter<'a, K, V>)
    ensures
        call_ensures(HashMap::<K, V>::iter, (m,), r),
        vstd::std_specs::hash::obeys_key_model::<K>() ==> entries_of(m@, unref2(r.remaining())),
{
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let r = m.iter();
    proof {
        if vstd::std_specs::hash::obeys_key_model::<K>() {
            let s = r.remaining();
            let u = unref2(s);
            assert forall|i: int| 0 <= i < u.len() implies m@.contains_key((#[trigger] u[i]).0) && m@[u[i].0] == u[i].1 by {
                assert(m@.dom().to_iset().contains(*s[i].0));
            }
            assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).0 != (#[trigger] u[j]).0 by {
                if u[i].0 == u[j].0 {
                    assert(u[i].1 == u[j].1);
                    assert(s[i] == s[j]);
                }
            }
            assert forall|k: K| #[trigger] m@.contains_key(k) implies exists|i: int| 0 <= i < u.len() && (#[trigger] u[i]).0 == k by {
                assert(m@.dom().to_iset().contains(k));
                let i = choose|i: int| 0 <= i < s.len() && *s[i].0 == k;
                assert(u[i].0 == k);
            }
        }
    }
    r
}
/// The map made of the first `n` entries.
pub open spec fn prefix<K, V>(s: Seq<(K, V)>, n: int) -> SMap<K, V>
    decreases n
{
    if n <= 0 || n > s.len() { SMap::empty() } else { prefix(s, n - 1).insert(s[n - 1].0, s[n - 1].1) }
}
pub proof fn lemma_prefix_dom<K, V>(s: Seq<(K, V)>, n: int, k: K)
    requires 0 <= n <= s.len(),
    ensures prefix(s, n).contains_key(k) <==> exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k
    decreases n
{
    if n > 0 {
        lemma_prefix_dom(s, n - 1, k);
        if prefix(s, n).contains_key(k) {
            if s[n - 1].0 == k { } else {
                let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] s[i]).0 == k;
                assert(s[i].0 == k);
            }
        }
        if exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k {
            let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k;
            if i < n - 1 { assert(exists|j: int| 0 <= j < n - 1 && (#[trigger] s[j]).0 == k); }
        }
    }
}
pub broadcast proof fn lemma_prefix_sub<K, V>(m: SMap<K, V>, s: Seq<(K, V)>, n: int)
    requires #[trigger] entries_of(m, s), 0 <= n <= s.len(),
    ensures
        forall|k: K| #[trigger] prefix(s, n).contains_key(k) ==> m.contains_key(k) && prefix(s, n)[k] == m[k],
        n < s.len() ==> !(#[trigger] prefix(s, n)).contains_key(s[n].0) && m.contains_key(s[n].0) && m[s[n].0] == s[n].1
            && prefix(s, n + 1) == prefix(s, n).insert(s[n].0, s[n].1),
        n == s.len() ==> prefix(s, n) == m,
    decreases n
{
    assert forall|k: K| #[trigger] prefix(s, n).contains_key(k) implies m.contains_key(k) && prefix(s, n)[k] == m[k] by {
        lemma_prefix_dom(s, n, k);
        if n > 0 { lemma_prefix_sub(m, s, n - 1); }
    }
    if n < s.len() { lemma_prefix_dom(s, n, s[n].0); }
    if n == s.len() {
        assert forall|k: K| m.contains_key(k) implies #[trigger] prefix(s, n).contains_key(k) by { lemma_prefix_dom(s, n, k); }
        assert(prefix(s, n) =~= m);
    }
}
/// Proved: the same for all entries, without making up further prefixes.
pub broadcast proof fn lemma_prefix_all<K, V>(m: SMap<K, V>, s: Seq<(K, V)>, n: int)
    requires #[trigger] entries_of(m, s), n == s.len(),
    ensures #[trigger] prefix(s, n) == m
{
    lemma_prefix_sub(m, s, n);
}
#[verifier::external_body]
pub fn vx_entries<K, V>(m: HashMap<K, V>) -> (r: Vec<(K, V)>)
    ensures vstd::std_specs::hash::obeys_key_model::<K>() ==> entries_of(m@, r@)
{
    m.into_iter().collect()
}
pub trait VxGetMut<K, V>: Sized {
    spec fn vx_view(self) -> SMap<K, V>;
    fn vx_get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures vstd::std_specs::hash::obeys_key_model::<K>() ==> match r {
            Some(v) => old(self).vx_view().contains_key(*k) && *v == old(self).vx_view()[*k]
                && final(self).vx_view() == old(self).vx_view().insert(*k, *final(v)),
            None => !old(self).vx_view().contains_key(*k) && final(self).vx_view() == old(self).vx_view() };
}
impl<K: Eq + std::hash::Hash, V> VxGetMut<K, V> for HashMap<K, V> {
    open spec fn vx_view(self) -> SMap<K, V> { self@ }
    #[verifier::external_body]
    fn vx_get_mut<'a>(&'a mut self, k: &K) -> Option<&'a mut V> { self.get_mut(k) }
}

pub assume_specification<'a, K, V> [<std::collections::hash_map::Keys<'a, K, V> as std::iter::Iterator>::count] (i: std::collections::hash_map::Keys<'a, K, V>) -> (n: usize)
    ensures n == i.remaining().len();
pub assume_specification<'a, K, V> [<std::collections::hash_map::Values<'a, K, V> as std::iter::Iterator>::count] (i: std::collections::hash_map::Values<'a, K, V>) -> (n: usize)
    ensures n == i.remaining().len();
/// `==` of hash maps: the same keys with equal values.
pub broadcast axiom fn axiom_map_obeys_eq<K: Eq + std::hash::Hash, V: PartialEq>()
    ensures #[trigger] <HashMap<K, V> as vstd::std_specs::cmp::PartialEqSpec<HashMap<K, V>>>::obeys_eq_spec()
        == (vstd::std_specs::hash::obeys_key_model::<K>() && <V as vstd::std_specs::cmp::PartialEqSpec<V>>::obeys_eq_spec());
pub broadcast axiom fn axiom_map_eq<K: Eq + std::hash::Hash, V: PartialEq>(a: HashMap<K, V>, b: HashMap<K, V>)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b)
        == (a@.dom() =~= b@.dom() && forall|k: K| #[trigger] a@.contains_key(k) ==> vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a@[k], &b@[k]));
/// Proved: a subset of the same size is the whole set.
pub broadcast proof fn lemma_dom_eq<K, V, W>(a: SMap<K, V>, b: SMap<K, W>)
    requires #[trigger] a.dom().len() == #[trigger] b.dom().len(), forall|k: K| #[trigger] a.contains_key(k) ==> b.contains_key(k),
    ensures a.dom() == b.dom()
{
    assert(a.dom().subset_of(b.dom()));
    vstd::set_lib::lemma_subset_equality(a.dom(), b.dom());
}
// ---- strings as map keys: a String is determined by its characters
pub uninterp spec fn str_key(k: Seq<char>) -> String;
pub broadcast axiom fn axiom_str_key_of_view(s: String) ensures #[trigger] str_key(s@) == s;
pub broadcast axiom fn axiom_str_key_view(k: Seq<char>) ensures #[trigger] str_key(k)@ == k;
pub broadcast axiom fn axiom_str_borrow_contains<V>(m: SMap<String, V>, k: &str)
    ensures #[trigger] vstd::std_specs::hash::contains_borrowed_key::<String, V, str>(m, k) <==> m.contains_key(str_key(k@));
pub broadcast axiom fn axiom_str_borrow_maps<V>(m: SMap<String, V>, k: &str, v: V)
    ensures #[trigger] vstd::std_specs::hash::maps_borrowed_key_to_value::<String, V, str>(m, k, v) <==> m.contains_key(str_key(k@)) && m[str_key(k@)] == v;
pub broadcast axiom fn axiom_str_borrow_removed<V>(m: SMap<String, V>, n: SMap<String, V>, k: &str)
    ensures #[trigger] vstd::std_specs::hash::borrowed_key_removed::<String, V, str>(m, n, k) <==> n == m.remove(str_key(k@));

pub open spec fn map_has_value<K, V>(m: SMap<K, V>, v: V) -> bool { exists|k: K| #[trigger] m.contains_key(k) && m[k] == v }
/// Proved: the items of `HashMap::values`.
pub broadcast proof fn lemma_values_seq<K, V>(m: SMap<K, V>, s: Seq<&V>)
    requires #[trigger] s.unref().to_set() == #[trigger] m.values(),
    ensures
        forall|i: int| 0 <= i < s.len() ==> map_has_value(m, *#[trigger] s[i]),
        forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == m[k],
{
    let u = s.unref();
    assert forall|i: int| 0 <= i < s.len() implies map_has_value(m, *#[trigger] s[i]) by {
        assert(u[i] == *s[i]);
        assert(u.contains(u[i]));
        assert(u.to_set().contains(u[i]));
        assert(m.values().contains(*s[i]));
        let k = choose|k: K| m.dom().contains(k) && m[k] == *s[i];
        assert(m.contains_key(k));
    }
    assert forall|k: K| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == m[k] by {
        assert(m.values().contains(m[k]));
        assert(u.to_set().contains(m[k]));
        let i = choose|i: int| 0 <= i < u.len() && u[i] == m[k];
        assert(*s[i] == m[k]);
    }
}
/// Proved: the items of `HashMap::iter`.
pub broadcast proof fn lemma_iter_seq<K, V>(m: SMap<K, V>, s: Seq<(&K, &V)>)
    requires #[trigger] s.unref().to_set() == #[trigger] m.kv_pairs(),
    ensures
        forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1,
        forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k && *s[i].1 == m[k],
{
    let u = s.unref();
    assert forall|i: int| 0 <= i < s.len() implies m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1 by {
        assert(u[i] == (*s[i].0, *s[i].1));
        assert(u.contains(u[i]));
        assert(u.to_set().contains(u[i]));
        assert(m.kv_pairs().contains(u[i]));
    }
    assert forall|k: K| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k && *s[i].1 == m[k] by {
        assert(m.kv_pairs().contains((k, m[k])));
        assert(u.to_set().contains((k, m[k])));
        let i = choose|i: int| 0 <= i < u.len() && u[i] == (k, m[k]);
        assert(*s[i].0 == k);
    }
}
/// Proved: the same, as the entries of the map.
pub broadcast proof fn lemma_iter_entries<K, V>(m: SMap<K, V>, s: Seq<(&K, &V)>)
    requires #[trigger] s.unref().to_set() == #[trigger] m.kv_pairs(), s.len() == m.dom().len(),
    ensures entries_of(m, unref2(s))
{
    lemma_iter_seq(m, s);
    let t = keys_of(s);
    assert forall|k: K| t.to_set().contains(k) <==> m.dom().contains(k) by {
        if t.contains(k) {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == k;
            assert(m.contains_key(*s[i].0));
        }
        if m.contains_key(k) {
            let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k;
            assert(t[i] == k);
        }
    }
    assert(t.to_set() =~= m.dom());
    t.lemma_no_dup_set_cardinality();
    let u = unref2(s);
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).0 != (#[trigger] u[j]).0 by { assert(t[i] != t[j]); }
    assert forall|k: K| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < u.len() && (#[trigger] u[i]).0 == k by {
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k;
        assert(u[i].0 == k);
    }
}
/// `for x in s` over a hash set is verified as `for x in vx_elements(s)`.
#[verifier::external_body]
pub fn vx_elements<K>(s: std::collections::HashSet<K>) -> (r: Vec<K>)
    ensures vstd::std_specs::hash::obeys_key_model::<K>() ==> r@.to_set() == s@ && r@.no_duplicates()
{ s.into_iter().collect() }
/// Proved.
pub broadcast proof fn lemma_full_subrange<T>(s: Seq<T>, n: int)
    requires n == s.len(),
    ensures #[trigger] s.subrange(0, n) == s
{
    assert(s.subrange(0, n) =~= s);
}
/// Proved: the values of a map which a filter keeps are there.
pub broadcast proof fn lemma_values_kept<K, V>(m: SMap<K, V>, s: Seq<&V>, p: spec_fn(int) -> bool)
    requires s.unref().to_set() == m.values(),
    ensures #![trigger s.unref().to_set(), m.values(), s.filter_index(p)]
        forall|k: K| #[trigger] m.contains_key(k) ==> exists|j: int| 0 <= j < s.len() && *s[j] == m[k] && #[trigger] kept(s, p, j),
{
    lemma_values_seq(m, s);
    s.lemma_filter_index(p);
    assert forall|k: K| #[trigger] m.contains_key(k) implies exists|j: int| 0 <= j < s.len() && *s[j] == m[k] && #[trigger] kept(s, p, j) by {
        let j = choose|j: int| 0 <= j < s.len() && *#[trigger] s[j] == m[k];
        if p(j) { assert(s.filter_index(p).contains(s[j])); }
        assert(kept(s, p, j));
    }
}
/// Proved: filtering a sequence without repetitions leaves it without.
pub proof fn lemma_filter_distinct<T>(s: Seq<T>, p: spec_fn(int) -> bool)
    requires s.no_duplicates(),
    ensures s.filter_index(p).no_duplicates()
    decreases s.len()
{
    reveal(Seq::filter_index);
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_filter_distinct(t, p);
        t.lemma_filter_index(p);
        assert forall|i: int, j: int| 0 <= i < j < s.filter_index(p).len() implies #[trigger] s.filter_index(p)[i] != #[trigger] s.filter_index(p)[j] by {
            if j == t.filter_index(p).len() {
                let k = choose|k: int| 0 <= k < t.len() && p(k) && t[k] == t.filter_index(p)[i];
                assert(s[k] != s[s.len() - 1]);
            }
        }
    }
}
/// Proved: what a filter keeps is there, once.
pub broadcast proof fn lemma_filter_kept<T>(s: Seq<T>, p: spec_fn(int) -> bool)
    ensures #![trigger s.filter_index(p)]
        forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> kept(s, p, j),
        (forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]) ==>
            forall|i: int, j: int| 0 <= i < j < s.filter_index(p).len() ==> #[trigger] s.filter_index(p)[i] != #[trigger] s.filter_index(p)[j],
{
    s.lemma_filter_index(p);
    assert forall|j: int| #![trigger s[j]] #![trigger kept(s, p, j)] 0 <= j < s.len() implies kept(s, p, j) by {
        if p(j) { assert(s.filter_index(p).contains(s[j])); }
    }
    if forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] { lemma_filter_distinct(s, p); }
}
pub open spec fn keys_of<K, V>(s: Seq<(&K, &V)>) -> Seq<K> { s.map_values(|x: (&K, &V)| *x.0) }
pub proof fn lemma_filter_keys<K, V>(s: Seq<(&K, &V)>, p: spec_fn(int) -> bool)
    ensures keys_of(s.filter_index(p)) == keys_of(s).filter_index(p)
    decreases s.len()
{
    reveal(Seq::filter_index);
    if s.len() > 0 {
        lemma_filter_keys(s.drop_last(), p);
        assert(keys_of(s).drop_last() =~= keys_of(s.drop_last()));
        assert(keys_of(s.filter_index(p)) =~= keys_of(s).filter_index(p));
    } else { assert(keys_of(s.filter_index(p)) =~= keys_of(s).filter_index(p)); }
}
/// Proved: the keys of the entries of a map, and of those a filter keeps, are distinct.
pub broadcast proof fn lemma_entries_kept<K, V>(m: SMap<K, V>, s: Seq<(&K, &V)>, p: spec_fn(int) -> bool)
    requires s.unref().to_set() == m.kv_pairs(), s.len() == m.dom().len(),
    ensures #![trigger s.unref().to_set(), m.kv_pairs(), s.filter_index(p)]
        forall|k: K| #[trigger] m.contains_key(k) ==> exists|j: int| 0 <= j < s.len() && *s[j].0 == k && *s[j].1 == m[k] && #[trigger] kept(s, p, j),
        forall|i: int, j: int| 0 <= i < j < s.filter_index(p).len() ==> *(#[trigger] s.filter_index(p)[i]).0 != *(#[trigger] s.filter_index(p)[j]).0,
{
    lemma_iter_seq(m, s);
    s.lemma_filter_index(p);
    assert forall|k: K| #[trigger] m.contains_key(k) implies exists|j: int| 0 <= j < s.len() && *s[j].0 == k && *s[j].1 == m[k] && #[trigger] kept(s, p, j) by {
        let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == k && *s[j].1 == m[k];
        if p(j) { assert(s.filter_index(p).contains(s[j])); }
        assert(kept(s, p, j));
    }
    let t = keys_of(s);
    assert forall|k: K| t.to_set().contains(k) <==> m.dom().contains(k) by {
        if t.contains(k) {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == k;
            assert(m.contains_key(*s[i].0));
        }
        if m.contains_key(k) {
            let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k;
            assert(t[i] == k);
        }
    }
    assert(t.to_set() =~= m.dom());
    t.lemma_no_dup_set_cardinality();
    lemma_filter_distinct(t, p);
    lemma_filter_keys(s, p);
    assert forall|i: int, j: int| 0 <= i < j < s.filter_index(p).len() implies *(#[trigger] s.filter_index(p)[i]).0 != *(#[trigger] s.filter_index(p)[j]).0 by {
        assert(keys_of(s.filter_index(p))[i] != keys_of(s.filter_index(p))[j]);
    }
}
pub open spec fn kept<T>(s: Seq<T>, p: spec_fn(int) -> bool, j: int) -> bool {
    p(j) ==> exists|i: int| 0 <= i < s.filter_index(p).len() && #[trigger] s.filter_index(p)[i] == s[j]
}
/// Proved: vstd's `map_postcondition` with the argument as the trigger.
pub broadcast proof fn lemma_map_args<I: Iterator, F: FnMut<(I::Item,)>>(i: I, f: F, r: std::iter::Map<I, F>)
    requires i.obeys_prophetic_iter_laws(), i.decrease() is Some, #[trigger] vstd::std_specs::iter::map_post(i, f, r),
        forall|k: int| 0 <= k < i.remaining().len() ==> f.requires((#[trigger] i.remaining()[k],)),
    ensures forall|k: int| 0 <= k < r.remaining().len() ==> f.ensures((#[trigger] i.remaining()[k],), r.remaining()[k])
{
    assert forall|k: int| 0 <= k < r.remaining().len() implies f.ensures((#[trigger] i.remaining()[k],), r.remaining()[k]) by {
        let x = r.remaining()[k];
    }
}
/// `t` is one of the texts
pub open spec fn has_text(s: SSet<&'static str>, t: Seq<char>) -> bool { exists|x: &'static str| #[trigger] s.contains(x) && x@ == t }
pub broadcast axiom fn axiom_str_set_borrow(s: SSet<&'static str>, k: &str)
    ensures #[trigger] vstd::std_specs::hash::set_contains_borrowed_key::<&'static str, str>(s, k) <==> has_text(s, k@);
pub broadcast axiom fn axiom_static_str_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<&'static str>();
/// Collecting into a hash set.
pub broadcast axiom fn axiom_set_from_iter<K: Eq + std::hash::Hash>(s: Seq<K>, h: std::collections::HashSet<K>)
    requires vstd::std_specs::hash::obeys_key_model::<K>(),
    ensures #[trigger] <std::collections::HashSet<K> as vstd::std_specs::iter::FromIteratorSpec<K>>::from_iter_ensures(s, h) ==> h@ == s.to_set();
pub broadcast axiom fn axiom_ref_key<'a, K: 'a>()
    ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<&'a K>() == vstd::std_specs::hash::obeys_key_model::<K>();
/// `s` lists the values of `m`, each once
pub open spec fn lists<K, V>(m: SMap<K, V>, s: Seq<V>) -> bool { s.to_set() == m.values() && s.len() == m.dom().len() }
pub open spec fn lists_pairs<K, V>(m: SMap<K, V>, s: Seq<(K, V)>) -> bool { s.to_set() == m.kv_pairs() && s.len() == m.dom().len() }
/// Proved: the items of a slice iterator.
pub broadcast proof fn lemma_ref_at<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures *(#[trigger] s.as_ref())[i] == #[trigger] s[i], s.as_ref().len() == s.len()
{}
/// Proved.
pub broadcast proof fn lemma_unref_at<T>(s: Seq<&T>, i: int)
    requires 0 <= i < s.len(),
    ensures (#[trigger] s.unref())[i] == *#[trigger] s[i]
{}
pub broadcast group group_slice_iters { lemma_ref_at, lemma_unref_at }
pub broadcast group group_iters { axiom_set_from_iter, axiom_ref_key, lemma_map_args, lemma_full_subrange, lemma_values_kept, lemma_entries_kept }
pub broadcast group group_str_keys { lemma_iter_seq, axiom_map_obeys_eq, axiom_map_eq, lemma_dom_eq, lemma_prefix_sub, lemma_values_seq, lemma_masked,  axiom_str_key_of_view, axiom_str_key_view, axiom_str_borrow_contains, axiom_str_borrow_maps, axiom_str_borrow_removed }
#[verifier::external_type_specification]
pub struct ExAssertKind(core::panicking::AssertKind);
pub assume_specification<T: core::fmt::Debug + ?Sized, U: core::fmt::Debug + ?Sized> [core::panicking::assert_failed::<T, U>] (kind: core::panicking::AssertKind, left: &T, right: &U, args: Option<core::fmt::Arguments<'_>>) -> !
    requires false,;
}
}
