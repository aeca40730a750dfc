## C14: the line-oriented form.  A line is a text; a model has the lines below, which depend on what the model holds and not on the
## order in which its maps yield it; the form is these lines, sorted.
@include held.vc
@include simple_text.vc
@fmt quoted
@rename iter vx_it
@rename enumerate vx_enumerate
@rename sort vx_sort
@crate
pub mod vxlines {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
use std::collections::HashMap;
use std::fmt::Display;
use crate::vxheld::*;
use crate::vstdf::VxText;
use crate::vstdx::{entries_of, unref2};
use vstd::std_specs::iter::IteratorSpec;
use vstd::multiset::Multiset;
verus!{
// ---- iteration: `m.iter()` of the code is verified as `m.vx_it()`, whose body is this call; `for e in &m` as `for e in vx_held(&m)`.
pub trait VxIt<'a> {
    type Over: Iterator;
    #[verifier::prophetic] spec fn vx_over(&self, r: Self::Over) -> bool;
    fn vx_it(&'a self) -> (r: Self::Over) ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, self.vx_over(r);
}
impl<'a, K: 'a, V: 'a> VxIt<'a> for HashMap<K, V> {
    type Over = std::collections::hash_map::Iter<'a, K, V>;
    #[verifier::prophetic] open spec fn vx_over(&self, r: Self::Over) -> bool { unref2(r.remaining()) == held(*self) }
    #[verifier::external_body]
    fn vx_it(&'a self) -> std::collections::hash_map::Iter<'a, K, V> { self.iter() }
}
impl<'a, T: 'a> VxIt<'a> for Vec<T> {
    type Over = std::slice::Iter<'a, T>;
    #[verifier::prophetic] open spec fn vx_over(&self, r: Self::Over) -> bool { r.remaining().unref() == self@ }
    fn vx_it(&'a self) -> std::slice::Iter<'a, T> { let r = self.iter(); proof { assert(r.remaining().unref() =~= self@); } r }
}
#[verifier::external_body]
pub fn vx_held<'a, K, V>(m: &'a HashMap<K, V>) -> (r: std::collections::hash_map::Iter<'a, K, V>)
    ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, unref2(r.remaining()) == held(*m)
{ m.iter() }
/// strings are hashed and compared by their text
pub broadcast axiom fn axiom_string_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<String>();
/// where the keys of a map are compared as they are, its entries are those of a mathematical map
pub broadcast axiom fn axiom_held_entries<K, V>(m: HashMap<K, V>)
    ensures vstd::std_specs::hash::obeys_key_model::<K>() ==> entries_of(m@, #[trigger] held(m));
pub broadcast proof fn lemma_held_none<V>(m: HashMap<String, V>)
    ensures (#[trigger] held(m)).len() == 0 <==> m@.len() == 0, m@.len() == 0 <==> m@ == vstd::map::Map::<String, V>::empty()
{
    axiom_held_entries(m);
    broadcast use vstd::std_specs::hash::group_hash_axioms, axiom_string_key;
    if held(m).len() == 0 { assert(m@ =~= vstd::map::Map::<String, V>::empty()); } else { assert(m@.contains_key(held(m)[0].0)); }
    if m@.len() == 0 { assert(m@.dom() =~= vstd::set::Set::<String>::empty()); assert(m@ =~= vstd::map::Map::<String, V>::empty()); }
}
/// a map is larger than the list of its entries
pub broadcast axiom fn axiom_held_smaller<K, V>(m: HashMap<K, V>)
    ensures #[trigger] (decreases_to!(m => held(m)));
pub trait VxEnumerate: Iterator + Sized {
    fn vx_enumerate(self) -> (r: Vec<(usize, Self::Item)>)
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
        ensures r@.len() == self.remaining().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == self.remaining()[i];
}
impl<I: Iterator> VxEnumerate for I {
    fn vx_enumerate(self) -> Vec<(usize, Self::Item)> {
        let items = crate::vstdx::vx_items(self);
        let ghost s = items@;
        proof { assert(s.len() <= usize::MAX) by { let n = items.len(); } }
        let mut r: Vec<(usize, I::Item)> = Vec::new();
        let mut n: usize = 0;
        for x in it: items
            invariant it.seq() == s, n == it.index(), s.len() <= usize::MAX, r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).0 == i && r@[i].1 == s[i],
        {
            r.push((n, x));
            n = n + 1;
        }
        r
    }
}
// ---- texts
pub type Lines = Multiset<Seq<char>>;
pub open spec fn one(s: Seq<char>) -> Lines { Multiset::singleton(s) }
/// the texts of a list
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn said(v: Seq<String>) -> Lines { texts(v).to_multiset() }
pub open spec fn said_in(v: Vec<String>) -> Lines { said(v@) }
pub broadcast proof fn lemma_said_none(v: Seq<String>)
    requires v.len() == 0
    ensures #[trigger] said(v) == Multiset::<Seq<char>>::empty()
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(texts(v) =~= Seq::<Seq<char>>::empty()); assert(said(v) =~= Multiset::empty()); }
pub broadcast proof fn lemma_said_push(v: Seq<String>, s: String)
    ensures #[trigger] said(v.push(s)) == said(v).add(one(s@))
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(texts(v.push(s)) =~= texts(v).push(s@));
    assert(said(v.push(s)) =~= said(v).add(one(s@)));
}
pub broadcast proof fn lemma_join(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] (a + (b + c)) == a + b + c
{ assert(a + (b + c) =~= a + b + c); }
pub broadcast proof fn lemma_join_nothing(a: Seq<char>, b: Seq<char>)
    requires b.len() == 0
    ensures #[trigger] (a + b) == a
{ assert(a + b =~= a); }
pub broadcast proof fn lemma_join_to_nothing(a: Seq<char>, b: Seq<char>)
    requires a.len() == 0
    ensures #[trigger] (a + b) == b
{ assert(a + b =~= b); }
pub broadcast proof fn lemma_unref2_at<K, V>(s: Seq<(&K, &V)>, i: int)
    requires 0 <= i < s.len(),
    ensures (#[trigger] unref2(s)[i]) == (*s[i].0, *s[i].1)
{}
pub broadcast group group_lines { lemma_said_push, lemma_said_none, lemma_join, lemma_join_nothing, lemma_join_to_nothing, lemma_unref2_at, lemma_held_none, axiom_string_key, axiom_held_smaller,
    crate::vstdx::group_slice_iters, crate::vstdf::axiom_to_string }
pub fn vx_option<'a, T>(o: &'a Option<T>) -> (r: Vec<&'a T>)
    ensures r@ == match o { Some(x) => seq![x], None => Seq::<&'a T>::empty() }
{
    let mut r: Vec<&'a T> = Vec::new();
    match o { Some(x) => { r.push(x); } None => {} }
    proof { assert(r@ =~= match o { Some(x) => seq![x], None => Seq::<&'a T>::empty() }); }
    r
}
/// what the parts of the first `n` of the things come to
pub open spec fn total<T>(s: Seq<T>, f: spec_fn(T) -> Lines, n: int) -> Lines
    decreases n
{
    if n <= 0 { Multiset::empty() } else { total(s, f, n - 1).add(f(s[n - 1])) }
}
pub open spec fn all<T>(s: Seq<T>, f: spec_fn(T) -> Lines) -> Lines { total(s, f, s.len() as int) }
// ---- the order of texts
/// code point by code point, which is the order of the bytes in UTF-8
pub open spec fn text_le(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len()
{
    if a.len() == 0 { true } else if b.len() == 0 { false } else if a[0] == b[0] { text_le(a.skip(1), b.skip(1)) } else { (a[0] as u32) < (b[0] as u32) }
}
pub open spec fn in_order(v: Seq<Seq<char>>) -> bool { vstd::relations::sorted_by(v, |a: Seq<char>, b: Seq<char>| text_le(a, b)) }
pub trait VxSort {
    spec fn vx_list(self) -> Seq<String>;
    fn vx_sort(&mut self) ensures said(final(self).vx_list()) == said(old(self).vx_list()), in_order(texts(final(self).vx_list()));
}
impl VxSort for Vec<String> {
    open spec fn vx_list(self) -> Seq<String> { self@ }
    #[verifier::external_body]
    fn vx_sort(&mut self) { self.sort() }
}
pub proof fn lemma_le_same(a: Seq<char>, b: Seq<char>)
    requires text_le(a, b), text_le(b, a)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 || b.len() == 0 { assert(a =~= b); } else {
        lemma_le_same(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    }
}
pub proof fn lemma_le_total(a: Seq<char>, b: Seq<char>)
    ensures text_le(a, b) || text_le(b, a), text_le(a, a)
    decreases a.len()
{
    if a.len() > 0 { lemma_le_total(a.skip(1), a.skip(1)); if b.len() > 0 { lemma_le_total(a.skip(1), b.skip(1)); char_of(a[0], b[0]); } }
}
proof fn char_of(a: char, b: char) ensures a as u32 == b as u32 ==> a == b { }
pub proof fn lemma_le_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires text_le(a, b), text_le(b, c)
    ensures text_le(a, c)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 { if a[0] == b[0] && b[0] == c[0] { lemma_le_trans(a.skip(1), b.skip(1), c.skip(1)); } }
}
/// the same lines, both in order: the same form
pub proof fn C14_one_form(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires in_order(a), in_order(b), a.to_multiset() == b.to_multiset()
    ensures a == b
{
    let le = |a: Seq<char>, b: Seq<char>| text_le(a, b);
    assert(vstd::relations::total_ordering(le)) by {
        assert forall|x: Seq<char>| #[trigger] le(x, x) by { lemma_le_total(x, x); }
        assert forall|x: Seq<char>, y: Seq<char>| #[trigger] le(x, y) && #[trigger] le(y, x) implies x == y by { lemma_le_same(x, y); }
        assert forall|x: Seq<char>, y: Seq<char>, z: Seq<char>| #[trigger] le(x, y) && #[trigger] le(y, z) implies le(x, z) by { lemma_le_trans(x, y, z); }
        assert forall|x: Seq<char>, y: Seq<char>| #[trigger] le(x, y) || #[trigger] le(y, x) by { lemma_le_total(x, y); }
    }
    vstd::seq_lib::lemma_sorted_unique(a, b, le);
}
/// the lines of things do not depend on their order
pub proof fn C14_any_order<T>(s: Seq<T>, t: Seq<T>, f: spec_fn(T) -> Lines)
    requires s.to_multiset() == t.to_multiset()
    ensures all(s, f) == all(t, f)
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.to_multiset().len() == s.len());
    assert(t.to_multiset().len() == t.len());
    if s.len() > 0 {
        let x = s.last();
        assert(s.contains(x));
        assert(s.to_multiset().count(x) > 0);
        assert(t.contains(x));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
        let (s1, t1) = (s.drop_last(), t.remove(j));
        assert(s =~= s1.push(x));
        assert(s1.to_multiset() =~= s.to_multiset().remove(x));
        assert(t1.to_multiset() =~= t.to_multiset().remove(x));
        C14_any_order(s1, t1, f);
        lemma_total_same(s, s1, f, s1.len() as int);
        lemma_total_without(t, f, j, t.len() as int);
        assert(all(s, f) =~= all(s1, f).add(f(x)));
        assert(all(t, f) =~= all(t1, f).add(f(x)));
    }
}
proof fn lemma_total_same<T>(s: Seq<T>, t: Seq<T>, f: spec_fn(T) -> Lines, n: int)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures total(s, f, n) == total(t, f, n)
    decreases n
{ if n > 0 { lemma_total_same(s, t, f, n - 1); } }
proof fn lemma_total_without<T>(t: Seq<T>, f: spec_fn(T) -> Lines, j: int, n: int)
    requires 0 <= j < n <= t.len()
    ensures total(t, f, n) == total(t.remove(j), f, n - 1).add(f(t[j]))
    decreases n
{
    if j == n - 1 { lemma_total_same(t, t.remove(j), f, j); } else {
        lemma_total_without(t, f, j, n - 1);
        assert(t.remove(j)[n - 2] == t[n - 1]);
        assert(total(t, f, n) =~= total(t.remove(j), f, n - 1).add(f(t[j])));
    }
}
// ---- texts of std
pub uninterp spec fn int_text(i: i64) -> Seq<char>;
pub uninterp spec fn float_text(f: f64) -> Seq<char>;
pub uninterp spec fn index_text(i: usize) -> Seq<char>;
impl VxText for i64 { open spec fn vx_text(&self) -> Seq<char> { int_text(*self) } }
impl VxText for f64 { open spec fn vx_text(&self) -> Seq<char> { float_text(*self) } }
impl VxText for usize { open spec fn vx_text(&self) -> Seq<char> { index_text(*self) } }
impl VxText for bool { open spec fn vx_text(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } }
}
}
@for C14
@item model::values::Number
@mod model::values
verus!{
use crate::vstdf::*;
use crate::vxlines::{int_text, float_text};
impl VxText for Number { open spec fn vx_text(&self) -> Seq<char> { match *self { Number::Integer(i) => int_text(i), Number::Float(f) => float_text(f) } } }
}
@fn model::values::[Display for Number]::fmt
#[verus_spec(r => ensures r is Ok ==> written(*final(f)) =~= written(*old(f)) + self.vx_text())]
@@entry
proof! { reveal_strlit(""); }
@mod model
verus!{
use crate::vxlines::VxIt;
impl Model { pub closed spec fn sp_metadata(self) -> Seq<(String, Value)> { crate::vxheld::held(self.metadata) } }
}
@fn model::Model::metadata
#[verus_spec(r => ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, crate::vstdx::unref2(r.remaining()) == self.sp_metadata())]
@mod model::shapes::aggregate
verus!{
impl ListOrSet { pub closed spec fn sp_member(self) -> MemberShape { self.member } }
impl Map {
    pub closed spec fn sp_key(self) -> MemberShape { self.key }
    pub closed spec fn sp_value(self) -> MemberShape { self.value }
}
}
@foreach T F : ListOrSet member ; Map key ; Map value .
@fn model::shapes::aggregate::$T::$F
#[verus_spec(r => ensures *r == self.sp_$F())]
@end
@mod model::shapes::service
verus!{
use crate::vxlines::VxIt;
impl Service {
    pub closed spec fn sp_version(self) -> Seq<char> { self.version@ }
    pub closed spec fn sp_renames(self) -> Seq<(ShapeID, Identifier)> { crate::vxheld::held(self.renames) }
}
impl Resource { pub closed spec fn sp_identifiers(self) -> Seq<(Identifier, ShapeID)> { crate::vxheld::held(self.identifiers) } }
}
@fn model::shapes::service::Service::version
#[verus_spec(r => ensures r@ == self.sp_version())]
@foreach T F : Service renames ; Resource identifiers .
@fn model::shapes::service::$T::$F
#[verus_spec(r => ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, crate::vstdx::unref2(r.remaining()) == self.sp_$F())]
@end
@foreach T C : Service operations ; Service resources ; Operation errors ; Resource operations ; Resource collection_operations ; Resource resources .
@mod model::shapes::service
verus!{
impl $T { pub closed spec fn sp_$C(self) -> Seq<ShapeID> { self.$C@ } }
}
@fn model::shapes::service::$T::$C
#[verus_spec(r => ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().unref() == self.sp_$C())]
@end
@foreach T F : Operation input ; Operation output ; Resource create ; Resource put ; Resource read ; Resource update ; Resource delete ; Resource list .
@mod model::shapes::service
verus!{
impl $T { pub closed spec fn sp_$F(self) -> Option<ShapeID> { self.$F } }
}
@fn model::shapes::service::$T::$F
#[verus_spec(r => ensures *r == self.sp_$F())]
@end
@consts io::lines A B C D E F G H I J K L M N O P Q R S T U V W X Y Z
#[verus_verify]
@mod io::lines
verus!{
use crate::vstdf::*;
use crate::vxheld::*;
use crate::vxlines::*;
use crate::vstdx::*;
use crate::model::Identifier;
use crate::model::shapes::AppliedTraits;
use crate::model::shapes::aggregate::{ListOrSet, Map, StructureOrUnion};
use crate::model::shapes::service::{Operation, Resource, Service};
use crate::model::shapes::simple::keyword;
use vstd::multiset::Multiset;
broadcast use crate::vxlines::group_lines;
/// 9 to 13: the lines of a value, each of which begins with `p`
pub open spec fn value_lines(p: Seq<char>, v: Value) -> Lines
    decreases v, 0nat
{
    match v {
        Value::Array(vs) => if vs@.len() == 0 { one(p + "[]"@) } else { item_lines(p, vs@, vs@.len()) },
        Value::Object(vo) => if held(vo).len() == 0 { one(p + "{}"@) } else { entry_lines(p, held(vo), held(vo).len()) },
        Value::Number(n) => one(p + n.vx_text()),
        Value::Boolean(b) => one(p + b.vx_text()),
        Value::String(s) => one(p + "\""@ + s@ + "\""@),
        Value::None => one(p + "()"@),
    }
}
pub open spec fn item_lines(p: Seq<char>, s: Seq<Value>, n: nat) -> Lines
    decreases s, n
{
    if n == 0 || n > s.len() { Multiset::empty() } else { item_lines(p, s, (n - 1) as nat).add(value_lines(p + "["@ + index_text((n - 1) as usize) + "]="@, s[n - 1])) }
}
pub open spec fn entry_lines(p: Seq<char>, s: Seq<(String, Value)>, n: nat) -> Lines
    decreases s, n
{
    if n == 0 || n > s.len() { Multiset::empty() } else { entry_lines(p, s, (n - 1) as nat).add(value_lines(p + "{"@ + s[n - 1].0@ + "}="@, s[n - 1].1)) }
}
/// 2 and 3 (5 and 6 for a member): a trait; `p` ends with `::trait::`
pub open spec fn trait_lines(p: Seq<char>, e: (ShapeID, Option<Value>)) -> Lines {
    match e.1 { None => one(p + e.0.vx_text()), Some(v) => value_lines(p + e.0.vx_text() + "<="@, v) }
}
pub open spec fn traits_lines(p: Seq<char>, t: AppliedTraits) -> Lines { all(held(t), |e: (ShapeID, Option<Value>)| trait_lines(p + "::"@ + "trait"@ + "::"@, e)) }
/// 4
pub open spec fn target_text(p: Seq<char>, name: Seq<char>, id: ShapeID) -> Seq<char> { p + "::"@ + name + "=>"@ + id.vx_text() }
pub open spec fn target_line(p: Seq<char>, name: Seq<char>, id: Option<ShapeID>) -> Lines { match id { Some(id) => one(target_text(p, name, id)), None => Multiset::empty() } }
pub open spec fn target_lines(p: Seq<char>, name: Seq<char>, ids: Seq<ShapeID>) -> Lines { all(ids, |id: ShapeID| one(target_text(p, name, id))) }
pub open spec fn member_lines(p: Seq<char>, m: MemberShape) -> Lines {
    one(target_text(p, m.sp_id().text(), m.sp_target())).add(traits_lines(p + "::"@ + m.sp_id().text(), m.sp_traits()))
}
pub open spec fn members_lines(p: Seq<char>, s: Seq<MemberShape>) -> Lines { all(s, |m: MemberShape| member_lines(p, m)) }
/// 7
pub open spec fn identifier_lines(p: Seq<char>, s: Seq<(Identifier, ShapeID)>) -> Lines {
    all(s, |e: (Identifier, ShapeID)| one(target_text(p + "::"@ + "identifier"@, e.0.text(), e.1)))
}
/// 8
pub open spec fn rename_lines(p: Seq<char>, s: Seq<(ShapeID, Identifier)>) -> Lines {
    all(s, |e: (ShapeID, Identifier)| one(p + "::"@ + "rename"@ + "::"@ + e.0.vx_text() + "<="@ + e.1.text()))
}
pub open spec fn service_lines(p: Seq<char>, s: Service) -> Lines {
    one(p + "::"@ + "version"@ + "<="@ + quoted(s.sp_version()))
        .add(target_lines(p, "operation"@, s.sp_operations())).add(target_lines(p, "resource"@, s.sp_resources())).add(rename_lines(p, s.sp_renames()))
}
pub open spec fn operation_lines(p: Seq<char>, o: Operation) -> Lines {
    target_line(p, "input"@, o.sp_input()).add(target_line(p, "output"@, o.sp_output())).add(target_lines(p, "error"@, o.sp_errors()))
}
pub open spec fn resource_lines(p: Seq<char>, r: Resource) -> Lines {
    identifier_lines(p, r.sp_identifiers())
        .add(target_line(p, "create"@, r.sp_create())).add(target_line(p, "put"@, r.sp_put())).add(target_line(p, "read"@, r.sp_read()))
        .add(target_line(p, "update"@, r.sp_update())).add(target_line(p, "delete"@, r.sp_delete())).add(target_line(p, "list"@, r.sp_list()))
        .add(target_lines(p, "operation"@, r.sp_operations())).add(target_lines(p, "collection_operation"@, r.sp_collection_operations()))
        .add(target_lines(p, "resource"@, r.sp_resources()))
}
pub open spec fn body_lines(p: Seq<char>, b: ShapeKind) -> Lines {
    match b {
        ShapeKind::Simple(_) => Multiset::empty(),
        ShapeKind::List(v) => member_lines(p, v.sp_member()),
        ShapeKind::Set(v) => member_lines(p, v.sp_member()),
        ShapeKind::Map(v) => member_lines(p, v.sp_key()).add(member_lines(p, v.sp_value())),
        ShapeKind::Structure(v) => members_lines(p, v.sp_members()),
        ShapeKind::Union(v) => members_lines(p, v.sp_members()),
        ShapeKind::Service(v) => service_lines(p, v),
        ShapeKind::Operation(v) => operation_lines(p, v),
        ShapeKind::Resource(v) => resource_lines(p, v),
        ShapeKind::Unresolved => Multiset::empty(),
    }
}
pub open spec fn type_text(b: ShapeKind) -> Seq<char> {
    match b {
        ShapeKind::Simple(v) => keyword(v), ShapeKind::List(_) => "list"@, ShapeKind::Set(_) => "set"@, ShapeKind::Map(_) => "map"@,
        ShapeKind::Structure(_) => "structure"@, ShapeKind::Union(_) => "union"@, ShapeKind::Service(_) => "service"@,
        ShapeKind::Operation(_) => "operation"@, ShapeKind::Resource(_) => "resource"@, ShapeKind::Unresolved => "unresolved"@,
    }
}
/// 1
pub open spec fn shape_text(s: TopLevelShape) -> Seq<char> { type_text(s.sp_body()) + "::"@ + s.sp_id().vx_text() }
pub open spec fn shape_lines(s: TopLevelShape) -> Lines {
    let p = shape_text(s);
    one(p).add(body_lines(p, s.sp_body())).add(traits_lines(p, s.sp_traits()))
}
pub open spec fn metadata_lines(e: (String, Value)) -> Lines { value_lines("meta"@ + "::"@ + e.0@ + "<="@, e.1) }
pub open spec fn model_lines(m: Model) -> Lines {
    all(m.sp_metadata(), |e: (String, Value)| metadata_lines(e)).add(all(m.sp_shapes(), |s: TopLevelShape| shape_lines(s)))
}
}
@mod io::lines
verus!{
/// the lines of an object do not depend on the order of its entries
pub proof fn lemma_entries_all(p: Seq<char>, s: Seq<(String, Value)>, n: nat)
    requires n <= s.len()
    ensures entry_lines(p, s, n) == total(s, |e: (String, Value)| value_lines(p + "{"@ + e.0@ + "}="@, e.1), n as int)
    decreases n
{ if n > 0 { lemma_entries_all(p, s, (n - 1) as nat); } }
pub proof fn C14_object(p: Seq<char>, s: Seq<(String, Value)>, t: Seq<(String, Value)>)
    requires s.to_multiset() == t.to_multiset()
    ensures entry_lines(p, s, s.len()) == entry_lines(p, t, t.len())
{
    let f = |e: (String, Value)| value_lines(p + "{"@ + e.0@ + "}="@, e.1);
    lemma_entries_all(p, s, s.len());
    lemma_entries_all(p, t, t.len());
    C14_any_order(s, t, f);
    assert(all(s, f) == all(t, f));
}
pub proof fn C14_traits(p: Seq<char>, t: AppliedTraits, u: AppliedTraits)
    requires held(t).to_multiset() == held(u).to_multiset()
    ensures traits_lines(p, t) == traits_lines(p, u)
{ C14_any_order(held(t), held(u), |e: (ShapeID, Option<Value>)| trait_lines(p + "::"@ + "trait"@ + "::"@, e)); }
pub proof fn C14_members(p: Seq<char>, s: Seq<MemberShape>, t: Seq<MemberShape>)
    requires s.to_multiset() == t.to_multiset()
    ensures members_lines(p, s) == members_lines(p, t)
{ C14_any_order(s, t, |m: MemberShape| member_lines(p, m)); }
pub proof fn C14_renames(p: Seq<char>, s: Seq<(ShapeID, Identifier)>, t: Seq<(ShapeID, Identifier)>)
    requires s.to_multiset() == t.to_multiset()
    ensures rename_lines(p, s) == rename_lines(p, t)
{ C14_any_order(s, t, |e: (ShapeID, Identifier)| one(p + "::"@ + "rename"@ + "::"@ + e.0.vx_text() + "<="@ + e.1.text())); }
pub proof fn C14_identifiers(p: Seq<char>, s: Seq<(Identifier, ShapeID)>, t: Seq<(Identifier, ShapeID)>)
    requires s.to_multiset() == t.to_multiset()
    ensures identifier_lines(p, s) == identifier_lines(p, t)
{ C14_any_order(s, t, |e: (Identifier, ShapeID)| one(target_text(p + "::"@ + "identifier"@, e.0.text(), e.1))); }
/// models whose maps hold the same entries, in whatever order, have the same form
pub proof fn C14_form(m: Model, n: Model, a: Seq<String>, b: Seq<String>)
    requires m.sp_metadata().to_multiset() == n.sp_metadata().to_multiset(), m.sp_shapes().to_multiset() == n.sp_shapes().to_multiset(),
        said(a) == model_lines(m), in_order(texts(a)), said(b) == model_lines(n), in_order(texts(b))
    ensures texts(a) == texts(b)
{
    C14_any_order(m.sp_metadata(), n.sp_metadata(), |e: (String, Value)| metadata_lines(e));
    C14_any_order(m.sp_shapes(), n.sp_shapes(), |s: TopLevelShape| shape_lines(s));
    C14_one_form(texts(a), texts(b));
}
}
@fn io::lines::line_prefix
#[verus_spec(r => ensures r@ == shape_type@ + "::"@ + shape.sp_id().vx_text())]
@@entry
proof! { reveal_strlit(""); }
@fn io::lines::member_target
#[verus_spec(r => ensures r@ == "::"@ + member_name@ + "=>"@ + id.vx_text())]
@@entry
proof! { reveal_strlit(""); }
@fn io::lines::value_into_strings
#[verifier::exec_allows_no_decreases_clause]
#[verus_spec(ensures said(final(strings)@) == said(old(strings)@).add(value_lines(prefix@, *value)))]
@@splitarms
@@entry
proof! { reveal_strlit(""); }
@@beforeloop 0
proof_decl! { let ghost p = prefix@; }
@@loop 0
#[verus_spec(it => invariant p == prefix@, *value == Value::Array(*vs), it.seq().len() == vs@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == vs@[i],
    said(strings@) == said(old(strings)@).add(item_lines(p, vs@, it.index() as nat)))]
@@loopbody 0
proof! { reveal_strlit(""); assert(it.seq()[it.index() as int].0 == it.index()); }
@@loopend 0
proof! { assert(said(strings@) =~= said(old(strings)@).add(item_lines(p, vs@, (it.index() + 1) as nat))); }
@@beforeloop 1
proof_decl! { let ghost p = prefix@; }
@@iter 1 vx_held
@@loop 1
#[verus_spec(it => invariant p == prefix@, *value == Value::Object(*vo), unref2(it.seq()) == held(*vo),
    said(strings@) == said(old(strings)@).add(entry_lines(p, held(*vo), it.index() as nat)))]
@@loopbody 1
proof! { reveal_strlit(""); assert(held(*vo)[it.index() as int] == (*k, *v)); }
@@loopend 1
proof! { assert(said(strings@) =~= said(old(strings)@).add(entry_lines(p, held(*vo), (it.index() + 1) as nat))); }
@fn io::lines::traits_into_strings
#[verus_spec(ensures forall|p: Seq<char>| prefix@ == #[trigger] (p + "::"@ + "trait"@ + "::"@) ==> said(final(strings)@) == said(old(strings)@).add(traits_lines(p, *traits)))]
@@iter 0 vx_held
@@loop 0
#[verus_spec(it => invariant unref2(it.seq()) == held(*traits),
    said(strings@) == said(old(strings)@).add(total(held(*traits), |e: (ShapeID, Option<Value>)| trait_lines(prefix@, e), it.index() as int)))]
@@loopbody 0
proof! { reveal_strlit(""); assert(held(*traits)[it.index() as int] == (*shape_id, *value)); }
@@loopend 0
proof! { assert(said(strings@) =~= said(old(strings)@).add(total(held(*traits), |e: (ShapeID, Option<Value>)| trait_lines(prefix@, e), it.index() + 1))); }
@fn io::lines::member_into_strings
#[verus_spec(ensures said(final(strings)@) == said(old(strings)@).add(member_lines(prefix@, *member)))]
@@entry
proof! { reveal_strlit(""); }
@fn io::lines::shape_into_strings
#[verifier::rlimit(200)]
#[verus_spec(ensures said(final(strings)@) == said(old(strings)@).add(shape_lines(*shape)))]
@@splitarms
@@entry
proof! { reveal_strlit(""); }
proof_decl! { let ghost o = said(strings@); let ghost p = shape_text(*shape); }
@@beforeloop 0
proof_decl! { let ghost a0 = said(strings@); }
@@iter 0 vx_items
@@loop 0
#[verus_spec(it => invariant prefix@ == p, it.seq().unref() == v.sp_members(), said(strings@) == a0.add(total(v.sp_members(), |m: MemberShape| member_lines(p, m), it.index() as int)))]
@@loopbody 0
proof! { reveal_strlit(""); assert((v.sp_members())[it.index() as int] == *member); }
@@loopend 0
proof! { assert(said(strings@) =~= a0.add(total(v.sp_members(), |m: MemberShape| member_lines(p, m), it.index() + 1))); }
@@beforeloop 1
proof_decl! { let ghost a1 = said(strings@); }
@@iter 1 vx_items
@@loop 1
#[verus_spec(it => invariant prefix@ == p, it.seq().unref() == v.sp_members(), said(strings@) == a1.add(total(v.sp_members(), |m: MemberShape| member_lines(p, m), it.index() as int)))]
@@loopbody 1
proof! { reveal_strlit(""); assert((v.sp_members())[it.index() as int] == *member); }
@@loopend 1
proof! { assert(said(strings@) =~= a1.add(total(v.sp_members(), |m: MemberShape| member_lines(p, m), it.index() + 1))); }
@@beforeloop 2
proof_decl! { let ghost a2 = said(strings@); }
@@iter 2 vx_items
@@loop 2
#[verus_spec(it => invariant prefix@ == p, it.seq().unref() == v.sp_operations(), said(strings@) == a2.add(total(v.sp_operations(), |id: ShapeID| one(target_text(p, "operation"@, id)), it.index() as int)))]
@@loopbody 2
proof! { reveal_strlit(""); assert((v.sp_operations())[it.index() as int] == *id); }
@@loopend 2
proof! { assert(said(strings@) =~= a2.add(total(v.sp_operations(), |id: ShapeID| one(target_text(p, "operation"@, id)), it.index() + 1))); }
@@beforeloop 3
proof_decl! { let ghost a3 = said(strings@); }
@@iter 3 vx_items
@@loop 3
#[verus_spec(it => invariant prefix@ == p, it.seq().unref() == v.sp_resources(), said(strings@) == a3.add(total(v.sp_resources(), |id: ShapeID| one(target_text(p, "resource"@, id)), it.index() as int)))]
@@loopbody 3
proof! { reveal_strlit(""); assert((v.sp_resources())[it.index() as int] == *id); }
@@loopend 3
proof! { assert(said(strings@) =~= a3.add(total(v.sp_resources(), |id: ShapeID| one(target_text(p, "resource"@, id)), it.index() + 1))); }
@@beforeloop 4
proof_decl! { let ghost a4 = said(strings@); }
@@iter 4 vx_items
@@loop 4
#[verus_spec(it => invariant prefix@ == p, unref2(it.seq()) == v.sp_renames(), said(strings@) == a4.add(total(v.sp_renames(), |e: (ShapeID, Identifier)| one(p + "::"@ + "rename"@ + "::"@ + e.0.vx_text() + "<="@ + e.1.text()), it.index() as int)))]
@@loopbody 4
proof! { reveal_strlit(""); assert((v.sp_renames())[it.index() as int] == (*id, *ln)); }
@@loopend 4
proof! { assert(said(strings@) =~= a4.add(total(v.sp_renames(), |e: (ShapeID, Identifier)| one(p + "::"@ + "rename"@ + "::"@ + e.0.vx_text() + "<="@ + e.1.text()), it.index() + 1))); }
@@beforeloop 5
proof_decl! { let ghost a5 = said(strings@); }
@@iter 5 vx_items
@@loop 5
#[verus_spec(it => invariant prefix@ == p, it.seq().unref() == v.sp_errors(), said(strings@) == a5.add(total(v.sp_errors(), |id: ShapeID| one(target_text(p, "error"@, id)), it.index() as int)))]
@@loopbody 5
proof! { reveal_strlit(""); assert((v.sp_errors())[it.index() as int] == *id); }
@@loopend 5
proof! { assert(said(strings@) =~= a5.add(total(v.sp_errors(), |id: ShapeID| one(target_text(p, "error"@, id)), it.index() + 1))); }
@@beforeloop 6
proof_decl! { let ghost a6 = said(strings@); }
@@iter 6 vx_items
@@loop 6
#[verus_spec(it => invariant prefix@ == p, ident_prefix@ == "::"@ + "identifier"@, unref2(it.seq()) == v.sp_identifiers(), said(strings@) == a6.add(total(v.sp_identifiers(), |e: (Identifier, ShapeID)| one(target_text(p + "::"@ + "identifier"@, e.0.text(), e.1)), it.index() as int)))]
@@loopbody 6
proof! { reveal_strlit(""); assert((v.sp_identifiers())[it.index() as int] == (*k, *id)); }
@@loopend 6
proof! { assert(said(strings@) =~= a6.add(total(v.sp_identifiers(), |e: (Identifier, ShapeID)| one(target_text(p + "::"@ + "identifier"@, e.0.text(), e.1)), it.index() + 1))); }
@@beforeloop 7
proof_decl! { let ghost a7 = said(strings@); }
@@iter 7 vx_option
@@loop 7
#[verus_spec(it => invariant prefix@ == p, match v.sp_read() { Some(x) => it.seq().len() == 1 && *it.seq()[0] == x, None => it.seq().len() == 0 },
    said(strings@) == if it.index() == 0 { a7 } else { a7.add(target_line(p, "read"@, v.sp_read())) })]
@@loopbody 7
proof! { reveal_strlit(""); assert(v.sp_read() == Some(*id)); }
@@loopend 7
proof! { assert(said(strings@) =~= a7.add(target_line(p, "read"@, v.sp_read()))); }
@@beforeloop 8
proof_decl! { let ghost a8 = said(strings@); }
@@iter 8 vx_option
@@loop 8
#[verus_spec(it => invariant prefix@ == p, match v.sp_list() { Some(x) => it.seq().len() == 1 && *it.seq()[0] == x, None => it.seq().len() == 0 },
    said(strings@) == if it.index() == 0 { a8 } else { a8.add(target_line(p, "list"@, v.sp_list())) })]
@@loopbody 8
proof! { reveal_strlit(""); assert(v.sp_list() == Some(*id)); }
@@loopend 8
proof! { assert(said(strings@) =~= a8.add(target_line(p, "list"@, v.sp_list()))); }
@@beforeloop 9
proof_decl! { let ghost a9 = said(strings@); }
@@iter 9 vx_items
@@loop 9
#[verus_spec(it => invariant prefix@ == p, it.seq().unref() == v.sp_operations(), said(strings@) == a9.add(total(v.sp_operations(), |id: ShapeID| one(target_text(p, "operation"@, id)), it.index() as int)))]
@@loopbody 9
proof! { reveal_strlit(""); assert((v.sp_operations())[it.index() as int] == *id); }
@@loopend 9
proof! { assert(said(strings@) =~= a9.add(total(v.sp_operations(), |id: ShapeID| one(target_text(p, "operation"@, id)), it.index() + 1))); }
@@beforeloop 10
proof_decl! { let ghost a10 = said(strings@); }
@@iter 10 vx_items
@@loop 10
#[verus_spec(it => invariant prefix@ == p, it.seq().unref() == v.sp_collection_operations(), said(strings@) == a10.add(total(v.sp_collection_operations(), |id: ShapeID| one(target_text(p, "collection_operation"@, id)), it.index() as int)))]
@@loopbody 10
proof! { reveal_strlit(""); assert((v.sp_collection_operations())[it.index() as int] == *id); }
@@loopend 10
proof! { assert(said(strings@) =~= a10.add(total(v.sp_collection_operations(), |id: ShapeID| one(target_text(p, "collection_operation"@, id)), it.index() + 1))); }
@@beforeloop 11
proof_decl! { let ghost a11 = said(strings@); }
@@iter 11 vx_items
@@loop 11
#[verus_spec(it => invariant prefix@ == p, it.seq().unref() == v.sp_resources(), said(strings@) == a11.add(total(v.sp_resources(), |id: ShapeID| one(target_text(p, "resource"@, id)), it.index() as int)))]
@@loopbody 11
proof! { reveal_strlit(""); assert((v.sp_resources())[it.index() as int] == *id); }
@@loopend 11
proof! { assert(said(strings@) =~= a11.add(total(v.sp_resources(), |id: ShapeID| one(target_text(p, "resource"@, id)), it.index() + 1))); }
@@armend 0
proof! { assert(said(strings@) =~= o.add(one(p)).add(body_lines(p, shape.sp_body()))); assert(prefix@ == p); }
@fn io::lines::make_line_oriented_form
#[verus_spec(r => ensures said(r@) == model_lines(*model), in_order(texts(r@)))]
@@entry
proof! { reveal_strlit(""); }
@@iter 0 vx_items
@@loop 0
#[verus_spec(it => invariant unref2(it.seq()) == model.sp_metadata(), said_in(strings) == total(model.sp_metadata(), |e: (String, Value)| metadata_lines(e), it.index() as int))]
@@loopbody 0
proof! { reveal_strlit(""); assert(model.sp_metadata()[it.index() as int] == (*key, *value)); }
@@loopend 0
proof! { assert(said_in(strings) =~= total(model.sp_metadata(), |e: (String, Value)| metadata_lines(e), it.index() + 1)); }
@@beforeloop 1
proof_decl! { let ghost a = said_in(strings); }
@@iter 1 vx_items
@@loop 1
#[verus_spec(it => invariant it.seq().unref() == model.sp_shapes(), said_in(strings) == a.add(total(model.sp_shapes(), |s: TopLevelShape| shape_lines(s), it.index() as int)))]
@@loopbody 1
proof! { assert(model.sp_shapes()[it.index() as int] == *shape); }
@@loopend 1
proof! { assert(said_in(strings) =~= a.add(total(model.sp_shapes(), |s: TopLevelShape| shape_lines(s), it.index() + 1))); }
