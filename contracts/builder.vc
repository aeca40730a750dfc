## The builder of models: name resolution (C10) and the shapes it makes (C09).
@include traitq.vc
@for C09 C10
@also C09 model::Model::add_shape
@static prelude::PRELUDE_NAMESPACE_ID
ensures $R == crate::model::identity::ns_of("smithy.api"@)
@fn prelude::prelude_namespace_id
#[verus_spec(r => ensures *r == crate::model::identity::ns_of("smithy.api"@))]
@fn model::identity::NamespaceID::make_shape
#[verus_spec(r => ensures r == ShapeID::sp_make(*self, shape_name, None))]
@@entry
proof! { broadcast use ShapeID::lemma_make; }
@item builder::id::ShapeName
#[verus_verify]
@fn builder::id::[Clone for ShapeName]::clone
#[verus_verify]
#[verus_spec(r => ensures r == *self)]
@fn builder::id::[PartialEq for ShapeName]::eq
#[verus_verify(external_body)]
@fn builder::id::[From<ShapeID> for ShapeName]::from
#[verus_verify]
#[verus_spec(r => ensures r == ShapeName::Qualified(id))]
@fn builder::id::[From<Identifier> for ShapeName]::from
#[verus_verify]
#[verus_spec(r => ensures r == ShapeName::Local(id))]
@fn builder::id::ShapeName::shape_name
#[verus_spec(r => ensures *r == self.sp_name())]
@fn builder::id::ShapeName::as_qualified
#[verus_spec(r => ensures match r { Some(id) => *self == ShapeName::Qualified(*id), None => self is Local })]
@mod builder::id
verus!{
impl ShapeName {
    /// the last part of the name
    pub open spec fn sp_name(self) -> Identifier { match self { ShapeName::Qualified(id) => id.sp_name(), ShapeName::Local(id) => id } }
}
/// `ShapeName` derives Eq and Hash from the identities it holds (see C02).
pub broadcast axiom fn axiom_shape_name_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<ShapeName>();
impl vstd::std_specs::cmp::PartialEqSpecImpl for ShapeName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ShapeName) -> bool { *self == *other }
}
}
@foreach T V : ShapeID Qualified ; Identifier Local .
@mod builder::id
verus!{
impl vstd::std_specs::convert::FromSpecImpl<$T> for ShapeName {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: $T) -> ShapeName { ShapeName::$V(v) }
}
}
@end
@item Version
#[verus_verify]
@item builder::ModelBuilder
#[verus_verify]
@item builder::TopLevelShapeBuilder
#[verus_verify]
@item builder::traits::TraitBuilder
#[verus_verify]
@foreach T : SimpleShapeBuilder ; ListBuilder ; MapBuilder ; StructureBuilder ; ServiceBuilder ; OperationBuilder ; ResourceBuilder ; ReferenceBuilder ; MemberBuilder .
@item builder::shapes::$T
#[verus_verify]
@end
@mod builder
verus!{
broadcast use {crate::model::identity::group_keys, crate::model::identity::axiom_identifier_text, crate::builder::id::axiom_shape_name_key, crate::vstdx::axiom_str_set_borrow, crate::vstdx::axiom_static_str_key};
pub type SBuilders = SMap<ShapeName, TopLevelShapeBuilder>;
/// `n` imports a shape: a reference of the builder
spec fn imports(s: SBuilders, n: ShapeName) -> bool { s.contains_key(n) && s[n] is Reference }
/// references are stored under absolute names
spec fn refs_absolute(s: SBuilders) -> bool { forall|n: ShapeName| #[trigger] imports(s, n) ==> n is Qualified }
spec fn imported_as(s: SBuilders, n: ShapeName, l: Identifier) -> bool { imports(s, n) && n.sp_name() == l }
/// What a name means: the id, and whether it is new.
#[verifier::opaque]
spec fn resolves(b: ModelBuilder, n: ShapeName, is_trait: bool, r: (ShapeID, bool)) -> bool {
    match n {
        ShapeName::Qualified(id) => id.sp_member() is None && r == (id, false),
        ShapeName::Local(l) => {
            let own = ShapeID::sp_make(b.default_namespace, l, None);
            if exists|k: ShapeName| imported_as(b.shapes@, k, l) {
                // 1. imported
                &&& imported_as(b.shapes@, ShapeName::Qualified(r.0), l) && !r.1
                &&& forall|k: ShapeName| #[trigger] imported_as(b.shapes@, k, l) ==> k == ShapeName::Qualified(r.0)
            } else if b.shapes@.contains_key(n) || b.shapes@.contains_key(ShapeName::Qualified(own)) {
                // 2. defined here
                r == (own, false)
            } else {
                // 3. in the prelude, or 4. unknown
                exists|t: Seq<char>| #[trigger] crate::model::identity::id_of(t) == l
                    && r == if in_prelude(t, is_trait) { (ShapeID::sp_make(crate::model::identity::ns_of("smithy.api"@), l, None), false) } else { (own, true) }
            }
        }
    }
}
/// A name that cannot be resolved: the id of a member, or a name that is imported more than once.
#[verifier::opaque]
spec fn unresolvable(b: ModelBuilder, n: ShapeName) -> bool {
    match n {
        ShapeName::Qualified(id) => id.sp_member() is Some,
        ShapeName::Local(l) => exists|k: ShapeName, m: ShapeName| k != m && #[trigger] imported_as(b.shapes@, k, l) && #[trigger] imported_as(b.shapes@, m, l),
    }
}
spec fn in_prelude(t: Seq<char>, is_trait: bool) -> bool { if is_trait { crate::prelude::prelude_trait(t) } else { crate::prelude::prelude_shape(t) } }
}
@mod prelude
verus!{
/// The prelude has a simple shape, or a trait, of this name.  Which names these are is decided by enumeration (harness).
pub uninterp spec fn prelude_shape(t: Seq<char>) -> bool;
pub uninterp spec fn prelude_trait(t: Seq<char>) -> bool;
}
@foreach F : shape ; trait .
@fn prelude::defined_prelude_$Fs
#[verus_verify(external_body)]
#[verus_spec(r => ensures forall|t: Seq<char>| crate::vstdx::has_text(r@, t) <==> #[trigger] prelude_$F(t))]
@end
@for C10
@fn builder::ModelBuilder::reference_names
#[verus_spec(r => ensures
    r.obeys_prophetic_iter_laws(), r.decrease() is Some,
    forall|i: int| 0 <= i < r.remaining().len() ==> imports(self.shapes@, *#[trigger] r.remaining()[i]),
    r.will_return_none() ==> forall|n: ShapeName| #[trigger] imports(self.shapes@, n) ==> exists|i: int| 0 <= i < r.remaining().len() && *#[trigger] r.remaining()[i] == n,
    r.will_return_none() ==> forall|i: int, j: int| 0 <= i < j < r.remaining().len() ==> #[trigger] r.remaining()[i] != #[trigger] r.remaining()[j])]
@@entry
proof! { broadcast use crate::vstdx::group_iters; }
@@closure 0
#[verus_spec(b: bool => ensures b == (*(vx_p0.1) is Reference))]
@@closure 1
#[verus_spec(n: (&ShapeName) => ensures *n == *(vx_p0.0))]
@fn builder::ModelBuilder::resolve_shape_name
#[verus_spec(r => requires refs_absolute(self.shapes@),
    ensures match r { Ok(x) => resolves(*self, *shape_name, is_trait, x), Err(_) => unresolvable(*self, *shape_name) })]
@@entry
proof! { if *shape_name is Qualified { reveal(resolves); reveal(unresolvable); } }
@@closure 0
#[verus_spec(b: bool => ensures b == (shape_name.sp_name() == *local))]
@@before 0 match references.len()
proof! {
    assert(found(*self, *local, references@)) by {
        broadcast use {crate::vstdx::lemma_filter_kept, crate::vstdx::lemma_full_subrange};
        reveal(found);
        assert forall|k: ShapeName| #[trigger] imported_as(self.shapes@, k, *local) implies exists|i: int| 0 <= i < references@.len() && *#[trigger] references@[i] == k by {
            assert(imports(self.shapes@, k));
        }
    }
    lemma_found(*self, *local, references@, is_trait);
}
@mod builder
verus!{
/// `s` are the names that are imported as `l`, each once
#[verifier::opaque]
spec fn found(b: ModelBuilder, l: Identifier, s: Seq<&ShapeName>) -> bool {
    &&& forall|k: ShapeName| #[trigger] imported_as(b.shapes@, k, l) ==> exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == k
    &&& forall|i: int| 0 <= i < s.len() ==> imported_as(b.shapes@, *#[trigger] s[i], l)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]
}
proof fn lemma_found(b: ModelBuilder, l: Identifier, s: Seq<&ShapeName>, t: bool)
    requires found(b, l, s), refs_absolute(b.shapes@),
    ensures
        s.len() == 1 ==> (*s[0] matches ShapeName::Qualified(id) && resolves(b, ShapeName::Local(l), t, (id, false))),
        s.len() > 1 ==> unresolvable(b, ShapeName::Local(l)),
        s.len() == 0 ==> {
            let own = ShapeID::sp_make(b.default_namespace, l, None);
            if b.shapes@.contains_key(ShapeName::Local(l)) || b.shapes@.contains_key(ShapeName::Qualified(own)) {
                resolves(b, ShapeName::Local(l), t, (own, false))
            } else {
                forall|x: Seq<char>| #[trigger] crate::model::identity::id_of(x) == l ==> resolves(b, ShapeName::Local(l), t,
                    if in_prelude(x, t) { (ShapeID::sp_make(crate::model::identity::ns_of("smithy.api"@), l, None), false) } else { (own, true) })
            }
        }
{
    reveal(found); reveal(resolves); reveal(unresolvable);
    let n = ShapeName::Local(l);
    if s.len() >= 1 { assert(imported_as(b.shapes@, *s[0], l)); assert(imports(b.shapes@, *s[0])); }
    if s.len() == 1 {
        assert forall|k: ShapeName| #[trigger] imported_as(b.shapes@, k, l) implies k == *s[0] by { }
    }
    if s.len() > 1 { assert(imported_as(b.shapes@, *s[1], l) && *s[0] != *s[1]); }
}
}
@for C09
@mod builder
verus!{
use crate::model::shapes::{trait_applied, tv_conflict};
pub type TMap = SMap<ShapeID, Option<Value>>;
/// `n` means `id` here; an id that is new is noted in `refs`.
spec fn placed(b: ModelBuilder, n: ShapeName, is_trait: bool, id: ShapeID, refs: SSet<ShapeID>) -> bool {
    resolves(b, n, is_trait, (id, false)) || resolves(b, n, is_trait, (id, true)) && refs.contains(id)
}
pub enum Mention { Builder(SBuilders), Shape(TopLevelShapeBuilder), Traits(Seq<TraitBuilder>), Member(MemberBuilder), Members(Seq<MemberBuilder>) }
/// `n` is mentioned as the name of a shape (of a trait, if `t`).
spec fn mentions(m: Mention, n: ShapeName, t: bool) -> bool {
    match m {
        Mention::Builder(s) => some_shape_names(s, n, t),
        Mention::Shape(x) => names(x, n, t),
        Mention::Traits(ts) => names_trait(ts, n, t),
        Mention::Member(x) => names_member(x, n, t),
        Mention::Members(xs) => names_in_members(xs, n, t),
    }
}
/// What is noted: what was, and ids which names among `m` turn out to mean and which are new.
spec fn noted(b: ModelBuilder, m: Mention, old: SSet<ShapeID>, new: SSet<ShapeID>) -> bool {
    &&& old.subset_of(new)
    &&& forall|id: ShapeID| #[trigger] new.contains(id) ==> old.contains(id) || exists|n: ShapeName, t: bool| #[trigger] resolves(b, n, t, (id, true)) && mentions(m, n, t)
}
spec fn names_trait(ts: Seq<TraitBuilder>, n: ShapeName, t: bool) -> bool { t && exists|i: int| 0 <= i < ts.len() && (#[trigger] ts[i]).shape_id == n }
/// `ms[i]` are the traits applied by the first `i` of `ts`, where `ids` are the ids of the traits.
spec fn trait_steps(b: ModelBuilder, ts: Seq<TraitBuilder>, refs: SSet<ShapeID>, ids: Seq<ShapeID>, ms: Seq<TMap>) -> bool {
    &&& ms.len() == ids.len() + 1 && ids.len() <= ts.len() && ms[0] =~= SMap::<ShapeID, Option<Value>>::empty()
    &&& forall|i: int| 0 <= i < ids.len() ==> placed(b, ts[i].shape_id, true, #[trigger] ids[i], refs)
    &&& forall|i: int| 0 <= i < ids.len() ==> trait_applied(#[trigger] ms[i], ids[i], ts[i].value, ms[i + 1])
}
/// `m`: the traits `ts`, each by the id its name means, the values of repeated ones merged in the order given.
spec fn traits_made(b: ModelBuilder, ts: Seq<TraitBuilder>, refs: SSet<ShapeID>, m: TMap) -> bool {
    exists|ids: Seq<ShapeID>, ms: Seq<TMap>| #[trigger] trait_steps(b, ts, refs, ids, ms) && ids.len() == ts.len() && ms.last() == m
}
/// One of the traits conflicts with what those before it amount to.
spec fn traits_clash(b: ModelBuilder, ts: Seq<TraitBuilder>, refs: SSet<ShapeID>) -> bool {
    exists|ids: Seq<ShapeID>, ms: Seq<TMap>, id: ShapeID| #[trigger] trait_steps(b, ts, refs, ids, ms) && ids.len() < ts.len()
        && #[trigger] placed(b, ts[ids.len() as int].shape_id, true, id, refs) && ms.last().contains_key(id) && tv_conflict(ms.last()[id], ts[ids.len() as int].value)
}
spec fn traits_unresolvable(b: ModelBuilder, ts: Seq<TraitBuilder>) -> bool { exists|i: int| 0 <= i < ts.len() && unresolvable(b, (#[trigger] ts[i]).shape_id) }
}
@fn builder::ModelBuilder::make_traits
#[verus_spec(r => requires refs_absolute(self.shapes@),
    ensures
        noted(*self, Mention::Traits(builders@), old(references)@, final(references)@),
        match r {
            Ok(m) => traits_made(*self, builders@, final(references)@, m@),
            Err(_) => traits_unresolvable(*self, builders@) || traits_clash(*self, builders@, final(references)@) })]
@@entry
proof_decl! {
    let ghost mut ids: Seq<ShapeID> = Seq::empty();
    let ghost mut ms: Seq<TMap> = seq![SMap::empty()];
}
proof! { broadcast use crate::vstdx::group_slice_iters; }
@@loop 0
#[verus_spec(it => invariant
    refs_absolute(self.shapes@), it.seq().unref() == builders@,
    trait_steps(*self, builders@, references@, ids, ms), ids.len() == it.index(), ms.last() == traits@,
    noted(*self, Mention::Traits(builders@), old(references)@, references@))]
@@loopbody 0
proof! { broadcast use crate::vstdx::group_slice_iters; assert(*builder == builders@[ids.len() as int]); }
@@before 0 let value
proof! {
    assert(trait_steps(*self, builders@, references@, ids, ms));
    assert(placed(*self, builders@[ids.len() as int].shape_id, true, shape_id, references@));
}
@@loopend 0
proof! {
    ids = ids.push(shape_id);
    ms = ms.push(traits@);
}
@fn model::shapes::aggregate::ListOrSet::from
## the assertion about the text of the member's name is not modelled
#[verus_verify(external_body)]
#[verus_spec(r => ensures r.sp_member() == member)]
@mod builder
verus!{
spec fn names_member(x: MemberBuilder, n: ShapeName, t: bool) -> bool { !t && n == x.target || names_trait(x.applied_traits@, n, t) }
spec fn member_made(b: ModelBuilder, x: MemberBuilder, refs: SSet<ShapeID>, m: MemberShape) -> bool {
    m.sp_id() == x.member_name && placed(b, x.target, false, m.sp_target(), refs) && traits_made(b, x.applied_traits@, refs, m.sp_traits()@)
}
spec fn traits_fail(b: ModelBuilder, ts: Seq<TraitBuilder>, refs: SSet<ShapeID>) -> bool { traits_unresolvable(b, ts) || traits_clash(b, ts, refs) }
spec fn member_fails(b: ModelBuilder, x: MemberBuilder, refs: SSet<ShapeID>) -> bool { unresolvable(b, x.target) || traits_fail(b, x.applied_traits@, refs) }
spec fn names_in_members(xs: Seq<MemberBuilder>, n: ShapeName, t: bool) -> bool { exists|i: int| 0 <= i < xs.len() && names_member(#[trigger] xs[i], n, t) }
/// The members given, by name; one given again replaces the earlier one.
spec fn members_made(b: ModelBuilder, xs: Seq<MemberBuilder>, refs: SSet<ShapeID>, r: SMap<Identifier, MemberShape>) -> bool {
    exists|ms: Seq<MemberShape>| r == #[trigger] crate::model::shapes::aggregate::members_of(ms) && ms.len() == xs.len()
        && forall|i: int| 0 <= i < ms.len() ==> member_made(b, xs[i], refs, #[trigger] ms[i])
}
/// More is noted: what was made, or failed, stays so.
proof fn lemma_more_placed(b: ModelBuilder, n: ShapeName, t: bool, id: ShapeID, r: SSet<ShapeID>, s: SSet<ShapeID>)
    requires r.subset_of(s), placed(b, n, t, id, r),
    ensures placed(b, n, t, id, s)
{ }
proof fn lemma_more_steps(b: ModelBuilder, ts: Seq<TraitBuilder>, ids: Seq<ShapeID>, ms: Seq<TMap>, r: SSet<ShapeID>, s: SSet<ShapeID>)
    requires r.subset_of(s), trait_steps(b, ts, r, ids, ms),
    ensures trait_steps(b, ts, s, ids, ms)
{
    assert forall|i: int| 0 <= i < ids.len() implies placed(b, ts[i].shape_id, true, #[trigger] ids[i], s) by { assert(placed(b, ts[i].shape_id, true, ids[i], r)); }
}
broadcast proof fn lemma_more_traits(b: ModelBuilder, ts: Seq<TraitBuilder>, m: TMap, r: SSet<ShapeID>, s: SSet<ShapeID>)
    requires #[trigger] r.subset_of(s), #[trigger] traits_made(b, ts, r, m),
    ensures traits_made(b, ts, s, m)
{
    let (ids, ms) = choose|ids: Seq<ShapeID>, ms: Seq<TMap>| #[trigger] trait_steps(b, ts, r, ids, ms) && ids.len() == ts.len() && ms.last() == m;
    lemma_more_steps(b, ts, ids, ms, r, s);
}
broadcast proof fn lemma_more_clash(b: ModelBuilder, ts: Seq<TraitBuilder>, r: SSet<ShapeID>, s: SSet<ShapeID>)
    requires #[trigger] r.subset_of(s), #[trigger] traits_clash(b, ts, r),
    ensures traits_clash(b, ts, s)
{
    let (ids, ms, id) = choose|ids: Seq<ShapeID>, ms: Seq<TMap>, id: ShapeID| #[trigger] trait_steps(b, ts, r, ids, ms) && ids.len() < ts.len()
        && #[trigger] placed(b, ts[ids.len() as int].shape_id, true, id, r) && ms.last().contains_key(id) && tv_conflict(ms.last()[id], ts[ids.len() as int].value);
    lemma_more_steps(b, ts, ids, ms, r, s);
    assert(placed(b, ts[ids.len() as int].shape_id, true, id, s));
}
broadcast group group_more { lemma_more_traits, lemma_more_clash }
}
@also C09 model::shapes::aggregate::StructureOrUnion::with_members
@fn builder::ModelBuilder::make_structure_inner
#[verus_spec(r => requires refs_absolute(self.shapes@),
    ensures
        noted(*self, Mention::Members(builder.members@), old(references)@, final(references)@),
        match r {
            Ok(m) => members_made(*self, builder.members@, final(references)@, m.sp_members()),
            Err(_) => exists|i: int| 0 <= i < builder.members@.len() && member_fails(*self, #[trigger] builder.members@[i], final(references)@) })]
@@loop 0
#[verus_spec(it => invariant
    refs_absolute(self.shapes@), it.seq().unref() == builder.members@, 
    noted(*self, Mention::Members(builder.members@), old(references)@, references@),
    vx_stop is None ==> vx_all@.len() == it.index(), vx_all@.len() <= builder.members@.len(),
    forall|i: int| 0 <= i < vx_all@.len() ==> member_made(*self, builder.members@[i], references@, #[trigger] vx_all@[i]),
    vx_stop is Some ==> exists|i: int| 0 <= i < builder.members@.len() && member_fails(*self, #[trigger] builder.members@[i], references@),
    invariant_except_break vx_stop is None,
    ensures vx_stop is None ==> vx_all@.len() == builder.members@.len())]
@@closure 0
#[verus_spec(s: StructureOrUnion => ensures s.sp_members() == crate::model::shapes::aggregate::members_of(members@))]
@@loopbody 0
proof! { broadcast use group_more; broadcast use crate::vstdx::group_slice_iters; assert(*mb == builder.members@[it.index() as int]); }
@@lift vx_make_member
(&self, mb: &MemberBuilder, references: &mut HashSet<ShapeID>) -> Result<MemberShape, Error>
self.vx_make_member(mb, references)
@fn builder::ModelBuilder::vx_make_member
#[verus_spec(r => requires refs_absolute(self.shapes@),
    ensures
        noted(*self, Mention::Member(*mb), old(references)@, final(references)@),
        match r {
            Ok(m) => member_made(*self, *mb, final(references)@, m),
            Err(_) => member_fails(*self, *mb, final(references)@) })]
@@entry
proof! { broadcast use group_more; }
@mod builder
verus!{
spec fn head_made(b: ModelBuilder, n: ShapeName, ts: Seq<TraitBuilder>, refs: SSet<ShapeID>, r: TopLevelShape) -> bool {
    placed(b, n, false, r.sp_id(), refs) && traits_made(b, ts, refs, r.sp_traits()@)
}
spec fn head_fails(b: ModelBuilder, n: ShapeName, ts: Seq<TraitBuilder>, refs: SSet<ShapeID>) -> bool { unresolvable(b, n) || traits_fail(b, ts, refs) }
spec fn names_head(name: ShapeName, ts: Seq<TraitBuilder>, n: ShapeName, t: bool) -> bool { !t && n == name || names_trait(ts, n, t) }
spec fn first_placed(b: ModelBuilder, ns: Seq<ShapeName>, ids: Seq<ShapeID>, refs: SSet<ShapeID>) -> bool {
    ids.len() <= ns.len() && forall|i: int| 0 <= i < ids.len() ==> placed(b, ns[i], false, #[trigger] ids[i], refs)
}
spec fn all_placed(b: ModelBuilder, ns: Seq<ShapeName>, ids: Seq<ShapeID>, refs: SSet<ShapeID>) -> bool {
    ids.len() == ns.len() && first_placed(b, ns, ids, refs)
}
spec fn opt_placed(b: ModelBuilder, n: Option<ShapeName>, id: Option<ShapeID>, refs: SSet<ShapeID>) -> bool {
    match (n, id) { (Some(n), Some(id)) => placed(b, n, false, id, refs), (None, None) => true, _ => false }
}
spec fn map_placed(b: ModelBuilder, ns: SMap<Identifier, ShapeName>, ids: SMap<Identifier, ShapeID>, refs: SSet<ShapeID>) -> bool {
    ids.dom() =~= ns.dom() && forall|k: Identifier| #[trigger] ids.contains_key(k) ==> placed(b, ns[k], false, ids[k], refs)
}
spec fn some_unresolvable(b: ModelBuilder, ns: Seq<ShapeName>) -> bool { exists|i: int| 0 <= i < ns.len() && unresolvable(b, #[trigger] ns[i]) }

spec fn shape_made(b: ModelBuilder, x: TopLevelShapeBuilder, refs: SSet<ShapeID>, r: TopLevelShape) -> bool {
    match x {
        TopLevelShapeBuilder::SimpleShape(x) => simple_made(b, x, refs, r),
        TopLevelShapeBuilder::List(x) => list_made(b, x, refs, r),
        TopLevelShapeBuilder::Set(x) => set_made(b, x, refs, r),
        TopLevelShapeBuilder::Map(x) => map_made(b, x, refs, r),
        TopLevelShapeBuilder::Structure(x) => structure_made(b, x, refs, r),
        TopLevelShapeBuilder::Union(x) => union_made(b, x, refs, r),
        TopLevelShapeBuilder::Service(x) => service_made(b, x, refs, r),
        TopLevelShapeBuilder::Operation(x) => operation_made(b, x, refs, r),
        TopLevelShapeBuilder::Resource(x) => resource_made(b, x, refs, r),
        TopLevelShapeBuilder::Reference(x) => reference_made(b, x, refs, r),
    }
}
spec fn simple_made(b: ModelBuilder, x: SimpleShapeBuilder, refs: SSet<ShapeID>, r: TopLevelShape) -> bool {
    head_made(b, x.shape_name, x.applied_traits@, refs, r) && r.sp_body() == ShapeKind::Simple(x.simple_shape)
}
spec fn list_made(b: ModelBuilder, x: ListBuilder, refs: SSet<ShapeID>, r: TopLevelShape) -> bool {
    head_made(b, x.shape_name, x.applied_traits@, refs, r) && (r.sp_body() matches ShapeKind::List(y) && member_made(b, x.member, refs, y.sp_member()))
}
spec fn set_made(b: ModelBuilder, x: ListBuilder, refs: SSet<ShapeID>, r: TopLevelShape) -> bool {
    head_made(b, x.shape_name, x.applied_traits@, refs, r) && (r.sp_body() matches ShapeKind::Set(y) && member_made(b, x.member, refs, y.sp_member()))
}
spec fn map_made(b: ModelBuilder, x: MapBuilder, refs: SSet<ShapeID>, r: TopLevelShape) -> bool {
    head_made(b, x.shape_name, x.applied_traits@, refs, r)
        && (r.sp_body() matches ShapeKind::Map(y) && member_made(b, x.key, refs, y.sp_key()) && member_made(b, x.value, refs, y.sp_value()))
}
spec fn structure_made(b: ModelBuilder, x: StructureBuilder, refs: SSet<ShapeID>, r: TopLevelShape) -> bool {
    head_made(b, x.shape_name, x.applied_traits@, refs, r) && (r.sp_body() matches ShapeKind::Structure(y) && members_made(b, x.members@, refs, y.sp_members()))
}
spec fn union_made(b: ModelBuilder, x: StructureBuilder, refs: SSet<ShapeID>, r: TopLevelShape) -> bool {
    head_made(b, x.shape_name, x.applied_traits@, refs, r) && (r.sp_body() matches ShapeKind::Union(y) && members_made(b, x.members@, refs, y.sp_members()))
}
spec fn service_made(b: ModelBuilder, x: ServiceBuilder, refs: SSet<ShapeID>, r: TopLevelShape) -> bool {
    head_made(b, x.shape_name, x.applied_traits@, refs, r) && (r.sp_body() matches ShapeKind::Service(y) && y.sp_version() == x.version@
        && all_placed(b, x.operations@, y.sp_operations(), refs) && all_placed(b, x.resources@, y.sp_resources(), refs) && y.sp_renames() == x.rename_shapes@)
}
spec fn operation_made(b: ModelBuilder, x: OperationBuilder, refs: SSet<ShapeID>, r: TopLevelShape) -> bool {
    head_made(b, x.shape_name, x.applied_traits@, refs, r) && (r.sp_body() matches ShapeKind::Operation(y)
        && opt_placed(b, x.input, y.sp_input(), refs) && opt_placed(b, x.output, y.sp_output(), refs) && all_placed(b, x.errors@, y.sp_errors(), refs))
}
spec fn resource_made(b: ModelBuilder, x: ResourceBuilder, refs: SSet<ShapeID>, r: TopLevelShape) -> bool {
    head_made(b, x.shape_name, x.applied_traits@, refs, r) && (r.sp_body() matches ShapeKind::Resource(y)
        && map_placed(b, x.identifiers@, y.sp_identifiers(), refs)
        && opt_placed(b, x.create, y.sp_create(), refs) && opt_placed(b, x.put, y.sp_put(), refs) && opt_placed(b, x.read, y.sp_read(), refs)
        && opt_placed(b, x.update, y.sp_update(), refs) && opt_placed(b, x.delete, y.sp_delete(), refs) && opt_placed(b, x.list, y.sp_list(), refs)
        && all_placed(b, x.operations@, y.sp_operations(), refs) && all_placed(b, x.collection_operations@, y.sp_collection_operations(), refs)
        && all_placed(b, x.resources@, y.sp_resources(), refs))
}
spec fn reference_made(b: ModelBuilder, x: ReferenceBuilder, refs: SSet<ShapeID>, r: TopLevelShape) -> bool {
    x.shape_id == ShapeName::Qualified(r.sp_id()) && traits_made(b, x.applied_traits@, refs, r.sp_traits()@) && r.sp_body() is Unresolved
}

/// The names a builder mentions, as the names of shapes or of traits.
spec fn names(x: TopLevelShapeBuilder, n: ShapeName, t: bool) -> bool {
    match x {
        TopLevelShapeBuilder::SimpleShape(x) => names_head(x.shape_name, x.applied_traits@, n, t),
        TopLevelShapeBuilder::List(x) => names_list(x, n, t),
        TopLevelShapeBuilder::Set(x) => names_list(x, n, t),
        TopLevelShapeBuilder::Map(x) => names_map(x, n, t),
        TopLevelShapeBuilder::Structure(x) => names_structure(x, n, t),
        TopLevelShapeBuilder::Union(x) => names_structure(x, n, t),
        TopLevelShapeBuilder::Service(x) => names_service(x, n, t),
        TopLevelShapeBuilder::Operation(x) => names_operation(x, n, t),
        TopLevelShapeBuilder::Resource(x) => names_resource(x, n, t),
        TopLevelShapeBuilder::Reference(x) => names_trait(x.applied_traits@, n, t),
    }
}
spec fn names_list(x: ListBuilder, n: ShapeName, t: bool) -> bool { names_head(x.shape_name, x.applied_traits@, n, t) || names_member(x.member, n, t) }
spec fn names_map(x: MapBuilder, n: ShapeName, t: bool) -> bool { names_head(x.shape_name, x.applied_traits@, n, t) || names_member(x.key, n, t) || names_member(x.value, n, t) }
spec fn names_structure(x: StructureBuilder, n: ShapeName, t: bool) -> bool { names_head(x.shape_name, x.applied_traits@, n, t) || names_in_members(x.members@, n, t) }
spec fn names_service(x: ServiceBuilder, n: ShapeName, t: bool) -> bool {
    names_head(x.shape_name, x.applied_traits@, n, t) || !t && (x.operations@.contains(n) || x.resources@.contains(n))
}
spec fn names_operation(x: OperationBuilder, n: ShapeName, t: bool) -> bool {
    names_head(x.shape_name, x.applied_traits@, n, t) || !t && (x.input == Some(n) || x.output == Some(n) || x.errors@.contains(n))
}
spec fn names_resource(x: ResourceBuilder, n: ShapeName, t: bool) -> bool {
    names_head(x.shape_name, x.applied_traits@, n, t) || !t && (x.create == Some(n) || x.put == Some(n) || x.read == Some(n) || x.update == Some(n)
        || x.delete == Some(n) || x.list == Some(n) || x.operations@.contains(n) || x.collection_operations@.contains(n) || x.resources@.contains(n)
        || exists|k: Identifier| #[trigger] x.identifiers@.contains_key(k) && x.identifiers@[k] == n)
}
/// A name that is mentioned cannot be resolved, or traits applied in one place clash.
spec fn fails(b: ModelBuilder, x: TopLevelShapeBuilder, refs: SSet<ShapeID>) -> bool {
    ||| exists|n: ShapeName| #[trigger] unresolvable(b, n) && (names(x, n, false) || names(x, n, true))
    ||| match x {
        TopLevelShapeBuilder::SimpleShape(x) => traits_clash(b, x.applied_traits@, refs),
        TopLevelShapeBuilder::List(x) => traits_clash(b, x.applied_traits@, refs) || traits_clash(b, x.member.applied_traits@, refs),
        TopLevelShapeBuilder::Set(x) => traits_clash(b, x.applied_traits@, refs) || traits_clash(b, x.member.applied_traits@, refs),
        TopLevelShapeBuilder::Map(x) => traits_clash(b, x.applied_traits@, refs) || traits_clash(b, x.key.applied_traits@, refs) || traits_clash(b, x.value.applied_traits@, refs),
        TopLevelShapeBuilder::Structure(x) => traits_clash(b, x.applied_traits@, refs) || members_clash(b, x.members@, refs),
        TopLevelShapeBuilder::Union(x) => traits_clash(b, x.applied_traits@, refs) || members_clash(b, x.members@, refs),
        TopLevelShapeBuilder::Service(x) => traits_clash(b, x.applied_traits@, refs),
        TopLevelShapeBuilder::Operation(x) => traits_clash(b, x.applied_traits@, refs),
        TopLevelShapeBuilder::Resource(x) => traits_clash(b, x.applied_traits@, refs),
        TopLevelShapeBuilder::Reference(x) => traits_clash(b, x.applied_traits@, refs),
    }
}
spec fn members_clash(b: ModelBuilder, xs: Seq<MemberBuilder>, refs: SSet<ShapeID>) -> bool { exists|i: int| 0 <= i < xs.len() && traits_clash(b, (#[trigger] xs[i]).applied_traits@, refs) }
}
@foreach F K M : simple_shape SimpleShape simple ; list List list ; set Set set ; map Map map ; structure Structure structure ; union Union union .
@fn builder::ModelBuilder::make_$F
#[verus_spec(r => requires refs_absolute(self.shapes@),
    ensures
        noted(*self, Mention::Shape(TopLevelShapeBuilder::$K(*builder)), old(references)@, final(references)@),
        match r {
            Ok(m) => $M_made(*self, *builder, final(references)@, m),
            Err(_) => fails(*self, TopLevelShapeBuilder::$K(*builder), final(references)@) })]
@@entry
proof! { broadcast use group_more; }
@end
@fn builder::ModelBuilder::make_reference
#[verus_spec(r => requires refs_absolute(self.shapes@), builder.shape_id is Qualified,
    ensures
        noted(*self, Mention::Shape(TopLevelShapeBuilder::Reference(*builder)), old(references)@, final(references)@),
        match r {
            Ok(m) => reference_made(*self, *builder, final(references)@, m),
            Err(_) => fails(*self, TopLevelShapeBuilder::Reference(*builder), final(references)@) })]
@@entry
proof! { broadcast use group_more; }
@include only.vc
@also C09 model::shapes::service::Service::new
@fn builder::ModelBuilder::make_service
#[verus_spec(r => requires refs_absolute(self.shapes@), builder.version@.len() > 0,
    ensures
        noted(*self, Mention::Shape(TopLevelShapeBuilder::Service(*builder)), old(references)@, final(references)@),
        match r {
            Ok(m) => service_made(*self, *builder, final(references)@, m),
            Err(_) => fails(*self, TopLevelShapeBuilder::Service(*builder), final(references)@) })]
@@entry
proof! { broadcast use {crate::vstdx::lemma_prefix_all, group_more, crate::model::shapes::service::group_only}; }
@@before 0 let mut service
proof_decl! { let ghost vx_id = shape_id; }
@@loop 0
#[verus_spec(it => invariant
    it.seq().unref() == builder.operations@, service.sp_operations().len() == it.index(),
    refs_absolute(self.shapes@), noted(*self, Mention::Shape(TopLevelShapeBuilder::Service(*builder)), old(references)@, references@),
    placed(*self, builder.shape_name, false, vx_id, references@),
    service.sp_version() == builder.version@,
    service.sp_resources().len() == 0,
    service.sp_renames() =~= SMap::<ShapeID, Identifier>::empty(),
    first_placed(*self, builder.operations@, service.sp_operations(), references@))]
@@loopbody 0
proof! { broadcast use {group_more, crate::model::shapes::service::group_only}; broadcast use crate::vstdx::group_slice_iters; assert(builder.operations@.contains(builder.operations@[it.index() as int])); }
@@loop 1
#[verus_spec(it => invariant
    it.seq().unref() == builder.resources@, service.sp_resources().len() == it.index(),
    refs_absolute(self.shapes@), noted(*self, Mention::Shape(TopLevelShapeBuilder::Service(*builder)), old(references)@, references@),
    placed(*self, builder.shape_name, false, vx_id, references@),
    service.sp_version() == builder.version@,
    all_placed(*self, builder.operations@, service.sp_operations(), references@),
    service.sp_renames() =~= SMap::<ShapeID, Identifier>::empty(),
    first_placed(*self, builder.resources@, service.sp_resources(), references@))]
@@loopbody 1
proof! { broadcast use {group_more, crate::model::shapes::service::group_only}; broadcast use crate::vstdx::group_slice_iters; assert(builder.resources@.contains(builder.resources@[it.index() as int])); }
@@iter 2 vx_iter
@@loop 2
#[verus_spec(it => invariant
    service.sp_version() == builder.version@, all_placed(*self, builder.operations@, service.sp_operations(), references@), all_placed(*self, builder.resources@, service.sp_resources(), references@),
    entries_of(builder.rename_shapes@, unref2(it.seq())),
    service.sp_renames() =~= prefix(unref2(it.seq()), it.index() as int))]
@@loopbody 2
proof! { broadcast use crate::model::shapes::service::group_only; crate::vstdx::lemma_prefix_sub(builder.rename_shapes@, unref2(it.seq()), it.index() as int); }
@fn builder::ModelBuilder::make_operation
#[verus_spec(r => requires refs_absolute(self.shapes@),
    ensures
        noted(*self, Mention::Shape(TopLevelShapeBuilder::Operation(*builder)), old(references)@, final(references)@),
        match r {
            Ok(m) => operation_made(*self, *builder, final(references)@, m),
            Err(_) => fails(*self, TopLevelShapeBuilder::Operation(*builder), final(references)@) })]
@@entry
proof! { broadcast use {group_more, crate::model::shapes::service::group_only}; }
@@before 0 let mut operation
proof_decl! { let ghost vx_id = shape_id; }
@@loop 0
#[verus_spec(it => invariant
    it.seq().unref() == builder.errors@, operation.sp_errors().len() == it.index(),
    refs_absolute(self.shapes@), noted(*self, Mention::Shape(TopLevelShapeBuilder::Operation(*builder)), old(references)@, references@),
    placed(*self, builder.shape_name, false, vx_id, references@),
    opt_placed(*self, builder.input, operation.sp_input(), references@),
    opt_placed(*self, builder.output, operation.sp_output(), references@),
    first_placed(*self, builder.errors@, operation.sp_errors(), references@))]
@@loopbody 0
proof! { broadcast use {group_more, crate::model::shapes::service::group_only}; broadcast use crate::vstdx::group_slice_iters; assert(builder.errors@.contains(builder.errors@[it.index() as int])); }
@fn builder::ModelBuilder::make_resource
#[verifier::rlimit(80)]
#[verus_spec(r => requires refs_absolute(self.shapes@),
    ensures
        noted(*self, Mention::Shape(TopLevelShapeBuilder::Resource(*builder)), old(references)@, final(references)@),
        match r {
            Ok(m) => resource_made(*self, *builder, final(references)@, m),
            Err(_) => fails(*self, TopLevelShapeBuilder::Resource(*builder), final(references)@) })]
@@entry
proof! { broadcast use {crate::vstdx::lemma_prefix_all, group_more, crate::model::shapes::service::group_only}; }
@@before 0 if let Some(shape_id) = &builder.put
proof! { assert(noted(*self, Mention::Shape(TopLevelShapeBuilder::Resource(*builder)), old(references)@, references@) && opt_placed(*self, builder.create, resource.sp_create(), references@)); }
@@before 0 if let Some(shape_id) = &builder.read
proof! { assert(noted(*self, Mention::Shape(TopLevelShapeBuilder::Resource(*builder)), old(references)@, references@) && opt_placed(*self, builder.put, resource.sp_put(), references@)); }
@@before 0 if let Some(shape_id) = &builder.update
proof! { assert(noted(*self, Mention::Shape(TopLevelShapeBuilder::Resource(*builder)), old(references)@, references@) && opt_placed(*self, builder.read, resource.sp_read(), references@)); }
@@before 0 if let Some(shape_id) = &builder.delete
proof! { assert(noted(*self, Mention::Shape(TopLevelShapeBuilder::Resource(*builder)), old(references)@, references@) && opt_placed(*self, builder.update, resource.sp_update(), references@)); }
@@before 0 if let Some(shape_id) = &builder.list
proof! { assert(noted(*self, Mention::Shape(TopLevelShapeBuilder::Resource(*builder)), old(references)@, references@) && opt_placed(*self, builder.delete, resource.sp_delete(), references@)); }
@@before 0 for shape_id in &builder.operations
proof! { assert(noted(*self, Mention::Shape(TopLevelShapeBuilder::Resource(*builder)), old(references)@, references@) && opt_placed(*self, builder.list, resource.sp_list(), references@)); }
@@before 0 let mut resource
proof_decl! { let ghost vx_id = shape_id; }
@@iter 0 vx_iter
@@loop 0
#[verus_spec(it => invariant
    entries_of(builder.identifiers@, unref2(it.seq())),
    refs_absolute(self.shapes@), noted(*self, Mention::Shape(TopLevelShapeBuilder::Resource(*builder)), old(references)@, references@),
    placed(*self, builder.shape_name, false, vx_id, references@),
    resource.sp_create() is None,
    resource.sp_put() is None,
    resource.sp_read() is None,
    resource.sp_update() is None,
    resource.sp_delete() is None,
    resource.sp_list() is None,
    resource.sp_operations().len() == 0,
    resource.sp_collection_operations().len() == 0,
    resource.sp_resources().len() == 0,
    map_placed(*self, prefix(unref2(it.seq()), it.index() as int), resource.sp_identifiers(), references@))]
@@loopbody 0
proof! { broadcast use {group_more, crate::model::shapes::service::group_only}; crate::vstdx::lemma_prefix_sub(builder.identifiers@, unref2(it.seq()), it.index() as int); assert(builder.identifiers@.contains_key(*name) && builder.identifiers@[*name] == *shape_ref); }
@@loop 1
#[verus_spec(it => invariant
    it.seq().unref() == builder.operations@, resource.sp_operations().len() == it.index(),
    refs_absolute(self.shapes@), noted(*self, Mention::Shape(TopLevelShapeBuilder::Resource(*builder)), old(references)@, references@),
    placed(*self, builder.shape_name, false, vx_id, references@),
    opt_placed(*self, builder.create, resource.sp_create(), references@),
    opt_placed(*self, builder.put, resource.sp_put(), references@),
    opt_placed(*self, builder.read, resource.sp_read(), references@),
    opt_placed(*self, builder.update, resource.sp_update(), references@),
    opt_placed(*self, builder.delete, resource.sp_delete(), references@),
    opt_placed(*self, builder.list, resource.sp_list(), references@),
    map_placed(*self, builder.identifiers@, resource.sp_identifiers(), references@),
    resource.sp_collection_operations().len() == 0,
    resource.sp_resources().len() == 0,
    first_placed(*self, builder.operations@, resource.sp_operations(), references@))]
@@loopbody 1
proof! { broadcast use {group_more, crate::model::shapes::service::group_only}; broadcast use crate::vstdx::group_slice_iters; assert(builder.operations@.contains(builder.operations@[it.index() as int])); }
@@loop 2
#[verus_spec(it => invariant
    it.seq().unref() == builder.collection_operations@, resource.sp_collection_operations().len() == it.index(),
    refs_absolute(self.shapes@), noted(*self, Mention::Shape(TopLevelShapeBuilder::Resource(*builder)), old(references)@, references@),
    placed(*self, builder.shape_name, false, vx_id, references@),
    opt_placed(*self, builder.create, resource.sp_create(), references@),
    opt_placed(*self, builder.put, resource.sp_put(), references@),
    opt_placed(*self, builder.read, resource.sp_read(), references@),
    opt_placed(*self, builder.update, resource.sp_update(), references@),
    opt_placed(*self, builder.delete, resource.sp_delete(), references@),
    opt_placed(*self, builder.list, resource.sp_list(), references@),
    map_placed(*self, builder.identifiers@, resource.sp_identifiers(), references@),
    all_placed(*self, builder.operations@, resource.sp_operations(), references@),
    resource.sp_resources().len() == 0,
    first_placed(*self, builder.collection_operations@, resource.sp_collection_operations(), references@))]
@@loopbody 2
proof! { broadcast use {group_more, crate::model::shapes::service::group_only}; broadcast use crate::vstdx::group_slice_iters; assert(builder.collection_operations@.contains(builder.collection_operations@[it.index() as int])); }
@@loop 3
#[verus_spec(it => invariant
    it.seq().unref() == builder.resources@, resource.sp_resources().len() == it.index(),
    refs_absolute(self.shapes@), noted(*self, Mention::Shape(TopLevelShapeBuilder::Resource(*builder)), old(references)@, references@),
    placed(*self, builder.shape_name, false, vx_id, references@),
    opt_placed(*self, builder.create, resource.sp_create(), references@),
    opt_placed(*self, builder.put, resource.sp_put(), references@),
    opt_placed(*self, builder.read, resource.sp_read(), references@),
    opt_placed(*self, builder.update, resource.sp_update(), references@),
    opt_placed(*self, builder.delete, resource.sp_delete(), references@),
    opt_placed(*self, builder.list, resource.sp_list(), references@),
    map_placed(*self, builder.identifiers@, resource.sp_identifiers(), references@),
    all_placed(*self, builder.operations@, resource.sp_operations(), references@),
    all_placed(*self, builder.collection_operations@, resource.sp_collection_operations(), references@),
    first_placed(*self, builder.resources@, resource.sp_resources(), references@))]
@@loopbody 3
proof! { broadcast use {group_more, crate::model::shapes::service::group_only}; broadcast use crate::vstdx::group_slice_iters; assert(builder.resources@.contains(builder.resources@[it.index() as int])); }
@mod builder
verus!{
/// What building requires of a builder: a service has a version; a reference is kept under the absolute name it is to.
spec fn buildable(x: TopLevelShapeBuilder) -> bool {
    match x { TopLevelShapeBuilder::Service(x) => x.version@.len() > 0, TopLevelShapeBuilder::Reference(x) => x.shape_id is Qualified, _ => true }
}
}
@fn builder::ModelBuilder::make_shape
#[verus_spec(r => requires refs_absolute(self.shapes@), buildable(*builder),
    ensures
        noted(*self, Mention::Shape(*builder), old(references)@, final(references)@),
        match r {
            Ok(m) => shape_made(*self, *builder, final(references)@, m),
            Err(_) => fails(*self, *builder, final(references)@) })]
@mod builder
verus!{
/// the traits applied so far
spec fn applied_of(x: TopLevelShapeBuilder) -> Seq<TraitBuilder> {
    match x {
        TopLevelShapeBuilder::SimpleShape(x) => x.applied_traits@,
        TopLevelShapeBuilder::List(x) => x.applied_traits@,
        TopLevelShapeBuilder::Set(x) => x.applied_traits@,
        TopLevelShapeBuilder::Map(x) => x.applied_traits@,
        TopLevelShapeBuilder::Structure(x) => x.applied_traits@,
        TopLevelShapeBuilder::Union(x) => x.applied_traits@,
        TopLevelShapeBuilder::Service(x) => x.applied_traits@,
        TopLevelShapeBuilder::Operation(x) => x.applied_traits@,
        TopLevelShapeBuilder::Resource(x) => x.applied_traits@,
        TopLevelShapeBuilder::Reference(x) => x.applied_traits@,
    }
}
/// `y` is `x` but for its traits
spec fn same_but_traits(x: TopLevelShapeBuilder, y: TopLevelShapeBuilder) -> bool {
    match (x, y) {
        (TopLevelShapeBuilder::SimpleShape(x), TopLevelShapeBuilder::SimpleShape(y)) => y == (SimpleShapeBuilder { applied_traits: y.applied_traits, ..x }),
        (TopLevelShapeBuilder::List(x), TopLevelShapeBuilder::List(y)) => y == (ListBuilder { applied_traits: y.applied_traits, ..x }),
        (TopLevelShapeBuilder::Set(x), TopLevelShapeBuilder::Set(y)) => y == (ListBuilder { applied_traits: y.applied_traits, ..x }),
        (TopLevelShapeBuilder::Map(x), TopLevelShapeBuilder::Map(y)) => y == (MapBuilder { applied_traits: y.applied_traits, ..x }),
        (TopLevelShapeBuilder::Structure(x), TopLevelShapeBuilder::Structure(y)) => y == (StructureBuilder { applied_traits: y.applied_traits, ..x }),
        (TopLevelShapeBuilder::Union(x), TopLevelShapeBuilder::Union(y)) => y == (StructureBuilder { applied_traits: y.applied_traits, ..x }),
        (TopLevelShapeBuilder::Service(x), TopLevelShapeBuilder::Service(y)) => y == (ServiceBuilder { applied_traits: y.applied_traits, ..x }),
        (TopLevelShapeBuilder::Operation(x), TopLevelShapeBuilder::Operation(y)) => y == (OperationBuilder { applied_traits: y.applied_traits, ..x }),
        (TopLevelShapeBuilder::Resource(x), TopLevelShapeBuilder::Resource(y)) => y == (ResourceBuilder { applied_traits: y.applied_traits, ..x }),
        (TopLevelShapeBuilder::Reference(x), TopLevelShapeBuilder::Reference(y)) => y == (ReferenceBuilder { applied_traits: y.applied_traits, ..x }),
        _ => false,
    }
}
/// `x` with the traits `ts` applied to it as well.
spec fn with_traits(x: TopLevelShapeBuilder, ts: Seq<TraitBuilder>, y: TopLevelShapeBuilder) -> bool { same_but_traits(x, y) && applied_of(y) =~= applied_of(x) + ts }
spec fn with_trait(x: TopLevelShapeBuilder, t: TraitBuilder, y: TopLevelShapeBuilder) -> bool { same_but_traits(x, y) && applied_of(y) =~= applied_of(x).push(t) }
}
@foreach T : SimpleShape ; List ; Map ; Structure ; Service ; Operation ; Resource ; Reference ; Member .
@mod builder::shapes
verus!{
impl $TBuilder {
    /// `b` is `a` but for its traits
    pub open(in crate::builder) spec fn sp_same(a: Self, b: Self) -> bool { b == ($TBuilder { applied_traits: b.applied_traits, ..a }) }
    pub open(in crate::builder) spec fn sp_applied(self) -> Seq<TraitBuilder> { self.applied_traits@ }
}
}
@impl builder::shapes::[ShapeTraits for $TBuilder]
#[verus_verify]
@@body
verus_builtin_macros::verus_impl!{
    open spec fn spec_applied(&self) -> Seq<TraitBuilder> { self.sp_applied() }
    open spec fn spec_same(&self, other: &Self) -> bool { $TBuilder::sp_same(*self, *other) }
}
@fn builder::shapes::[ShapeTraits for $TBuilder]::apply_trait
@end
@trait builder::shapes::ShapeTraits
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{ spec fn spec_applied(&self) -> Seq<TraitBuilder>; spec fn spec_same(&self, other: &Self) -> bool; }
@fn builder::shapes::ShapeTraits::apply_trait
#[verus_spec(r => ensures *final(self) == *final(r), r.spec_applied() =~= old(self).spec_applied().push(a_trait), old(self).spec_same(&*r))]
@fn builder::apply_to_shape
#[verus_spec(ensures with_trait(*old(shape), a_trait, *final(shape)))]
@fn builder::traits::[Clone for TraitBuilder]::clone
#[verus_verify]
#[verus_spec(r => ensures r == *self)]
@foreach T V : SimpleShapeBuilder SimpleShape ; MapBuilder Map ; ServiceBuilder Service ; OperationBuilder Operation ; ResourceBuilder Resource ; ReferenceBuilder Reference .
@fn builder::shapes::[From<$T> for TopLevelShapeBuilder]::from
#[verus_verify]
#[verus_spec(r => ensures crate::builder::wraps_$T(r, inner))]
@mod builder
verus!{
pub open(in crate::builder) spec fn wraps_$T(r: TopLevelShapeBuilder, x: $T) -> bool { r == TopLevelShapeBuilder::$V(x) }
impl vstd::std_specs::convert::FromSpecImpl<$T> for TopLevelShapeBuilder {
    open spec fn obeys_from_spec() -> bool { true }
    open(in crate::builder) spec fn from_spec(v: $T) -> TopLevelShapeBuilder { TopLevelShapeBuilder::$V(v) }
}
}
@end
@mod builder
verus!{
/// Giving `x` under the name `n`: it is kept, and so are traits applied to the shape before; a reference to a known shape only applies traits.
spec fn given(s: SBuilders, n: ShapeName, x: TopLevelShapeBuilder, r: SBuilders) -> bool {
    r == s.insert(n, r[n]) && if s.contains_key(n) && x is Reference { with_traits(s[n], applied_of(x), r[n]) }
        else if s.contains_key(n) && s[n] is Reference { with_traits(x, applied_of(s[n]), r[n]) }
        else { r[n] == x }
}
/// `b` with other shapes
spec fn with_shapes(a: ModelBuilder, b: ModelBuilder) -> bool { b == (ModelBuilder { shapes: b.shapes, ..a }) }
}
@fn builder::ModelBuilder::insert
#[verus_spec(r => ensures *final(self) == *final(r), with_shapes(*old(self), *r), given(old(self).shapes@, id, shape, r.shapes@))]
@@entry
proof_decl! { let ghost vx_shape = shape; }
@@loop 0
#[verus_spec(it => invariant
    it.seq().unref() == reference.applied_traits@,
    with_traits(old(self).shapes@[id], reference.applied_traits@.take(it.index() as int), *existing))]
@@loopbody 0
proof! { broadcast use crate::vstdx::group_slice_iters; assert(*a_trait == reference.applied_traits@[it.index() as int]); }
@@loop 1
#[verus_spec(it => invariant
    it.seq().unref() == reference.applied_traits@,
    with_traits(vx_shape, reference.applied_traits@.take(it.index() as int), shape))]
@@loopbody 1
proof! { broadcast use crate::vstdx::group_slice_iters; assert(*a_trait == reference.applied_traits@[it.index() as int]); }
@mod builder
verus!{
/// the name a builder is for
spec fn sp_shape_name(x: TopLevelShapeBuilder) -> ShapeName {
    match x {
        TopLevelShapeBuilder::SimpleShape(x) => x.shape_name,
        TopLevelShapeBuilder::List(x) => x.shape_name,
        TopLevelShapeBuilder::Set(x) => x.shape_name,
        TopLevelShapeBuilder::Map(x) => x.shape_name,
        TopLevelShapeBuilder::Structure(x) => x.shape_name,
        TopLevelShapeBuilder::Union(x) => x.shape_name,
        TopLevelShapeBuilder::Service(x) => x.shape_name,
        TopLevelShapeBuilder::Operation(x) => x.shape_name,
        TopLevelShapeBuilder::Resource(x) => x.shape_name,
        TopLevelShapeBuilder::Reference(x) => x.shape_id,
    }
}
/// every shape is kept under its name
spec fn named_right(s: SBuilders) -> bool { forall|n: ShapeName| #[trigger] s.contains_key(n) ==> sp_shape_name(s[n]) == n }
spec fn all_buildable(s: SBuilders) -> bool { forall|n: ShapeName| #[trigger] s.contains_key(n) ==> buildable(s[n]) }
pub type SShapes = SMap<ShapeID, TopLevelShape>;
/// `ms[i]`: the shapes after adding the first `i` of `rs`
spec fn added(rs: Seq<TopLevelShape>, ms: Seq<SShapes>) -> bool {
    &&& ms.len() == rs.len() + 1 && ms[0] =~= SMap::<ShapeID, TopLevelShape>::empty()
    &&& forall|i: int| 0 <= i < rs.len() ==> crate::model::shapes_merged(ms[i], SMap::<ShapeID, TopLevelShape>::empty().insert((#[trigger] rs[i]).sp_id(), rs[i]), ms[i + 1])
}
spec fn some_shape_names(s: SBuilders, n: ShapeName, t: bool) -> bool { exists|k: ShapeName| #[trigger] s.contains_key(k) && names(s[k], n, t) }
/// What is made of the first of the builders listed
spec fn some_made(b: ModelBuilder, xs: Seq<TopLevelShapeBuilder>, refs: SSet<ShapeID>, rs: Seq<TopLevelShape>) -> bool {
    rs.len() <= xs.len() && forall|i: int| 0 <= i < rs.len() ==> shape_made(b, xs[i], refs, #[trigger] rs[i])
}
/// A reference to a shape the model does not have
spec fn is_reference(r: TopLevelShape, id: ShapeID) -> bool { r.sp_id() == id && r.sp_body() is Unresolved && r.sp_traits()@ == SMap::<ShapeID, Option<Value>>::empty() }
spec fn references_added(us: Seq<ShapeID>, rs: Seq<TopLevelShape>) -> bool { rs.len() <= us.len() && forall|i: int| 0 <= i < rs.len() ==> is_reference(#[trigger] rs[i], us[i]) }
spec fn collides(m: SShapes, r: TopLevelShape) -> bool { crate::model::bad_id(r) || m.contains_key(r.sp_id()) && crate::model::shape_conflict(m[r.sp_id()], r) }
/// The first of the builders listed, made and added
spec fn made_first(b: ModelBuilder, xs: Seq<TopLevelShapeBuilder>, refs: SSet<ShapeID>, rs: Seq<TopLevelShape>, ms: Seq<SShapes>) -> bool {
    &&& crate::vstdx::lists(b.shapes@, xs) && noted(b, Mention::Builder(b.shapes@), SSet::empty(), refs)
    &&& some_made(b, xs, refs, rs) && added(rs, ms)
}
/// A model is made of what the builders listed are for, and then of references to the shapes that are not known.
spec fn built(b: ModelBuilder, xs: Seq<TopLevelShapeBuilder>, us: Seq<ShapeID>, rs: Seq<TopLevelShape>, ss: Seq<TopLevelShape>, ms: Seq<SShapes>) -> bool {
    &&& crate::vstdx::lists(b.shapes@, xs) && noted(b, Mention::Builder(b.shapes@), SSet::empty(), us.to_set())
    &&& some_made(b, xs, us.to_set(), rs) && rs.len() == xs.len()
    &&& references_added(us, ss) && ss.len() <= us.len() && us.no_duplicates()
    &&& added(rs + ss, ms)
}
spec fn builds(b: ModelBuilder, m: SShapes) -> bool {
    exists|xs: Seq<TopLevelShapeBuilder>, us: Seq<ShapeID>, rs: Seq<TopLevelShape>, ss: Seq<TopLevelShape>, ms: Seq<SShapes>|
        #[trigger] built(b, xs, us, rs, ss, ms) && ss.len() == us.len() && m == ms.last()
}
/// Building meets a name that cannot be resolved, traits that clash, or two shapes of one id that do not merge.
spec fn cannot_build(b: ModelBuilder) -> bool {
    ||| exists|k: ShapeName, refs: SSet<ShapeID>| #[trigger] b.shapes@.contains_key(k) && #[trigger] fails(b, b.shapes@[k], refs)
    ||| exists|xs: Seq<TopLevelShapeBuilder>, refs: SSet<ShapeID>, rs: Seq<TopLevelShape>, ms: Seq<SShapes>, r: TopLevelShape|
            #[trigger] made_first(b, xs, refs, rs, ms) && rs.len() < xs.len() && #[trigger] shape_made(b, xs[rs.len() as int], refs, r) && collides(ms.last(), r)
}
proof fn lemma_more_made(b: ModelBuilder, x: TopLevelShapeBuilder, m: TopLevelShape, r: SSet<ShapeID>, s: SSet<ShapeID>)
    requires r.subset_of(s), shape_made(b, x, r, m),
    ensures shape_made(b, x, s, m)
{
    broadcast use group_more;
    match x {
        TopLevelShapeBuilder::Structure(x) => { if let ShapeKind::Structure(y) = m.sp_body() { lemma_more_members(b, x.members@, y.sp_members(), r, s); } }
        TopLevelShapeBuilder::Union(x) => { if let ShapeKind::Union(y) = m.sp_body() { lemma_more_members(b, x.members@, y.sp_members(), r, s); } }
        _ => { }
    }
}
proof fn lemma_more_members(b: ModelBuilder, xs: Seq<MemberBuilder>, m: SMap<Identifier, MemberShape>, r: SSet<ShapeID>, s: SSet<ShapeID>)
    requires r.subset_of(s), members_made(b, xs, r, m),
    ensures members_made(b, xs, s, m)
{
    broadcast use group_more;
    let ms = choose|ms: Seq<MemberShape>| m == #[trigger] crate::model::shapes::aggregate::members_of(ms) && ms.len() == xs.len()
        && forall|i: int| 0 <= i < ms.len() ==> member_made(b, xs[i], r, #[trigger] ms[i]);
    assert forall|i: int| 0 <= i < ms.len() implies member_made(b, xs[i], s, #[trigger] ms[i]) by { assert(member_made(b, xs[i], r, ms[i])); }
}
proof fn lemma_more_some(b: ModelBuilder, xs: Seq<TopLevelShapeBuilder>, rs: Seq<TopLevelShape>, r: SSet<ShapeID>, s: SSet<ShapeID>)
    requires r.subset_of(s), some_made(b, xs, r, rs),
    ensures some_made(b, xs, s, rs)
{
    assert forall|i: int| 0 <= i < rs.len() implies shape_made(b, xs[i], s, #[trigger] rs[i]) by { lemma_more_made(b, xs[i], rs[i], r, s); }
}
broadcast proof fn lemma_first(b: ModelBuilder, xs: Seq<TopLevelShapeBuilder>, r: SSet<ShapeID>, s: SSet<ShapeID>, rs: Seq<TopLevelShape>, ms: Seq<SShapes>, x: TopLevelShapeBuilder)
    requires #[trigger] made_first(b, xs, r, rs, ms), #[trigger] noted(b, Mention::Shape(x), r, s), crate::vstdx::map_has_value(b.shapes@, x),
    ensures made_first(b, xs, s, rs, ms)
{
    lemma_more_some(b, xs, rs, r, s);
    assert forall|id: ShapeID| #[trigger] s.contains(id) implies exists|n: ShapeName, t: bool| #[trigger] resolves(b, n, t, (id, true)) && mentions(Mention::Builder(b.shapes@), n, t) by {
        if !r.contains(id) {
            let (n, t) = choose|n: ShapeName, t: bool| #[trigger] resolves(b, n, t, (id, true)) && mentions(Mention::Shape(x), n, t);
            assert(mentions(Mention::Builder(b.shapes@), n, t));
        }
    }
}
}
@fn model::Model::new
#[verus_spec(r => ensures r.sp_version() == smithy_version, r.sp_metadata() =~= SMap::<String, Value>::empty(), r.sp_shapes() =~= SMap::<ShapeID, TopLevelShape>::empty())]
@fn builder::[TryFrom<&mut ModelBuilder> for Model]::try_from
@@outline vx_build
(builder: &mut ModelBuilder) -> Result<Model, Error>
vx_build(builder)
@fn builder::vx_build
#[verus_spec(r => requires refs_absolute(old(builder).shapes@), all_buildable(old(builder).shapes@),
    ensures
        *final(builder) == *old(builder),
        match r {
            Ok(m) => m.sp_version() == old(builder).smithy_version && m.sp_metadata() == old(builder).metadata@ && builds(*old(builder), m.sp_shapes()),
            Err(_) => cannot_build(*old(builder)) })]
@@entry
proof! { broadcast use {crate::vstdx::lemma_iter_entries, crate::vstdx::lemma_prefix_all}; }
proof_decl! {
    let ghost mut rs: Seq<TopLevelShape> = Seq::empty();
    let ghost mut ss: Seq<TopLevelShape> = Seq::empty();
    let ghost mut ms: Seq<SShapes> = seq![SMap::empty()];
    let ghost mut xs: Seq<TopLevelShapeBuilder> = Seq::empty();
}
@@iter 0 vx_items
@@loop 0
#[verus_spec(it => invariant
    *builder == *old(builder), model.sp_version() == builder.smithy_version, model.sp_shapes() == SMap::<ShapeID, TopLevelShape>::empty(),
    entries_of(builder.metadata@, unref2(it.seq())),
    model.sp_metadata() =~= prefix(unref2(it.seq()), it.index() as int))]
@@loopbody 0
proof! { crate::vstdx::lemma_prefix_sub(builder.metadata@, unref2(it.seq()), it.index() as int); }
@@iter 1 vx_items
@@loop 1
#[verus_spec(it => invariant
    refs_absolute(builder.shapes@), all_buildable(builder.shapes@),
    *builder == *old(builder), model.sp_version() == builder.smithy_version, model.sp_metadata() == builder.metadata@,
    crate::vstdx::lists(builder.shapes@, it.seq().unref()), rs.len() == it.index(), ss.len() == 0,
    xs =~= it.seq().unref().subrange(0, it.index() as int), it.index() == it.seq().len() ==> xs =~= it.seq().unref(),
    made_first(*builder, it.seq().unref(), unresolved@, rs, ms), ms.last() == model.sp_shapes(),
    ensures crate::vstdx::lists(builder.shapes@, xs), rs.len() == xs.len(), made_first(*builder, xs, unresolved@, rs, ms))]
@@loopbody 1
proof! {
    broadcast use lemma_first;
    xs = xs.push(*shape);
    assert(it.seq().unref()[rs.len() as int] == *shape);
    crate::vstdx::lemma_values_seq(builder.shapes@, it.seq());
    assert(crate::vstdx::map_has_value(builder.shapes@, *it.seq()[it.index() as int]));
}
@@loopend 1
proof! {
    assert(exists|m: TopLevelShape| #[trigger] shape_made(*builder, *shape, unresolved@, m) && crate::model::shapes_merged(ms.last(), SMap::<ShapeID, TopLevelShape>::empty().insert(m.sp_id(), m), model.sp_shapes()));
    let m = choose|m: TopLevelShape| #[trigger] shape_made(*builder, *shape, unresolved@, m) && crate::model::shapes_merged(ms.last(), SMap::<ShapeID, TopLevelShape>::empty().insert(m.sp_id(), m), model.sp_shapes());
    rs = rs.push(m);
    ms = ms.push(model.sp_shapes());
}
@@iter 2 vx_elements
@@before 0 for shape_id
proof! { assert(rs + ss =~= rs); }
@@loop 2
#[verus_spec(it => invariant
    *builder == *old(builder), model.sp_version() == builder.smithy_version, model.sp_metadata() == builder.metadata@,
    built(*builder, xs, it.seq(), rs, ss, ms), ss.len() == it.index(), ms.last() == model.sp_shapes())]
@@loopbody 2
proof_decl! { let ghost id = shape_id; }
@@loopend 2
proof! {
    assert(exists|m: TopLevelShape| is_reference(m, id) && #[trigger] crate::model::shapes_merged(ms.last(), SMap::<ShapeID, TopLevelShape>::empty().insert(m.sp_id(), m), model.sp_shapes()));
    let m = choose|m: TopLevelShape| is_reference(m, id) && #[trigger] crate::model::shapes_merged(ms.last(), SMap::<ShapeID, TopLevelShape>::empty().insert(m.sp_id(), m), model.sp_shapes());
    assert((rs + ss).push(m) =~= rs + ss.push(m));
    ss = ss.push(m);
    ms = ms.push(model.sp_shapes());
}
@mod builder
verus!{
/// Shapes added under ids of their own are all there, as they are, and nothing else is.
proof fn lemma_added(rs: Seq<TopLevelShape>, ms: Seq<SShapes>, n: int)
    requires added(rs, ms), 0 <= n <= rs.len(), forall|i: int, j: int| 0 <= i < j < rs.len() ==> (#[trigger] rs[i]).sp_id() != (#[trigger] rs[j]).sp_id(),
    ensures
        forall|i: int| 0 <= i < n ==> ms[n].contains_key((#[trigger] rs[i]).sp_id()) && ms[n][rs[i].sp_id()] == rs[i],
        forall|id: ShapeID| #[trigger] ms[n].contains_key(id) ==> exists|i: int| 0 <= i < n && (#[trigger] rs[i]).sp_id() == id,
    decreases n
{
    if n > 0 {
        lemma_added(rs, ms, n - 1);
        let r = rs[n - 1];
        let one = SMap::<ShapeID, TopLevelShape>::empty().insert(r.sp_id(), r);
        assert(crate::model::shapes_merged(ms[n - 1], one, ms[n]));
        assert(ms[n].dom() =~= ms[n - 1].dom().union(one.dom()));
        assert forall|i: int| 0 <= i < n implies ms[n].contains_key((#[trigger] rs[i]).sp_id()) && ms[n][rs[i].sp_id()] == rs[i] by {
            let id = rs[i].sp_id();
            if i < n - 1 {
                assert(rs[i].sp_id() != rs[n - 1].sp_id());
                assert(ms[n - 1].contains_key(id));
                assert(ms[n].dom().contains(id));
                assert(!one.contains_key(id));
            } else {
                assert(one.contains_key(id));
                assert(ms[n].dom().contains(id));
                if ms[n - 1].contains_key(r.sp_id()) {
                    let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] rs[j]).sp_id() == r.sp_id();
                    assert(rs[j].sp_id() != rs[n - 1].sp_id());
                }
            }
        }
        assert forall|id: ShapeID| #[trigger] ms[n].contains_key(id) implies exists|i: int| 0 <= i < n && (#[trigger] rs[i]).sp_id() == id by {
            if id == r.sp_id() { assert(rs[n - 1].sp_id() == id); } else {
                assert(ms[n - 1].contains_key(id));
                let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] rs[j]).sp_id() == id;
                assert(rs[j].sp_id() == id);
            }
        }
    }
}
/// No two of the builders are for the same shape.
spec fn for_different_shapes(b: ModelBuilder) -> bool {
    forall|k: ShapeName, l: ShapeName, refs: SSet<ShapeID>, r: TopLevelShape, s: TopLevelShape| k != l && #[trigger] b.shapes@.contains_key(k) && #[trigger] b.shapes@.contains_key(l)
        && #[trigger] shape_made(b, b.shapes@[k], refs, r) && #[trigger] shape_made(b, b.shapes@[l], refs, s) ==> r.sp_id() != s.sp_id()
}
/// The model has what each of the builders describes, and references to the shapes they mention which are not known; nothing else.
spec fn as_described(b: ModelBuilder, refs: SSet<ShapeID>, m: SShapes) -> bool {
    &&& noted(b, Mention::Builder(b.shapes@), SSet::empty(), refs)
    &&& forall|k: ShapeName| #[trigger] b.shapes@.contains_key(k) ==> has_made(b, b.shapes@[k], refs, m)
    &&& forall|id: ShapeID| #[trigger] refs.contains(id) ==> m.contains_key(id) && is_reference(m[id], id)
    &&& forall|id: ShapeID| #[trigger] m.contains_key(id) ==> refs.contains(id) || exists|k: ShapeName| #[trigger] b.shapes@.contains_key(k) && shape_made(b, b.shapes@[k], refs, m[id])
    &&& forall|id: ShapeID| #[trigger] m.contains_key(id) ==> m[id].sp_id() == id
}
spec fn has_made(b: ModelBuilder, x: TopLevelShapeBuilder, refs: SSet<ShapeID>, m: SShapes) -> bool {
    exists|r: TopLevelShape| #[trigger] shape_made(b, x, refs, r) && m.contains_key(r.sp_id()) && m[r.sp_id()] == r
}
proof fn lemma_keys(s: SBuilders, xs: Seq<TopLevelShapeBuilder>)
    requires named_right(s), crate::vstdx::lists(s, xs),
    ensures
        forall|i: int| 0 <= i < xs.len() ==> s.contains_key(sp_shape_name(#[trigger] xs[i])) && s[sp_shape_name(xs[i])] == xs[i],
        forall|k: ShapeName| #[trigger] s.contains_key(k) ==> exists|i: int| 0 <= i < xs.len() && #[trigger] xs[i] == s[k],
        forall|i: int, j: int| 0 <= i < j < xs.len() ==> sp_shape_name(#[trigger] xs[i]) != sp_shape_name(#[trigger] xs[j]),
{
    let t = xs.map_values(|x: TopLevelShapeBuilder| sp_shape_name(x));
    assert forall|i: int| 0 <= i < xs.len() implies s.contains_key(sp_shape_name(#[trigger] xs[i])) && s[sp_shape_name(xs[i])] == xs[i] by {
        assert(xs.to_set().contains(xs[i]));
        assert(s.values().contains(xs[i]));
        let k = choose|k: ShapeName| s.dom().contains(k) && s[k] == xs[i];
        assert(s.contains_key(k));
    }
    assert forall|k: ShapeName| #[trigger] s.contains_key(k) implies exists|i: int| 0 <= i < xs.len() && #[trigger] xs[i] == s[k] by {
        assert(s.values().contains(s[k]));
        assert(xs.to_set().contains(s[k]));
    }
    assert forall|k: ShapeName| t.to_set().contains(k) <==> s.dom().contains(k) by {
        if t.contains(k) {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == k;
            assert(s.contains_key(sp_shape_name(xs[i])));
        }
        if s.contains_key(k) {
            let i = choose|i: int| 0 <= i < xs.len() && #[trigger] xs[i] == s[k];
            assert(t[i] == k);
        }
    }
    assert(t.to_set() =~= s.dom());
    t.lemma_no_dup_set_cardinality();
    assert forall|i: int, j: int| 0 <= i < j < xs.len() implies sp_shape_name(#[trigger] xs[i]) != sp_shape_name(#[trigger] xs[j]) by { assert(t[i] != t[j]); }
}
/// A shape that is made has the id its name means; that id is not new.
proof fn lemma_made_known(b: ModelBuilder, x: TopLevelShapeBuilder, refs: SSet<ShapeID>, r: TopLevelShape, n: ShapeName, t: bool)
    requires refs_absolute(b.shapes@), b.shapes@.contains_key(sp_shape_name(x)), shape_made(b, x, refs, r),
    ensures !resolves(b, n, t, (r.sp_id(), true))
{
    reveal(resolves);
    broadcast use ShapeID::lemma_make;
    let k = sp_shape_name(x);
    if resolves(b, n, t, (r.sp_id(), true)) {
        assert(n is Local);
        if k is Qualified { assert(k == ShapeName::Qualified(r.sp_id())); }
    }
}
/// C09: the model which a builder builds.
proof fn lemma_builds(b: ModelBuilder, m: SShapes)
    requires builds(b, m), refs_absolute(b.shapes@), named_right(b.shapes@), for_different_shapes(b),
    ensures exists|refs: SSet<ShapeID>| as_described(b, refs, m)
{
    let (xs, us, rs, ss, ms) = choose|xs: Seq<TopLevelShapeBuilder>, us: Seq<ShapeID>, rs: Seq<TopLevelShape>, ss: Seq<TopLevelShape>, ms: Seq<SShapes>|
        #[trigger] built(b, xs, us, rs, ss, ms) && ss.len() == us.len() && m == ms.last();
    let refs = us.to_set();
    let all = rs + ss;
    lemma_keys(b.shapes@, xs);
    assert forall|i: int, j: int| 0 <= i < j < all.len() implies (#[trigger] all[i]).sp_id() != (#[trigger] all[j]).sp_id() by {
        if j < rs.len() {
            assert(all[i] == rs[i] && all[j] == rs[j]);
            assert(sp_shape_name(xs[i]) != sp_shape_name(xs[j]));
            assert(shape_made(b, b.shapes@[sp_shape_name(xs[i])], refs, rs[i]));
            assert(shape_made(b, b.shapes@[sp_shape_name(xs[j])], refs, rs[j]));
        } else if i >= rs.len() {
            let (p, q) = (i - rs.len(), j - rs.len());
            assert(all[i] == ss[p] && all[j] == ss[q]);
            assert(us[p] != us[q]);
        } else {
            let q = j - rs.len();
            assert(all[i] == rs[i] && all[j] == ss[q]);
            if rs[i].sp_id() == ss[q].sp_id() {
                assert(refs.contains(us[q]));
                let (n, t) = choose|n: ShapeName, t: bool| #[trigger] resolves(b, n, t, (us[q], true)) && mentions(Mention::Builder(b.shapes@), n, t);
                lemma_made_known(b, xs[i], refs, rs[i], n, t);
            }
        }
    }
    lemma_added(all, ms, all.len() as int);
    assert forall|k: ShapeName| #[trigger] b.shapes@.contains_key(k) implies has_made(b, b.shapes@[k], refs, m) by {
        let i = choose|i: int| 0 <= i < xs.len() && #[trigger] xs[i] == b.shapes@[k];
        assert(all[i] == rs[i]);
        assert(shape_made(b, xs[i], refs, rs[i]));
    }
    assert forall|id: ShapeID| #[trigger] refs.contains(id) implies m.contains_key(id) && is_reference(m[id], id) by {
        let q = choose|q: int| 0 <= q < us.len() && us[q] == id;
        assert(all[q + rs.len()] == ss[q] && is_reference(ss[q], us[q]));
    }
    assert forall|id: ShapeID| #[trigger] m.contains_key(id) implies m[id].sp_id() == id && (refs.contains(id) || exists|k: ShapeName| #[trigger] b.shapes@.contains_key(k) && shape_made(b, b.shapes@[k], refs, m[id])) by {
        let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).sp_id() == id;
        if i < rs.len() {
            assert(all[i] == rs[i] && shape_made(b, xs[i], refs, rs[i]));
            assert(b.shapes@.contains_key(sp_shape_name(xs[i])));
        } else {
            assert(all[i] == ss[i - rs.len()] && is_reference(ss[i - rs.len()], us[i - rs.len()]));
        }
    }
    assert(as_described(b, refs, m));
}
}
