@include traitq.vc
@for C15
@fn model::Model::metadata
#[verus_spec(r => ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().len() == self.sp_metadata().dom().len(),
    r.remaining().unref().to_set() == self.sp_metadata().kv_pairs())]
@foreach C : OPERATIONS ; RESOURCES ; INPUT ; OUTPUT ; ERRORS ; CREATE ; PUT ; READ ; UPDATE ; DELETE ; LIST ; COLLECTION_OPERATIONS .
@const syntax::MEMBER_$C
#[verus_verify]
@end
@mod model::visitor
verus!{
broadcast use {crate::model::identity::group_keys, crate::vstdx::group_str_keys};
use crate::model::identity::id_of;
use crate::model::shapes::{TopLevelShape, MemberShape};
pub type Traits = SMap<ShapeID, Option<Value>>;
/// a call of a method of a visitor, with the arguments it gets
pub enum Event {
    Metadata(Seq<char>, Value),
    Shape(ShapeID, Traits, ShapeKind),
    Member(ShapeID, Identifier, ShapeID, Option<Traits>),
}
/// the calls a visitor got and answered with `Ok`, in order; the one it refused
pub tracked struct Calls<E> { pub ghost done: Seq<Event>, pub ghost refused: Option<(Event, E)> }
impl<E> Calls<E> {
    pub proof fn record(tracked &mut self, e: Event)
        requires old(self).refused is None,
        ensures final(self).done == old(self).done.push(e), final(self).refused is None
    { self.done = self.done.push(e); }
}
pub open spec fn called<E>(a: Calls<E>, b: Calls<E>, e: Event, r: Result<(), E>) -> bool {
    match r { Ok(_) => b.refused is None && b.done == a.done.push(e), Err(x) => b.refused == Some((e, x)) && b.done == a.done }
}
/// what `Option<&dyn MemberVisitor<Error = E>>` holds: any member visitor
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
pub struct VxMemberVisitor<E> { p: core::marker::PhantomData<E> }
impl<E> MemberVisitor for VxMemberVisitor<E> {
    type Error = E;
    #[verifier::external_body]
    fn _VERUS_VERIFIED_member(&self, parent_shape_id: &ShapeID, member_name: &Identifier, target: &ShapeID, traits: Option<&AppliedTraits>, Tracked(log): Tracked<&mut Calls<E>>) -> Result<(), E> { unimplemented!() }
    #[verifier::external_body]
    fn member(&self, parent_shape_id: &ShapeID, member_name: &Identifier, target: &ShapeID, traits: Option<&AppliedTraits>) -> Result<(), E> { unimplemented!() }
}
pub open spec fn map_of(t: Option<&AppliedTraits>) -> Option<Traits> { match t { Some(t) => Some(t@), None => None } }
pub open spec fn shape_event(s: TopLevelShape) -> Event { Event::Shape(s.sp_id(), s.sp_traits()@, s.sp_body()) }
pub open spec fn member_event(at: ShapeID, m: MemberShape) -> Event { Event::Member(at, m.sp_id(), m.sp_target(), Some(m.sp_traits()@)) }
pub open spec fn target_event(at: ShapeID, name: Seq<char>, t: ShapeID) -> Event { Event::Member(at, id_of(name), t, None) }
pub open spec fn members_for(acc: Seq<Event>, at: ShapeID, ms: Seq<MemberShape>, n: int) -> Seq<Event>
    decreases n
{ if n <= 0 { acc } else { members_for(acc, at, ms, n - 1).push(member_event(at, ms[n - 1])) } }
pub open spec fn targets_for(acc: Seq<Event>, at: ShapeID, name: Seq<char>, ts: Seq<ShapeID>, n: int) -> Seq<Event>
    decreases n
{ if n <= 0 { acc } else { targets_for(acc, at, name, ts, n - 1).push(target_event(at, name, ts[n - 1])) } }
pub open spec fn all_for(acc: Seq<Event>, at: ShapeID, name: Seq<char>, ts: Seq<ShapeID>) -> Seq<Event> { targets_for(acc, at, name, ts, ts.len() as int) }
pub open spec fn opt_for(acc: Seq<Event>, at: ShapeID, name: Seq<char>, t: Option<ShapeID>) -> Seq<Event> {
    match t { Some(t) => acc.push(target_event(at, name, t)), None => acc }
}
/// `out` is `acc` and the calls for `s`
pub open spec fn shape_walked(s: TopLevelShape, members: bool, acc: Seq<Event>, out: Seq<Event>) -> bool {
    let at = s.sp_id();
    let a = acc.push(shape_event(s));
    if !members { out == a } else {
        match s.sp_body() {
            ShapeKind::Simple(_) => out == a,
            ShapeKind::List(l) => out == a.push(member_event(at, l.sp_member())),
            ShapeKind::Set(l) => out == a.push(member_event(at, l.sp_member())),
            ShapeKind::Map(l) => out == a.push(member_event(at, l.sp_key())).push(member_event(at, l.sp_value())),
            ShapeKind::Structure(b) => exists|e: Seq<MemberShape>| #[trigger] lists(b.sp_members(), e) && out == members_for(a, at, e, e.len() as int),
            ShapeKind::Union(b) => exists|e: Seq<MemberShape>| #[trigger] lists(b.sp_members(), e) && out == members_for(a, at, e, e.len() as int),
            ShapeKind::Service(b) => out == all_for(all_for(a, at, "operations"@, b.sp_operations()), at, "resources"@, b.sp_resources()),
            ShapeKind::Operation(b) => out == all_for(opt_for(opt_for(a, at, "input"@, b.sp_input()), at, "output"@, b.sp_output()), at, "errors"@, b.sp_errors()),
            ShapeKind::Resource(b) => out == resource_for(a, at, b),
            ShapeKind::Unresolved => out == a,
        }
    }
}
pub open spec fn life_for(a: Seq<Event>, at: ShapeID, b: Resource) -> Seq<Event> {
    let c = opt_for(opt_for(opt_for(a, at, "create"@, b.sp_create()), at, "put"@, b.sp_put()), at, "read"@, b.sp_read());
    opt_for(opt_for(opt_for(c, at, "update"@, b.sp_update()), at, "delete"@, b.sp_delete()), at, "list"@, b.sp_list())
}
pub open spec fn resource_for(a: Seq<Event>, at: ShapeID, b: Resource) -> Seq<Event> {
    all_for(all_for(all_for(life_for(a, at, b), at, "operations"@, b.sp_operations()), at, "collectionOperations"@, b.sp_collection_operations()), at, "resources"@, b.sp_resources())
}
pub open spec fn metadata_for(acc: Seq<Event>, md: Seq<(String, Value)>, n: int) -> Seq<Event>
    decreases n
{ if n <= 0 { acc } else { metadata_for(acc, md, n - 1).push(Event::Metadata(md[n - 1].0@, md[n - 1].1)) } }
pub open spec fn steps_of(e: Seq<TopLevelShape>, n: int, members: bool, acc: Seq<Event>, steps: Seq<Seq<Event>>) -> bool {
    steps.len() == n + 1 && steps[0] == acc && forall|i: int| 0 <= i < n ==> #[trigger] shape_walked(e[i], members, steps[i], steps[i + 1])
}
/// `out` is `acc` and the calls for the first `n` of the shapes
pub open spec fn shapes_walked(e: Seq<TopLevelShape>, n: int, members: bool, acc: Seq<Event>, out: Seq<Event>) -> bool {
    exists|steps: Seq<Seq<Event>>| #[trigger] steps_of(e, n, members, acc, steps) && steps.last() == out
}
/// `out` is `acc` and the calls for the metadata and the shapes of the model: each once
pub open spec fn model_walked(m: Model, members: bool, acc: Seq<Event>, out: Seq<Event>) -> bool {
    exists|md: Seq<(String, Value)>, e: Seq<TopLevelShape>| #[trigger] lists_pairs(m.sp_metadata(), md) && #[trigger] lists(m.sp_shapes(), e)
        && shapes_walked(e, e.len() as int, members, metadata_for(acc, md, md.len() as int), out)
}
pub broadcast proof fn lemma_no_steps(e: Seq<TopLevelShape>, members: bool, acc: Seq<Event>)
    ensures #[trigger] shapes_walked(e, 0, members, acc, acc)
{
    assert(steps_of(e, 0, members, acc, seq![acc]));
}
pub proof fn lemma_step(e: Seq<TopLevelShape>, n: int, members: bool, acc: Seq<Event>, a: Seq<Event>, b: Seq<Event>)
    requires n >= 0, shapes_walked(e, n, members, acc, a), shape_walked(e[n], members, a, b),
    ensures shapes_walked(e, n + 1, members, acc, b)
{
    let steps = choose|steps: Seq<Seq<Event>>| #[trigger] steps_of(e, n, members, acc, steps) && steps.last() == a;
    let t = steps.push(b);
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] shape_walked(e[i], members, t[i], t[i + 1]) by {
        if i < n { assert(shape_walked(e[i], members, steps[i], steps[i + 1])); }
    }
    assert(steps_of(e, n + 1, members, acc, t));
    assert(t.last() == b);
}
}
@trait model::visitor::ModelVisitor
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{ spec fn sp_visits_members(&self) -> bool; }
@trait model::visitor::MemberVisitor
#[verus_verify]
@fn model::visitor::ModelVisitor::metadata
#[verus_spec(r => with Tracked(log): Tracked<&mut Calls<Self::Error>> requires old(log).refused is None ensures called(*old(log), *final(log), Event::Metadata(key@, *value), r))]
@@entry
proof! { log.record(Event::Metadata(key@, *value)); }
@foreach F K : simple_shape Simple ; list List ; set Set ; map Map ; structure Structure ; union Union ; service Service ; operation Operation ; resource Resource .
@fn model::visitor::ModelVisitor::$F
#[verus_spec(r => with Tracked(log): Tracked<&mut Calls<Self::Error>> requires old(log).refused is None ensures called(*old(log), *final(log), Event::Shape(*id, traits@, ShapeKind::$K(*shape)), r))]
@@entry
proof! { log.record(Event::Shape(*id, traits@, ShapeKind::$K(*shape))); }
@end
@fn model::visitor::ModelVisitor::unresolved_id
#[verus_spec(r => with Tracked(log): Tracked<&mut Calls<Self::Error>> requires old(log).refused is None ensures called(*old(log), *final(log), Event::Shape(*id, traits@, ShapeKind::Unresolved), r))]
@@entry
proof! { log.record(Event::Shape(*id, traits@, ShapeKind::Unresolved)); }
@fn model::visitor::MemberVisitor::member
#[verus_spec(r => with Tracked(log): Tracked<&mut Calls<Self::Error>> requires old(log).refused is None ensures called(*old(log), *final(log), Event::Member(*parent_shape_id, *member_name, *target, map_of(traits)), r))]
@@entry
proof! { log.record(Event::Member(*parent_shape_id, *member_name, *target, map_of(traits))); }
@fn model::visitor::ModelVisitor::member_visitor
#[verus_verify(external_body)]
#[verus_spec(r => ensures r is Some == self.sp_visits_members())]
@@retype &dyn MemberVisitor<Error = Self::Error> => &VxMemberVisitor<Self::Error>
@fn model::visitor::walk_model
#[verus_spec(r => with Tracked(log): Tracked<&mut Calls<V::Error>>
  requires old(log).refused is None
  ensures match r {
    Ok(_) => final(log).refused is None && model_walked(*model, visitor.sp_visits_members(), old(log).done, final(log).done),
    Err(x) => final(log).refused is Some && (final(log).refused->0).1 == x })]
@@entry
proof! { broadcast use lemma_no_steps; }
proof_decl! { let ghost mem = visitor.sp_visits_members(); let ghost b0 = log.done; }
@@with metadata simple_shape list set map structure union service operation resource unresolved_id member
Tracked(&mut *log)
@@iter 0 vx_items
@@loop 0
#[verus_spec(it => invariant old(log).refused is None, log.refused is None, mem == visitor.sp_visits_members(), b0 == old(log).done,
    lists_pairs(model.sp_metadata(), it.seq().unref()),
    log.done == metadata_for(b0, it.seq().unref(), it.index() as int),
    ensures exists|md: Seq<(String, Value)>| #[trigger] lists_pairs(model.sp_metadata(), md) && log.done == metadata_for(b0, md, md.len() as int))]
@@afterloop 0
proof_decl! { let ghost b1 = log.done; }
@@iter 1 vx_items
@@loop 1
#[verus_spec(it => invariant old(log).refused is None, log.refused is None, mem == visitor.sp_visits_members(),
    lists(model.sp_shapes(), it.seq().unref()),
    shapes_walked(it.seq().unref(), it.index() as int, mem, b1, log.done),
    ensures exists|e: Seq<TopLevelShape>| #[trigger] lists(model.sp_shapes(), e) && shapes_walked(e, e.len() as int, mem, b1, log.done))]
@@loopbody 1
proof_decl! { let ghost a = log.done; let ghost at = shape.sp_id(); let ghost a1 = log.done.push(shape_event(*shape)); }
@@loopend 1
proof! {
    assert(shape_walked(*shape, mem, a, log.done));
    assert(it.seq().unref()[it.index() as int] == *shape);
    lemma_step(it.seq().unref(), it.index() as int, mem, b1, a, log.done);
}
@@loop 2
#[verus_spec(it => invariant old(log).refused is None, log.refused is None, mem == visitor.sp_visits_members(), at == shape.sp_id(),
    lists(body.sp_members(), it.seq().unref()),
    log.done == members_for(a1, at, it.seq().unref(), it.index() as int),
    ensures exists|e: Seq<MemberShape>| #[trigger] lists(body.sp_members(), e) && log.done == members_for(a1, at, e, e.len() as int))]
@@loop 3
#[verus_spec(it => invariant old(log).refused is None, log.refused is None, mem == visitor.sp_visits_members(), at == shape.sp_id(),
    lists(body.sp_members(), it.seq().unref()),
    log.done == members_for(a1, at, it.seq().unref(), it.index() as int),
    ensures exists|e: Seq<MemberShape>| #[trigger] lists(body.sp_members(), e) && log.done == members_for(a1, at, e, e.len() as int))]
@@iter 4 vx_items
@@loop 4
#[verus_spec(it => invariant old(log).refused is None, log.refused is None, mem == visitor.sp_visits_members(), at == shape.sp_id(),
    log.done == targets_for(a1, at, "operations"@, it.seq().unref(), it.index() as int))]
@@iter 5 vx_items
@@loop 5
#[verus_spec(it => invariant old(log).refused is None, log.refused is None, mem == visitor.sp_visits_members(), at == shape.sp_id(),
    log.done == targets_for(all_for(a1, at, "operations"@, body.sp_operations()), at, "resources"@, it.seq().unref(), it.index() as int))]
@@iter 6 vx_items
@@loop 6
#[verus_spec(it => invariant old(log).refused is None, log.refused is None, mem == visitor.sp_visits_members(), at == shape.sp_id(),
    log.done == targets_for(opt_for(opt_for(a1, at, "input"@, body.sp_input()), at, "output"@, body.sp_output()), at, "errors"@, it.seq().unref(), it.index() as int))]
@@iter 7 vx_items
@@loop 7
#[verus_spec(it => invariant old(log).refused is None, log.refused is None, mem == visitor.sp_visits_members(), at == shape.sp_id(),
    log.done == targets_for(life_for(a1, at, *body), at, "operations"@, it.seq().unref(), it.index() as int))]
@@iter 8 vx_items
@@loop 8
#[verus_spec(it => invariant old(log).refused is None, log.refused is None, mem == visitor.sp_visits_members(), at == shape.sp_id(),
    log.done == targets_for(all_for(life_for(a1, at, *body), at, "operations"@, body.sp_operations()), at, "collectionOperations"@, it.seq().unref(), it.index() as int))]
@@iter 9 vx_items
@@loop 9
#[verus_spec(it => invariant old(log).refused is None, log.refused is None, mem == visitor.sp_visits_members(), at == shape.sp_id(),
    log.done == targets_for(all_for(all_for(life_for(a1, at, *body), at, "operations"@, body.sp_operations()), at, "collectionOperations"@, body.sp_collection_operations()), at, "resources"@, it.seq().unref(), it.index() as int))]
