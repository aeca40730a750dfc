## What a query over a model uses of atelier_core: the names of the shapes, the kinds, the expressions of a selector.
@include traitq.vc
@for C22
@also C22 model::Model::shape model::Model::shape_names model::shapes::TopLevelShape::is_* model::shapes::ShapeKind::is_* model::shapes::ShapeKind::as_*
@foreach T : ShapeType ; SelectorExpression ; Selector .
@item model::selector::$T
#[verus_verify]
@end
@foreach T : AttributeSelector ; ScopedAttributeSelector ; NeighborSelector ; Function ; VariableDefinition ; VariableReference .
@item model::selector::$T
#[verus_verify(external_body)]
@fn model::selector::[Clone for $T]::clone
#[verus_verify(external_body)]
@end
@fn model::selector::Selector::expressions
#[verus_spec(r => ensures
    r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().unref() == self.sp_expressions())]
@mod model::selector
verus!{
impl Selector {
    pub closed spec fn sp_expressions(self) -> Seq<SelectorExpression> { self.expressions@ }
}
}
## members of any shape
@foreach C T : MEMBER member ; KEY key ; VALUE value .
@static model::shapes::MEMBER_$C
ensures $R == crate::model::identity::id_of("$T"@)
@@entry
proof! { reveal_strlit("$T"); }
@end
@fn model::identity::[FromStr for Identifier]::from_str
#[verus_verify(external_body)]
#[verus_spec(r => ensures match r { Ok(i) => i == id_of(s@), Err(_) => !plain(s@) })]
@mod model::identity
verus!{
/// A letter, then letters and digits: these texts are identifiers (decided, with the whole grammar, in grammar.vc).
pub open spec fn plain(s: Seq<char>) -> bool {
    s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> 'a' <= #[trigger] s[i] <= 'z'
}
}
@for C03
@fn model::shapes::TopLevelShape::member
#[verus_spec(r => ensures match r {
    Some(m) => has_member_of(self.sp_body(), *member, *m),
    None => forall|m: MemberShape| !has_member_of(self.sp_body(), *member, m) })]
@fn model::shapes::TopLevelShape::has_member
#[verus_spec(r => ensures r == exists|m: MemberShape| has_member_of(self.sp_body(), *member, m))]
@mod model::shapes
verus!{
/// the member `m` of a shape with this body is called `name`
pub open spec fn has_member_of(body: ShapeKind, name: Identifier, m: MemberShape) -> bool {
    match body {
        ShapeKind::List(v) => name == crate::model::identity::id_of("member"@) && m == v.sp_member(),
        ShapeKind::Set(v) => name == crate::model::identity::id_of("member"@) && m == v.sp_member(),
        ShapeKind::Map(v) => name == crate::model::identity::id_of("key"@) && m == v.sp_key()
            || name == crate::model::identity::id_of("value"@) && name != crate::model::identity::id_of("key"@) && m == v.sp_value(),
        ShapeKind::Structure(v) => v.sp_members().contains_key(name) && m == v.sp_members()[name],
        ShapeKind::Union(v) => v.sp_members().contains_key(name) && m == v.sp_members()[name],
        _ => false,
    }
}
}
