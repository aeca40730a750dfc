@include std.vc
## Identities as abstract keys: an `Identifier`/`NamespaceID` value stands for its equivalence class under `==`.
@item model::identity::Identifier
#[verus_verify(external_body)]
@item model::identity::NamespaceID
#[verus_verify(external_body)]
@item model::identity::ShapeID
#[verus_verify]
@fn model::identity::ShapeID::is_member
#[verus_spec(r => ensures r == (self.sp_member() is Some))]
@fn model::identity::ShapeID::namespace
#[verus_spec(r => ensures *r == self.sp_namespace())]
@fn model::identity::ShapeID::shape_name
#[verus_spec(r => ensures *r == self.sp_name())]
@fn model::identity::ShapeID::member_name
#[verus_spec(r => ensures *r == self.sp_member())]
@fn model::identity::ShapeID::new
#[verus_spec(r => ensures r.sp_namespace() == namespace, r.sp_name() == shape_name, r.sp_member() == member_name)]
@fn model::identity::ShapeID::shape_only
#[verus_spec(r => ensures r.sp_namespace() == self.sp_namespace(), r.sp_name() == self.sp_name(), r.sp_member() is None)]
@mod model::identity
verus!{
impl ShapeID {
    pub closed spec fn sp_namespace(self) -> NamespaceID { self.namespace }
    pub closed spec fn sp_name(self) -> Identifier { self.shape_name }
    pub closed spec fn sp_member(self) -> Option<Identifier> { self.member_name }
}

/// Property C02 (Eq/Hash/Ord of identities agree) is what makes these keys usable in hash maps: assumed here, decided there.
pub broadcast axiom fn axiom_identifier_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Identifier>();
pub broadcast axiom fn axiom_namespace_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<NamespaceID>();
pub broadcast axiom fn axiom_shape_id_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<ShapeID>();
pub broadcast axiom fn axiom_string_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<String>();
pub broadcast group group_keys { axiom_identifier_key, axiom_namespace_key, axiom_shape_id_key, axiom_string_key }

impl vstd::std_specs::cmp::PartialEqSpecImpl for Identifier {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Identifier) -> bool { *self == *other }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for NamespaceID {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &NamespaceID) -> bool { *self == *other }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for ShapeID {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ShapeID) -> bool { *self == *other }
}
}
@fn model::identity::[Clone for Identifier]::clone
#[verus_verify(external_body)]
#[verus_spec(r => ensures r == *self)]
@fn model::identity::[Clone for NamespaceID]::clone
#[verus_verify(external_body)]
#[verus_spec(r => ensures r == *self)]
@fn model::identity::[Clone for ShapeID]::clone
#[verus_spec(r => ensures r == *self)]
@fn model::identity::[PartialEq for Identifier]::eq
#[verus_verify(external_body)]
@fn model::identity::[PartialEq for NamespaceID]::eq
#[verus_verify(external_body)]
## the derived comparison of the three fields; decided with the real identities in ids.vc
@fn model::identity::[PartialEq for ShapeID]::eq
#[verus_verify(external_body)]
## An identifier is determined, up to case, by its text: `id_of` maps a text to the identity it denotes.
@fn model::identity::Identifier::new_unchecked
#[verus_verify(external_body)]
#[verus_spec(r => ensures r == id_of(s@))]
@mod model::identity
verus!{
pub uninterp spec fn id_of(s: Seq<char>) -> Identifier;
/// The text of an identifier names it (`Display` writes the text: C01).
pub broadcast axiom fn axiom_identifier_text(i: &Identifier, s: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures(i, s) ==> id_of(s@) == *i;
}
@foreach C : MEMBER_MEMBER ; MEMBER_KEY ; MEMBER_VALUE .
@const syntax::$C
#[verus_verify]
@end
