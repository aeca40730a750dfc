@include std.vc
## Identities with their text: `==` here is the structural equality of values, the code's `==` is `eq_spec` below.
@for C01 C02
@item model::identity::Identifier
#[verus_verify]
@item model::identity::NamespaceID
#[verus_verify]
@item model::identity::ShapeID
#[verus_verify]
@mod model::identity
verus!{
/// Unicode lower case, as `str::to_lowercase` computes it.
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub assume_specification [str::to_lowercase] (s: &str) -> (r: String) ensures r@ == lower(s@);
pub open spec fn is_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub open spec fn lower_char(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u32) as char } else { c } }
pub broadcast axiom fn axiom_lower_ascii(s: Seq<char>)
    requires is_ascii(s)
    ensures #[trigger] lower(s) == s.map_values(|c: char| lower_char(c));

/// The state of a hasher after it was fed a string, and the discriminant of an `Option`.
pub uninterp spec fn hash_str<H>(s: Seq<char>, before: H) -> H;
pub uninterp spec fn hash_tag<H>(some: bool, before: H) -> H;
pub assume_specification<H: Hasher> [<String as Hash>::hash::<H>] (s: &String, state: &mut H) ensures *final(state) == hash_str(s@, *old(state));
pub uninterp spec fn hash_option<T, H>(o: Option<T>, before: H) -> H;
pub assume_specification<T: Hash, H: Hasher> [<Option<T> as Hash>::hash::<H>] (s: &Option<T>, state: &mut H) ensures *final(state) == hash_option(*s, *old(state));
/// An option hashes as its discriminant followed by its value; `Identifier::hash` is under contract below.
pub broadcast axiom fn axiom_hash_option<H>(o: Option<Identifier>, before: H)
    ensures #[trigger] hash_option(o, before) == match o { None => hash_tag(false, before), Some(i) => hash_str(lower(i.text()), hash_tag(true, before)) };

/// Order of strings: by the code points, as the order of UTF-8 text is.
pub open spec fn str_cmp(a: Seq<char>, b: Seq<char>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if (a[0] as u32) < (b[0] as u32) { Ordering::Less }
    else if (b[0] as u32) < (a[0] as u32) { Ordering::Greater }
    else { str_cmp(a.skip(1), b.skip(1)) }
}
pub assume_specification [<String as Ord>::cmp] (a: &String, b: &String) -> (r: Ordering) ensures r == str_cmp(a@, b@);
pub open spec fn reverse(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal } }
pub open spec fn then(a: Ordering, b: Ordering) -> Ordering { if a == Ordering::Equal { b } else { a } }

impl Identifier { pub closed spec fn text(self) -> Seq<char> { self.0@ } }
impl NamespaceID { pub closed spec fn text(self) -> Seq<char> { self.0@ } }
impl ShapeID {
    pub closed spec fn sp_namespace(self) -> NamespaceID { self.namespace }
    pub closed spec fn sp_name(self) -> Identifier { self.shape_name }
    pub closed spec fn sp_member(self) -> Option<Identifier> { self.member_name }
}
pub open spec fn opt_key(o: Option<Identifier>) -> Option<Seq<char>> { match o { None => None, Some(i) => Some(lower(i.text())) } }
pub open spec fn opt_cmp(a: Option<Identifier>, b: Option<Identifier>) -> Ordering {
    match (a, b) {
        (None, None) => Ordering::Equal, (None, Some(_)) => Ordering::Less, (Some(_), None) => Ordering::Greater,
        (Some(x), Some(y)) => str_cmp(lower(x.text()), lower(y.text())),
    }
}
pub open spec fn shape_cmp(a: ShapeID, b: ShapeID) -> Ordering {
    then(str_cmp(lower(a.sp_namespace().text()), lower(b.sp_namespace().text())),
        then(str_cmp(lower(a.sp_name().text()), lower(b.sp_name().text())), opt_cmp(a.sp_member(), b.sp_member())))
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for ShapeID {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ShapeID) -> bool {
        lower(self.sp_namespace().text()) == lower(other.sp_namespace().text()) && lower(self.sp_name().text()) == lower(other.sp_name().text())
            && opt_key(self.sp_member()) == opt_key(other.sp_member())
    }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for ShapeID {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &ShapeID) -> Option<Ordering> { Some(shape_cmp(*self, *other)) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for ShapeID {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &ShapeID) -> Ordering { shape_cmp(*self, *other) }
}
}
@foreach T : Identifier ; NamespaceID .
@mod model::identity
verus!{
impl vstd::std_specs::cmp::PartialEqSpecImpl for $T {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &$T) -> bool { lower(self.text()) == lower(other.text()) }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for $T {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &$T) -> Option<Ordering> { Some(str_cmp(lower(self.text()), lower(other.text()))) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for $T {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &$T) -> Ordering { str_cmp(lower(self.text()), lower(other.text())) }
}
}
@end
@foreach T : Identifier ; NamespaceID ; ShapeID .
@fn model::identity::[PartialEq for $T]::eq
#[verus_verify]
@fn model::identity::[Ord for $T]::cmp
#[verus_verify]
@fn model::identity::[PartialOrd for $T]::partial_cmp
#[verus_verify]
@end
@foreach T : Identifier ; NamespaceID .
@fn model::identity::[Hash for $T]::hash
#[verus_spec(ensures *final(state) == hash_str(lower(self.text()), *old(state)))]
@end
@fn model::identity::[Hash for ShapeID]::hash
#[verus_spec(ensures *final(state) == hash_option(self.sp_member(), hash_str(lower(self.sp_name().text()), hash_str(lower(self.sp_namespace().text()), *old(state)))))]
@for C02
@mod model::identity
verus!{
use vstd::std_specs::cmp::{PartialEqSpec, OrdSpec};
/// the comparison of strings is a total order whose equality is equality
pub proof fn lemma_str_cmp_eq(a: Seq<char>, b: Seq<char>)
    ensures str_cmp(a, b) == Ordering::Equal <==> a == b, str_cmp(b, a) == reverse(str_cmp(a, b))
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_str_cmp_eq(a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) {
            assert(a =~= seq![a[0]] + a.skip(1));
            assert(b =~= seq![b[0]] + b.skip(1));
        }
    } else {
        assert(a.len() == 0 && b.len() == 0 ==> a =~= b);
    }
}
pub open spec fn le(o: Ordering) -> bool { o != Ordering::Greater }
pub proof fn lemma_str_cmp_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures le(str_cmp(a, b)) && le(str_cmp(b, c)) ==> le(str_cmp(a, c)),
        str_cmp(a, b) == Ordering::Less && le(str_cmp(b, c)) ==> str_cmp(a, c) == Ordering::Less,
        le(str_cmp(a, b)) && str_cmp(b, c) == Ordering::Less ==> str_cmp(a, c) == Ordering::Less,
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 { lemma_str_cmp_trans(a.skip(1), b.skip(1), c.skip(1)); }
}
/// on ASCII text, equal means: the same but for the case of letters
pub proof fn lemma_ascii_case(a: Seq<char>, b: Seq<char>)
    requires is_ascii(a), is_ascii(b)
    ensures lower(a) == lower(b) <==> a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower_char(a[i]) == lower_char(#[trigger] b[i])
{
    broadcast use axiom_lower_ascii;
    let (x, y) = (lower(a), lower(b));
    assert(x.len() == a.len() && y.len() == b.len());
    if x == y {
        assert forall|i: int| 0 <= i < a.len() implies lower_char(a[i]) == lower_char(#[trigger] b[i]) by { assert(x[i] == y[i]); }
    }
    if a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower_char(a[i]) == lower_char(#[trigger] b[i]) { assert(x =~= y); }
}
}
@foreach T : Identifier ; NamespaceID ; ShapeID .
@mod model::identity
verus!{
impl $T {
/// equality is an equivalence, the order is total, antisymmetric and transitive with that equality
pub proof fn lemma_order_laws(a: $T, b: $T, c: $T)
    ensures
        a.eq_spec(&a), a.eq_spec(&b) ==> b.eq_spec(&a), a.eq_spec(&b) && b.eq_spec(&c) ==> a.eq_spec(&c),
        a.cmp_spec(&b) == Ordering::Equal <==> a.eq_spec(&b),
        b.cmp_spec(&a) == reverse(a.cmp_spec(&b)),
        le(a.cmp_spec(&b)) && le(b.cmp_spec(&c)) ==> le(a.cmp_spec(&c)),
{
    Self::lemma_parts_order(a, b, c);
}
}
}
@end
@foreach T : Identifier ; NamespaceID .
@mod model::identity
verus!{
impl $T {
pub proof fn lemma_parts_order(a: $T, b: $T, c: $T)
    ensures
        a.cmp_spec(&b) == Ordering::Equal <==> a.eq_spec(&b),
        b.cmp_spec(&a) == reverse(a.cmp_spec(&b)),
        le(a.cmp_spec(&b)) && le(b.cmp_spec(&c)) ==> le(a.cmp_spec(&c)),
        a.cmp_spec(&b) == Ordering::Less && le(b.cmp_spec(&c)) ==> a.cmp_spec(&c) == Ordering::Less,
        le(a.cmp_spec(&b)) && b.cmp_spec(&c) == Ordering::Less ==> a.cmp_spec(&c) == Ordering::Less,
{
    let (x, y, z) = (lower(a.text()), lower(b.text()), lower(c.text()));
    lemma_str_cmp_eq(x, y);
    lemma_str_cmp_trans(x, y, z);
}
/// equal values hash equally
pub proof fn lemma_hash<H>(a: $T, b: $T, h: H)
    ensures a.eq_spec(&b) ==> hash_str(lower(a.text()), h) == hash_str(lower(b.text()), h)
{}
}
}
@end
@mod model::identity
verus!{
impl ShapeID {
pub proof fn lemma_parts_order(a: ShapeID, b: ShapeID, c: ShapeID)
    ensures
        a.cmp_spec(&b) == Ordering::Equal <==> a.eq_spec(&b),
        b.cmp_spec(&a) == reverse(a.cmp_spec(&b)),
        le(a.cmp_spec(&b)) && le(b.cmp_spec(&c)) ==> le(a.cmp_spec(&c)),
{
    NamespaceID::lemma_parts_order(a.sp_namespace(), b.sp_namespace(), c.sp_namespace());
    Identifier::lemma_parts_order(a.sp_name(), b.sp_name(), c.sp_name());
    Self::lemma_opt(a.sp_member(), b.sp_member(), c.sp_member());
    NamespaceID::lemma_parts_order(a.sp_namespace(), c.sp_namespace(), b.sp_namespace());
    Identifier::lemma_parts_order(a.sp_name(), c.sp_name(), b.sp_name());
    NamespaceID::lemma_parts_order(b.sp_namespace(), c.sp_namespace(), a.sp_namespace());
    Identifier::lemma_parts_order(b.sp_name(), c.sp_name(), a.sp_name());
}
pub proof fn lemma_opt(a: Option<Identifier>, b: Option<Identifier>, c: Option<Identifier>)
    ensures opt_cmp(a, b) == Ordering::Equal <==> opt_key(a) == opt_key(b), opt_cmp(b, a) == reverse(opt_cmp(a, b)),
        le(opt_cmp(a, b)) && le(opt_cmp(b, c)) ==> le(opt_cmp(a, c)),
{
    if a is Some && b is Some { Identifier::lemma_parts_order(a->0, b->0, if c is Some { c->0 } else { a->0 }); }
}
pub proof fn lemma_hash<H>(a: ShapeID, b: ShapeID, h: H)
    ensures a.eq_spec(&b) ==> hash_option(a.sp_member(), hash_str(lower(a.sp_name().text()), hash_str(lower(a.sp_namespace().text()), h)))
        == hash_option(b.sp_member(), hash_str(lower(b.sp_name().text()), hash_str(lower(b.sp_namespace().text()), h)))
{
    broadcast use axiom_hash_option;
}
}
}
