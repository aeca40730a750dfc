@include ids.vc
@include fmt.vc
@include errors.vc
@include regex.vc
@for C01
@regex model::identity::RE_IDENTIFIER identifier
@regex model::identity::RE_SHAPE_ID shape_id
@mod model::identity
verus!{
use crate::vstdf::*;
use crate::vxre::*;
use crate::vxtext::*;
pub open spec fn is_alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn is_word(c: char) -> bool { is_alpha(c) || ('0' <= c && c <= '9') || c == '_' }
/// identifier = identifier_start *identifier_chars;  identifier_start = *"_" ALPHA;  identifier_chars = ALPHA / DIGIT / "_"
pub open spec fn ident_at(s: Seq<char>, n: int) -> bool {
    0 <= n < s.len() && is_alpha(s[n]) && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == '_') && (forall|i: int| n <= i < s.len() ==> is_word(#[trigger] s[i]))
}
pub open spec fn ident_ok(s: Seq<char>) -> bool { exists|n: int| #[trigger] ident_at(s, n) }
/// namespace = identifier *("." identifier)
pub open spec fn ns_ok(s: Seq<char>) -> bool decreases s.len() {
    ident_ok(s) || exists|i: int| 0 <= i < s.len() && s[i] == '.' && ident_ok(s.take(i)) && ns_ok(#[trigger] s.skip(i + 1))
}
}
@fn model::identity::Identifier::is_valid
#[verus_spec(r => ensures r == ident_ok(s@))]
@@entry
proof! { broadcast use crate::vxre::group_identifier; lemma_ident_re(s@); }
@mod model::identity
verus!{
pub proof fn lemma_ident_re(s: Seq<char>)
    ensures $re{{_*[[:alpha:]][_[[:alnum:]]]*}}(s) == ident_ok(s)
{
    if ident_ok(s) {
        let n = choose|n: int| ident_at(s, n);
        assert($re{{_*}}(s.take(n)));
        let t = s.skip(n);
        assert(t[0] == s[n]);
        assert($re{{[[:alpha:]]}}(t.take(1)));
        assert($re{{[_[[:alnum:]]]*}}(t.skip(1)));
        assert($re{{[[:alpha:]][_[[:alnum:]]]*}}(t));
    }
    if $re{{_*[[:alpha:]][_[[:alnum:]]]*}}(s) {
        let n = choose|i: int| 0 <= i <= s.len() && $re{{_*}}(#[trigger] s.take(i)) && $re{{[[:alpha:]][_[[:alnum:]]]*}}(s.skip(i));
        let t = s.skip(n);
        let m = choose|i: int| 0 <= i <= t.len() && $re{{[[:alpha:]]}}(#[trigger] t.take(i)) && $re{{[_[[:alnum:]]]*}}(t.skip(i));
        assert(m == 1);
        assert(t.take(1)[0] == s[n]);
        assert forall|i: int| 0 <= i < n implies #[trigger] s[i] == '_' by { assert(s.take(n)[i] == s[i]); }
        assert forall|i: int| n <= i < s.len() implies is_word(#[trigger] s[i]) by { if i > n { assert(t.skip(1)[i - n - 1] == s[i]); } }
        assert(ident_at(s, n));
    }
}
}
@crate
/// Splitting and parsing.
pub mod vxtext {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
use std::str::FromStr;
verus!{
/// what `str::split` yields for a single character
pub open spec fn split_at(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.contains(c) { let i = s.index_of_first(c)->0; seq![s.take(i)] + split_rest(s, c, i) } else { seq![s] }
}
pub open spec fn split_rest(s: Seq<char>, c: char, i: int) -> Seq<Seq<char>> decreases s.len(), 0int when 0 <= i < s.len() { split_at(s.skip(i + 1), c) }
pub trait VxSplit { spec fn vx_chars(&self) -> Seq<char>; fn vx_split(&self, c: char) -> (r: Vec<&str>) ensures r@.len() == split_at(self.vx_chars(), c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_at(self.vx_chars(), c)[i]; }
impl VxSplit for str {
    open spec fn vx_chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_split(&self, c: char) -> Vec<&str> { self.split(c).collect() }
}
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized { type ExternalTraitSpecificationFor: FromStr; type Err; fn from_str(s: &str) -> Result<Self, Self::Err>; }
pub assume_specification<F: FromStr> [str::parse::<F>] (s: &str) -> (r: Result<F, F::Err>) ensures call_ensures(F::from_str, (s,), r);
}
}
@rename split vx_split
@const syntax::SHAPE_ID_NAMESPACE_SEPARATOR
#[verus_verify]
@const syntax::SHAPE_ID_ABSOLUTE_SEPARATOR
#[verus_verify]
@const syntax::SHAPE_ID_MEMBER_SEPARATOR
#[verus_verify]
@fn model::identity::NamespaceID::is_valid
#[verus_spec(r => ensures r == ns_ok(s@))]
@@loop 0
#[verus_spec(it => invariant
    it.seq().len() == split_at(s@, '.').len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == split_at(s@, '.')[i],
    forall|i: int| 0 <= i < it.index() ==> ident_ok(#[trigger] split_at(s@, '.')[i]))]
@@loopbody 0
proof! { lemma_ns_split(s@); let i = it.index(); assert(0 <= i < it.seq().len()); assert(it.seq()[i]@ == split_at(s@, '.')[i]); assert(id@ == split_at(s@, '.')[i]); }
@@entry
proof! { lemma_ns_split(s@); }
@mod model::identity
verus!{
pub proof fn lemma_ns_split(s: Seq<char>)
    ensures ns_ok(s) <==> forall|i: int| 0 <= i < split_at(s, '.').len() ==> ident_ok(#[trigger] split_at(s, '.')[i])
    decreases s.len()
{
    s.index_of_first_ensures('.');
    if s.contains('.') {
        let i = s.index_of_first('.')->0;
        let r = s.skip(i + 1);
        lemma_ns_split(r);
        let p = split_at(s, '.');
        assert(p == seq![s.take(i)] + split_at(r, '.'));
        if forall|j: int| 0 <= j < p.len() ==> ident_ok(#[trigger] p[j]) {
            assert(p[0] == s.take(i));
            assert forall|j: int| 0 <= j < split_at(r, '.').len() implies ident_ok(#[trigger] split_at(r, '.')[j]) by { assert(p[j + 1] == split_at(r, '.')[j]); }
        }
        assert(!ident_ok(s)) by {
            if ident_ok(s) { let n = choose|n: int| ident_at(s, n); assert(s[i] == '.'); }
        }
        if ns_ok(s) {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == '.' && ident_ok(s.take(k)) && ns_ok(#[trigger] s.skip(k + 1));
            assert(k == i) by {
                if i < k { lemma_ident_chars(s.take(k)); assert(s.take(k)[i] == '.'); }
            }
        }
    } else {
        if ns_ok(s) && !ident_ok(s) {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == '.' && ident_ok(s.take(k)) && ns_ok(#[trigger] s.skip(k + 1));
            assert(s.contains(s[k]));
        }
        assert(split_at(s, '.')[0] == s);
    }
}
pub proof fn lemma_ident_chars(s: Seq<char>)
    requires ident_ok(s)
    ensures s.len() > 0, forall|i: int| 0 <= i < s.len() ==> is_word(#[trigger] s[i])
{ let n = choose|n: int| ident_at(s, n); }
}
@mod model::identity
verus!{
impl VxText for Identifier { open spec fn vx_text(&self) -> Seq<char> { self.text() } }
impl VxText for NamespaceID { open spec fn vx_text(&self) -> Seq<char> { self.text() } }
impl VxText for ShapeID { open spec fn vx_text(&self) -> Seq<char> { shape_text(self.sp_namespace().text(), self.sp_name().text(), opt_text(self.sp_member())) } }
pub open spec fn opt_text(o: Option<Identifier>) -> Option<Seq<char>> { match o { None => None, Some(i) => Some(i.text()) } }
/// absolute_root_shape_id = namespace "#" identifier;  shape_id_member = "$" identifier
pub open spec fn shape_text(n: Seq<char>, name: Seq<char>, m: Option<Seq<char>>) -> Seq<char> {
    n + seq!['#'] + name + match m { None => Seq::<char>::empty(), Some(m) => seq!['$'] + m }
}
pub open spec fn parts_ok(n: Seq<char>, name: Seq<char>, m: Option<Seq<char>>) -> bool { ns_ok(n) && ident_ok(name) && (m matches Some(m) ==> ident_ok(m)) }
pub open spec fn shape_ok(s: Seq<char>) -> bool {
    exists|n: Seq<char>, name: Seq<char>, m: Option<Seq<char>>| parts_ok(n, name, m) && s == #[trigger] shape_text(n, name, m)
}
impl ShapeID {
    pub open spec fn parts_valid(self) -> bool { parts_ok(self.sp_namespace().text(), self.sp_name().text(), opt_text(self.sp_member())) }
    /// the same text in every part
    pub open spec fn same_text(self, o: ShapeID) -> bool {
        self.sp_namespace().text() == o.sp_namespace().text() && self.sp_name().text() == o.sp_name().text() && opt_text(self.sp_member()) == opt_text(o.sp_member())
    }
}
}
@foreach T ok : Identifier ident_ok ; NamespaceID ns_ok .
@fn model::identity::[Display for $T]::fmt
#[verus_spec(r => ensures r is Ok ==> written(*final(f)) =~= written(*old(f)) + self.text())]
@@entry
proof! { reveal_strlit(""); }
@fn model::identity::[FromStr for $T]::from_str
#[verus_spec(r => ensures r is Ok <==> $ok(s@), r matches Ok(x) ==> x.text() == s@)]
@fn model::identity::$T::new_unchecked
#[verus_spec(r => ensures r.text() == s@)]
@fn model::identity::[Clone for $T]::clone
#[verus_spec(r => ensures r.text() == self.text())]
@end
@fn model::identity::[Clone for ShapeID]::clone
#[verus_spec(r => ensures r.same_text(*self))]
@fn model::identity::[Display for ShapeID]::fmt
#[verus_spec(r => ensures r is Ok ==> written(*final(f)) =~= written(*old(f)) + self.vx_text())]
@@entry
proof! { reveal_strlit(""); }
@fn model::identity::[FromStr for ShapeID]::from_str
#[verus_spec(r => ensures r is Ok <==> shape_ok(s@), r matches Ok(x) ==> x.parts_valid() && x.vx_text() == s@)]
@@entry
proof! { broadcast use crate::vxre::group_shape_id; lemma_shape_re(s@); lemma_shape_caps(s@); }
@@closure 0
#[verus_spec(r: Identifier => ensures r.text() == match_text(v))]
@fn model::identity::ShapeID::is_valid
#[verus_spec(r => ensures r == shape_ok(s@))]
@@entry
proof! { broadcast use crate::vxre::group_shape_id; lemma_shape_re(s@); }
@fn model::identity::ShapeID::new
#[verus_spec(r => ensures r.sp_namespace() == namespace, r.sp_name() == shape_name, r.sp_member() == member_name)]
@fn model::identity::ShapeID::new_unchecked
#[verus_spec(r => ensures r.sp_namespace().text() == namespace@, r.sp_name().text() == shape_name@,
    opt_text(r.sp_member()) == match member_name { None => None, Some(m) => Some(m@) })]
@@closure 0
#[verus_spec(r: Identifier => ensures r.text() == member_name@)]
@fn model::identity::ShapeID::shape
#[verus_spec(r => requires ns_ok(namespace@), ident_ok(shape_name@)
    ensures r.vx_text() == shape_text(namespace@, shape_name@, None), r.sp_namespace().text() == namespace@, r.sp_name().text() == shape_name@, r.sp_member() is None)]
@fn model::identity::ShapeID::member
#[verus_spec(r => requires ns_ok(namespace@), ident_ok(shape_name@), ident_ok(member_name@)
    ensures r.vx_text() == shape_text(namespace@, shape_name@, Some(member_name@)), r.sp_namespace().text() == namespace@, r.sp_name().text() == shape_name@,
        opt_text(r.sp_member()) == Some(member_name@))]
@fn model::identity::ShapeID::shape_only
#[verus_spec(r => ensures r.sp_namespace().text() == self.sp_namespace().text(), r.sp_name().text() == self.sp_name().text(), r.sp_member() is None)]
@fn model::identity::ShapeID::is_member
#[verus_spec(r => ensures r == (self.sp_member() is Some))]
@fn model::identity::ShapeID::namespace
#[verus_spec(r => ensures *r == self.sp_namespace())]
@fn model::identity::ShapeID::shape_name
#[verus_spec(r => ensures *r == self.sp_name())]
@fn model::identity::ShapeID::member_name
#[verus_spec(r => ensures *r == self.sp_member())]
@fn model::identity::ShapeID::is_in_same_namespace
#[verus_spec(r => ensures r == (lower(self.sp_namespace().text()) == lower(other.sp_namespace().text())))]
@fn model::identity::ShapeID::is_valid_member
#[verus_spec(r => ensures r == (self.sp_member() is None && other.sp_member() is Some && lower(self.sp_namespace().text()) == lower(other.sp_namespace().text())
    && lower(self.sp_name().text()) == lower(other.sp_name().text())))]
@fn model::identity::ShapeID::make_shape
#[verus_spec(r => ensures r.sp_name() == shape_name, r.sp_namespace().text() == self.sp_namespace().text(), opt_text(r.sp_member()) == opt_text(self.sp_member()))]
@fn model::identity::ShapeID::make_member
#[verus_spec(r => ensures r.sp_member() == Some(member_name), r.sp_namespace().text() == self.sp_namespace().text(), r.sp_name().text() == self.sp_name().text())]
@fn model::identity::NamespaceID::make_shape
#[verus_spec(r => ensures r.sp_name() == shape_name, r.sp_namespace().text() == self.text(), r.sp_member() is None)]
@fn model::identity::NamespaceID::make_member
#[verus_spec(r => ensures r.sp_name() == shape_name, r.sp_namespace().text() == self.text(), r.sp_member() == Some(member_name))]
@mod model::identity
verus!{
/// a namespace followed by "." and a namespace is one
pub proof fn lemma_ns_append(a: Seq<char>, b: Seq<char>)
    requires ident_ok(a), ns_ok(b)
    ensures ns_ok(a + seq!['.'] + b)
{
    let s = a + seq!['.'] + b;
    let i = a.len() as int;
    assert(s[i] == '.' && s.take(i) =~= a && s.skip(i + 1) =~= b);
    assert(0 <= i < s.len() && s[i] == '.' && ident_ok(s.take(i)) && ns_ok(s.skip(i + 1)));
}
pub proof fn lemma_dots_re(a: Seq<char>, t: Seq<char>)
    requires ident_ok(a), $re{{(?:\._*[[:alpha:]][_[[:alnum:]]]*)*}}(t)
    ensures ns_ok(a + t)
    decreases t.len()
{
    if t.len() == 0 { assert(a + t =~= a); } else {
        let i = choose|i: int| 0 < i <= t.len() && $re{{\._*[[:alpha:]][_[[:alnum:]]]*}}(t.take(i)) && $re{{(?:\._*[[:alpha:]][_[[:alnum:]]]*)*}}(#[trigger] t.skip(i));
        let (d, rest) = (t.take(i), t.skip(i));
        let k = choose|k: int| 0 <= k <= d.len() && $re{{\.}}(#[trigger] d.take(k)) && $re{{_*[[:alpha:]][_[[:alnum:]]]*}}(d.skip(k));
        lemma_ident_re(d.skip(k));
        lemma_dots_re(d.skip(k), rest);
        assert(d.take(k)[0] == d[0]);
        lemma_ns_append(a, d.skip(k) + rest);
        assert(a + seq!['.'] + (d.skip(k) + rest) =~= a + t);
    }
}
/// the expression of a namespace, in the way the literal of the source nests it
pub proof fn lemma_ns_re(s: Seq<char>)
    ensures $re{{_*[[:alpha:]][_[[:alnum:]]]*(?:\._*[[:alpha:]][_[[:alnum:]]]*)*}}(s) == ns_ok(s)
    decreases s.len()
{
    if $re{{_*[[:alpha:]][_[[:alnum:]]]*(?:\._*[[:alpha:]][_[[:alnum:]]]*)*}}(s) {
        let i = choose|i: int| 0 <= i <= s.len() && $re{{_*}}(#[trigger] s.take(i)) && $re{{[[:alpha:]][_[[:alnum:]]]*(?:\._*[[:alpha:]][_[[:alnum:]]]*)*}}(s.skip(i));
        let t = s.skip(i);
        let j = choose|j: int| 0 <= j <= t.len() && $re{{[[:alpha:]]}}(#[trigger] t.take(j)) && $re{{[_[[:alnum:]]]*(?:\._*[[:alpha:]][_[[:alnum:]]]*)*}}(t.skip(j));
        let u = t.skip(j);
        let k = choose|k: int| 0 <= k <= u.len() && $re{{[_[[:alnum:]]]*}}(#[trigger] u.take(k)) && $re{{(?:\._*[[:alpha:]][_[[:alnum:]]]*)*}}(u.skip(k));
        let a = s.take(i + j + k);
        lemma_ident_join(s.take(i), t.take(j), u.take(k));
        assert(s.take(i) + t.take(j) + u.take(k) =~= a);
        lemma_dots_re(a, u.skip(k));
        assert(a + u.skip(k) =~= s);
    }
    if ns_ok(s) {
        let e = lemma_ns_first(s);
        let a = s.take(e);
        lemma_ident_re(a);
        let i = choose|i: int| 0 <= i <= a.len() && $re{{_*}}(#[trigger] a.take(i)) && $re{{[[:alpha:]][_[[:alnum:]]]*}}(a.skip(i));
        let b = a.skip(i);
        let j = choose|j: int| 0 <= j <= b.len() && $re{{[[:alpha:]]}}(#[trigger] b.take(j)) && $re{{[_[[:alnum:]]]*}}(b.skip(j));
        let t = s.skip(i);
        let u = t.skip(j);
        let k = e - i - j;
        assert(u.take(k) =~= b.skip(j));
        assert(u.skip(k) =~= s.skip(e));
        assert($re{{[_[[:alnum:]]]*(?:\._*[[:alpha:]][_[[:alnum:]]]*)*}}(u));
        assert(t.take(j) =~= b.take(j));
        assert($re{{[[:alpha:]][_[[:alnum:]]]*(?:\._*[[:alpha:]][_[[:alnum:]]]*)*}}(t));
        assert(s.take(i) =~= a.take(i));
    }
}
pub proof fn lemma_ident_join(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires $re{{_*}}(a), $re{{[[:alpha:]]}}(b), $re{{[_[[:alnum:]]]*}}(c)
    ensures ident_ok(a + b + c)
{
    let s = a + b + c;
    let n = a.len() as int;
    assert(s[n] == b[0]);
    assert forall|i: int| 0 <= i < n implies #[trigger] s[i] == '_' by { assert(s[i] == a[i]); }
    assert forall|i: int| n <= i < s.len() implies is_word(#[trigger] s[i]) by { if i > n { assert(s[i] == c[i - n - 1]); } }
    assert(ident_at(s, n));
}
/// the first identifier of a namespace, followed by the dotted rest
pub proof fn lemma_ns_first(s: Seq<char>) -> (e: int)
    requires ns_ok(s)
    ensures 0 <= e <= s.len(), ident_ok(s.take(e)), $re{{(?:\._*[[:alpha:]][_[[:alnum:]]]*)*}}(s.skip(e))
    decreases s.len()
{
    if ident_ok(s) { assert(s.take(s.len() as int) =~= s); s.len() as int } else {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == '.' && ident_ok(s.take(i)) && ns_ok(#[trigger] s.skip(i + 1));
        let r = s.skip(i + 1);
        let f = lemma_ns_first(r);
        let t = s.skip(i);
        let d = t.take(f + 1);
        lemma_ident_re(r.take(f));
        assert(d.skip(1) =~= r.take(f));
        assert(d.take(1)[0] == s[i]);
        assert($re{{\.}}(d.take(1)));
        assert($re{{\._*[[:alpha:]][_[[:alnum:]]]*}}(d));
        assert(t.skip(f + 1) =~= r.skip(f));
        i
    }
}
pub proof fn lemma_member_re(s: Seq<char>)
    ensures $re{{\$(?:_*[[:alpha:]][_[[:alnum:]]]*)}}(s) <==> exists|m: Seq<char>| ident_ok(m) && s == #[trigger] member_part(m)
{
    if $re{{\$(?:_*[[:alpha:]][_[[:alnum:]]]*)}}(s) {
        let k = choose|k: int| 0 <= k <= s.len() && $re{{\$}}(#[trigger] s.take(k)) && $re{{_*[[:alpha:]][_[[:alnum:]]]*}}(s.skip(k));
        lemma_ident_re(s.skip(k));
        assert(s.take(k)[0] == s[0]);
        assert(s =~= member_part(s.skip(1)));
    }
    if exists|m: Seq<char>| ident_ok(m) && s == #[trigger] member_part(m) {
        let m = choose|m: Seq<char>| ident_ok(m) && s == #[trigger] member_part(m);
        lemma_ident_re(m);
        assert(s.skip(1) =~= m);
        assert(s.take(1)[0] == '$');
        assert($re{{\$}}(s.take(1)));
    }
}
pub open spec fn member_part(m: Seq<char>) -> Seq<char> { seq!['$'] + m }
pub proof fn lemma_shape_re(s: Seq<char>)
    ensures crate::vxre::shape_id_accepts(s) == shape_ok(s)
{
    if shape_ok(s) {
        let (n, name, m) = choose|n: Seq<char>, name: Seq<char>, m: Option<Seq<char>>| parts_ok(n, name, m) && s == #[trigger] shape_text(n, name, m);
        let tail = match m { None => Seq::<char>::empty(), Some(m) => member_part(m) };
        lemma_ns_re(n);
        lemma_ident_re(name);
        lemma_member_re(tail);
        assert(s.take(n.len() as int) =~= n);
        let t = s.skip(n.len() as int);
        assert(t.take(1)[0] == '#');
        assert($re{{\#}}(t.take(1)));
        let u = t.skip(1);
        assert(u.take(name.len() as int) =~= name);
        assert(u.skip(name.len() as int) =~= tail);
        assert($re{{(?:\$(?:_*[[:alpha:]][_[[:alnum:]]]*))?}}(tail));
        assert($re{{(?:_*[[:alpha:]][_[[:alnum:]]]*)(?:\$(?:_*[[:alpha:]][_[[:alnum:]]]*))?}}(u));
        assert($re{{\#(?:_*[[:alpha:]][_[[:alnum:]]]*)(?:\$(?:_*[[:alpha:]][_[[:alnum:]]]*))?}}(t));
    }
    if crate::vxre::shape_id_accepts(s) {
        let i = choose|i: int| 0 <= i <= s.len() && $re{{_*[[:alpha:]][_[[:alnum:]]]*(?:\._*[[:alpha:]][_[[:alnum:]]]*)*}}(#[trigger] s.take(i)) && $re{{\#(?:_*[[:alpha:]][_[[:alnum:]]]*)(?:\$(?:_*[[:alpha:]][_[[:alnum:]]]*))?}}(s.skip(i));
        let t = s.skip(i);
        let j = choose|j: int| 0 <= j <= t.len() && $re{{\#}}(#[trigger] t.take(j)) && $re{{(?:_*[[:alpha:]][_[[:alnum:]]]*)(?:\$(?:_*[[:alpha:]][_[[:alnum:]]]*))?}}(t.skip(j));
        let u = t.skip(j);
        let k = choose|k: int| 0 <= k <= u.len() && $re{{_*[[:alpha:]][_[[:alnum:]]]*}}(#[trigger] u.take(k)) && $re{{(?:\$(?:_*[[:alpha:]][_[[:alnum:]]]*))?}}(u.skip(k));
        lemma_ns_re(s.take(i));
        lemma_ident_re(u.take(k));
        lemma_member_re(u.skip(k));
        assert(t.take(j)[0] == s[i]);
        if u.skip(k).len() == 0 {
            assert(s =~= shape_text(s.take(i), u.take(k), None));
        } else {
            let m = choose|m: Seq<char>| ident_ok(m) && u.skip(k) == #[trigger] member_part(m);
            lemma_tail(s, i, u, k);
            assert(s =~= shape_text(s.take(i), u.take(k), Some(m)));
        }
    }
}
/// s = s[..i] # u,  u = u[..k] rest
pub proof fn lemma_tail(s: Seq<char>, i: int, u: Seq<char>, k: int)
    requires 0 <= i < s.len(), s[i] == '#', u == s.skip(i).skip(1), 0 <= k <= u.len()
    ensures s == s.take(i) + seq!['#'] + u.take(k) + u.skip(k)
{ assert(s =~= s.take(i) + seq!['#'] + u.take(k) + u.skip(k)); }
pub proof fn lemma_shape_caps(s: Seq<char>)
    ensures forall|g: Map<int, Seq<char>>| #[trigger] crate::vxre::shape_id_captures(s, g) ==> g.dom().contains(1) && g.dom().contains(3)
        && parts_ok(g[1], g[3], if g.dom().contains(5) { Some(g[5]) } else { None })
        && s == shape_text(g[1], g[3], if g.dom().contains(5) { Some(g[5]) } else { None })
{
    assert forall|g: Map<int, Seq<char>>| #[trigger] crate::vxre::shape_id_captures(s, g) implies g.dom().contains(1) && g.dom().contains(3)
        && parts_ok(g[1], g[3], if g.dom().contains(5) { Some(g[5]) } else { None })
        && s == shape_text(g[1], g[3], if g.dom().contains(5) { Some(g[5]) } else { None }) by {
        let i = choose|i: int| 0 <= i <= s.len() && $re1{{(_*[[:alpha:]][_[[:alnum:]]]*(\._*[[:alpha:]][_[[:alnum:]]]*)*)}}(#[trigger] s.take(i), g) && $re3{{\#(_*[[:alpha:]][_[[:alnum:]]]*)(\$(_*[[:alpha:]][_[[:alnum:]]]*))?}}(s.skip(i), g);
        let t = s.skip(i);
        let j = choose|j: int| 0 <= j <= t.len() && $re{{\#}}(#[trigger] t.take(j)) && $re3{{(_*[[:alpha:]][_[[:alnum:]]]*)(\$(_*[[:alpha:]][_[[:alnum:]]]*))?}}(t.skip(j), g);
        let u = t.skip(j);
        let k = choose|k: int| 0 <= k <= u.len() && $re3{{(_*[[:alpha:]][_[[:alnum:]]]*)}}(#[trigger] u.take(k), g) && $re4{{(\$(_*[[:alpha:]][_[[:alnum:]]]*))?}}(u.skip(k), g);
        lemma_ns_caps(s.take(i), g);
        lemma_ident_re(u.take(k));
        assert(t.take(j)[0] == s[i]);
        lemma_tail(s, i, u, k);
        let v = u.skip(k);
        if v.len() == 0 && !g.dom().contains(5) {
            assert(s =~= shape_text(s.take(i), u.take(k), None));
        } else {
            assert($re4{{(\$(_*[[:alpha:]][_[[:alnum:]]]*))}}(v, g));
            let h = choose|h: int| 0 <= h <= v.len() && $re{{\$}}(#[trigger] v.take(h)) && $re5{{(_*[[:alpha:]][_[[:alnum:]]]*)}}(v.skip(h), g);
            lemma_ident_re(v.skip(h));
            assert(v.take(h)[0] == v[0]);
            assert(v =~= member_part(g[5]));
            assert(s =~= shape_text(s.take(i), u.take(k), Some(g[5])));
        }
    }
}
pub proof fn lemma_ns_caps(s: Seq<char>, g: Map<int, Seq<char>>)
    requires $re1{{(_*[[:alpha:]][_[[:alnum:]]]*(\._*[[:alpha:]][_[[:alnum:]]]*)*)}}(s, g)
    ensures g.dom().contains(1), g[1] == s, ns_ok(s)
{ 
    lemma_ns_re(s);
    let i = choose|i: int| 0 <= i <= s.len() && $re{{_*}}(#[trigger] s.take(i)) && $re2{{[[:alpha:]][_[[:alnum:]]]*(\._*[[:alpha:]][_[[:alnum:]]]*)*}}(s.skip(i), g);
    let t = s.skip(i);
    let j = choose|j: int| 0 <= j <= t.len() && $re{{[[:alpha:]]}}(#[trigger] t.take(j)) && $re2{{[_[[:alnum:]]]*(\._*[[:alpha:]][_[[:alnum:]]]*)*}}(t.skip(j), g);
    let u = t.skip(j);
    assert($re{{[_[[:alnum:]]]*(?:\._*[[:alpha:]][_[[:alnum:]]]*)*}}(u));
    assert($re{{[[:alpha:]][_[[:alnum:]]]*(?:\._*[[:alpha:]][_[[:alnum:]]]*)*}}(t));
}
/// The text decides the parts: two valid ids with the same text have the same namespace, name and member.
pub proof fn lemma_text_parts(a: ShapeID, b: ShapeID)
    requires a.parts_valid(), b.parts_valid(), a.vx_text() == b.vx_text()
    ensures a.same_text(b)
{
    lemma_parts(a.sp_namespace().text(), a.sp_name().text(), opt_text(a.sp_member()), b.sp_namespace().text(), b.sp_name().text(), opt_text(b.sp_member()));
}
pub proof fn lemma_parts(n: Seq<char>, x: Seq<char>, am: Option<Seq<char>>, o: Seq<char>, y: Seq<char>, bm: Option<Seq<char>>)
    requires parts_ok(n, x, am), parts_ok(o, y, bm), shape_text(n, x, am) == shape_text(o, y, bm)
    ensures n == o, x == y, am == bm
{
    let s = shape_text(n, x, am);
    lemma_ns_chars(n);
    lemma_ns_chars(o);
    assert(s[n.len() as int] == '#');
    assert(s[o.len() as int] == '#');
    if n.len() < o.len() { assert(s[n.len() as int] == o[n.len() as int]); }
    if o.len() < n.len() { assert(s[o.len() as int] == n[o.len() as int]); }
    assert(n =~= s.take(n.len() as int) && o =~= s.take(n.len() as int));
    lemma_ident_chars(x);
    lemma_ident_chars(y);
    let p = n.len() + 1;
    let t = s.skip(p as int);
    let (ta, tb) = (match am { None => Seq::<char>::empty(), Some(m) => seq!['$'] + m }, match bm { None => Seq::<char>::empty(), Some(m) => seq!['$'] + m });
    assert(t =~= x + ta && t =~= y + tb);
    if x.len() < y.len() { assert(t[x.len() as int] == y[x.len() as int]); assert(ta.len() > 0); assert(t[x.len() as int] == ta[0]); }
    if y.len() < x.len() { assert(t[y.len() as int] == x[y.len() as int]); assert(tb.len() > 0); assert(t[y.len() as int] == tb[0]); }
    assert(x =~= t.take(x.len() as int) && y =~= t.take(x.len() as int));
    assert(x.len() == y.len());
    assert(ta =~= (x + ta).skip(x.len() as int));
    assert(tb =~= (y + tb).skip(y.len() as int));
    if am is Some { assert(ta[0] == '$'); assert(am->0 =~= ta.skip(1)); }
    if bm is Some { assert(tb[0] == '$'); assert(bm->0 =~= tb.skip(1)); }
}
pub proof fn lemma_ns_chars(s: Seq<char>)
    requires ns_ok(s)
    ensures s.len() > 0, forall|i: int| 0 <= i < s.len() ==> is_word(#[trigger] s[i]) || s[i] == '.'
    decreases s.len()
{
    if ident_ok(s) { lemma_ident_chars(s); } else {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == '.' && ident_ok(s.take(i)) && ns_ok(#[trigger] s.skip(i + 1));
        lemma_ident_chars(s.take(i));
        lemma_ns_chars(s.skip(i + 1));
        assert forall|k: int| 0 <= k < s.len() implies is_word(#[trigger] s[k]) || s[k] == '.' by {
            if k < i { assert(s.take(i)[k] == s[k]); } else if k > i { assert(s.skip(i + 1)[k - i - 1] == s[k]); }
        }
    }
}
/// C01: what an accepted id prints is accepted, and reads back as the same parts (hence as an equal id); what is composed of
/// valid parts prints as, and equals, what reading its text gives.
pub proof fn C01_round_trip(a: ShapeID, r: Result<ShapeID, crate::error::Error>)
    requires a.parts_valid(), r is Ok <==> shape_ok(a.vx_text()), r matches Ok(x) ==> x.parts_valid() && x.vx_text() == a.vx_text()
    ensures r matches Ok(b) && b.same_text(a) && vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b)
{
    let (n, name, m) = (a.sp_namespace().text(), a.sp_name().text(), opt_text(a.sp_member()));
    assert(parts_ok(n, name, m) && a.vx_text() == shape_text(n, name, m));
    lemma_text_parts(r->Ok_0, a);
}
}
@also C19 model::identity::[FromStr for ShapeID]::from_str model::identity::[FromStr for Identifier]::from_str model::identity::[FromStr for NamespaceID]::from_str
@also C19 model::identity::[Display for ShapeID]::fmt model::identity::[Display for Identifier]::fmt model::identity::[Display for NamespaceID]::fmt
@mod model::identity
verus!{
/// What the contracts over builders take for granted of the texts they use themselves: letters are identifiers, and after
/// `smithy.api#` they name the shape of the prelude.
pub open spec fn letters(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> 'a' <= #[trigger] s[i] <= 'z' || 'A' <= s[i] <= 'Z' }
pub proof fn lemma_letters(s: Seq<char>) requires letters(s) ensures ident_ok(s) { assert(ident_at(s, 0)); }
pub proof fn lemma_prelude_namespace() ensures ns_ok("smithy.api"@)
{
    reveal_strlit("smithy.api");
    let s = "smithy.api"@;
    lemma_letters(s.take(6));
    lemma_letters(s.skip(7));
    assert(s[6] == '.');
    assert(ns_ok(s.skip(6int + 1)));
}
pub proof fn lemma_prelude_text(s: Seq<char>)
    requires letters(s)
    ensures ({
        let t = "smithy.api"@ + "#"@ + s;
        shape_ok(t) && forall|x: ShapeID| x.parts_valid() && #[trigger] x.vx_text() == t ==> x.sp_namespace().text() == "smithy.api"@ && x.sp_name().text() == s && x.sp_member() is None })
{
    lemma_prelude_namespace();
    lemma_letters(s);
    let n = "smithy.api"@;
    let t = n + "#"@ + s;
    reveal_strlit("#");
    assert("#"@ =~= seq!['#']);
    assert(shape_text(n, s, None) =~= t);
    assert(parts_ok(n, s, None));
    assert forall|x: ShapeID| x.parts_valid() && #[trigger] x.vx_text() == t implies x.sp_namespace().text() == n && x.sp_name().text() == s && x.sp_member() is None by {
        lemma_parts(x.sp_namespace().text(), x.sp_name().text(), opt_text(x.sp_member()), n, s, None);
    }
}
}
