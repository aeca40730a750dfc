## C23: the registry of file types, and which files the assembler picks (atelier_assembler).
## A FileType holds a function pointer, which Verus has no notion of: the type is opaque here, its MIME type is read through
## an accessor of the same meaning (@field).
@field mime_type vx_mime_type
@crate
pub mod vstdx {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
use crate::FileType;
use std::path::{Path, PathBuf};
verus!{
/// the lower case of a text
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String) ensures r@ == lower(s@);
/// a String is determined by its characters
pub uninterp spec fn text(k: Seq<char>) -> String;
pub broadcast axiom fn axiom_text(s: String) ensures #[trigger] text(s@) == s;
pub broadcast axiom fn axiom_text_view(k: Seq<char>) ensures #[trigger] text(k)@ == k;
/// strings are ordered: a search tree finds them
pub broadcast axiom fn axiom_string_order() ensures #[trigger] vstd::std_specs::btree::key_obeys_cmp_spec::<String>();
pub broadcast group group_text { axiom_text, axiom_text_view, axiom_string_order }
pub uninterp spec fn mime_of(f: FileType) -> Option<String>;
impl FileType {
    #[verifier::external_body]
    pub fn vx_mime_type(&self) -> (r: &Option<String>) ensures *r == mime_of(*self) { &self.mime_type }
}
// ---- the file system, as it is while the assembler walks it
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(Path);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(PathBuf);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExReadDir(std::fs::ReadDir);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExDirEntry(std::fs::DirEntry);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
/// a part of a path (stands for `OsStr`)
#[verifier::external_body]
pub struct VxPart(std::ffi::OsString);
pub uninterp spec fn buf_of(p: &Path) -> PathBuf;
pub uninterp spec fn is_file(p: PathBuf) -> bool;
pub uninterp spec fn is_dir(p: PathBuf) -> bool;
/// what is in a directory
pub uninterp spec fn entries(p: PathBuf) -> Seq<PathBuf>;
/// every directory can be read
pub uninterp spec fn readable() -> bool;
/// what follows the last dot of the last part of a path
pub uninterp spec fn ext_of(p: PathBuf) -> Option<Seq<char>>;
pub uninterp spec fn os_text(s: VxPart) -> Seq<char>;
pub uninterp spec fn dir_of(d: std::fs::ReadDir) -> PathBuf;
pub uninterp spec fn entry_of(d: std::fs::DirEntry) -> PathBuf;
pub uninterp spec fn as_buf<P>(p: P) -> PathBuf;
pub broadcast axiom fn axiom_as_buf(p: &PathBuf) ensures #[trigger] as_buf::<&PathBuf>(p) == *p;
pub broadcast axiom fn axiom_path_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<PathBuf>();
pub broadcast group group_paths { axiom_as_buf, axiom_path_key }
pub assume_specification[ <PathBuf as core::ops::Deref>::deref ](p: &PathBuf) -> (r: &Path) ensures buf_of(r) == *p;
pub assume_specification[ <PathBuf as Clone>::clone ](p: &PathBuf) -> (r: PathBuf) ensures r == *p;
pub assume_specification[ Path::is_file ](p: &Path) -> (r: bool) ensures r == is_file(buf_of(p));
pub assume_specification[ Path::is_dir ](p: &Path) -> (r: bool) ensures r == is_dir(buf_of(p));
/// `E.extension()` of a path
pub trait VxPath {
    spec fn sp_buf(&self) -> PathBuf;
    fn vx_extension(&self) -> (r: Option<VxPart>)
        ensures match r { Some(e) => ext_of(self.sp_buf()) == Some(os_text(e)), None => ext_of(self.sp_buf()) is None };
}
impl VxPath for PathBuf {
    open spec fn sp_buf(&self) -> PathBuf { *self }
    #[verifier::external_body]
    fn vx_extension(&self) -> Option<VxPart> { self.extension().map(|e| VxPart(e.to_os_string())) }
}
pub assume_specification<P: AsRef<Path>>[ std::fs::read_dir::<P> ](p: P) -> (r: std::io::Result<std::fs::ReadDir>)
    ensures readable() ==> r is Ok && dir_of(r->Ok_0) == as_buf::<P>(p);
pub assume_specification[ std::fs::DirEntry::path ](d: &std::fs::DirEntry) -> (r: PathBuf) ensures r == entry_of(*d);
#[verifier::external_body]
pub fn vx_read_dir(d: std::fs::ReadDir) -> (r: Vec<std::io::Result<std::fs::DirEntry>>)
    ensures readable() ==> r@.len() == entries(dir_of(d)).len()
        && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) is Ok && entry_of(r@[i]->Ok_0) == entries(dir_of(d))[i]
{ d.collect() }
#[verifier::external_body]
pub fn vx_paths(s: &std::collections::HashSet<PathBuf>) -> (r: Vec<&PathBuf>)
    ensures r@.unref().to_set() == s@, r@.unref().no_duplicates()
{ s.iter().collect() }
impl VxPart {
    /// `E.to_string_lossy()`: the text of a part of a path
    #[verifier::external_body]
    pub fn vx_lossy(&self) -> (r: String) ensures r@ == os_text(*self) { self.0.to_string_lossy().into_owned() }
}
}
}
@rename to_string_lossy vx_lossy
@rename as_ref as_str
@rename extension vx_extension
@for C23
@item FileType
#[verus_verify(external_body)]
@fn [Clone for FileType]::clone
#[verus_verify(external_body)]
@item FileTypeRegistry
#[verus_verify]
@item ModelAssembler
#[verus_verify]
@crate
verus!{
use crate::vstdx::*; use vstd::std_specs::iter::IteratorSpec as _;
/// the entry of a table that ignores case
pub open spec fn at<V>(m: vstd::map::Map<String, V>, k: Seq<char>) -> Option<V> {
    if m.contains_key(text(lower(k))) { Some(m[text(lower(k))]) } else { None }
}
impl FileTypeRegistry {
    /// the file type an extension stands for
    pub closed spec fn sp_type(self, ext: Seq<char>) -> Option<Rc<FileType>> { at(self.by_extension@, ext) }
    /// the file type a MIME type stands for
    pub closed spec fn sp_mime(self, mime: Seq<char>) -> Option<Rc<FileType>> { at(self.by_mime_type@, mime) }
    /// every extension in the table is the lower case of one it was given
    pub closed spec fn wf(self) -> bool { forall|k: String| #[trigger] self.by_extension@.contains_key(k) ==> is_lower(k@) }
    pub closed spec fn sp_keys(self) -> vstd::set::Set<String> { self.by_extension@.dom() }
}
pub open spec fn is_lower(k: Seq<char>) -> bool { exists|e: Seq<char>| k == #[trigger] lower(e) }
pub open spec fn same_case(a: Seq<char>, b: Seq<char>) -> bool { lower(a) == lower(b) }
pub broadcast proof fn lemma_among(s: Seq<&String>, i: int)
    requires 0 <= i < s.len(),
    ensures s.unref().contains(*#[trigger] s[i]), s.unref().to_set().contains(*s[i])
{ assert(s.unref()[i] == *s[i]); }
/// one of the first `n` of `s` is `e`, whatever the case
pub open spec fn among(s: Seq<&str>, n: int, e: Seq<char>) -> bool { exists|i: int| 0 <= i < n && same_case(e, #[trigger] s[i]@) }
pub open spec fn mimes(new: FileTypeRegistry, old: FileTypeRegistry, f: Rc<FileType>) -> bool {
    forall|m: Seq<char>| #[trigger] new.sp_mime(m) == if mime_of(*f) is Some && same_case(m, mime_of(*f)->0@) { Some(f) } else { old.sp_mime(m) }
}
/// the files an assembler picks at a path, in the order of the directories; `None` if they are nested deeper than `n`
pub open spec fn walk(reg: FileTypeRegistry, p: PathBuf, n: nat) -> Option<Seq<PathBuf>>
    decreases n, 0nat
{
    if is_file(p) {
        Some(match ext_of(p) { Some(e) => if reg.sp_type(e) is Some { seq![p] } else { seq![] }, None => seq![] })
    } else if is_dir(p) {
        if n == 0 { None } else { walk_all(reg, entries(p), (n - 1) as nat) }
    } else {
        Some(seq![])
    }
}
pub open spec fn walk_all(reg: FileTypeRegistry, s: Seq<PathBuf>, n: nat) -> Option<Seq<PathBuf>>
    decreases n, s.len() + 1
{
    if s.len() == 0 { Some(seq![]) } else {
        match (walk_all(reg, s.drop_last(), n), walk(reg, s.last(), n)) { (Some(a), Some(b)) => Some(a + b), _ => None }
    }
}
pub proof fn lemma_walk(reg: FileTypeRegistry, p: PathBuf, n: nat, m: nat)
    requires walk(reg, p, n) is Some, n <= m,
    ensures walk(reg, p, m) == walk(reg, p, n)
    decreases n, 0nat
{
    if !is_file(p) && is_dir(p) { lemma_walk_all(reg, entries(p), (n - 1) as nat, (m - 1) as nat); }
}
pub proof fn lemma_walk_all(reg: FileTypeRegistry, s: Seq<PathBuf>, n: nat, m: nat)
    requires walk_all(reg, s, n) is Some, n <= m,
    ensures walk_all(reg, s, m) == walk_all(reg, s, n)
    decreases n, s.len() + 1
{
    if s.len() > 0 { lemma_walk_all(reg, s.drop_last(), n, m); lemma_walk(reg, s.last(), n, m); }
}
pub open spec fn picked(reg: FileTypeRegistry, s: Seq<PathBuf>, r: Seq<PathBuf>) -> bool { exists|n: nat| #[trigger] walk_all(reg, s, n) == Some(r) }
pub proof fn lemma_picked(reg: FileTypeRegistry, s: Seq<PathBuf>, p: PathBuf, r: Seq<PathBuf>, q: Seq<PathBuf>, n: nat)
    requires picked(reg, s, r), walk(reg, p, n) == Some(q),
    ensures picked(reg, s.push(p), r + q)
{
    let m = choose|m: nat| walk_all(reg, s, m) == Some(r);
    let k = if m > n { m } else { n };
    lemma_walk_all(reg, s, m, k);
    lemma_walk(reg, p, n, k);
    assert(s.push(p).drop_last() =~= s);
    assert(walk_all(reg, s.push(p), k) == Some(r + q));
}
}
@fn FileTypeRegistry::empty
#[verus_spec(r => ensures r.wf(), forall|e: Seq<char>| r.sp_type(e) is None, forall|m: Seq<char>| r.sp_mime(m) is None)]
@fn FileTypeRegistry::register
#[verus_spec(requires old(self).wf()
    ensures final(self).wf(), mimes(*final(self), *old(self), file_type),
        forall|e: Seq<char>| #[trigger] final(self).sp_type(e) == if same_case(e, extension@) { Some(file_type) } else { old(self).sp_type(e) })]
@@entry
proof! { broadcast use crate::vstdx::group_text; }
@fn FileTypeRegistry::register_all
#[verus_spec(requires old(self).wf()
    ensures final(self).wf(), mimes(*final(self), *old(self), file_type),
        forall|e: Seq<char>| #[trigger] final(self).sp_type(e) == if among(extensions@, extensions@.len() as int, e) { Some(file_type) } else { old(self).sp_type(e) })]
@@entry
proof! { broadcast use crate::vstdx::group_text; }
@@loop 0
#[verus_spec(it => invariant self.wf(), self.by_mime_type@ == old(self).by_mime_type@, it.seq().len() == extensions@.len(), forall|i: int| 0 <= i < extensions@.len() ==> *#[trigger] it.seq()[i] == extensions@[i],
    forall|e: Seq<char>| #[trigger] at(self.by_extension@, e) == if among(extensions@, it.index(), e) { Some(file_type) } else { old(self).sp_type(e) })]
@@loopbody 0
proof! { broadcast use crate::vstdx::group_text; }
proof_decl! { let ghost before = self.by_extension@; }
@@loopend 0
proof! {
    let n = it.index();
    assert(*extension == extensions@[n]);
    assert forall|e: Seq<char>| #[trigger] at(self.by_extension@, e) == if same_case(e, extensions@[n]@) { Some(file_type) } else { at(before, e) } by {
        assert(text(lower(e)) == text(lower(extensions@[n]@)) ==> lower(e) == lower(extensions@[n]@));
    }
    assert forall|e: Seq<char>| #[trigger] among(extensions@, n + 1, e) == (among(extensions@, n, e) || same_case(e, extensions@[n]@)) by {
        if among(extensions@, n, e) { let i = choose|i: int| 0 <= i < n && same_case(e, #[trigger] extensions@[i]@); assert(same_case(e, extensions@[i]@)); }
    }
}
@fn FileTypeRegistry::contains
#[verus_spec(r => ensures r == (self.sp_type(extension@) is Some))]
@@entry
proof! { broadcast use crate::vstdx::group_text; }
@fn FileTypeRegistry::get
#[verus_spec(r => ensures match r { Some(f) => self.sp_type(extension@) == Some(*f), None => self.sp_type(extension@) is None })]
@@entry
proof! { broadcast use crate::vstdx::group_text; }
@fn FileTypeRegistry::get_by_mime_type
#[verus_spec(r => ensures match r { Some(f) => self.sp_mime(mime_type@) == Some(*f), None => self.sp_mime(mime_type@) is None })]
@@entry
proof! { broadcast use crate::vstdx::group_text; }
@fn FileTypeRegistry::remove
#[verus_spec(r => requires old(self).wf()
    ensures final(self).wf(), r == old(self).sp_type(extension@), forall|m: Seq<char>| #[trigger] final(self).sp_mime(m) == old(self).sp_mime(m),
        forall|e: Seq<char>| #[trigger] final(self).sp_type(e) == if same_case(e, extension@) { None } else { old(self).sp_type(e) })]
@@entry
proof! { broadcast use crate::vstdx::group_text; }
@fn FileTypeRegistry::extensions
#[verus_spec(r => requires self.wf()
    ensures r.obeys_prophetic_iter_laws(), r.remaining().unref().no_duplicates(),
        forall|e: Seq<char>| r.remaining().unref().contains(text(lower(e))) <==> (#[trigger] self.sp_type(e)) is Some,
        forall|i: int| 0 <= i < r.remaining().len() ==> is_lower((#[trigger] r.remaining()[i])@))]
@@entry
proof! {
    broadcast use crate::vstdx::group_text, lemma_among;
}
@fn ModelAssembler::is_empty
#[verus_spec(r => ensures r == self.sp_paths().is_empty())]
@@entry
proof! { broadcast use crate::vstdx::group_paths; }
@fn ModelAssembler::len
#[verus_spec(r => ensures r == self.sp_paths().len())]
@@entry
proof! { broadcast use crate::vstdx::group_paths; }
@crate
verus!{
impl ModelAssembler {
    pub closed spec fn sp_paths(self) -> vstd::set::Set<PathBuf> { self.paths@ }
    pub closed spec fn sp_types(self) -> FileTypeRegistry { self.file_types }
}
pub open spec fn added(a: ModelAssembler, p: PathBuf, n: int, old: Seq<PathBuf>, new: Seq<PathBuf>) -> bool {
    exists|s: Seq<PathBuf>| new == old + s && #[trigger] picked(a.sp_types(), entries(p).subrange(0, n), s)
}
}
@fn ModelAssembler::expand_path
#[verifier::exec_allows_no_decreases_clause]
#[verus_spec(requires readable()
    ensures exists|n: nat| (#[trigger] walk(self.sp_types(), *path, n)) is Some && final(results)@ == old(results)@ + walk(self.sp_types(), *path, n)->0)]
@@entry
proof! {
    broadcast use crate::vstdx::group_paths;
    assert(results@ =~= results@ + Seq::<PathBuf>::empty());
    assert(entries(*path).subrange(0, 0) =~= Seq::<PathBuf>::empty());
    assert(walk_all(self.sp_types(), Seq::<PathBuf>::empty(), 0) == Some(Seq::<PathBuf>::empty()));
    assert(picked(self.sp_types(), Seq::<PathBuf>::empty(), Seq::<PathBuf>::empty()));
    assert(added(*self, *path, 0, results@, results@));
    assert(!is_dir(*path) || is_file(*path) ==> walk(self.sp_types(), *path, 0) is Some);
}
@@iter 0 vx_read_dir
@@loop 0
#[verus_spec(it => invariant readable(), it.seq().len() == entries(*path).len(),
    forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]) is Ok && entry_of(it.seq()[i]->Ok_0) == entries(*path)[i],
    added(*self, *path, it.index(), old(results)@, results@))]
@@loopbody 0
proof! { broadcast use crate::vstdx::group_paths; }
proof_decl! { let ghost before = results@; }
@@loopend 0
proof! {
    let reg = self.sp_types();
    let p = entries(*path)[it.index()];
    let n = choose|n: nat| (#[trigger] walk(reg, p, n)) is Some && results@ == before + walk(reg, p, n)->0;
    let s = choose|s: Seq<PathBuf>| before == old(results)@ + s && #[trigger] picked(reg, entries(*path).subrange(0, it.index()), s);
    lemma_picked(reg, entries(*path).subrange(0, it.index()), p, s, walk(reg, p, n)->0, n);
    assert(entries(*path).subrange(0, it.index()).push(p) =~= entries(*path).subrange(0, it.index() + 1));
    assert(results@ =~= old(results)@ + (s + walk(reg, p, n)->0));
}
@@afterloop 0
proof! {
    let reg = self.sp_types();
    let s = choose|s: Seq<PathBuf>| results@ == old(results)@ + s && #[trigger] picked(reg, entries(*path).subrange(0, entries(*path).len() as int), s);
    assert(entries(*path).subrange(0, entries(*path).len() as int) =~= entries(*path));
    let n = choose|n: nat| #[trigger] walk_all(reg, entries(*path), n) == Some(s);
    assert(walk(reg, *path, (n + 1) as nat) == Some(s));
}
@fn ModelAssembler::expand_file_paths
#[verus_spec(r => requires readable()
    ensures exists|s: Seq<PathBuf>| s.no_duplicates() && s.to_set() == self.sp_paths() && #[trigger] picked(self.sp_types(), s, r@))]
@@before 0 for path in
proof! {
    assert(walk_all(self.sp_types(), Seq::<PathBuf>::empty(), 0) == Some(Seq::<PathBuf>::empty()));
    assert(results@ =~= Seq::<PathBuf>::empty());
    assert(picked(self.sp_types(), Seq::<PathBuf>::empty(), results@));
    assert forall|u: Seq<PathBuf>| #[trigger] u.subrange(0, 0) == Seq::<PathBuf>::empty() by { assert(u.subrange(0, 0) =~= Seq::<PathBuf>::empty()); }
    assert forall|u: Seq<PathBuf>| #[trigger] u.subrange(0, u.len() as int) == u by { assert(u.subrange(0, u.len() as int) =~= u); }
}
@@iter 0 vx_paths
@@loop 0
#[verus_spec(it => invariant readable(), it.seq().unref().to_set() == self.sp_paths(), it.seq().unref().no_duplicates(),
        picked(self.sp_types(), it.seq().unref().subrange(0, it.index()), results@),
        it.seq().unref().subrange(0, it.seq().len() as int) == it.seq().unref(),
    ensures exists|s: Seq<PathBuf>| s.no_duplicates() && s.to_set() == self.sp_paths() && #[trigger] picked(self.sp_types(), s, results@))]
@@loopbody 0
proof_decl! { let ghost before = results@; }
@@loopend 0
proof! {
    let reg = self.sp_types();
    let n = choose|n: nat| (#[trigger] walk(reg, *path, n)) is Some && results@ == before + walk(reg, *path, n)->0;
    let u = it.seq().unref();
    lemma_picked(reg, u.subrange(0, it.index()), *path, before, walk(reg, *path, n)->0, n);
    assert(u.subrange(0, it.index()).push(*path) =~= u.subrange(0, it.index() + 1));

}
