//! C23: the registry of file types and the files the assembler picks.
use crate::am::*;
use crate::ensure;
use crate::rng::Rng;
use crate::{Res, Sub};
use atelier_assembler::{FileType, FileTypeRegistry, ModelAssembler};
use atelier_core::model::{Model, NamespaceID, ShapeID};
use atelier_core::model::shapes::{ShapeKind, Simple, TopLevelShape};
use atelier_core::Version;
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::fs::File;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};

const EXTS: [&str; 14] = ["json", "JSON", "Json", "smithy", "SMITHY", "x", "X", "yaml", "Yaml", "tar.gz", "", "é", "É", "ÉX"];
const MIMES: [&str; 6] = ["application/json", "Application/JSON", "text/x", "TEXT/X", "text/é", "text/É"];

fn marker(kind: &str, f: &mut File) -> atelier_core::error::Result<Model> {
    let mut s = String::new();
    f.read_to_string(&mut s).unwrap();
    let mut m = Model::new(Version::V10);
    if !s.is_empty() {
        let id = ShapeID::new(NamespaceID::from_str(kind).unwrap(), ident(s.trim()), None);
        m.add_shape(TopLevelShape::new(id, ShapeKind::Simple(Simple::String)))?;
    }
    Ok(m)
}
fn read_a(f: &mut File) -> atelier_core::error::Result<Model> {
    marker("a", f)
}
fn read_b(f: &mut File) -> atelier_core::error::Result<Model> {
    marker("b", f)
}
fn read_c(f: &mut File) -> atelier_core::error::Result<Model> {
    marker("c", f)
}
fn types(r: &mut Rng) -> Vec<(Rc<FileType>, String, Option<String>)> {
    (0..4)
        .map(|i| {
            let n = format!("type {}", i);
            let f: atelier_assembler::FileReader = [read_a, read_b, read_c][r.below(3)] as fn(&mut File) -> atelier_core::error::Result<Model>;
            if r.chance(1, 2) {
                let m = r.pick(&MIMES).to_string();
                (FileType::new_with_mime_type(&n, f, &m), n, Some(m))
            } else {
                (FileType::new(&n, f), n, None)
            }
        })
        .collect()
}
fn history(_case: u64, r: &mut Rng) -> Res {
    let ts = types(r);
    for (t, n, m) in &ts {
        ensure!(t.name() == n && t.mime_type() == m, "FileType::new", format!("{} {:?}", n, m), format!("{} {:?}", t.name(), t.mime_type()));
    }
    let mut reg = if r.chance(1, 4) { FileTypeRegistry::default() } else { FileTypeRegistry::empty() };
    let mut by: BTreeMap<String, String> = BTreeMap::new();
    let mut mime: BTreeMap<String, String> = BTreeMap::new();
    let mut log = vec![];
    if reg.contains("json") {
        log.push("default".to_string());
        by.insert("json".to_string(), "JSON AST".to_string());
        by.insert("smithy".to_string(), "Smithy IDL".to_string());
    }
    for _ in 0..1 + r.below(8) {
        let (t, n, m) = r.pick(&ts).clone();
        match r.below(4) {
            0 => {
                let k: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(&EXTS)).collect();
                log.push(format!("register_all({}, {:?})", n, k));
                reg.register_all(t, &k);
                for e in k {
                    by.insert(e.to_lowercase(), n.clone());
                }
                if let Some(m) = m {
                    mime.insert(m.to_lowercase(), n);
                }
            }
            1 => {
                let e = *r.pick(&EXTS);
                log.push(format!("remove({:?})", e));
                let got = reg.remove(e).map(|t| t.name().clone());
                let want = by.remove(&e.to_lowercase());
                ensure!(got == want, format!("{:?}", log), format!("{:?}", want), format!("{:?}", got));
            }
            _ => {
                let e = *r.pick(&EXTS);
                log.push(format!("register({} {:?}, {:?})", n, m, e));
                reg.register(t, e);
                by.insert(e.to_lowercase(), n.clone());
                if let Some(m) = m {
                    mime.insert(m.to_lowercase(), n);
                }
            }
        }
        let reg = if r.chance(1, 3) { reg.clone() } else { reg.clone() };
        for e in EXTS.iter() {
            let want = by.get(&e.to_lowercase());
            let got = reg.get(e).map(|t| t.name());
            ensure!(got == want, format!("{:?}: get({:?})", log, e), format!("{:?}", want), format!("{:?}", got));
            ensure!(reg.contains(e) == want.is_some(), format!("{:?}: contains({:?})", log, e), want.is_some(), reg.contains(e));
        }
        for m in MIMES.iter() {
            let want = mime.get(&m.to_lowercase());
            let got = reg.get_by_mime_type(m).map(|t| t.name());
            ensure!(got == want, format!("{:?}: get_by_mime_type({:?})", log, m), format!("{:?}", want), format!("{:?}", got));
        }
        let mut got: Vec<String> = reg.extensions().cloned().collect();
        got.sort();
        let want: Vec<String> = by.keys().cloned().collect();
        ensure!(got == want, format!("{:?}: extensions", log), format!("{:?}", want), format!("{:?}", got));
    }
    Ok(log.join(";"))
}
static N: AtomicU64 = AtomicU64::new(0);
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let d = std::env::temp_dir().join(format!("verif-c23-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn tree(r: &mut Rng, at: &Path, depth: usize, files: &mut Vec<PathBuf>, count: &mut usize) {
    for _ in 0..r.below(5) {
        let e = *r.pick(&EXTS);
        *count += 1;
        let base = [format!("f{}", count), format!("f{}.v", count), format!(".f{}", count), format!("a b{}", count)][r.below(4)].clone();
        let p = at.join(if e.is_empty() { base } else { format!("{}.{}", base, e) });
        if depth > 0 && r.chance(1, 4) {
            std::fs::create_dir(&p).unwrap();
            tree(r, &p, depth - 1, files, count);
        } else {
            std::fs::write(&p, if r.chance(1, 12) { String::new() } else { format!("S{}", count) }).unwrap();
            files.push(p);
        }
    }
}
/// what follows the last dot of a file name that is not its first character
fn ext(p: &Path) -> Option<String> {
    let n = p.file_name().unwrap().to_str().unwrap();
    n.rfind('.').filter(|i| *i > 0).map(|i| n[i + 1..].to_string())
}
fn assemble(_case: u64, r: &mut Rng) -> Res {
    let d = Dir::new();
    let mut files = vec![];
    let mut count = 0;
    let mut roots = vec![];
    for i in 0..1 + r.below(3) {
        let p = d.0.join(format!("root{}", i));
        std::fs::create_dir(&p).unwrap();
        tree(r, &p, 3, &mut files, &mut count);
        roots.push(p);
    }
    // single files outside the roots, and paths where nothing is
    for i in 0..r.below(4) {
        let e = *r.pick(&EXTS);
        let p = d.0.join(format!("single{}.{}", i, e));
        if r.chance(3, 4) {
            std::fs::write(&p, format!("One{}", i)).unwrap();
            files.push(p.clone());
        }
        roots.push(p);
    }
    let mut reg = FileTypeRegistry::empty();
    let mut by: BTreeMap<String, &str> = BTreeMap::new();
    let ts = [(FileType::new("A", read_a), "a"), (FileType::new("B", read_b), "b"), (FileType::new("C", read_c), "c")];
    for _ in 0..r.below(7) {
        let (t, n) = r.pick(&ts).clone();
        let e = *r.pick(&EXTS);
        reg.register(t, e);
        by.insert(e.to_lowercase(), n);
    }
    let mut asm = ModelAssembler::new(reg, None);
    ensure!(asm.is_empty() && asm.len() == 0, "a new assembler", "no path", format!("{:?}", asm));
    for (i, p) in roots.iter().enumerate() {
        if r.chance(1, 2) {
            asm.push(p);
        } else {
            asm.push_str(p.to_str().unwrap());
        }
        ensure!(!asm.is_empty() && asm.len() == i + 1, format!("{} paths pushed", i + 1), i + 1, format!("{} {}", asm.is_empty(), asm.len()));
    }
    asm.push(&roots[0]);
    let mut got: Vec<PathBuf> = asm.paths().map(|p| p.to_path_buf()).collect();
    got.sort();
    roots.sort();
    ensure!(got == roots, "paths", format!("{:?}", roots), format!("{:?}", got));
    let mut want: Vec<PathBuf> = files.iter().filter(|p| ext(p).map(|e| by.contains_key(&e.to_lowercase())).unwrap_or(false)).cloned().collect();
    want.sort();
    let mut got = asm.expand_file_paths();
    got.sort();
    let what = format!("files {:?}, registered {:?}", files, by);
    ensure!(got == want, format!("{}: expand_file_paths", what), format!("{:?}", want), format!("{:?}", got));
    let mut shapes: Vec<String> = want
        .iter()
        .filter_map(|p| {
            let c = std::fs::read_to_string(p).unwrap();
            if c.is_empty() {
                None
            } else {
                Some(format!("{}#{}", by[&ext(p).unwrap().to_lowercase()], c))
            }
        })
        .collect();
    shapes.sort();
    match Model::try_from(asm) {
        Ok(m) => {
            let mut got: Vec<String> = m.shape_names().map(|s| s.to_string()).collect();
            got.sort();
            ensure!(got == shapes, format!("{}: assembled", what), format!("{:?}", shapes), format!("{:?}", got));
        }
        Err(e) => ensure!(false, what, format!("{:?}", shapes), format!("{:?}", e)),
    }
    Ok(format!("{} files of {} {:?}", want.len(), files.len(), by))
}
pub fn c23() -> Vec<Sub> {
    vec![
        Sub { name: "history", cases: (20_000, 400_000), what: "registrations and removals against a map keyed by the lower-case text", run: history },
        Sub { name: "assemble", cases: (600, 8_000), what: "trees of files under a scratch directory: which are picked, and read by which type", run: assemble },
    ]
}
