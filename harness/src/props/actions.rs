//! C16, C17, C18: validators, linters and their runners.
use crate::am::*;
use crate::ensure;
use crate::props::merge::lc;
use crate::rng::Rng;
use crate::{Res, Sub};
use atelier_core::action::lint::{run_linter_actions, NamingConventions, UnwelcomeTerms};
use atelier_core::action::validate::{run_validation_actions, CorrectTypeReferences, NoUnresolvedReferences};
use atelier_core::action::{Action, ActionIssue, IssueLevel, Linter, Validator};
use atelier_core::error::{ErrorKind, Result as ModelResult};
use atelier_core::model::{HasIdentity, shapes::{HasTraits, ShapeKind}};
use atelier_core::model::Model;
use heck::{CamelCase, MixedCase, SnakeCase};

fn level(l: &IssueLevel) -> &'static str {
    match l {
        IssueLevel::Info => "info",
        IssueLevel::Warning => "warning",
        IssueLevel::Error => "error",
    }
}
/// level and place
type Note = (String, String);
fn notes(v: &[ActionIssue]) -> Vec<Note> {
    let mut n: Vec<Note> = v.iter().map(|i| (level(i.level()).to_string(), i.locus().as_ref().map(|l| l.to_string()).unwrap_or_default())).collect();
    n.sort();
    n
}
fn gen(r: &mut Rng) -> AModel {
    let mut c = GenCfg { shapes: 9, metadata: false, ..GenCfg::default() };
    if r.chance(1, 4) {
        c.namespaces = vec!["smithy.api", "Smithy.API", "a"];
    }
    let mut g = Gen::new(r, c);
    let mut m = g.model();
    // aim some of the references at shapes of the right kind
    let of = |m: &AModel, k: &str| m.shapes.iter().filter(|(_, s)| s.body.kind() == k).map(|(i, _)| i.clone()).collect::<Vec<_>>();
    let (ops, ress) = (of(&m, "operation"), of(&m, "resource"));
    let keys: Vec<String> = m.shapes.keys().cloned().collect();
    for k in keys {
        let s = m.shapes.get_mut(&k).unwrap();
        match &mut s.body {
            AB::Service { operations, resources, .. } => {
                if !ops.is_empty() && g.r.chance(1, 2) {
                    operations.push(g.r.pick(&ops).clone());
                }
                if !ress.is_empty() && g.r.chance(1, 2) {
                    resources.push(g.r.pick(&ress).clone());
                }
            }
            AB::Resource { life, operations, collection_operations, resources, .. } => {
                if !ops.is_empty() {
                    for l in life.iter_mut() {
                        if g.r.chance(1, 2) {
                            *l = Some(g.r.pick(&ops).clone());
                        }
                    }
                    operations.push(g.r.pick(&ops).clone());
                    collection_operations.push(g.r.pick(&ops).clone());
                }
                if !ress.is_empty() && g.r.chance(1, 2) {
                    resources.push(g.r.pick(&ress).clone());
                }
            }
            AB::Simple(_) if g.r.chance(1, 2) => s.traits.clear(),
            _ => {}
        }
        if let AB::Service { operations, resources, .. } = &mut s.body {
            dedup(operations);
            dedup(resources);
        }
        if let AB::Resource { operations, collection_operations, resources, .. } = &mut s.body {
            dedup(operations);
            dedup(collection_operations);
            dedup(resources);
        }
    }
    m
}
fn dedup(v: &mut Vec<String>) {
    let mut w: Vec<String> = vec![];
    for x in v.drain(..) {
        if !w.iter().any(|y| lc(y) == lc(&x)) {
            w.push(x);
        }
    }
    *v = w;
}
#[derive(Clone, Copy)]
enum Place {
    Type,
    Operation,
    Resource,
}
fn expected(m: &AModel) -> Vec<Note> {
    let mut out: Vec<Note> = vec![];
    for (id, s) in &m.shapes {
        let mut refs: Vec<(Place, String)> = vec![];
        match &s.body {
            AB::Simple(_) => {
                if s.traits.is_empty() {
                    out.push(("info".to_string(), id.clone()));
                }
            }
            AB::Operation { input, output, errors } => {
                refs.extend(input.iter().chain(output.iter()).chain(errors.iter()).map(|t| (Place::Type, t.clone())));
            }
            AB::Service { operations, resources, .. } => {
                refs.extend(operations.iter().map(|t| (Place::Operation, t.clone())));
                refs.extend(resources.iter().map(|t| (Place::Resource, t.clone())));
            }
            AB::Resource { identifiers, life, operations, collection_operations, resources } => {
                refs.extend(identifiers.values().map(|t| (Place::Type, t.clone())));
                refs.extend(life.iter().flatten().map(|t| (Place::Operation, t.clone())));
                refs.extend(operations.iter().chain(collection_operations.iter()).map(|t| (Place::Operation, t.clone())));
                refs.extend(resources.iter().map(|t| (Place::Resource, t.clone())));
            }
            b => refs.extend(b.members().iter().map(|x| (Place::Type, x.target.clone()))),
        }
        for (p, t) in refs {
            let l = match m.shapes.iter().find(|(k, _)| lc(k) == lc(&t)) {
                Some((_, s)) => match (p, s.body.kind()) {
                    (Place::Type, "service") | (Place::Type, "operation") | (Place::Type, "resource") => Some("error"),
                    (Place::Type, _) | (Place::Operation, "operation") | (Place::Resource, "resource") => None,
                    _ => Some("error"),
                },
                None if lc(&t).starts_with("smithy.api#") => None,
                None => Some("warning"),
            };
            if let Some(l) = l {
                out.push((l.to_string(), id.clone()));
            }
        }
    }
    out.sort();
    out
}
fn references(_case: u64, r: &mut Rng) -> Res {
    let a = gen(r);
    let m = a.to();
    let mut v = CorrectTypeReferences::default();
    let res = v.validate(&m);
    ensure!(res.is_ok(), format!("{:?}", a), "Ok", format!("{:?}", res));
    let (got, want) = (notes(v.issues()), expected(&a));
    ensure!(got == want, format!("CorrectTypeReferences on {:?}", a), format!("{:?}", want), format!("{:?}", got));
    ensure!(v.issues().iter().all(|i| i.reporter() == v.label()), format!("{:?}", a), v.label(), format!("{:?}", v.issues()));
    // issues accumulate over the models
    let b = gen(r);
    let res = v.validate(&b.to());
    ensure!(res.is_ok(), format!("{:?}", b), "Ok", format!("{:?}", res));
    let mut both = want.clone();
    both.extend(expected(&b));
    both.sort();
    let got = notes(v.issues());
    ensure!(got == both, format!("CorrectTypeReferences on {:?} then {:?}", a, b), format!("{:?}", both), format!("{:?}", got));
    Ok(format!("{} issues", want.len().min(5)))
}
fn unresolved(_case: u64, r: &mut Rng) -> Res {
    let a = gen(r);
    let m = a.to();
    let mut v = NoUnresolvedReferences::default();
    let res = v.validate(&m);
    ensure!(res.is_ok(), format!("{:?}", a), "Ok", format!("{:?}", res));
    let ids: Vec<&String> = a.shapes.iter().filter(|(_, s)| s.body == AB::Unresolved).map(|(k, _)| k).collect();
    let ok = v.issues().len() == ids.len()
        && v.issues().iter().all(|i| *i.level() == IssueLevel::Error && i.reporter() == v.label())
        && ids.iter().all(|k| v.issues().iter().filter(|i| i.message().contains(&format!("'{}'", k))).count() == 1);
    ensure!(ok, format!("NoUnresolvedReferences on {:?}", a), format!("one error for each of {:?}", ids), format!("{:?}", v.issues()));
    Ok(format!("{} unresolved", ids.len().min(4)))
}

// ------------------------------------------------------------------------------------------------
struct Mock {
    label: &'static str,
    finds: Vec<ActionIssue>,
    fails: bool,
    issues: Vec<ActionIssue>,
}
impl Action for Mock {
    fn label(&self) -> &'static str {
        self.label
    }
    fn issues(&self) -> &Vec<ActionIssue> {
        &self.issues
    }
    fn issues_mut(&mut self) -> &mut Vec<ActionIssue> {
        &mut self.issues
    }
}
impl Mock {
    fn go(&mut self) -> ModelResult<()> {
        self.issues.extend(self.finds.iter().cloned());
        if self.fails {
            Err(ErrorKind::UnknownShape(self.label.to_string()).into())
        } else {
            Ok(())
        }
    }
}
impl Validator for Mock {
    fn validate(&mut self, _: &Model) -> ModelResult<()> {
        self.go()
    }
}
impl Linter for Mock {
    fn check(&mut self, _: &Model) -> ModelResult<()> {
        self.go()
    }
}
const LABELS: [&str; 6] = ["m0", "m1", "m2", "m3", "m4", "m5"];
fn full(v: &[ActionIssue]) -> Vec<String> {
    v.iter().map(|i| format!("{} {} {} {:?}", i.reporter(), level(i.level()), i.message(), i.locus().as_ref().map(|l| l.to_string()))).collect()
}
/// a list of actions: for each its issues and whether it fails
fn actions(r: &mut Rng) -> (Vec<(Vec<ActionIssue>, bool)>, bool) {
    let mut v = vec![];
    let mut n = 0;
    let quiet = r.chance(1, 2);
    for i in 0..r.below(6) {
        let mut finds = vec![];
        for _ in 0..r.below(4) {
            n += 1;
            let msg = format!("issue {}", n);
            let l = match r.below(if quiet { 8 } else { 3 }) {
                0 => IssueLevel::Error,
                1 | 3 | 4 => IssueLevel::Warning,
                _ => IssueLevel::Info,
            };
            let at = sid("a#B");
            finds.push(match (r.below(4), l) {
                (0, l) => ActionIssue::new(l, LABELS[i], &msg),
                (1, l) => ActionIssue::new_at(l, LABELS[i], &msg, at),
                (2, IssueLevel::Error) => ActionIssue::error(LABELS[i], &msg),
                (2, IssueLevel::Warning) => ActionIssue::warning(LABELS[i], &msg),
                (2, IssueLevel::Info) => ActionIssue::info(LABELS[i], &msg),
                (_, IssueLevel::Error) => ActionIssue::error_at(LABELS[i], &msg, at),
                (_, IssueLevel::Warning) => ActionIssue::warning_at(LABELS[i], &msg, at),
                (_, IssueLevel::Info) => ActionIssue::info_at(LABELS[i], &msg, at),
            });
        }
        v.push((finds, r.chance(1, 12)));
    }
    (v, r.chance(1, 2))
}
fn run_expected(v: &[(Vec<ActionIssue>, bool)], fast: bool) -> Result<Vec<String>, String> {
    let mut out = vec![];
    for (i, (f, fails)) in v.iter().enumerate() {
        if *fails {
            return Err(LABELS[i].to_string());
        }
        out.extend(full(f));
        if fast && f.iter().any(|i| level(i.level()) == "error") {
            break;
        }
    }
    Ok(out)
}
fn runners(_case: u64, r: &mut Rng) -> Res {
    let (v, fast) = actions(r);
    let want = run_expected(&v, fast);
    let mk = |i: usize, f: &(Vec<ActionIssue>, bool)| Mock { label: LABELS[i], finds: f.0.clone(), fails: f.1, issues: vec![] };
    let m = AModel::default().to();
    let mut vs: Vec<Box<dyn Validator>> = vec![];
    let mut ls: Vec<Box<dyn Linter>> = vec![];
    for (i, f) in v.iter().enumerate() {
        vs.push(Box::new(mk(i, f)));
        ls.push(Box::new(mk(i, f)));
    }
    let input = format!("fail_fast = {}, actions = {:?}", fast, v.iter().map(|(f, e)| (full(f), *e)).collect::<Vec<_>>());
    let got = [("run_validation_actions", run_validation_actions(&mut vs, &m, fast)), ("run_linter_actions", run_linter_actions(&mut ls, &m, fast))];
    for (n, g) in got {
        match (&g, &want) {
            (Ok(g), Ok(w)) => ensure!(full(g) == *w, format!("{} {}", n, input), format!("{:?}", w), format!("{:?}", full(g))),
            (Err(e), Err(l)) => ensure!(e.to_string().contains(l.as_str()), format!("{} {}", n, input), format!("the error of {}", l), e.to_string()),
            _ => ensure!(false, format!("{} {}", n, input), format!("{:?}", want), format!("{:?}", g)),
        }
    }
    // a second run reports the issues again, and only once
    if let Ok(w) = &want {
        let g = run_validation_actions(&mut vs, &m, fast);
        ensure!(g.as_ref().map(|g| full(g) == *w).unwrap_or(false), format!("run_validation_actions, a second time: {}", input), format!("{:?}", w), format!("{:?}", g));
        let g = run_linter_actions(&mut ls, &m, fast);
        ensure!(g.as_ref().map(|g| full(g) == *w).unwrap_or(false), format!("run_linter_actions, a second time: {}", input), format!("{:?}", w), format!("{:?}", g));
    }
    Ok(format!("{} {} {}", v.len(), fast, want.is_ok()))
}
fn real_runner(_case: u64, r: &mut Rng) -> Res {
    let a = gen(r);
    let m = a.to();
    let fast = r.chance(1, 2);
    let mut vs: Vec<Box<dyn Validator>> = vec![Box::new(NoUnresolvedReferences::default()), Box::new(CorrectTypeReferences::default())];
    let got = run_validation_actions(&mut vs, &m, fast);
    let n = a.shapes.values().filter(|s| s.body == AB::Unresolved).count();
    let mut want: Vec<Note> = vec![("error".to_string(), String::new()); n];
    if !(fast && n > 0) {
        want.extend(expected(&a));
    }
    want.sort();
    let input = format!("fail_fast = {}, {:?}", fast, a);
    ensure!(got.is_ok(), input, "Ok", format!("{:?}", got));
    let got = notes(&got.unwrap());
    ensure!(got == want, input, format!("{:?}", want), format!("{:?}", got));
    Ok(format!("{} {}", fast, n > 0))
}

// ------------------------------------------------------------------------------------------------
const WORDS: [&str; 16] = [
    "City", "city", "cityName", "CityName", "City_Name", "city_name", "CITY", "HTTPServer", "httpServer", "X", "x", "_x", "ThingAsJSON", "thing2", "Thing2x", "a1B",
];
fn name_of(id: &str) -> &str {
    let n = &id[id.find('#').unwrap() + 1..];
    &n[..n.find('$').unwrap_or_else(|| n.len())]
}
fn naming(_case: u64, r: &mut Rng) -> Res {
    let mut a = AModel::default();
    let mut g = Gen::new(r, GenCfg::default());
    for _ in 0..g.r.below(6) {
        let id = format!("{}#{}", g.r.pick(&["a", "b.c"]), g.r.pick(&WORDS));
        g.pool.push(id);
    }
    for id in g.pool.clone() {
        let mut s = g.shape();
        if let AB::Struct(ms) | AB::Union(ms) = &mut s.body {
            ms.clear();
            for _ in 0..g.r.below(4) {
                let n = g.r.pick(&WORDS).to_string();
                let mut m = g.member(&n);
                if g.r.chance(1, 3) {
                    insert_ci(&mut m.traits, format!("t#{}", g.r.pick(&WORDS)), None);
                }
                insert_ci(ms, n, m);
            }
        }
        if g.r.chance(1, 3) {
            insert_ci(&mut s.traits, "smithy.api#trait".to_string(), None);
        }
        if g.r.chance(1, 3) {
            insert_ci(&mut s.traits, format!("t#{}", g.r.pick(&WORDS)), None);
        }
        insert_ci(&mut a.shapes, id, s);
    }
    let mut want: Vec<(String, String)> = vec![];
    fn upper(want: &mut Vec<(String, String)>, id: &str) {
        if name_of(id).to_camel_case() != name_of(id) {
            want.push((id.to_string(), name_of(id).to_camel_case()));
        }
    }
    fn lower(want: &mut Vec<(String, String)>, id: &str, name: &str) {
        if name.to_mixed_case() != name {
            want.push((id.to_string(), name.to_mixed_case()));
        }
    }
    for (id, s) in &a.shapes {
        if s.traits.keys().any(|t| lc(t) == "smithy.api#trait") {
            lower(&mut want, id, name_of(id));
        } else {
            upper(&mut want, id);
        }
        for t in s.traits.keys() {
            lower(&mut want, t, name_of(t));
        }
        if let AB::Struct(ms) | AB::Union(ms) = &s.body {
            for m in ms.values() {
                lower(&mut want, id, &m.name);
                upper(&mut want, &m.target);
                for t in m.traits.keys() {
                    lower(&mut want, t, name_of(t));
                }
            }
        }
    }
    want.sort();
    let m = a.to();
    let mut l = NamingConventions::default();
    let res = l.check(&m);
    ensure!(res.is_ok(), format!("{:?}", a), "Ok", format!("{:?}", res));
    let mut got: Vec<(String, String)> = l
        .issues()
        .iter()
        .map(|i| (i.locus().as_ref().map(|l| l.to_string()).unwrap_or_default(), i.message().rsplit(' ').next().unwrap_or("").to_string()))
        .collect();
    got.sort();
    ensure!(got == want, format!("NamingConventions on {:?}", a), format!("{:?}", want), format!("{:?}", got));
    ensure!(
        l.issues().iter().all(|i| *i.level() == IssueLevel::Info && i.reporter() == l.label()),
        format!("NamingConventions on {:?}", a),
        "informational issues",
        format!("{:?}", l.issues())
    );
    Ok(format!("{} issues", want.len().min(6)))
}
pub fn c16() -> Vec<Sub> {
    vec![
        Sub { name: "references", cases: (20000, 300000), what: "CorrectTypeReferences against the listed defects", run: references },
        Sub { name: "unresolved", cases: (10000, 150000), what: "NoUnresolvedReferences: one error for each unresolved shape", run: unresolved },
        Sub { name: "both", cases: (10000, 150000), what: "both validators through the runner", run: real_runner },
    ]
}
pub fn c17() -> Vec<Sub> {
    vec![Sub { name: "runners", cases: (40000, 500000), what: "lists of actions that report and fail at will", run: runners }]
}
pub fn c18() -> Vec<Sub> {
    vec![Sub { name: "naming", cases: (20000, 300000), what: "NamingConventions against heck's conversions", run: naming }]
}

const PARTS: [&str; 16] =
    ["kill", "Kill", "KILL", "master", "Master", "blacklist", "Whitelist", "slave", "skill", "masters", "Black", "list", "White", "list2", "a", "ok"];
fn term(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 6) {
        s.push('_');
    }
    for i in 0..1 + r.below(3) {
        if i > 0 && r.chance(1, 2) {
            s.push_str(if r.chance(1, 3) { "__" } else { "_" });
        }
        s.push_str(r.pick(&PARTS));
    }
    s
}
fn term_id(r: &mut Rng) -> String {
    let mut s = r.pick(&["a", "b", "my.kill", "Master.x", "x.white_list", "the.whiteList.y"]).to_string();
    s.push('#');
    s.push_str(&term(r));
    if r.chance(1, 6) {
        s.push('$');
        s.push_str(&term(r));
    }
    s
}
/// the terms linter, on one model after another
fn terms(_c: u64, r: &mut Rng) -> Res {
    let mut l = UnwelcomeTerms::default();
    let mut had = std::collections::HashSet::new();
    let mut tag = 0;
    for run in 0..1 + r.below(2) {
        let mut g = Gen::new(r, GenCfg { shapes: 4, metadata: false, ..GenCfg::default() });
        let mut a = AModel::default();
        for _ in 0..1 + g.r.below(4) {
            let mut id = term_id(g.r);
            if let Some(i) = id.find('$') {
                id.truncate(i);
            }
            let mut s = g.shape();
            if let AB::Struct(ms) | AB::Union(ms) = &mut s.body {
                ms.clear();
                for _ in 0..g.r.below(4) {
                    let n = term(g.r);
                    let mut m = g.member(&n);
                    if g.r.chance(1, 2) {
                        m.target = term_id(g.r);
                    }
                    while g.r.chance(1, 3) {
                        insert_ci(&mut m.traits, term_id(g.r), None);
                    }
                    insert_ci(ms, n, m);
                }
            }
            while g.r.chance(1, 3) {
                insert_ci(&mut s.traits, term_id(g.r), None);
            }
            insert_ci(&mut a.shapes, id, s);
        }
        let m = a.to();
        // in the order of the model's own iteration
        let mut said: Vec<(String, String)> = vec![];
        fn of_id(said: &mut Vec<(String, String)>, id: &str) {
            let (ns, rest) = id.split_once('#').unwrap();
            for part in ns.split('.').chain(rest.split('$')) {
                said.push((part.to_string(), id.to_string()));
            }
        }
        for s in m.shapes() {
            of_id(&mut said, &s.id().to_string());
            s.traits().keys().for_each(|t| of_id(&mut said, &t.to_string()));
            if let ShapeKind::Structure(b) | ShapeKind::Union(b) = s.body() {
                for m in b.members() {
                    said.push((m.id().to_string(), s.id().to_string()));
                    of_id(&mut said, &m.target().to_string());
                    m.traits().keys().for_each(|t| of_id(&mut said, &t.to_string()));
                }
            }
        }
        let mut want: Vec<(String, String)> = vec![];
        for (name, at) in said {
            if had.insert(name.to_lowercase()) {
                for w in name.to_snake_case().split('_') {
                    if ["blacklist", "kill", "master", "slave", "whitelist"].contains(&w) {
                        want.push((at.clone(), format!("'{}'", w)));
                    }
                }
            }
        }
        want.sort();
        tag += want.len();
        let from = l.issues().len();
        let res = l.check(&m);
        ensure!(res.is_ok(), format!("UnwelcomeTerms, run {}, on {:?}", run, a), "Ok", format!("{:?}", res));
        let new = &l.issues()[from..];
        let mut got: Vec<(String, String)> = new
            .iter()
            .map(|i| {
                let at = i.locus().as_ref().map(|l| l.to_string()).unwrap_or_default();
                (at, i.message().split(' ').find(|w| w.starts_with('\'')).unwrap_or("").to_string())
            })
            .collect();
        got.sort();
        ensure!(got == want, format!("UnwelcomeTerms, run {}, on {:?}", run, a), format!("{:?}", want), format!("{:?}", got));
        ensure!(
            new.iter().all(|i| *i.level() == IssueLevel::Warning && i.reporter() == "UnwelcomeTerms"),
            format!("UnwelcomeTerms, run {}, on {:?}", run, a),
            "warnings of UnwelcomeTerms",
            format!("{:?}", new)
        );
    }
    Ok(format!("{} issues", tag.min(6)))
}
pub fn c27() -> Vec<Sub> {
    vec![Sub { name: "terms", cases: (20000, 300000), what: "UnwelcomeTerms against the words of every identifier, once each", run: terms }]
}
