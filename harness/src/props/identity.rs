//! C01 and C02: the grammar, the text, the equality, hash and order of identities.
use crate::ensure;
use crate::rng::Rng;
use crate::{Res, Sub};
use atelier_core::model::{Identifier, NamespaceID, ShapeID};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::str::FromStr;

// ---------------------------------------------------------------- the grammar, written from the Smithy ABNF
pub fn ident_ok(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    let n = c.iter().take_while(|x| **x == '_').count();
    n < c.len() && c[n].is_ascii_alphabetic() && c[n..].iter().all(|x| *x == '_' || x.is_ascii_alphanumeric())
}
pub fn ns_ok(s: &str) -> bool {
    s.split('.').all(ident_ok)
}
/// (namespace, name, member)
pub fn shape_parts(s: &str) -> Option<(String, String, Option<String>)> {
    let i = s.find('#')?;
    let (ns, rest) = (&s[..i], &s[i + 1..]);
    let (name, member) = match rest.find('$') {
        Some(j) => (&rest[..j], Some(rest[j + 1..].to_string())),
        None => (rest, None),
    };
    if ns_ok(ns) && ident_ok(name) && member.as_ref().map(|m| ident_ok(m)).unwrap_or(true) {
        Some((ns.to_string(), name.to_string(), member))
    } else {
        None
    }
}
fn one(s: &str) -> Res {
    let q = format!("{:?}", s);
    // identifiers
    let want = ident_ok(s);
    ensure!(Identifier::is_valid(s) == want, q, format!("Identifier::is_valid is {}", want), !want);
    match Identifier::from_str(s) {
        Ok(i) => {
            ensure!(want, q, "no identifier", format!("{:?}", i));
            ensure!(i.to_string() == s, q, s, i.to_string());
            ensure!(i == Identifier::new_unchecked(s), q, "equal to the unchecked identifier", format!("{:?}", i));
        }
        Err(e) => ensure!(!want, q, "an identifier", e),
    }
    // namespaces
    let want = ns_ok(s);
    ensure!(NamespaceID::is_valid(s) == want, q, format!("NamespaceID::is_valid is {}", want), !want);
    match NamespaceID::from_str(s) {
        Ok(i) => {
            ensure!(want, q, "no namespace", format!("{:?}", i));
            ensure!(i.to_string() == s, q, s, i.to_string());
            ensure!(i == NamespaceID::new_unchecked(s), q, "equal to the unchecked namespace", format!("{:?}", i));
            let p: Vec<String> = i.split().map(|x| x.to_string()).collect();
            ensure!(p.join(".") == s && p.iter().all(|x| ident_ok(x)), q, "split() yields the identifiers of the namespace", format!("{:?}", p));
        }
        Err(e) => ensure!(!want, q, "a namespace", e),
    }
    // shape ids
    let want = shape_parts(s);
    ensure!(ShapeID::is_valid(s) == want.is_some(), q, format!("ShapeID::is_valid is {}", want.is_some()), want.is_none());
    match (ShapeID::from_str(s), want) {
        (Ok(i), Some((n, name, m))) => {
            let got = (i.namespace().to_string(), i.shape_name().to_string(), i.member_name().as_ref().map(|m| m.to_string()));
            ensure!(got == (n.clone(), name.clone(), m.clone()), q, format!("{:?}", (n, name, m)), format!("{:?}", got));
            ensure!(i.to_string() == s, q, s, i.to_string());
            ensure!(i.is_member() == m.is_some(), q, m.is_some(), i.is_member());
            let u = ShapeID::new_unchecked(&n, &name, m.as_deref());
            ensure!(u == i && u.to_string() == s, q, s, format!("new_unchecked of the parts: {}", u));
            let c = ShapeID::new(n.parse().unwrap(), name.parse().unwrap(), m.as_ref().map(|m| m.parse().unwrap()));
            ensure!(c == i && c.to_string() == s, q, s, format!("new of the parts: {}", c));
            let only = format!("{}#{}", n, name);
            ensure!(i.shape_only().to_string() == only && ShapeID::shape(&n, &name).to_string() == only, q, only, format!("{} {}", i.shape_only(), ShapeID::shape(&n, &name)));
            if let Some(m) = &m {
                ensure!(ShapeID::member(&n, &name, m) == i && ShapeID::member(&n, &name, m).to_string() == s, q, s, format!("{}", ShapeID::member(&n, &name, m)));
                let base = ShapeID::shape(&n, &name);
                ensure!(base.make_member(m.parse().unwrap()).to_string() == s, q, s, base.make_member(m.parse().unwrap()));
                ensure!(base.is_valid_member(&i) && !i.is_valid_member(&base) && !base.is_valid_member(&base), q, "a member of its shape, and not the other way", "otherwise");
            }
            ensure!(i.make_member("zz".parse().unwrap()).to_string() == format!("{}$zz", only), q, format!("{}$zz", only), i.make_member("zz".parse().unwrap()));
            let mk = format!("{}#Zz{}", n, m.as_ref().map(|m| format!("${}", m)).unwrap_or_default());
            ensure!(i.make_shape("Zz".parse().unwrap()).to_string() == mk, q, mk, i.make_shape("Zz".parse().unwrap()));
            let ns: NamespaceID = n.parse().unwrap();
            ensure!(ns.make_shape(name.parse().unwrap()).to_string() == only, q, only, ns.make_shape(name.parse().unwrap()));
            ensure!(ns.make_member(name.parse().unwrap(), "m".parse().unwrap()).to_string() == format!("{}$m", only), q, format!("{}$m", only), "otherwise");
        }
        (Err(_), None) => {}
        (a, b) => ensure!(false, q, format!("{:?}", b), format!("{:?}", a)),
    }
    Ok(q)
}
const ALPHA: [char; 11] = ['a', '_', '.', '#', '$', '0', 'Z', '-', '\u{e9}', ' ', '\n'];
/// every string over 11 characters, by number
fn exhaustive(case: u64, _r: &mut Rng) -> Res {
    // strings of length n start at (11^n - 1) / 10
    let (mut n, mut first, mut count) = (0u32, 0u64, 1u64);
    while case >= first + count {
        first += count;
        count *= 11;
        n += 1;
    }
    let mut k = case - first;
    let mut s = String::new();
    for _ in 0..n {
        s.push(ALPHA[(k % 11) as usize]);
        k /= 11;
    }
    one(&s)
}
/// names that mean something to some part of the code
const KNOWN: [&str; 23] = [
    "smithy", "api", "urn", "URN", "ns", "Smithy", "smithyx", "xsmithy", "example", "aws", "member", "key", "value", "String", "string", "prelude", "true", "null", "use", "service",
    "a0", "__a", "_x",
];
fn gen_ident(r: &mut Rng) -> String {
    if r.chance(1, 8) {
        return r.pick(&KNOWN).to_string();
    }
    // now and then far longer than names usually are
    let long = r.chance(1, 40);
    let mut s = "_".repeat(if r.chance(1, 3) { r.below(if long { 40 } else { 3 }) } else { 0 });
    s.push(*r.pick(&['a', 'Z', 'm', 'Q', 'k', 'i', 's']));
    for _ in 0..r.below(if long { 300 } else { 8 }) {
        s.push(*r.pick(&['a', 'B', 'z', '0', '9', '_', 'K', 'I', 's', 'S']));
    }
    s
}
fn gen_ns(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        return r.pick(&["smithy", "smithy.api", "urn", "smithy.smithy", "smithy.urn", "smithy.api.test"]).to_string();
    }
    let parts = if r.chance(1, 20) { 40 } else { 4 };
    (0..1 + r.below(parts)).map(|_| gen_ident(r)).collect::<Vec<_>>().join(".")
}
pub fn gen_id(r: &mut Rng) -> String {
    let mut s = format!("{}#{}", gen_ns(r), gen_ident(r));
    if r.chance(1, 3) {
        s += &format!("${}", gen_ident(r));
    }
    s
}
/// valid texts, and texts one edit away
fn edited(_c: u64, r: &mut Rng) -> Res {
    let s = match r.below(4) {
        0 => gen_ident(r),
        1 => gen_ns(r),
        _ => gen_id(r),
    };
    one(&s)?;
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(2) {
        let x = *r.pick(&['_', '.', '#', '$', '0', 'a', ' ', '\n', '\u{e9}', '\u{661}', '\u{212a}', '-', '/', ':', '@', '[', '`', '{', '^', '\\', '\0', '%']);
        let i = r.below(c.len() + 1);
        match r.below(3) {
            0 => c.insert(i, x),
            1 if i < c.len() => c[i] = x,
            _ if i < c.len() => {
                c.remove(i);
            }
            _ => c.push(x),
        }
    }
    one(&c.iter().collect::<String>())
}
pub fn c01() -> Vec<Sub> {
    vec![
        Sub { name: "exhaustive", cases: (177_156 + 100_000, 21_435_889), what: "every string over 11 characters, shortest first (quick: all up to length 5; thorough: all up to length 7)", run: exhaustive },
        Sub { name: "edited", cases: (60_000, 2_000_000), what: "valid texts and texts one or two edits away from valid", run: edited },
    ]
}

// ---------------------------------------------------------------- C02
fn recase(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.chance(1, 3) { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect()
}
fn near(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let i: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_alphanumeric()).collect();
    let i = *r.pick(&i);
    if c[i].is_ascii_alphabetic() {
        c[i] = *r.pick(&['a', 'b', 'Z', 'y']);
    } else {
        c[i] = *r.pick(&['0', '1', '_', 'x']);
    }
    c.into_iter().collect()
}
fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
fn laws<T: Clone + Eq + Ord + Hash + std::fmt::Debug>(v: &[(String, T)]) -> Res {
    let q = format!("{:?}", v.iter().map(|x| &x.0).collect::<Vec<_>>());
    for (s, a) in v {
        for (t, b) in v {
            let want = s.eq_ignore_ascii_case(t);
            let c = format!("{} == {} in {}", s, t, q);
            ensure!((a == b) == want, c, want, a == b);
            ensure!((a != b) == !want, c, format!("!= is {}", !want), a != b);
            ensure!(!want || h(a) == h(b), c, "equal hashes", "different hashes");
            ensure!((a.cmp(b) == Ordering::Equal) == want, c, "cmp is Equal exactly when equal", format!("{:?}", a.cmp(b)));
            ensure!(b.cmp(a) == a.cmp(b).reverse(), c, format!("{:?}", a.cmp(b).reverse()), format!("{:?}", b.cmp(a)));
            ensure!(a.partial_cmp(b) == Some(a.cmp(b)), c, format!("{:?}", Some(a.cmp(b))), format!("{:?}", a.partial_cmp(b)));
            for (u, x) in v {
                ensure!(!(a <= b && b <= x) || a <= x, format!("{} <= {} <= {}", s, t, u), format!("{} <= {}", s, u), "not");
            }
        }
    }
    let mut hm = HashMap::new();
    let mut bm = BTreeMap::new();
    for (s, a) in v {
        let x = hm.insert(a.clone(), s.to_ascii_lowercase());
        let y = bm.insert(a.clone(), s.to_ascii_lowercase());
        ensure!(x == y && x.map(|x| x == s.to_ascii_lowercase()).unwrap_or(true), format!("insert {} of {}", s, q), "the same earlier entry in a hash and a tree map", "otherwise");
    }
    for (s, a) in v {
        let l = Some(s.to_ascii_lowercase());
        ensure!(hm.get(a).cloned() == l && bm.get(a).cloned() == l, format!("get {} of {}", s, q), format!("{:?}", l), format!("{:?} {:?}", hm.get(a), bm.get(a)));
    }
    Ok(q)
}
fn law_texts(r: &mut Rng, s: String) -> Vec<String> {
    let mut v = vec![recase(r, &s), recase(r, &s), near(r, &s), s];
    let n = recase(r, &v[2]);
    v.push(n);
    r.shuffle(&mut v);
    v
}
fn ids(case: u64, r: &mut Rng) -> Res {
    match case % 3 {
        0 => {
            let s = gen_ident(r);
            laws(&law_texts(r, s).into_iter().map(|s| (s.clone(), Identifier::from_str(&s).unwrap())).collect::<Vec<_>>())
        }
        1 => {
            let s = gen_ns(r);
            laws(&law_texts(r, s).into_iter().map(|s| (s.clone(), NamespaceID::from_str(&s).unwrap())).collect::<Vec<_>>())
        }
        _ => {
            let s = gen_id(r);
            let mut t = law_texts(r, s.clone());
            // the same shape with, without and with another member
            let base = s.split('$').next().unwrap().to_string();
            t.push(base.clone());
            t.push(format!("{}$m", base));
            t.push(recase(r, &format!("{}$m", base)));
            laws(&t.into_iter().map(|s| (s.clone(), ShapeID::from_str(&s).unwrap())).collect::<Vec<_>>())
        }
    }
}
pub fn c02() -> Vec<Sub> {
    vec![Sub { name: "laws", cases: (20_000, 800_000), what: "families of five to eight spellings of identifiers, namespaces and shape ids: pairwise and triple laws, and use as keys", run: ids }]
}
