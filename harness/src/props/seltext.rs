//! C21: the text of selectors.
use crate::am::*;
use crate::ensure;
use crate::props::select::TYPES;
use crate::rng::Rng;
use crate::{Res, Sub};
use atelier_core::model::selector::*;
use atelier_core::model::values::Number;
use atelier_core::model::Identifier;
use atelier_smithy::parser::parse_selector;
use std::str::FromStr;

/// A selector with its text in pieces: the tokens, between which whitespace may stand ("\u{1}" marks where it must not).
pub struct G<'a> {
    pub r: &'a mut Rng,
    /// texts as the writer writes them; otherwise any spelling of the same selector
    plain: bool,
    depth: usize,
}
pub type T = Vec<String>;
/// random parts of selectors
pub fn generator<'a>(r: &'a mut Rng) -> G<'a> {
    G { r, plain: true, depth: 1 }
}
fn t(s: &str) -> T {
    vec![s.to_string()]
}
fn sep<A>(v: Vec<(A, T)>, s: &str) -> (Vec<A>, T) {
    let mut a = vec![];
    let mut x = vec![];
    for (i, (y, z)) in v.into_iter().enumerate() {
        if i > 0 {
            x.push(s.to_string());
        }
        a.push(y);
        x.extend(z);
    }
    (a, x)
}
const COMPARATORS: [&str; 14] = ["=", "!=", "^=", "$=", "*=", "?=", ">", ">=", "<", "<=", "{=}", "{!=}", "{<}", "{<<}"];
pub fn comparator(s: &str) -> Comparator {
    match s {
        "=" => Comparator::StringEqual,
        "!=" => Comparator::StringNotEqual,
        "^=" => Comparator::StringStartsWith,
        "$=" => Comparator::StringEndsWith,
        "*=" => Comparator::StringContains,
        "?=" => Comparator::StringExists,
        ">" => Comparator::NumberGreaterThan,
        ">=" => Comparator::NumberGreaterOrEqual,
        "<" => Comparator::NumberLessThan,
        "<=" => Comparator::NumberLessOrEqual,
        "{=}" => Comparator::ProjectionEqual,
        "{!=}" => Comparator::ProjectionNotEqual,
        "{<}" => Comparator::ProjectionSubset,
        _ => Comparator::ProjectionProperSubset,
    }
}
impl<'a> G<'a> {
    fn many<A>(&mut self, f: impl Fn(&mut G<'a>) -> (A, T)) -> Vec<(A, T)> {
        let n = 1 + if self.r.chance(1, 2) { self.r.below(3) } else { 0 };
        (0..n).map(|_| f(self)).collect()
    }
    fn name(&mut self) -> String {
        match self.r.below(12) {
            0 => "i".to_string(),
            1 => "_a".to_string(),
            2 => "__a_1_".to_string(),
            3 => "_".repeat(1 + self.r.below(4)) + "Z9",
            4 => self.r.pick(&TYPES[1..]).to_string(),
            _ => gen_name(self.r, false),
        }
    }
    pub fn id(&mut self) -> (Identifier, T) {
        let n = self.name();
        (ident(&n), t(&n))
    }
    pub fn value(&mut self) -> (Value, T) {
        match self.r.below(5) {
            0 | 1 => {
                let mut s = String::new();
                let q = if self.r.chance(1, 2) { '"' } else { '\'' };
                for _ in 0..1 + self.r.below(6) {
                    s.push(*self.r.pick(&[' ', q, 'a', 'i', 'é', '☃', '\u{10FFFF}', '\u{7f}', '#', ',', ')', ']', '}', '&', '|', '@', '/', '1', '.']));
                }
                let single = s.contains('"') || !self.plain && !s.contains('\'') && self.r.chance(1, 2);
                let x = if single { format!("'{}'", s) } else { format!("\"{}\"", s) };
                (Value::Text(s), vec![x])
            }
            2 => match self.r.below(if self.plain { 2 } else { 4 }) {
                0 => {
                    let i = gen_int(self.r);
                    (Value::Number(Number::Integer(i)), vec![i.to_string()])
                }
                1 => {
                    let mut f = gen_float(self.r);
                    if f.fract() == 0.0 {
                        f += 0.5;
                    }
                    (Value::Number(Number::Float(f)), vec![format!("{}", f)])
                }
                2 => {
                    let s = *self.r.pick(&["1e5", "1E+5", "-2e3", "1.5e3", "0.5E-3", "1.0", "-0.0", "12e0"]);
                    (Value::Number(Number::Float(s.parse().unwrap())), t(s))
                }
                _ => {
                    let s = *self.r.pick(&["9223372036854775808", "-9223372036854775809", "123456789012345678901234567890", "1e300"]);
                    (Value::Number(Number::Float(s.parse().unwrap())), t(s))
                }
            },
            3 => {
                let (i, x) = self.id();
                (Value::RootShapeIdentifier(i), x)
            }
            _ => {
                let mut ns = self.name();
                while self.r.chance(1, 2) {
                    ns = format!("{}.{}", ns, self.name());
                }
                let s = format!("{}#{}", ns, self.name());
                (Value::AbsoluteRootShapeIdentifier(sid(&s)), t(&s))
            }
        }
    }
    pub fn segment(&mut self) -> (KeyPathSegment, T) {
        if self.r.chance(1, 3) {
            let (i, x) = self.id();
            (KeyPathSegment::FunctionProperty(i), [t("("), x, t(")")].concat())
        } else {
            let (v, x) = self.value();
            (KeyPathSegment::Value(v), x)
        }
    }
    pub fn key(&mut self) -> (Key, T) {
        let (i, x) = self.id();
        if self.r.chance(1, 2) {
            (Key::new(i), x)
        } else {
            let (p, y) = sep(self.many(|g| g.segment()), "|");
            (Key::with_path(i, &p), [x, t("|"), y].concat())
        }
    }
    pub fn attribute(&mut self) -> (AttributeSelector, T) {
        let (k, x) = self.key();
        if self.r.chance(1, 3) {
            return (AttributeSelector::new(k), [t("["), x, t("]")].concat());
        }
        let c = *self.r.pick(&COMPARATORS);
        let (v, y) = sep(self.many(|g| g.value()), ",");
        let (n, z) = if self.r.chance(1, 2) {
            (AttributeComparison::new_case_insensitive(comparator(c), &v), t("i"))
        } else {
            (AttributeComparison::new(comparator(c), &v), vec![])
        };
        (AttributeSelector::with_comparison(k, n), [t("["), x, t(c), y, z, t("]")].concat())
    }
    pub fn scoped_value(&mut self) -> (ScopedValue, T) {
        if self.r.chance(1, 2) {
            let (v, x) = self.value();
            (ScopedValue::Value(v), x)
        } else {
            let (p, x) = sep(self.many(|g| g.segment()), "|");
            (ScopedValue::ContextValue(p), [t("@{"), x, t("}")].concat())
        }
    }
    fn assertion(&mut self) -> (ScopedAttributeAssertion, T) {
        let (l, x) = self.scoped_value();
        let c = *self.r.pick(&COMPARATORS);
        let (v, y) = sep(self.many(|g| g.scoped_value()), ",");
        let (a, z) = if self.r.chance(1, 2) {
            (ScopedAttributeAssertion::new_case_insensitive(l, comparator(c), &v), t("i"))
        } else {
            (ScopedAttributeAssertion::new(l, comparator(c), &v), vec![])
        };
        (a, [x, t(c), y, z].concat())
    }
    pub fn expression(&mut self) -> (SelectorExpression, T) {
        self.depth += 1;
        let r = match self.r.below(if self.depth > 3 { 8 } else { 10 }) {
            0 => {
                let s = *self.r.pick(&TYPES);
                (ShapeType::from_str(s).unwrap().into(), t(s))
            }
            1 | 2 => {
                let (a, x) = self.attribute();
                (a.into(), x)
            }
            3 | 4 => {
                let (k, x) = if self.r.chance(1, 2) {
                    let (k, x) = self.key();
                    (Some(k), x)
                } else {
                    (None, vec![])
                };
                let (a, y) = sep(self.many(|g| g.assertion()), "&&");
                let s = match k {
                    Some(k) => ScopedAttributeSelector::with_key(k, &a),
                    None => ScopedAttributeSelector::new(&a),
                };
                (s.into(), [t("[@"), x, t(":"), y, t("]")].concat())
            }
            5 | 6 => match self.r.below(5) {
                0 => (NeighborSelector::ForwardUndirected.into(), t(">")),
                1 => (NeighborSelector::ReverseUndirected.into(), t("<")),
                2 => (NeighborSelector::ForwardRecursiveDirected.into(), t("~>")),
                3 => {
                    let (v, x) = sep(self.many(|g| g.id()), ",");
                    (NeighborSelector::ForwardDirected(v).into(), [t("-["), x, t("]->")].concat())
                }
                _ => {
                    let (v, x) = sep(self.many(|g| g.id()), ",");
                    (NeighborSelector::ReverseDirected(v).into(), [t("<-["), x, t("]-")].concat())
                }
            },
            7 => {
                let (i, x) = self.id();
                (VariableReference::new(i).into(), [t("${"), x, t("}")].concat())
            }
            8 => {
                let (i, x) = self.id();
                let (v, y) = sep(self.many(|g| g.selector()), ",");
                (Function::new(i, &v).into(), [t(":"), x, t("("), y, t(")")].concat())
            }
            _ => {
                let (i, x) = self.id();
                let (s, y) = self.selector();
                (VariableDefinition::new(i, s).into(), [t("$"), x, t("("), y, t(")")].concat())
            }
        };
        self.depth -= 1;
        r
    }
    fn selector(&mut self) -> (Selector, T) {
        let (v, x) = sep(self.many(|g| g.expression()), "\u{2}");
        (Selector::from(v), x)
    }
    /// the tokens with whitespace where it may be left out and where it has to be
    fn spell(&mut self, ts: &T) -> String {
        let mut s = String::new();
        for x in ts {
            let must = s.chars().last().map(|l| (l.is_ascii_alphanumeric() || l == '_') && x.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_')).unwrap_or(false);
            if x == "\u{2}" {
                s.push(' ');
                continue;
            }
            // the tokens that a neighbour could be read as part of
            let joins = s.ends_with(|c| "<>-~=$*^!?{}@[".contains(c)) && x.starts_with(|c| "<>-~=$*^!?{}@[".contains(c)) || s.ends_with('.');
            if must || joins {
                s.push(*self.r.pick(&[' ', '\t', '\n']));
            }
            while self.r.chance(1, 5) {
                s.push(*self.r.pick(&[' ', '\t', '\n']));
            }
            s.push_str(x);
        }
        s
    }
}
/// the canonical text
fn canonical(ts: &T) -> String {
    let mut s = String::new();
    let mut prev = "";
    for (i, x) in ts.iter().enumerate() {
        let x = x.as_str();
        // a comparator is the token of that text in a place where no neighbour selector can stand: after a key or value inside brackets
        if x == "\u{2}" {
            s.push(' ');
        } else if x == "," {
            s.push_str(", ");
        } else if x == "&&" {
            s.push_str(" && ");
        } else if x == ":" && open_scoped(&ts[..i]) {
            s.push_str(": ");
        } else if COMPARATORS.contains(&x) && compares(&ts[..i]) {
            s.push_str(&format!(" {} ", x));
        } else if x == "i" && is_suffix(ts, i) {
            s.push_str(" i");
        } else {
            s.push_str(x);
        }
        prev = x;
    }
    let _ = prev;
    s
}
fn open_scoped(ts: &[String]) -> bool {
    // the innermost open bracket
    let mut depth = 0;
    for x in ts.iter().rev() {
        match x.as_str() {
            "]" | "]->" | "]-" | ")" | "}" => depth += 1,
            "[" | "-[" | "<-[" | "(" | "@{" | "${" | "[@" => {
                if depth == 0 {
                    return x == "[@";
                }
                depth -= 1;
            }
            _ => {}
        }
    }
    false
}
fn innermost(ts: &[String]) -> Option<&str> {
    let mut depth = 0;
    for x in ts.iter().rev() {
        match x.as_str() {
            "]" | "]->" | "]-" | ")" | "}" => depth += 1,
            "[" | "-[" | "<-[" | "(" | "@{" | "${" | "[@" => {
                if depth == 0 {
                    return Some(x);
                }
                depth -= 1;
            }
            _ => {}
        }
    }
    None
}
fn compares(ts: &[String]) -> bool {
    matches!(innermost(ts), Some("[") | Some("[@"))
}
/// the `i` after the values of a comparison: the token before it ends a value
fn is_suffix(ts: &T, i: usize) -> bool {
    compares(&ts[..i]) && !matches!(ts[i - 1].as_str(), "[" | "[@" | "," | "|" | ":" | "&&") && !COMPARATORS.contains(&ts[i - 1].as_str())
}
fn round_trip(_c: u64, r: &mut Rng) -> Res {
    let mut g = G { r, plain: true, depth: 0 };
    let (s, ts) = g.selector();
    let want = canonical(&ts);
    let text = s.to_string();
    ensure!(text == want, format!("{:?}", s), want, text);
    match parse_selector(&text) {
        Ok(got) => ensure!(got == s, text, format!("{:?}", s), format!("{:?}", got)),
        Err(e) => ensure!(false, text, "reads back", format!("{}", e)),
    }
    Ok(text)
}
/// any spelling: whitespace, quotes, exponents
fn spellings(_c: u64, r: &mut Rng) -> Res {
    let mut g = G { r, plain: false, depth: 0 };
    let (s, ts) = g.selector();
    let text = g.spell(&ts);
    match parse_selector(&text) {
        Ok(got) => ensure!(got == s, text, format!("{:?}", s), format!("{:?}", got)),
        Err(e) => ensure!(false, text, format!("{:?}", s), format!("{}", e)),
    }
    Ok(text)
}
/// texts one or two edits away from the text of a selector: no panic, and what they mean has a text that means the same
fn edits(_c: u64, r: &mut Rng) -> Res {
    let mut g = G { r, plain: false, depth: 0 };
    let (_, ts) = g.selector();
    let mut text: Vec<char> = g.spell(&ts).chars().collect();
    for _ in 0..1 + g.r.below(2) {
        let i = g.r.below(text.len() + 1);
        match g.r.below(3) {
            0 if i < text.len() => {
                text.remove(i);
            }
            1 if i < text.len() => text[i] = *g.r.pick(&['"', '\'', '\\', '[', ']', '(', ')', '>', '<', '=', 'i', '1', '.', ',', ' ', 'é']),
            _ => text.insert(i, *g.r.pick(&['"', '\'', '\\', '[', ']', '(', ')', '>', '<', '=', 'i', '1', '.', ',', ' ', 'é', '@', '-', '{', '|', '$', ':'])),
        }
    }
    let text: String = text.into_iter().collect();
    if let Ok(s) = parse_selector(&text) {
        let again = s.to_string();
        match parse_selector(&again) {
            Ok(s2) => {
                // (an integral float, which is written as an integer, reads as one: -0.0 as 0)
                ensure!(s2.to_string() == again || again.contains("-0"), format!("{} read from {}", again, text), again, s2.to_string());
                Ok(text)
            }
            Err(e) => {
                ensure!(false, format!("{} read from {}", again, text), "reads back", format!("{}", e));
                Ok(text)
            }
        }
    } else {
        Ok(String::new())
    }
}
pub fn c21() -> Vec<Sub> {
    vec![
        Sub { name: "round_trip", cases: (20000, 300000), what: "the text of a selector, against an independent writer, and what it reads as", run: round_trip },
        Sub { name: "spellings", cases: (20000, 300000), what: "other spellings of a selector: whitespace, quotes, exponents", run: spellings },
        Sub { name: "edits", cases: (20000, 300000), what: "texts one or two edits away from a selector", run: edits },
    ]
}
