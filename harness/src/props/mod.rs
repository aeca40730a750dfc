use crate::Sub;
mod actions;
mod builder;
mod identity;
mod json;
mod keywords;
mod lines;
mod merge;
mod mutate;
mod query;
mod registry;
mod select;
mod selbuild;
mod seltext;
mod urn;
mod visit;
pub fn subs(prop: &str) -> Vec<Sub> {
    match prop {
        "C01" => identity::c01(),
        "C02" => identity::c02(),
        "C03" => query::c03(),
        "C04" => merge::c04(),
        "C05" => merge::c05(),
        "C06" => merge::c06(),
        "C07" => merge::c07(),
        "C08" => query::c08(),
        "C09" => builder::c09(),
        "C10" => builder::c10(),
        "C11" => json::c11(),
        "C12" => json::c12(),
        "C14" => lines::c14(),
        "C15" => visit::c15(),
        "C16" => actions::c16(),
        "C17" => actions::c17(),
        "C18" => actions::c18(),
        "C27" => actions::c27(),
        "C19" => urn::c19(),
        "C21" => seltext::c21(),
        "C22" => select::c22(),
        "C23" => registry::c23(),
        "C24" => selbuild::c24(),
        "C25" => mutate::c25(),
        "C26" => keywords::c26(),
        _ => vec![],
    }
}
