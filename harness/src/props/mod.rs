//! Monitors of the properties
mod base;
mod bundle;
mod containers;
mod docs;
mod ids;
mod libs;
mod made;
mod native;
mod paths;
mod selfdesc;
mod source;
mod ston;
mod streams;
mod sys;
mod texts;
mod trees;
mod values;

use crate::Prop;

pub static ALL: &[Prop] = &[
    native::C01,
    values::C02,
    values::C03,
    values::C04,
    ids::C05,
    ids::C06,
    native::C07,
    libs::C08,
    sys::C09,
    sys::C10,
    sys::C11,
    libs::C12,
    containers::C13,
    texts::C14,
    texts::C15,
    paths::C16,
    paths::C17,
    trees::C18,
    source::C19,
    ston::C20,
    docs::C21,
    streams::C22,
    bundle::C23,
    texts::C24,
    made::C25,
    selfdesc::C26,
];

/// Experiments which may end the process
pub fn probe(args: &[String]) {
    match args.first().map(String::as_str) {
        Some("nesting") => containers::probe_nesting(),
        Some("facts") => bundle::probe_facts(),
        Some("stdout") => streams::probe_stdout(&args[1]),
        _ => std::process::exit(2),
    }
}
