//! Independent encoder of the containers, written after their published definitions.
use std::collections::{BTreeMap, BTreeSet};

use crate::model::*;

/// Way in which the references are written
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum RefForm {
    /// Library references with limited nesting: inline (0), named (1), external (2); the innermost
    /// level has no inline form
    Lib(u8),
    /// Symbolic references
    Symbolic,
    /// Semantic ids
    Sem,
}

pub struct Wire<'w> {
    pub w: &'w World,
    pub ids: &'w [Id],
    pub lib_ids: &'w [Id],
}

pub fn name(out: &mut Vec<u8>, s: &str) {
    out.push(s.len() as u8);
    out.extend(s.as_bytes());
}

impl Wire<'_> {
    fn refer(&self, out: &mut Vec<u8>, lib: usize, t: TId, form: RefForm) {
        let n = &self.w.nodes[t];
        let ext = n.lib != lib;
        match form {
            RefForm::Sem => out.extend(self.ids[t]),
            RefForm::Lib(level) => {
                let base = if level == 3 { 0 } else { 1 };
                match &n.name {
                    None => {
                        assert!(level < 3, "harness: nesting");
                        out.push(0);
                        self.ty(out, lib, t, RefForm::Lib(level + 1));
                    }
                    Some(_) if ext => {
                        out.push(base + 1);
                        out.extend(self.lib_ids[n.lib]);
                        out.extend(self.ids[t]);
                    }
                    Some(_) => {
                        out.push(base);
                        out.extend(self.ids[t]);
                    }
                }
            }
            RefForm::Symbolic => match &n.name {
                None => {
                    out.push(0);
                    self.ty(out, lib, t, form);
                }
                Some(nm) if ext => {
                    out.push(2);
                    name(out, &self.w.libs[n.lib]);
                    name(out, nm);
                    out.extend(self.lib_ids[n.lib]);
                    out.extend(self.ids[t]);
                }
                Some(nm) => {
                    out.push(1);
                    name(out, nm);
                }
            },
        }
    }

    pub fn ty(&self, out: &mut Vec<u8>, lib: usize, t: TId, form: RefForm) {
        let sizing = |out: &mut Vec<u8>, a: u64, b: u64| {
            out.extend(a.to_le_bytes());
            out.extend(b.to_le_bytes());
        };
        match self.w.ty(t) {
            MTy::Prim(c) => out.extend([0, *c]),
            MTy::Unicode => out.push(1),
            MTy::Enum(v) => {
                out.extend([3, v.len() as u8]);
                for (n, t) in v {
                    name(out, n);
                    out.push(*t);
                }
            }
            MTy::Union(v) => {
                out.extend([4, v.len() as u8]);
                for (n, tag, t) in v {
                    out.push(*tag);
                    name(out, n);
                    self.refer(out, lib, *t, form);
                }
            }
            MTy::Tuple(f) => {
                out.extend([5, f.len() as u8]);
                for t in f {
                    self.refer(out, lib, *t, form);
                }
            }
            MTy::Struct(f) => {
                out.extend([6, f.len() as u8]);
                for (n, t) in f {
                    name(out, n);
                    self.refer(out, lib, *t, form);
                }
            }
            MTy::Array(t, l) => {
                out.push(7);
                self.refer(out, lib, *t, form);
                out.extend(l.to_le_bytes());
            }
            MTy::List(t, a, b) => {
                out.push(8);
                self.refer(out, lib, *t, form);
                sizing(out, *a, *b);
            }
            MTy::Set(t, a, b) => {
                out.push(9);
                self.refer(out, lib, *t, form);
                sizing(out, *a, *b);
            }
            MTy::Map(k, t, a, b) => {
                out.push(10);
                self.refer(out, lib, *k, form);
                self.refer(out, lib, *t, form);
                sizing(out, *a, *b);
            }
        }
    }

    fn dependency(&self, out: &mut Vec<u8>, l: usize) {
        out.extend(self.lib_ids[l]);
        name(out, &self.w.libs[l]);
    }

    fn header(&self, out: &mut Vec<u8>, l: usize) {
        name(out, &self.w.libs[l]);
        let deps: BTreeMap<Id, usize> = self
            .w
            .deps(l)
            .into_iter()
            .map(|d| (self.lib_ids[d], d))
            .collect();
        out.push(deps.len() as u8);
        for d in deps.into_values() {
            self.dependency(out, d);
        }
        let mut ext = BTreeMap::<&str, BTreeMap<Id, &str>>::new();
        for t in self.w.externs(l) {
            let n = &self.w.nodes[t];
            ext.entry(&self.w.libs[n.lib])
                .or_default()
                .insert(self.ids[t], n.name.as_deref().unwrap());
        }
        out.push(ext.len() as u8);
        for (lib, types) in ext {
            name(out, lib);
            out.extend((types.len() as u16).to_le_bytes());
            for (id, n) in types {
                out.extend(id);
                name(out, n);
            }
        }
    }

    pub fn lib(&self, l: usize) -> Vec<u8> {
        let mut out = vec![];
        self.header(&mut out, l);
        let named = self.w.named(l);
        out.extend((named.len() as u16).to_le_bytes());
        for t in named {
            name(&mut out, self.w.nodes[t].name.as_ref().unwrap());
            self.ty(&mut out, l, t, RefForm::Lib(0));
        }
        out
    }

    pub fn symbolic(&self, l: usize) -> Vec<u8> {
        let mut out = vec![];
        self.header(&mut out, l);
        let named = self.w.named(l);
        out.extend((named.len() as u64).to_le_bytes());
        for t in named {
            name(&mut out, self.w.nodes[t].name.as_ref().unwrap());
            self.ty(&mut out, l, t, RefForm::Symbolic);
        }
        out
    }

    pub fn system(&self, types: &BTreeSet<TId>) -> Vec<u8> {
        let m: BTreeMap<Id, TId> = types.iter().map(|t| (self.ids[*t], *t)).collect();
        let mut out = vec![];
        out.extend(&(m.len() as u32).to_le_bytes()[..3]);
        for (id, t) in m {
            out.extend(id);
            self.ty(&mut out, 0, t, RefForm::Sem);
        }
        out
    }

    /// Symbols of the system made of all libraries
    pub fn symbols(&self, types: &BTreeSet<TId>) -> Vec<u8> {
        let mut out = vec![];
        let libs: BTreeMap<Id, usize> = (0..self.w.libs.len()).map(|l| (self.lib_ids[l], l)).collect();
        out.extend((libs.len() as u16).to_le_bytes());
        for l in libs.into_values() {
            self.dependency(&mut out, l);
        }
        let syms: BTreeSet<(Id, Option<(&str, &str)>)> = types
            .iter()
            .map(|t| {
                let n = &self.w.nodes[*t];
                (self.ids[*t], n.name.as_deref().map(|s| (self.w.libs[n.lib].as_str(), s)))
            })
            .collect();
        out.extend(&(syms.len() as u32).to_le_bytes()[..3]);
        for (id, fqn) in syms {
            out.extend(id);
            match fqn {
                None => out.push(0),
                Some((l, n)) => {
                    out.push(1);
                    name(&mut out, l);
                    name(&mut out, n);
                }
            }
        }
        out
    }
}
