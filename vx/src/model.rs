//! The extracted program: the real items of the source files, before and after the rewriting passes.
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

#[derive(Clone)]
pub struct FnItem {
    pub key: String,
    pub impl_idx: Option<usize>,
    pub sig: Signature,
    pub block: Block,
    pub file: String,
    pub line: usize,
    /// "real": a function of the source; "closure": a lifted closure; "hof": a function
    /// specialised to the closures passed at one call site
    pub kind: &'static str,
    pub origin: String,
    /// closures: position-specific facts for the synthesised contract
    pub requires_not_at_end: bool,
    pub leading_asserts: Vec<Expr>,
}

#[derive(Clone)]
pub struct ImplHdr {
    pub generics: Generics,
    pub self_ty: Type,
    pub self_name: String,
    pub trait_: Option<Path>,
    pub assoc: Vec<ImplItem>,
}

#[derive(Clone)]
pub struct StaticItem {
    pub name: String,
    pub ty: Type,
    pub expr: Expr,
}

#[derive(Default)]
pub struct Program {
    pub structs: Vec<ItemStruct>,
    pub enums: Vec<ItemEnum>,
    pub statics: Vec<StaticItem>,
    pub dropped_statics: BTreeSet<String>,
    pub traits: Vec<ItemTrait>,
    pub aliases: Vec<ItemType>,
    pub impls: Vec<ImplHdr>,
    pub fns: Vec<FnItem>,
    pub tmacro: BTreeMap<String, String>,
    pub modules: BTreeSet<String>,
    pub notes: Vec<String>,
    pub unsupported: Vec<String>,
    pub parse_fns: Vec<String>,
    pub seen: BTreeSet<String>,
}

impl Program {
    pub fn note(&mut self, s: String) {
        if !self.notes.contains(&s) {
            self.notes.push(s)
        }
    }
}
