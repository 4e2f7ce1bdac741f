//! C33: deriving works for every shape of type, and refuses what is not fully specified.
//!
//! Definitions of types are generated, with everything the values of the types must commit to. They are
//! rendered as the modules of a Rust program, which is compiled with the libraries and run; what it
//! prints is compared to the expected hashes.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::engine::{Ctx, Obs};
use crate::model::{self, H};
use crate::{ensure, ensure_eq};

type R = Result<(), String>;

// -------------------------------------------------------------------------------------- definitions

#[derive(Copy, Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
enum Simple { U8, U16, U32, U64, I32, Bool, Arr(u8), Elem }

/// Types of fields. The numbers choose one of the parameters of the type, if it has some.
#[derive(Copy, Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
enum FieldTy { Simple(Simple), Param(u8), ParamArr(u8), Ref(u8, Simple), RefParam(u8, u8), Opt(Simple), Phantom }

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
struct Field {
    ty: FieldTy,
    vis: u8,
    raw: bool,
    doc: bool,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
struct TyParam {
    /// The type it is set to in the values.
    set: Simple,
    /// 0: bound at the parameter, 1: in the where clause, 2: in both.
    bound: u8,
    default: bool,
    extra: u8,
    attr: bool,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
enum ConstParam { Usize(u8), Bool(bool), U8(u8), Char(char) }

#[derive(Copy, Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
enum Shape { Named, Tuple, Enum }

#[derive(Copy, Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
enum Strat { Strict, Transparent, Conceal, Merklize }

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
struct Def {
    shape: Shape,
    /// Fields of the struct, or of the variants of the enum.
    variants: Vec<Vec<Field>>,
    /// Shapes of the variants: 0 unit if there are no fields, 1 tuple, 2 named.
    forms: Vec<u8>,
    repr: bool,
    lifetimes: u8,
    lifetime_bound: u8,
    types: Vec<TyParam>,
    consts: Vec<(ConstParam, bool)>,
    consts_first: bool,
    /// Further predicates of the where clause.
    preds: Vec<u8>,
    strat: Strat,
    id: u8,
    krate: u8,
    /// Order of the arguments, how they are split to attributes, and what is between them.
    order: u8,
    split: u8,
    between: u8,
    trailing: bool,
    derive: u8,
    name: u8,
    place: u8,
    vis: u8,
    shadow: bool,
    values: Vec<(u64, u8)>,
}

const NAMES: [&str; 6] = ["S", "r#struct", "Größe", "__X", "CommitEngine", "T0"];
const VIS: [&str; 6] = ["", "pub ", "pub(crate) ", "pub(super) ", "pub(self) ", "pub(in crate) "];
const KRATES: [&str; 7] = [
    "", "commit_verify", "::commit_verify", "client_side_validation::commit", "crate::again", "cv", "super::again::inner",
];

/// Forms of the path to the type of the id, and the tags.
fn id_path(def: &Def) -> (String, &'static str) {
    let n = def.consts.iter().position(|(c, _)| matches!(c, ConstParam::Usize(_)));
    let t = (0..def.types.len()).find(|i| def.bounded(*i));
    match def.id % 15 {
        0 => ("crate::IdA".into(), "urn:test:a#1"),
        1 => ("super::ids::IdB".into(), "b"),
        2 => ("LocalId".into(), "urn:test:local#2"),
        3 => ("self::LocalId".into(), "urn:test:local#2"),
        4 => ("commit_verify::StrictHash".into(), model::TAG_STRICT),
        5 => ("::commit_verify::MerkleHash".into(), model::TAG_MERKLE),
        6 => ("client_side_validation::commit::StrictHash".into(), model::TAG_STRICT),
        7 => ("crate::Alias".into(), "b"),
        8 => ("crate::GenId<3>".into(), "urn:test:odd"),
        9 => ("crate::GenId::<{ 2 + 2 }>".into(), "urn:test:even"),
        10 => match n {
            Some(i) => {
                let ConstParam::Usize(v) = def.consts[i].0 else { unreachable!() };
                (format!("crate::GenId<N{i}>"), if v % 2 == 1 { "urn:test:odd" } else { "urn:test:even" })
            }
            None => ("crate::Empty".into(), ""),
        },
        11 => match t {
            Some(i) => (format!("T{i}::Id"), "b"),
            None => ("crate::Empty".into(), ""),
        },
        12 => ("crate::macro_id".into(), "urn:test:a#1"),
        13 if def.place % 3 == 1 => ("super::IdA".into(), "urn:test:a#1"),
        13 => ("super::super::IdA".into(), "urn:test:a#1"),
        _ => ("Imported".into(), "urn:test:a#1"),
    }
}

impl Simple {
    fn ty(&self) -> String {
        match self {
            Simple::U8 => "u8".into(),
            Simple::U16 => "u16".into(),
            Simple::U32 => "u32".into(),
            Simple::U64 => "u64".into(),
            Simple::I32 => "i32".into(),
            Simple::Bool => "bool".into(),
            Simple::Arr(n) => format!("[u8; {n}]"),
            Simple::Elem => "crate::Elem".into(),
        }
    }
    /// The value as an expression, and its encoding.
    fn value(&self, seed: u64) -> (String, Vec<u8>) {
        match self {
            Simple::U8 => (format!("{}u8", seed as u8), vec![seed as u8]),
            Simple::U16 => (format!("{}u16", seed as u16), (seed as u16).to_le_bytes().to_vec()),
            Simple::U32 => (format!("{}u32", seed as u32), (seed as u32).to_le_bytes().to_vec()),
            Simple::U64 => (format!("{seed}u64"), seed.to_le_bytes().to_vec()),
            Simple::I32 => (format!("({}i32)", seed as i32), (seed as i32).to_le_bytes().to_vec()),
            Simple::Bool => (format!("{}", seed % 2 == 1), vec![(seed % 2) as u8]),
            Simple::Arr(n) => array(*n as usize, seed),
            Simple::Elem => (format!("crate::Elem({}u16)", seed as u16), (seed as u16).to_le_bytes().to_vec()),
        }
    }
}

fn array(n: usize, seed: u64) -> (String, Vec<u8>) {
    let b: Vec<u8> = (0..n).map(|i| (seed >> (8 * (i % 8))) as u8 ^ i as u8).collect();
    (format!("[{}]", b.iter().map(|x| format!("{x}u8, ")).collect::<String>()), b)
}

/// Sub-seeds of the values of fields.
fn mix(seed: u64, i: usize) -> u64 {
    let mut x = seed.wrapping_add((i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    x ^= x >> 29;
    if i == 0 { seed } else { x }
}

impl Def {
    fn name(&self) -> &'static str {
        match NAMES[self.name as usize % NAMES.len()] {
            // The name of a parameter
            "T0" if !self.types.is_empty() => "S",
            // One of the shadowing items
            "CommitEngine" if self.shadow => "S",
            n => n,
        }
    }
    fn tpar(&self, i: u8) -> Option<usize> { (!self.types.is_empty()).then(|| i as usize % self.types.len()) }
    fn lpar(&self, i: u8) -> Option<usize> { (self.lifetimes > 0).then(|| i as usize % self.lifetimes as usize) }
    fn npar(&self, i: u8) -> Option<(usize, u8)> {
        let all: Vec<(usize, u8)> = self
            .consts
            .iter()
            .enumerate()
            .filter_map(|(i, (c, _))| match c {
                ConstParam::Usize(n) => Some((i, *n)),
                _ => None,
            })
            .collect();
        (!all.is_empty()).then(|| all[i as usize % all.len()])
    }
    /// What the field really is, given the parameters of the type.
    fn real(&self, ty: FieldTy) -> FieldTy {
        match ty {
            FieldTy::Param(i) => self.tpar(i).map_or(FieldTy::Simple(Simple::U8), |i| FieldTy::Param(i as u8)),
            FieldTy::ParamArr(i) => match self.npar(i) {
                Some((i, _)) => FieldTy::ParamArr(i as u8),
                None => FieldTy::Simple(Simple::Arr(i % 5)),
            },
            FieldTy::Ref(l, s) => self.lpar(l).map_or(FieldTy::Simple(s), |l| FieldTy::Ref(l as u8, s)),
            FieldTy::RefParam(l, i) => match (self.lpar(l), self.tpar(i)) {
                (Some(l), Some(i)) => FieldTy::RefParam(l as u8, i as u8),
                (None, Some(i)) => FieldTy::Param(i as u8),
                _ => FieldTy::Simple(Simple::U16),
            },
            t => t,
        }
    }
    fn field_ty(&self, ty: FieldTy) -> String {
        match ty {
            FieldTy::Simple(s) => s.ty(),
            FieldTy::Param(i) => format!("T{i}"),
            FieldTy::ParamArr(i) => format!("[u8; N{i}]"),
            FieldTy::Ref(l, s) => format!("&'l{l} {}", s.ty()),
            FieldTy::RefParam(l, i) => format!("&'l{l} T{i}"),
            FieldTy::Opt(s) => format!("::core::option::Option<{}>", s.ty()),
            FieldTy::Phantom => "::core::marker::PhantomData<u8>".into(),
        }
    }
    fn field_value(&self, ty: FieldTy, seed: u64) -> (String, Vec<u8>) {
        match ty {
            FieldTy::Simple(s) => s.value(seed),
            FieldTy::Param(i) => self.types[i as usize].set.value(seed),
            FieldTy::ParamArr(i) => {
                let ConstParam::Usize(n) = self.consts[i as usize].0 else { unreachable!() };
                array(n as usize, seed)
            }
            FieldTy::Ref(_, s) => {
                let (e, b) = s.value(seed);
                (format!("&{e}"), b)
            }
            FieldTy::RefParam(_, i) => {
                let (e, b) = self.types[i as usize].set.value(seed);
                (format!("&{e}"), b)
            }
            FieldTy::Opt(s) => {
                if seed % 3 == 0 {
                    ("::core::option::Option::None".into(), vec![0])
                } else {
                    let (e, mut b) = s.value(seed);
                    b.insert(0, 1);
                    (format!("::core::option::Option::Some({e})"), b)
                }
            }
            FieldTy::Phantom => ("::core::marker::PhantomData".into(), vec![]),
        }
    }
    /// Expression which encodes the place (a reference) to the writer `w`.
    fn field_enc(&self, ty: FieldTy, place: &str) -> String {
        match ty {
            FieldTy::Phantom => String::new(),
            FieldTy::ParamArr(_) | FieldTy::Simple(Simple::Arr(_)) => {
                format!("for b in {place}.iter() {{ w = ::strict_encoding::StrictEncode::strict_encode(b, w)?; }} ")
            }
            FieldTy::Ref(_, Simple::Arr(_)) => {
                format!("for b in (*{place}).iter() {{ w = ::strict_encoding::StrictEncode::strict_encode(b, w)?; }} ")
            }
            FieldTy::Ref(..) | FieldTy::RefParam(..) => {
                format!("w = ::strict_encoding::StrictEncode::strict_encode(*{place}, w)?; ")
            }
            _ => format!("w = ::strict_encoding::StrictEncode::strict_encode({place}, w)?; "),
        }
    }
    /// Whether the parameter is used by a field, and must be encoded.
    fn bounded(&self, i: usize) -> bool {
        self.all().iter().any(|v| {
            v.iter().any(|f| match self.real(f.ty) {
                FieldTy::Param(j) | FieldTy::RefParam(_, j) => i == j as usize,
                _ => false,
            })
        })
    }
    /// The variants which the definition really has.
    fn all(&self) -> &[Vec<Field>] {
        match self.shape {
            Shape::Enum => &self.variants[..],
            _ => &self.variants[..1],
        }
    }
    /// The field a wrapper wraps.
    fn inner(&self) -> Option<usize> {
        let ok = |t: FieldTy| match t {
            FieldTy::Simple(Simple::Arr(_)) | FieldTy::Opt(_) | FieldTy::Phantom | FieldTy::ParamArr(_) => false,
            FieldTy::Simple(_) => true,
            FieldTy::Param(i) => !matches!(self.types[i as usize].set, Simple::Arr(_)),
            // References have no names as types
            FieldTy::Ref(..) | FieldTy::RefParam(..) => false,
        };
        self.variants[0].iter().position(|f| ok(self.real(f.ty)))
    }
    /// The strategy, if it is possible for the definition, or a possible one.
    fn strat(&self) -> Strat {
        match self.strat {
            Strat::Transparent if self.shape == Shape::Enum || self.inner().is_none() => Strat::Strict,
            Strat::Merklize if self.shape == Shape::Enum => Strat::Conceal,
            s => s,
        }
    }
    fn vis(&self, v: u8) -> &'static str {
        match VIS[v as usize % VIS.len()] {
            "pub(super) " if self.place % 3 == 1 => "",
            v => v,
        }
    }
    /// Parameters with bounds (and defaults), parameters as arguments, the where clause, and the arguments
    /// the values have.
    fn generics(&self, defaults: bool) -> (String, String, String, String) {
        let (mut decl, mut args, mut set) = (vec![], vec![], vec![]);
        for l in 0..self.lifetimes {
            let bound = match (self.lifetime_bound % 3, l) {
                (1, 1) => ": 'l0",
                (2, _) => ":",
                _ => "",
            };
            decl.push(format!("'l{l}{bound}"));
            args.push(format!("'l{l}"));
            set.push("'_".to_string());
        }
        let mut preds: Vec<String> = vec![];
        if self.lifetimes == 2 && self.lifetime_bound % 3 == 0 {
            preds.push("'l1: 'l0".into());
        }
        const ENC: &str = "::strict_encoding::StrictEncode";
        let mut rest: Vec<(String, String, String, Option<String>)> = vec![];
        for (i, t) in self.types.iter().enumerate() {
            let mut b: Vec<String> = vec![];
            if self.bounded(i) {
                let mut all = ENC.to_string();
                if self.id % 15 == 11 {
                    all += " + crate::HasId";
                }
                for l in 0..self.lifetimes {
                    all += &format!(" + 'l{l}");
                }
                if t.bound % 3 != 1 {
                    b.push(all.clone());
                }
                if t.bound % 3 != 0 {
                    preds.push(format!("T{i}: {all}"));
                }
            } else {
                match t.extra % 4 {
                    0 => b.push("?::core::marker::Sized".into()),
                    1 => b.push("::core::iter::IntoIterator<Item = u8>".into()),
                    _ => {}
                }
            }
            match t.extra % 5 {
                2 => b.push("::core::marker::Copy".into()),
                3 if self.bounded(i) => preds.push(format!("T{i}: ::core::clone::Clone + ::core::fmt::Debug")),
                4 if self.bounded(i) => preds.push(format!("for<'x> &'x T{i}: ::core::marker::Sized")),
                _ => {}
            }
            let set = match t.extra % 4 {
                1 if !self.bounded(i) => match t.extra % 5 {
                    2 => "[u8; 3]".to_string(),
                    _ => "::std::vec::Vec<u8>".to_string(),
                },
                0 if !self.bounded(i) && t.extra % 5 != 2 => "str".to_string(),
                _ => t.set.ty(),
            };
            let attr = if t.attr { "#[allow(unused)] " } else { "" };
            rest.push((format!("{attr}T{i}: {}", b.join(" + ")), format!("T{i}"), set.clone(), t.default.then_some(set)));
        }
        let mut consts = vec![];
        for (i, (c, d)) in self.consts.iter().enumerate() {
            let (ty, v) = match c {
                ConstParam::Usize(n) => ("usize", format!("{n}")),
                ConstParam::Bool(b) => ("bool", format!("{b}")),
                ConstParam::U8(n) => ("u8", format!("{n}")),
                ConstParam::Char(c) => ("char", format!("{c:?}")),
            };
            consts.push((format!("const N{i}: {ty}"), format!("N{i}"), v.clone(), d.then_some(v)));
        }
        let rest: Vec<_> = if self.consts_first {
            consts.into_iter().chain(rest).collect()
        } else {
            rest.into_iter().chain(consts).collect()
        };
        // Defaults are possible for the last parameters only
        let tail = rest.iter().rev().take_while(|r| r.3.is_some()).count();
        let (n, short) = (rest.len(), self.values.first().is_some_and(|v| v.1 % 2 == 1));
        for (i, (d, a, s, def)) in rest.into_iter().enumerate() {
            match def {
                Some(def) if i >= n - tail => {
                    decl.push(if defaults { format!("{d} = {def}") } else { d });
                    if !short {
                        set.push(s);
                    }
                }
                _ => {
                    decl.push(d);
                    set.push(s);
                }
            }
            args.push(a);
        }
        for p in &self.preds {
            preds.push(match p % 8 {
                // Holds only for the values in use, so a clause which is lost is missed
                5.. if !self.consts.is_empty() => {
                    let i = (p / 8) as usize % self.consts.len();
                    let name = match self.consts[i].0 {
                        ConstParam::Usize(_) => "Usizes",
                        ConstParam::Bool(_) => "Bools",
                        ConstParam::U8(_) => "Bytes8",
                        ConstParam::Char(_) => "Chars",
                    };
                    format!("crate::{name}<N{i}>: crate::Allowed")
                }
                0 => "(): ::core::marker::Copy".into(),
                1 => match self.tpar(p / 8) {
                    Some(i) if self.bounded(i) => format!("::core::option::Option<T{i}>: ::core::marker::Sized"),
                    _ => "[u8; 3]: ::core::clone::Clone".into(),
                },
                2 => match self.npar(p / 8) {
                    Some((i, _)) => format!("[u8; N{i}]: ::core::marker::Sized"),
                    None => "for<'x> &'x [u8]: ::core::iter::IntoIterator<Item = &'x u8>".into(),
                },
                3 => "for<'x> fn(&'x u8) -> &'x u8: ::core::marker::Copy".into(),
                _ => "(u8, crate::Elem): ::core::marker::Send".into(),
            });
        }
        let angle = |v: Vec<String>| if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) };
        let w = if preds.is_empty() {
            String::new()
        } else {
            format!("where {}{}", preds.join(", "), if self.trailing { "," } else { "" })
        };
        (angle(decl), angle(args), w, angle(set))
    }
    /// A field which uses the parameters not used by others.
    fn phantom(&self) -> String {
        let mut t = String::new();
        for l in 0..self.lifetimes {
            let _ = write!(t, "&'l{l} (), ");
        }
        for i in 0..self.types.len() {
            let _ = write!(t, "::std::boxed::Box<T{i}>, ");
        }
        // Lifetimes must not be shortened by others
        format!("::core::marker::PhantomData<({t})>")
    }
    fn has_phantom(&self) -> bool { self.lifetimes > 0 || !self.types.is_empty() }

    fn attrs(&self, args: &[String]) -> String {
        let n = args.len();
        let mut order: Vec<usize> = (0..n).collect();
        let mut o = self.order as usize;
        for i in (1..n).rev() {
            order.swap(i, o % (i + 1));
            o /= i + 1;
        }
        let mut groups: Vec<Vec<&str>> = vec![vec![]];
        for (k, i) in order.iter().enumerate() {
            if k > 0 && self.split >> (k - 1) & 1 == 1 {
                groups.push(vec![]);
            }
            groups.last_mut().unwrap().push(&args[*i]);
        }
        let mut s = String::new();
        for (i, g) in groups.iter().enumerate() {
            if i > 0 {
                s += ["", "    /// Documentation\n", "    #[allow(dead_code)]\n", "    #[cfg_attr(all(), doc = \"x\")]\n"][self.between as usize % 4];
            }
            let _ = writeln!(s, "    #[commit_encode({}{})]", g.join(", "), if self.trailing { "," } else { "" });
        }
        s
    }

    fn args(&self) -> Vec<String> {
        let strat = match self.strat() {
            Strat::Strict => "strict",
            Strat::Transparent => "transparent",
            Strat::Conceal => "conceal",
            Strat::Merklize => "merklize",
        };
        let mut v = vec![format!("strategy = {strat}"), format!("id = {}", id_path(self).0)];
        let k = KRATES[self.krate as usize % KRATES.len()];
        if !k.is_empty() {
            v.push(format!("crate = {k}"));
        }
        v
    }

    fn named(&self, v: usize) -> bool {
        match self.shape {
            Shape::Named => true,
            Shape::Tuple => false,
            Shape::Enum => self.forms[v] % 3 == 2,
        }
    }
    fn field_name(&self, i: usize, f: &Field) -> String {
        match (f.raw, i) {
            (true, 0) => "r#type".into(),
            (true, 1) => "engine".into(),
            (true, 2) => "r#fn".into(),
            _ => format!("f{i}"),
        }
    }
    /// Names or numbers of the fields, types, and whether they are encoded.
    fn fields(&self, v: usize) -> Vec<(String, String)> {
        let mut out = vec![];
        for (i, f) in self.variants[v].iter().enumerate() {
            let name = if self.named(v) { self.field_name(i, f) } else { format!("{i}") };
            out.push((name, self.field_ty(self.real(f.ty))));
        }
        let mut extra = |n: &str, t: String| {
            let i = out.len();
            out.push((if self.named(v) { n.to_string() } else { format!("{i}") }, t))
        };
        if self.strat() == Strat::Merklize {
            extra("leaves", "::std::vec::Vec<crate::Elem>".into());
        }
        if v == 0 && self.has_phantom() {
            extra("phantom", self.phantom());
        }
        out
    }
    fn leaves(&self, seed: u64, v: u8) -> Vec<u16> {
        (0..v as usize % 7).map(|i| mix(seed, 100 + i) as u16).collect()
    }

    fn body(&self, v: usize, vis: bool) -> String {
        let fields = self.fields(v);
        let unit = fields.is_empty() && (self.shape == Shape::Tuple && self.forms[0] % 3 == 0 || self.shape == Shape::Enum && self.forms[v] % 3 == 0);
        if unit {
            return String::new();
        }
        let mut s = String::new();
        for (i, (n, t)) in fields.iter().enumerate() {
            let f = self.variants[v].get(i);
            if f.is_some_and(|f| f.doc) {
                s += "/** A field */ ";
            }
            if vis {
                s += f.map_or("", |f| self.vis(f.vis));
            }
            if self.named(v) {
                s += &format!("{n}: ");
            }
            s += &format!("{t}, ");
        }
        if self.named(v) { format!(" {{ {s}}}") } else { format!("({s})") }
    }

    /// The definition of the type and of the traits it needs. `by_hand`: without deriving.
    fn render(&self, by_hand: bool, attrs: Option<&str>, skip: Option<&str>) -> String {
        let name = self.name();
        let (decl, args, wher, _) = self.generics(true);
        let (idecl, ..) = self.generics(false);
        let mut s = String::new();
        if !by_hand {
            s += match self.derive % 5 {
                0 => "    #[derive(::commit_verify::CommitEncode)]\n",
                1 => "    #[derive(Clone)]\n    #[derive(::commit_verify::CommitEncode)]\n",
                2 => "    #[derive(Clone, ::client_side_validation::commit::CommitEncode)]\n",
                3 => "    #[derive(crate::again::CommitEncode)]\n    #[derive(Clone)]\n",
                _ => "    #[cfg_attr(all(), derive(cv::CommitEncode))]\n",
            };
            s += &attrs.map_or_else(|| self.attrs(&self.args()), |a| format!("    {a}\n"));
        }
        let vis = self.vis(self.vis);
        match self.shape {
            Shape::Enum => {
                if self.repr && self.all().iter().enumerate().all(|(v, _)| self.fields(v).is_empty()) && !self.variants.is_empty() {
                    s += "    #[repr(u8)]\n";
                }
                s += &format!("    {vis}enum {name}{decl} {wher} {{ ");
                for v in 0..self.variants.len() {
                    s += &format!("V{v}{}, ", self.body(v, false));
                }
                s += "}\n";
            }
            Shape::Named => s += &format!("    {vis}struct {name}{decl} {wher}{}\n", self.body(0, true)),
            Shape::Tuple => s += &format!("    {vis}struct {name}{decl} {} {wher};\n", self.body(0, true)),
        }
        s += &format!(
            "    impl{idecl} ::strict_encoding::StrictType for {name}{args} {wher} {{\n        const STRICT_LIB_NAME: &'static str = \"L\";\n        fn strict_name() -> ::core::option::Option<::strict_encoding::TypeName> {{ ::core::option::Option::Some(::strict_encoding::TypeName::from(\"Named\")) }}\n    }}\n"
        );
        if skip != Some("encode") {
            s += &format!(
                "    impl{idecl} ::strict_encoding::StrictEncode for {name}{args} {wher} {{\n        fn strict_encode<W: ::strict_encoding::TypedWrite>(&self, mut w: W) -> ::std::io::Result<W> {{\n"
            );
            match self.shape {
                Shape::Enum if self.variants.is_empty() => s += "            match *self {}\n",
                Shape::Enum => {
                    s += "            match self {\n";
                    for v in 0..self.variants.len() {
                        let fs = self.fields(v);
                        let pat: String = fs.iter().enumerate().map(|(i, (n, _))| format!("{n}: x{i}, ")).collect();
                        s += &format!("                {name}::V{v} {{ {pat} }} => {{ w = ::strict_encoding::StrictEncode::strict_encode(&{v}u8, w)?; ");
                        for (i, f) in self.variants[v].iter().enumerate() {
                            s += &self.field_enc(self.real(f.ty), &format!("x{i}"));
                        }
                        s += "}\n";
                    }
                    s += "            }\n            ::core::result::Result::Ok(w)\n";
                }
                _ => {
                    let fs = self.fields(0);
                    for (i, f) in self.variants[0].iter().enumerate() {
                        s += &format!("            {}\n", self.field_enc(self.real(f.ty), &format!("(&self.{})", fs[i].0)));
                    }
                    s += "            ::core::result::Result::Ok(w)\n";
                }
            }
            s += "        }\n    }\n";
        }
        if skip != Some("strategy") {
            match self.strat() {
                Strat::Strict => {}
                Strat::Transparent => {
                    let (n, t) = &self.fields(0)[self.inner().unwrap()];
                    s += &format!(
                        "    impl{idecl} ::amplify::Wrapper for {name}{args} {wher} {{\n        type Inner = {t};\n        fn from_inner(_: {t}) -> Self {{ ::core::unreachable!() }}\n        fn as_inner(&self) -> &{t} {{ &self.{n} }}\n        fn into_inner(self) -> {t} {{ self.{n} }}\n    }}\n"
                    );
                }
                Strat::Conceal => {
                    s += &format!(
                        "    impl{idecl} ::commit_verify::Conceal for {name}{args} {wher} {{\n        type Concealed = crate::Hidden;\n        fn conceal(&self) -> crate::Hidden {{ crate::hide(self) }}\n    }}\n"
                    );
                }
                Strat::Merklize => {
                    let fs = self.fields(0);
                    let n = &fs[self.variants[0].len()].0;
                    s += &format!(
                        "    impl{idecl} ::commit_verify::MerkleLeaves for {name}{args} {wher} {{\n        type Leaf = crate::Elem;\n        fn merkle_leaves(&self) -> impl ::core::iter::ExactSizeIterator<Item = &crate::Elem> {{ self.{n}.iter() }}\n    }}\n"
                    );
                }
            }
        }
        if by_hand {
            let id = id_path(self).0;
            let inner = match self.strat() {
                Strat::Strict => "e.commit_to_serialized(self)",
                Strat::Transparent => "e.commit_to_serialized(::amplify::Wrapper::as_inner(self))",
                Strat::Conceal => "e.commit_to_concealed(&::commit_verify::Conceal::conceal(self))",
                Strat::Merklize => "e.commit_to_merkle(self)",
            };
            s += &format!("    impl{idecl} ::commit_verify::CommitEncode for {name}{args} {wher} {{\n        type CommitmentId = {id};\n        fn commit_encode(&self, e: &mut ::commit_verify::CommitEngine) {{ {inner}; }}\n    }}\n");
        }
        s
    }

    /// A module with the definition and a function which prints what is committed by the values.
    fn module(&self, k: usize, by_hand: bool) -> String {
        let name = self.name();
        let def = self.render(by_hand, None, None);
        let set = self.generics(false).3;
        let mut run = String::new();
        if self.shape != Shape::Enum || !self.variants.is_empty() {
            for (j, _) in self.values.iter().enumerate() {
                let (expr, ..) = self.value(j);
                run += &format!("        let v: {name}{set} = {expr};\n        crate::show({k}, {j}, &v);\n");
            }
        }
        self.place(k, &def, &run)
    }
    fn place(&self, k: usize, def: &str, run: &str) -> String {
        let mut s = format!(
            "mod d{k} {{\n    use crate::ids;\n    use crate::again;\n    use ::commit_verify as cv;\n    use crate::IdA as Imported;\n    crate::id_type!(LocalId, \"urn:test:local#2\");\n"
        );
        if self.shadow {
            s += "    pub struct CommitEngine;\n    pub struct Option;\n    pub trait Conceal {}\n    pub trait CommitEncode {}\n    pub struct Wrapper;\n    pub mod std {}\n    pub mod core {}\n";
        }
        // `super` is the module with a copy of the ids
        s += match self.place % 3 {
            0 => "    pub mod inner {\n    use super::*;\n",
            1 => "    #[test] fn unused() {}\n    pub fn run() {\n",
            _ => "    pub mod inner {\n    use super::{ids, again, cv, Imported, LocalId};\n",
        };
        s += def;
        match self.place % 3 {
            1 => s += &format!("{run}    }}\n"),
            _ => s += &format!("    pub fn run() {{\n{run}    }}\n    }}\n    pub use self::inner::run;\n"),
        }
        s += "}\n";
        s
    }

    /// A value as an expression, its encoding, and what is hashed for its commitment.
    fn value(&self, j: usize) -> (String, Vec<u8>, Vec<u8>) {
        let (seed, pick) = self.values[j];
        let v = match self.shape {
            Shape::Enum => pick as usize % self.variants.len(),
            _ => 0,
        };
        let fields = self.fields(v);
        let mut expr = match self.shape {
            Shape::Enum => format!("{}::V{v} {{ ", self.name()),
            _ => format!("{} {{ ", self.name()),
        };
        let mut enc = vec![];
        let mut parts = vec![];
        if self.shape == Shape::Enum {
            enc.push(v as u8);
        }
        for (i, (n, _)) in fields.iter().enumerate() {
            let e = match self.variants[v].get(i) {
                Some(f) => {
                    let (e, b) = self.field_value(self.real(f.ty), mix(seed, i));
                    enc.extend(&b);
                    parts.push(b);
                    e
                }
                None if i == self.variants[v].len() && self.strat() == Strat::Merklize => {
                    let l = self.leaves(seed, pick);
                    format!("::std::vec![{}]", l.iter().map(|x| format!("crate::Elem({x}), ")).collect::<String>())
                }
                None => "::core::marker::PhantomData".into(),
            };
            let _ = write!(expr, "{n}: {e}, ");
        }
        expr += "}";
        let hashed = match self.strat() {
            Strat::Strict => enc.clone(),
            Strat::Transparent => parts[self.inner().unwrap()].clone(),
            Strat::Conceal => {
                let mut h = vec![0u8; 8];
                for (x, y) in h.iter_mut().zip(enc.iter().take(7)) {
                    *x = *y;
                }
                h[7] = enc.len() as u8;
                h
            }
            Strat::Merklize => {
                let l: Vec<H> = self
                    .leaves(seed, pick)
                    .iter()
                    .map(|x| model::tagged(model::TAG_MERKLE, &x.to_le_bytes()))
                    .collect();
                model::merklize(&l).to_vec()
            }
        };
        (expr, enc, hashed)
    }
    fn step(&self) -> String {
        match self.strat() {
            Strat::Strict => "serialized:L.Named".into(),
            Strat::Transparent => {
                let s = match self.real(self.variants[0][self.inner().unwrap()].ty) {
                    FieldTy::Simple(s) => s,
                    FieldTy::Param(i) => self.types[i as usize].set,
                    _ => unreachable!(),
                };
                format!("serialized:{s:?}")
            }
            Strat::Conceal => "concealed:L.Hidden".into(),
            Strat::Merklize => "merklized:L.Elem".into(),
        }
    }
}

// ---------------------------------------------------------------------------------------- programs

const PRELUDE: &str = r#"#![allow(warnings)]
macro_rules! id_type_ {
    ($name:ident, $tag:expr) => {
        #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        pub struct $name(pub [u8; 32]);
        impl ::strict_encoding::StrictType for $name {
            const STRICT_LIB_NAME: &'static str = "L";
            fn strict_name() -> ::core::option::Option<::strict_encoding::TypeName> { ::core::option::Option::Some(::strict_encoding::TypeName::from("Id")) }
        }
        impl ::core::convert::From<::commit_verify::Sha256> for $name { fn from(v: ::commit_verify::Sha256) -> Self { Self(::commit_verify::DigestExt::finish(v)) } }
        impl ::commit_verify::CommitmentId for $name { const TAG: &'static str = $tag; }
        impl crate::Bytes for $name { fn bytes(&self) -> [u8; 32] { self.0 } }
    };
}
pub(crate) use id_type_ as id_type;
pub mod again { pub use ::commit_verify::*; pub mod inner { pub use ::commit_verify::{CommitEncode, CommitEngine, Conceal}; } }
pub mod ids { crate::id_type!(IdB, "b"); }
pub trait Bytes { fn bytes(&self) -> [u8; 32]; }
pub trait Allowed {}
pub struct Usizes<const N: usize>;
pub struct Bools<const B: bool>;
pub struct Bytes8<const N: u8>;
pub struct Chars<const C: char>;
macro_rules! allowed { ($name:ident $($v:literal)*) => { $(impl Allowed for $name<$v> {})* } }
allowed!(Usizes 0 1 2 3 4 5);
allowed!(Bools false true);
allowed!(Bytes8 ALL_BYTES);
allowed!(Chars 'a' '\'' 'é' '\n' '\u{0}');
pub trait HasId { type Id: ::commit_verify::CommitmentId + Bytes; }
impl<T> HasId for T { type Id = ids::IdB; }
id_type!(IdA, "urn:test:a#1");
id_type!(Empty, "");
id_type!(macro_id, "urn:test:a#1");
pub type Alias = ids::IdB;
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct GenId<const N: usize>(pub [u8; 32]);
impl<const N: usize> strict_encoding::StrictType for GenId<N> { const STRICT_LIB_NAME: &'static str = "L"; }
impl<const N: usize> From<commit_verify::Sha256> for GenId<N> { fn from(v: commit_verify::Sha256) -> Self { Self(commit_verify::DigestExt::finish(v)) } }
impl<const N: usize> commit_verify::CommitmentId for GenId<N> { const TAG: &'static str = if N % 2 == 1 { "urn:test:odd" } else { "urn:test:even" }; }
impl<const N: usize> Bytes for GenId<N> { fn bytes(&self) -> [u8; 32] { self.0 } }
impl Bytes for commit_verify::StrictHash { fn bytes(&self) -> [u8; 32] { let mut b = [0; 32]; b.copy_from_slice(amplify::ByteArray::to_byte_array(self).as_ref()); b } }
impl Bytes for commit_verify::MerkleHash { fn bytes(&self) -> [u8; 32] { let mut b = [0; 32]; b.copy_from_slice(amplify::ByteArray::to_byte_array(self).as_ref()); b } }
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Elem(pub u16);
impl strict_encoding::StrictType for Elem {
    const STRICT_LIB_NAME: &'static str = "L";
    fn strict_name() -> Option<strict_encoding::TypeName> { Some(strict_encoding::TypeName::from("Elem")) }
}
impl strict_encoding::StrictEncode for Elem {
    fn strict_encode<W: strict_encoding::TypedWrite>(&self, w: W) -> std::io::Result<W> { strict_encoding::StrictEncode::strict_encode(&self.0, w) }
}
impl commit_verify::CommitEncode for Elem {
    type CommitmentId = commit_verify::MerkleHash;
    fn commit_encode(&self, e: &mut commit_verify::CommitEngine) { e.commit_to_serialized(self) }
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Hidden(pub [u8; 8]);
impl strict_encoding::StrictType for Hidden {
    const STRICT_LIB_NAME: &'static str = "L";
    fn strict_name() -> Option<strict_encoding::TypeName> { Some(strict_encoding::TypeName::from("Hidden")) }
}
impl strict_encoding::StrictEncode for Hidden {
    fn strict_encode<W: strict_encoding::TypedWrite>(&self, mut w: W) -> std::io::Result<W> {
        for b in &self.0 { w = strict_encoding::StrictEncode::strict_encode(b, w)?; }
        Ok(w)
    }
}
impl commit_verify::Conceal for Hidden { type Concealed = Self; fn conceal(&self) -> Self { *self } }
pub fn raw<T: strict_encoding::StrictEncode>(v: &T) -> Vec<u8> {
    let w = strict_encoding::StrictWriter::in_memory::<1000>();
    let w = strict_encoding::StrictEncode::strict_encode(v, w).unwrap();
    w.unbox().unconfine()
}
pub fn hide<T: strict_encoding::StrictEncode>(v: &T) -> Hidden {
    let b = raw(v);
    let mut h = [0u8; 8];
    for (x, y) in h.iter_mut().zip(b.iter().take(7)) { *x = *y; }
    h[7] = b.len() as u8;
    Hidden(h)
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn show<T: commit_verify::CommitId + strict_encoding::StrictEncode>(k: usize, j: usize, v: &T) where T::CommitmentId: Bytes {
    let id = commit_verify::CommitId::commit_id(v).bytes();
    let mut e = commit_verify::CommitEngine::new(<T::CommitmentId as commit_verify::CommitmentId>::TAG);
    commit_verify::CommitEncode::commit_encode(v, &mut e);
    let (h, steps) = e.finish_layout();
    let mut text = String::new();
    for s in steps.iter() {
        use commit_verify::CommitStep::*;
        text += &match s {
            Serialized(f) => format!("serialized:{}", f),
            Collection(_, _, f) => format!("collection:{}", f),
            Hashed(f) => format!("hashed:{}", f),
            Merklized(f) => format!("merklized:{}", f),
            Concealed(f) => format!("concealed:{}", f),
        };
        text.push('/');
    }
    println!("{} {} {} {} {} {}", k, j, hex(&raw(v)), hex(&id), hex(&commit_verify::DigestExt::finish(h)), text);
}
"#;

fn program(modules: &[String]) -> (String, Vec<(usize, usize)>) {
    let mut s = PRELUDE.replace("ALL_BYTES", &(0..=255u8).map(|n| n.to_string()).collect::<Vec<_>>().join(" "));
    let mut lines = vec![];
    for m in modules {
        let from = s.lines().count() + 1;
        s += m;
        lines.push((from, s.lines().count()));
    }
    s += "fn main() {\n";
    for k in 0..modules.len() {
        s += &format!("    d{k}::run();\n");
    }
    s += "}\n";
    (s, lines)
}

struct Failed {
    /// Message and lines of the errors.
    errors: Vec<(String, Vec<(usize, usize)>)>,
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

thread_local! {
    static SCRATCH: RefCell<Option<Scratch>> = const { RefCell::new(None) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

fn scratch() -> PathBuf {
    SCRATCH.with(|s| {
        s.borrow_mut()
            .get_or_insert_with(|| {
                let name = format!("csvcheck-derive-{}-{:?}", std::process::id(), std::thread::current().id());
                let dir = std::env::temp_dir().join(name.replace(['(', ')'], ""));
                std::fs::create_dir_all(&dir).expect("scratch directory");
                Scratch(dir)
            })
            .0
            .clone()
    })
}

/// Runs a command; panics (the check gives no verdict) if it takes too long.
fn output(c: &mut Command, dir: &Path) -> (Option<i32>, String, String) {
    let (o, e) = (dir.join("stdout"), dir.join("stderr"));
    let mut child = c
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&o).expect("file"))
        .stderr(std::fs::File::create(&e).expect("file"))
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    let code = loop {
        match child.try_wait().expect("wait") {
            Some(st) => break st.code(),
            None if t0.elapsed() > Duration::from_secs(100) => {
                let _ = child.kill();
                let _ = child.wait();
                panic!("{c:?} takes too long");
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    let read = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).expect("output")).into_owned();
    (code, read(&o), read(&e))
}

/// Compiles a program, and runs it if that is asked for.
fn compile(edition: u8, renamed: bool, source: &str, run: bool) -> Result<String, Failed> {
    let verif: PathBuf = std::env::var("CSV_VERIF").unwrap_or_else(|_| "/verif".into()).into();
    let externs = std::fs::read_to_string(verif.join(".build/derive.externs")).expect("derive.externs");
    let dir = scratch();
    let (mut externs, mut source) = (externs, source.to_string());
    if renamed {
        externs = externs.replace("\ncommit_verify=", "\nother_name=");
        source = source.replace("commit_verify", "other_name");
    }
    std::fs::write(dir.join("program.rs"), &source).expect("program.rs");
    let mut c = Command::new("rustc");
    c.current_dir(&dir)
        .args(["--crate-type", "bin", "--crate-name", "program", "--error-format", "json"])
        .args(["-C", "opt-level=0", "-C", "debuginfo=0", "-C", "codegen-units=1"])
        .args(["--edition", ["2018", "2021", "2024"][edition as usize % 3]])
        .args(["--emit", if run { "link" } else { "metadata" }])
        .args(externs.lines())
        .arg("program.rs");
    let (code, _, err) = output(&mut c, &dir);
    if code != Some(0) {
        let mut errors = vec![];
        for l in err.lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["level"] != "error" {
                continue;
            }
            let spans: Vec<(usize, usize)> = v["spans"]
                .as_array()
                .into_iter()
                .flatten()
                .map(|s| outermost(s))
                .filter(|s| s["file_name"] == "program.rs")
                .map(|s| (s["line_start"].as_u64().unwrap_or(0) as usize, s["line_end"].as_u64().unwrap_or(0) as usize))
                .collect();
            let text = v["rendered"].as_str().or(v["message"].as_str()).unwrap_or("").chars().take(1500).collect();
            if !spans.is_empty() {
                errors.push((text, spans));
            }
        }
        // Otherwise the compiler failed in another way, which says nothing about the program
        assert!(code == Some(1) && !errors.is_empty(), "rustc: {code:?} {}", err.chars().take(3000).collect::<String>());
        return Err(Failed { errors });
    }
    if !run {
        return Ok(String::new());
    }
    let (code, out, err) = output(Command::new(dir.join("program")).current_dir(&dir), &dir);
    match code {
        Some(0) => Ok(out),
        _ => Err(Failed { errors: vec![(format!("the program ended with {code:?}: {}", err.chars().take(600).collect::<String>()), vec![])] }),
    }
}

/// The place in the program for what comes from macros.
fn outermost(s: &serde_json::Value) -> &serde_json::Value {
    let mut s = s;
    while s["file_name"] != "program.rs" && s["expansion"]["span"].is_object() {
        s = &s["expansion"]["span"];
    }
    s
}

// ------------------------------------------------------------------------------------------ checks

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Batch {
    edition: u8,
    /// The program knows the library by another name only.
    #[serde(default)]
    renamed: bool,
    defs: Vec<Def>,
}

fn simple() -> BoxedStrategy<Simple> {
    prop_oneof![
        Just(Simple::U8),
        Just(Simple::U16),
        Just(Simple::Elem),
        Just(Simple::U32),
        Just(Simple::U64),
        Just(Simple::I32),
        Just(Simple::Bool),
        (0u8..5).prop_map(Simple::Arr),
    ]
    .boxed()
}

fn field() -> BoxedStrategy<Field> {
    let ty = prop_oneof![
        3 => simple().prop_map(FieldTy::Simple),
        3 => any::<u8>().prop_map(FieldTy::Param),
        2 => any::<u8>().prop_map(FieldTy::ParamArr),
        1 => (any::<u8>(), simple()).prop_map(|(l, s)| FieldTy::Ref(l, s)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(l, i)| FieldTy::RefParam(l, i)),
        1 => simple().prop_map(FieldTy::Opt),
        1 => Just(FieldTy::Phantom),
    ];
    (ty, 0u8..6, prop::bool::weighted(0.3), prop::bool::weighted(0.2))
        .prop_map(|(ty, vis, raw, doc)| Field { ty, vis, raw, doc })
        .boxed()
}

fn ty_param() -> BoxedStrategy<TyParam> {
    let set = prop_oneof![3 => simple(), 1 => Just(Simple::U16)]
        .prop_map(|s| if matches!(s, Simple::Arr(_)) { Simple::U32 } else { s });
    (set, 0u8..3, any::<bool>(), 0u8..20, prop::bool::weighted(0.2))
        .prop_map(|(set, bound, default, extra, attr)| TyParam { set, bound, default, extra, attr })
        .boxed()
}

fn const_param() -> BoxedStrategy<ConstParam> {
    prop_oneof![
        3 => (0u8..6).prop_map(ConstParam::Usize),
        1 => any::<bool>().prop_map(ConstParam::Bool),
        1 => any::<u8>().prop_map(ConstParam::U8),
        1 => prop_oneof![Just('a'), Just('\''), Just('é'), Just('\n'), Just('\u{0}')].prop_map(ConstParam::Char),
    ]
    .boxed()
}

fn def() -> BoxedStrategy<Def> {
    let shape = prop_oneof![Just(Shape::Tuple), Just(Shape::Named), Just(Shape::Enum)];
    let strat = prop_oneof![Just(Strat::Strict), Just(Strat::Transparent), Just(Strat::Conceal), Just(Strat::Merklize)];
    let vars = prop::collection::vec(prop::collection::vec(field(), 0..=4), 1..=4);
    let generic = prop_oneof![
        1 => Just((0u8, 0u8, vec![], vec![], false)),
        3 => (0u8..=2, 0u8..3, prop::collection::vec(ty_param(), 0..=3), prop::collection::vec((const_param(), any::<bool>()), 0..=2), any::<bool>()),
    ];
    let form = (any::<u8>(), any::<u8>(), 0u8..4, 0u8..4, any::<bool>(), 0u8..5);
    let place = (0u8..6, 0u8..3, 0u8..6, any::<bool>(), prop::bool::weighted(0.1), any::<bool>());
    (
        (shape, vars, prop::collection::vec(0u8..3, 4)),
        generic,
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 1..=3)],
        (strat, 0u8..15, 0u8..7),
        form,
        place,
        prop::collection::vec((any::<u64>(), any::<u8>()), 1..=4),
    )
        .prop_map(|((shape, variants, forms), g, preds, (strat, id, krate), f, p, values)| {
            let mut d = Def {
                shape,
                variants,
                forms,
                repr: p.5,
                lifetimes: g.0,
                lifetime_bound: g.1,
                types: g.2,
                consts: g.3,
                consts_first: g.4,
                preds,
                strat,
                id,
                krate,
                order: f.0,
                split: f.1,
                between: f.2,
                trailing: f.4,
                derive: f.5,
                name: p.0,
                place: p.1,
                vis: p.2,
                shadow: p.3,
                values,
            };
            let _ = f.3;
            if p.4 && d.shape == Shape::Enum && d.lifetimes == 0 && d.types.is_empty() && d.consts.is_empty() {
                d.variants = vec![];
            }
            d
        })
        .boxed()
}

fn check_batch(b: &Batch, o: &mut Obs) -> R {
    let build = |by_hand: bool| {
        let modules: Vec<String> = b.defs.iter().enumerate().map(|(k, d)| d.module(k, by_hand)).collect();
        program(&modules)
    };
    let (source, lines) = build(false);
    o.nontrivial(b.defs.iter().any(|d| d.has_phantom() || !d.consts.is_empty()));
    o.evals(b.defs.len());
    o.label_if(b.renamed, "library by another name");
    for d in &b.defs {
        o.label(format!("{:?} {:?}", d.shape, d.strat()));
        o.label_if(d.lifetimes > 0, "lifetimes");
        o.label_if(!d.types.is_empty(), "type parameters");
        o.label_if(!d.consts.is_empty(), "const parameters");
        o.label_if(!d.generics(true).2.is_empty(), "where clause");
        o.label_if(d.variants.is_empty(), "no values");
    }
    let out = match compile(b.edition, b.renamed, &source, true) {
        Ok(out) => out,
        Err(f) => {
            if std::env::var("CSV_DEBUG").is_ok() {
                for (t, s) in &f.errors {
                    let k = lines.iter().position(|(a, z)| s.iter().any(|(s, e)| s <= z && e >= a));
                    eprintln!("DEBUG {t}\n{}", k.map_or(String::new(), |k| b.defs[k].module(k, false)));
                }
                std::process::exit(1);
            }
            let (text, spans) = &f.errors[0];
            let k = lines.iter().position(|(a, z)| spans.iter().any(|(s, e)| s <= z && e >= a));
            let what = match compile(b.edition, b.renamed, &build(true).0, true) {
                Ok(_) => "the same with the trait implemented by hand is fine",
                Err(_) => "nor does the same with the trait implemented by hand work",
            };
            return Err(format!(
                "deriving fails ({what}): {text}\n{}",
                k.map_or(String::new(), |k| b.defs[k].module(k, false))
            ));
        }
    };
    let mut got: BTreeMap<(usize, usize), Vec<String>> = BTreeMap::new();
    for l in out.lines() {
        // The encoding of a value can be empty
        let w: Vec<&str> = l.split(' ').collect();
        let key = (w[0].parse().expect("number"), w[1].parse().expect("number"));
        got.insert(key, w[2..].iter().map(|s| s.to_string()).collect());
    }
    for (k, d) in b.defs.iter().enumerate() {
        if d.shape == Shape::Enum && d.variants.is_empty() {
            continue;
        }
        for j in 0..d.values.len() {
            let (expr, enc, hashed) = d.value(j);
            let w = got.get(&(k, j)).ok_or_else(|| format!("no output for {expr}"))?;
            let src = || format!("{expr} of\n{}", d.module(k, false));
            ensure_eq!(w[0], model::hex(&enc), "harness: encoding of {}", src());
            let want = model::hex(&model::tagged(id_path(d).1, &hashed));
            ensure_eq!(w[1], want, "commitment id of {}", src());
            ensure_eq!(w[2], want, "commitment encoding of {}", src());
            let step = d.step();
            let n = w[3].matches('/').count();
            ensure!(n == 1, "{n} steps in the commitment to {}", src());
            let (kind, fqn) = step.split_once(':').unwrap();
            let (got_kind, got_fqn) = w[3].split_once(':').unwrap_or((&w[3], ""));
            ensure_eq!(got_kind, kind, "kind of the step in the commitment to {}", src());
            if d.strat() != Strat::Transparent {
                ensure_eq!(got_fqn, format!("{fqn}/"), "type in the commitment to {}", src());
            }
            o.evals(4);
        }
    }
    o.sample(|| b.defs[0].module(0, false));
    Ok(())
}

/// Ways in which a definition is wrong.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Flaw {
    NoAttr,
    NoArgs(u8),
    NoId,
    NoStrategy,
    StrategyName(String),
    StrategyText,
    IdText,
    UnknownArg(String),
    UnknownFlag(String),
    Literal(u8),
    Twice(u8, bool),
    NoComma,
    NoValue(u8),
    // Found once the macro is done
    IdType(u8),
    NoEncoding,
    NoStrategyTrait,
}

impl Flaw {
    /// Whether the macro itself must refuse it.
    fn early(&self) -> bool { !matches!(self, Flaw::IdType(_) | Flaw::NoEncoding | Flaw::NoStrategyTrait) }
}

fn flaw() -> BoxedStrategy<Flaw> {
    let word = || {
        prop_oneof![
            "[a-z][a-z_]{0,9}",
            Just("Strict".to_string()),
            Just("STRICT".to_string()),
            Just("stric".to_string()),
            Just("stricts".to_string()),
            Just("hash".to_string()),
            Just("concealed".to_string()),
            Just("merkle".to_string()),
            Just("self_strict".to_string()),
            Just("strict::strict".to_string()),
            Just("self::strict".to_string()),
            Just("::strict".to_string()),
            Just("strict<u8>".to_string()),
            Just("r#strict".to_string()),
        ]
        .prop_filter("keyword or known", |s| {
            !["strict", "conceal", "transparent", "merklize", "id", "strategy", "crate"].contains(&s.as_str())
                && !["as", "do", "fn", "if", "in", "box", "dyn", "for", "let", "mod", "mut", "pub", "ref", "try", "use", "gen", "else", "enum", "impl", "loop", "move", "priv", "self", "true", "type", "async", "await", "break", "const", "false", "final", "macro", "match", "super", "trait", "union", "where", "while", "yield", "extern", "return", "static", "struct", "typeof", "unsafe", "virtual", "abstract", "become", "continue", "override", "unsized"].contains(&s.as_str())
        })
    };
    let ident = || word().prop_filter("path", |s| !s.contains([':', '<', '#']));
    prop_oneof![
        8 => prop_oneof![
            1 => Just(Flaw::NoAttr),
            1 => (0u8..3).prop_map(Flaw::NoArgs),
            2 => Just(Flaw::NoId),
            2 => Just(Flaw::NoStrategy),
            4 => word().prop_map(Flaw::StrategyName),
            1 => Just(Flaw::StrategyText),
            1 => Just(Flaw::IdText),
        ],
        7 => prop_oneof![
            2 => ident().prop_map(Flaw::UnknownArg),
            2 => ident().prop_map(Flaw::UnknownFlag),
            1 => (0u8..6).prop_map(Flaw::Literal),
            2 => (0u8..3, any::<bool>()).prop_map(|(a, s)| Flaw::Twice(a, s)),
            1 => Just(Flaw::NoComma),
            1 => (0u8..2).prop_map(Flaw::NoValue),
        ],
        5 => prop_oneof![
            (0u8..5).prop_map(Flaw::IdType),
            Just(Flaw::NoEncoding),
            Just(Flaw::NoStrategyTrait),
        ],
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wrong {
    edition: u8,
    defs: Vec<(Def, Flaw)>,
}

fn wrong_module(k: usize, d: &Def, f: &Flaw) -> String {
    let mut args = d.args();
    let (mut attrs, mut skip) = (None, None);
    match f {
        Flaw::NoAttr => attrs = Some(String::new()),
        Flaw::NoArgs(n) => attrs = Some(["#[commit_encode]", "#[commit_encode()]", "#[commit_encode = \"strict\"]"][*n as usize % 3].to_string()),
        Flaw::NoId => {
            args.remove(1);
        }
        Flaw::NoStrategy => {
            args.remove(0);
        }
        Flaw::StrategyName(s) => args[0] = format!("strategy = {s}"),
        Flaw::StrategyText => args[0] = "strategy = \"strict\"".into(),
        Flaw::IdText => args[1] = "id = \"crate::IdA\"".into(),
        Flaw::UnknownArg(s) => args.push(format!("{s} = strict")),
        Flaw::UnknownFlag(s) => args.push(s.clone()),
        Flaw::Literal(n) => args.push(["\"text\"", "5", "b\"text\"", "'c'", "1.5", "true"][*n as usize % 6].into()),
        Flaw::Twice(a, same) => {
            let a = *a as usize % args.len();
            let (name, _) = args[a].split_once(" = ").unwrap();
            args.push(if *same {
                args[a].clone()
            } else {
                format!("{name} = {}", ["conceal", "crate::Empty", "crate::again"][a])
            });
        }
        Flaw::NoComma => attrs = Some(format!("#[commit_encode({})]", args.join(" "))),
        Flaw::NoValue(n) => {
            let n = *n as usize % 2;
            args[n] = ["strategy", "id"][n].into();
        }
        Flaw::IdType(n) => args[1] = format!("id = {}", ["u8", "crate::Elem", "crate::Hidden", "::std::string::String", "Unhashed"][*n as usize % 5]),
        Flaw::NoEncoding => skip = Some("encode"),
        Flaw::NoStrategyTrait => skip = Some("strategy"),
    }
    let attrs = attrs.unwrap_or_else(|| d.attrs(&args).trim().to_string());
    let def = "    struct Unhashed;\n".to_string() + &d.render(false, Some(&attrs), skip);
    d.place(k, &def, "")
}

fn wrong() -> BoxedStrategy<Wrong> {
    let pair = |early: bool| {
        (def(), flaw().prop_filter("stage", move |f| f.early() == early)).prop_map(|(mut d, f)| {
            if matches!(f, Flaw::NoStrategyTrait) && d.strat() == Strat::Strict {
                // A strategy which needs a trait of its own
                d.strat = Strat::Conceal;
            }
            if matches!(f, Flaw::NoEncoding) {
                d.strat = Strat::Strict;
            }
            if !f.early() && d.variants.is_empty() {
                d.shape = Shape::Tuple;
                d.variants = vec![vec![]];
            }
            (d, f)
        })
    };
    (0u8..3, prop_oneof![2 => prop::collection::vec(pair(true), 1..=24), 1 => prop::collection::vec(pair(false), 1..=24)])
        .prop_map(|(edition, defs)| Wrong { edition, defs })
        .boxed()
}

fn check_wrong(w: &Wrong, o: &mut Obs) -> R {
    let modules: Vec<String> = w.defs.iter().enumerate().map(|(k, (d, f))| wrong_module(k, d, f)).collect();
    let (source, lines) = program(&modules);
    o.nontrivial(true);
    o.evals(w.defs.len());
    for (_, f) in &w.defs {
        let name = format!("{f:?}");
        o.label(name.split('(').next().unwrap().to_string());
    }
    let errors = match compile(w.edition, false, &source, false) {
        Ok(_) => vec![],
        Err(f) => f.errors,
    };
    for (k, (_, f)) in w.defs.iter().enumerate() {
        let (a, z) = lines[k];
        let mine = |s: &[(usize, usize)]| s.iter().any(|(s, e)| *s <= z && *e >= a);
        ensure!(errors.iter().any(|(_, s)| mine(s)), "a wrong definition ({f:?}) is accepted:\n{}", modules[k]);
    }
    o.sample(|| modules[0].clone());
    Ok(())
}

pub fn c33(ctx: &mut Ctx) {
    ctx.shrink_ms = 60_000;
    ctx.group(
        "definitions",
        "a type of the program is generic",
        96,
        || {
            (0u8..3, prop::bool::weighted(0.25), prop::collection::vec(def(), 1..=24)).prop_map(|(edition, renamed, mut defs)| {
                if renamed {
                    // There is no default name of the crate then
                    defs.iter_mut().filter(|d| d.krate == 0).for_each(|d| d.krate = 1);
                }
                Batch { edition, renamed, defs }
            })
        },
        check_batch,
    );
    ctx.group("wrong_definitions", "any", 48, wrong, check_wrong);
}
