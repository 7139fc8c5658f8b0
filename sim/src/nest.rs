//! Types nested in one another, each mentioned once by the one around it: however deep, the work must
//! not explode. What is counted is how often the innermost type is built, at depth 4 and at depth 8.
use crate::history::{add, bump, panic_text, RunOut};
use crate::oracle::{bad, Bad};
use crate::plan::SettingsSpec;
use crate::rng::Rng;
use schemars::{json_schema, JsonSchema, Schema, SchemaGenerator};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

static BUILT: AtomicU64 = AtomicU64::new(0);
static INLINE: AtomicBool = AtomicBool::new(false);
const CAP: u64 = 20_000;

pub struct L;
impl JsonSchema for L {
    fn schema_name() -> Cow<'static, str> {
        "L".into()
    }
    fn inline_schema() -> bool {
        INLINE.load(SeqCst)
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        if BUILT.fetch_add(1, SeqCst) > CAP {
            std::panic::resume_unwind(Box::new(crate::ctx::Runaway));
        }
        json_schema!({"type": "object", "properties": {"l": {"type": "integer"}}, "required": ["l"]})
    }
}

#[allow(dead_code)]
mod w {
    use super::*;
    macro_rules! wrappers {
        ($($(#[$a:meta])* $name:ident { $($body:tt)* })*) => { $(#[derive(JsonSchema)] $(#[$a])* pub struct $name<T> { $($body)* })* };
    }
    wrappers! {
        S { w: T }
        #[schemars(inline)] I { w: T }
        F { x: u8, #[serde(flatten)] w: T }
        FO { x: u8, #[serde(flatten)] w: Option<T> }
        #[serde(deny_unknown_fields)] FC { #[serde(flatten)] w: T }
        O { w: Option<T> }
        V { #[validate(length(max = 3))] w: Vec<T> }
        #[serde(transparent)] Tr { t: T }
        /// Documented
        D { /** A field. */ #[schemars(title = "w")] w: Box<T> }
    }
    #[derive(JsonSchema)]
    pub struct N<T>(T);
    #[derive(JsonSchema)]
    #[schemars(inline)]
    pub struct NI<T>(T);
    #[derive(JsonSchema)]
    pub struct P<T: JsonSchema> {
        #[schemars(schema_with = "with::<T>")]
        w: u8,
        #[serde(skip)]
        t: Option<T>,
    }
    fn with<T: JsonSchema>(g: &mut SchemaGenerator) -> Schema {
        g.subschema_for::<T>()
    }
    macro_rules! enums {
        ($($(#[$a:meta])* $name:ident { $($body:tt)* })*) => { $(#[derive(JsonSchema)] $(#[$a])* pub enum $name<T> { $($body)* })* };
    }
    enums! {
        Ex { A, New(T) }
        #[serde(tag = "t")] In { A, New(T) }
        #[serde(tag = "t")] InS { A, St { f: T } }
        #[serde(tag = "t")] #[schemars(inline)] InI { New(T) }
        #[serde(tag = "t", content = "c")] Ad { A, New(T) }
        #[serde(untagged)] Un { A, New(T) }
        #[serde(tag = "t", deny_unknown_fields)] InC { New(T) }
        #[schemars(_unstable_ref_variants)] Re { A, New(T) }
        #[serde(untagged)] FlU { Fl { #[serde(flatten)] w: T } }
    }
    pub type Map<T> = BTreeMap<String, T>;
    pub type IntMap<T> = BTreeMap<u8, T>;
    pub type Tup<T> = (T, u8);
    pub type Tup1<T> = (T,);
    pub type Arr<T> = [T; 2];
    pub type Res<T> = Result<T, u8>;
    pub type Set<T> = std::collections::BTreeSet<T>;
    pub type Either<T> = either1::Either<T, u8>;
    pub type Small<T> = smallvec1::SmallVec<[T; 1]>;
    pub type Cow_<T> = std::sync::Arc<std::sync::Mutex<T>>;
}
use w::*;

type Make = (fn(&mut SchemaGenerator) -> Schema, fn(&mut SchemaGenerator) -> Schema);
const fn make<X: JsonSchema>() -> Make {
    (SchemaGenerator::subschema_for::<X>, SchemaGenerator::root_schema_for::<X>)
}
macro_rules! rows {
    ($($a:ident $b:ident),* $(,)?) => {
        static ROWS: &[(&str, Make, Make)] = &[$((
            concat!(stringify!($a), " ", stringify!($b)),
            make::<$a<$b<$a<$b<L>>>>>(),
            make::<$a<$b<$a<$b<$a<$b<$a<$b<L>>>>>>>>>(),
        )),*];
    };
}
rows! {
    S S, I I, F F, FO FO, FC FC, O O, V V, Tr Tr, D D, N N, NI NI, P P, Ex Ex, In In, InS InS, InI InI, Ad Ad, Un Un, InC InC, Re Re, FlU FlU,
    Option Option, Box Box, Vec Vec, Map Map, IntMap IntMap, Tup Tup, Tup1 Tup1, Arr Arr, Res Res, Set Set, Either Either, Small Small, Cow_ Cow_,
    S I, S Option, S Vec, S F, S In, F I, F N, F In, F Option, F Tr, FO S, FO I, FC InC, O Vec, In I, In N, In NI, In Tr, In F, In Box, InI F, InI Tr, Ad Option, Un I, Un Option,
    Re Option, Option Vec, Option Map, Option Tup, Option I, Option In, Vec I, Map I, Map Res, Res Option, Either I, Tup I, P I, P Option, D Option, FlU In, FlU F, I Option, NI Option, Tr Option, V I,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Nest {
    row: usize,
    /// what the generator was asked before: row, depth 8 or 4, root schema or subschema
    before: Vec<(usize, bool, bool)>,
    root: bool,
    leaf_inline: bool,
}

pub fn gen(r: &mut Rng) -> Nest {
    let row = r.below(ROWS.len());
    let n = [0, 0, 1, 3][r.below(4)];
    Nest {
        row,
        before: (0..n).map(|_| (if r.chance(1, 3) { row } else { r.below(ROWS.len()) }, r.chance(1, 2), r.chance(1, 2))).collect(),
        root: r.chance(1, 2),
        leaf_inline: r.chance(1, 2),
    }
}

pub fn run(settings: &SettingsSpec, p: &Nest, out: &mut RunOut) -> Result<(), Bad> {
    INLINE.store(p.leaf_inline, SeqCst);
    let mut built = Vec::new();
    for deep in [false, true] {
        let mut g = settings.build().into_generator();
        let pick = |row: usize, deep: bool, root: bool| {
            let r = &ROWS[row % ROWS.len()];
            let m = if deep { r.2 } else { r.1 };
            if root {
                m.1
            } else {
                m.0
            }
        };
        BUILT.store(0, SeqCst);
        let done = catch_unwind(AssertUnwindSafe(|| {
            for (row, deep, root) in &p.before {
                pick(*row, *deep, *root)(&mut g);
            }
            BUILT.store(0, SeqCst);
            pick(p.row, deep, p.root)(&mut g);
        }));
        if let Err(e) = done {
            if !e.is::<crate::ctx::Runaway>() {
                return bad("panic", format!("the library panicked: {}", panic_text(&*e)));
            }
        }
        built.push(BUILT.load(SeqCst));
        bump(&mut out.stats, "nested types requested");
    }
    add(&mut out.stats, "callbacks", built.iter().sum());
    out.outs.push(built.iter().map(u64::to_string).collect());
    out.steps += built.iter().sum::<u64>();
    out.nontrivial = true;
    if built[1] > 5 * built[0] + 20 {
        return bad("work-explodes", format!("{}: the innermost type was built {} times at depth 4 and {} times at depth 8", ROWS[p.row % ROWS.len()].0, built[0], built[1]));
    }
    Ok(())
}

/// Simpler versions of a plan.
pub fn smaller(p: &Nest) -> Vec<Nest> {
    let mut out = Vec::new();
    for i in 0..p.before.len() {
        let mut q = p.clone();
        q.before.remove(i);
        out.push(q);
    }
    for f in [|q: &mut Nest| q.root = false, |q: &mut Nest| q.leaf_inline = false] {
        let mut q = p.clone();
        f(&mut q);
        if q != *p {
            out.push(q);
        }
    }
    out
}
