//! Simulated user types. A `World` (plain data, part of the plan) decides what the fixed family of
//! types `Node<0>..Node<N-1>` looks like: names, ids, bodies and edges. Types over nodes (std
//! containers, derived holders) come from a fixed table indexed by edge kind.
use crate::ctx;
use schemars::{json_schema, JsonSchema, Schema, SchemaGenerator};
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicPtr, Ordering::*};
use std::sync::OnceLock;

pub const N: usize = 8;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Body {
    Object,
    KeyEnum(Vec<String>),
    KeyPattern(String),
    KeyInt(bool),
    Union,
    /// the schema `true`
    True,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Edge {
    pub kind: u8,
    pub target: u8,
    /// the property also has a `description`, i.e. a sibling of `$ref`
    pub sibling: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Node_ {
    pub name: String,
    pub id: String,
    /// same type as another node (same id, same schema), reached through a different Rust type
    pub alias_of: Option<u8>,
    pub inline: bool,
    pub body: Body,
    pub title: bool,
    pub closed: bool,
    /// further keywords, one bit each (see `deco`)
    #[serde(default)]
    pub deco: u32,
    pub edges: Vec<Edge>,
}

impl Node_ {
    /// A string or number, as used for map keys.
    pub fn is_key(&self) -> bool {
        matches!(self.body, Body::KeyEnum(_) | Body::KeyPattern(_) | Body::KeyInt(_))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct World {
    pub nodes: Vec<Node_>,
}

static WORLD: AtomicPtr<World> = AtomicPtr::new(std::ptr::null_mut());

pub fn set_world(w: World) {
    WORLD.store(Box::into_raw(Box::new(w)), SeqCst);
}
pub fn world() -> &'static World {
    let p = WORLD.load(SeqCst);
    assert!(!p.is_null(), "no world");
    unsafe { &*p }
}

impl World {
    pub fn canon(&self, i: usize) -> usize {
        self.nodes.get(i).and_then(|n| n.alias_of).map_or(i, usize::from)
    }
    pub fn node(&self, i: usize) -> &Node_ {
        &self.nodes[self.canon(i)]
    }
    /// Nodes reachable from `i` in the type graph (including `i`), whatever the settings.
    pub fn reachable(&self, from: &BTreeSet<usize>) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<usize> = from.iter().map(|i| self.canon(*i)).collect();
        while let Some(i) = todo.pop() {
            if seen.insert(i) {
                for e in &self.node(i).edges {
                    for t in targets(e.kind, e.target as usize) {
                        todo.push(self.canon(t));
                    }
                }
            }
        }
        seen
    }
}

pub struct Node<const I: usize>;

impl<const I: usize> Serialize for Node<I> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(I as u64)
    }
}

impl<const I: usize> JsonSchema for Node<I> {
    fn schema_name() -> Cow<'static, str> {
        Cow::Owned(world().node(I).name.clone())
    }
    fn schema_id() -> Cow<'static, str> {
        Cow::Owned(world().node(I).id.clone())
    }
    fn inline_schema() -> bool {
        world().node(I).inline
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        let i = world().canon(I);
        ctx::enter(i, g);
        let schema = node_body(i, g);
        ctx::leave(i);
        schema
    }
}

/// Keywords with subschemas that nothing else here produces.
pub const DECOS: u32 = 23;
fn deco(i: usize, bits: u32, o: &mut Map<String, Value>) {
    let probe = |k: u32| serde_json::json!({"x-probe": format!("{i}.{k}")});
    for k in 0..DECOS {
        if bits & (1 << k) == 0 {
            continue;
        }
        let p = probe(k);
        let (key, v) = match k {
            0 => ("not", p),
            1 => ("if", p),
            2 => ("then", p),
            3 => ("else", p),
            4 => ("contains", p),
            5 => ("propertyNames", p),
            6 => ("additionalItems", p),
            7 => ("additionalProperties", p),
            8 => ("items", p),
            9 => ("items", Value::Array(vec![p, true.into(), probe(k + 100)])),
            10 => ("prefixItems", Value::Array(vec![p, probe(k + 100)])),
            11 => ("allOf", Value::Array(vec![p])),
            12 => ("oneOf", Value::Array(vec![p, probe(k + 100)])),
            13 => ("patternProperties", serde_json::json!({"^never$": p})),
            14 => ("dependentSchemas", serde_json::json!({"never": p})),
            15 => ("unevaluatedProperties", p),
            16 => ("unevaluatedItems", p),
            17 => ("contentSchema", p),
            18 => ("$defs", serde_json::json!({format!("local {i}"): p})),
            19 => ("examples", serde_json::json!([p, 1, null])),
            20 => ("default", serde_json::json!({"b": 1, "a": [2, {}]})),
            21 => ("enum", serde_json::json!(["one", {"x": 2}, 3])),
            _ => ("definitions", serde_json::json!({format!("local {i}"): p})),
        };
        o.entry(key).or_insert(v);
    }
    if bits & (1 << DECOS) != 0 {
        let f = ["uuid", "date", "custom", "duration"][i % 4];
        o.insert("x-formatted".into(), f.into());
        o.insert("format".into(), f.into());
    }
    // what `Option` has to look at
    if bits & (2 << DECOS) != 0 && o.get("type").is_some_and(|t| t == "object") {
        o.insert("type".into(), serde_json::json!(["object", "null"]));
    }
    if bits & (4 << DECOS) != 0 {
        o.insert("const".into(), if i % 2 == 0 { serde_json::json!({"c": i}) } else { Value::Null });
    }
}

/// The edge whose schema goes next to that of edge `k`, under the same property.
pub fn also(w: &World, i: usize, k: usize) -> Option<&Edge> {
    let edges = &w.node(i).edges;
    let next = edges.get(k + 1)?;
    (edges[k].sibling && KINDS[next.kind as usize].name == "Node" && !w.node(next.target as usize).inline).then_some(next)
}

fn node_body(i: usize, g: &mut SchemaGenerator) -> Schema {
    let n = world().node(i);
    if n.body == Body::True {
        return true.into();
    }
    let contract = if g.contract().is_serialize() { "s" } else { "d" };
    let mut o = Map::new();
    o.insert("x-node".into(), i.into());
    o.insert("x-contract".into(), contract.into());
    if n.title {
        o.insert("title".into(), format!("Title of {i}").into());
    }
    match &n.body {
        Body::Object => {
            o.insert("type".into(), "object".into());
            let mut props = Map::new();
            let mut required: Vec<Value> = Vec::new();
            for (k, e) in n.edges.iter().enumerate() {
                let mut s = (ty(e.kind, e.target).sub)(g);
                ctx::between(i);
                if e.sibling {
                    s.insert("description".into(), format!("edge {k} of {i}").into());
                }
                // under some dialects `$ref` may not have siblings
                if let Some(also) = also(world(), i, k) {
                    if s.get("$ref").is_some() && s.get("allOf").is_none() {
                        let more = (ty(also.kind, also.target).sub)(g).to_value();
                        s.insert("allOf".into(), Value::Array(vec![more]));
                        s.insert("x-also".into(), true.into());
                    }
                }
                let p = format!("n{i}_e{k}");
                props.insert(p.clone(), s.to_value());
                if k % 2 == 0 {
                    required.push(p.into());
                }
            }
            o.insert("properties".into(), Value::Object(props));
            if !required.is_empty() {
                o.insert("required".into(), Value::Array(required));
            }
            if n.closed {
                o.insert("additionalProperties".into(), false.into());
            }
            deco(i, n.deco, &mut o);
        }
        Body::True => {}
        Body::Union => {
            let mut any = Vec::new();
            for e in &n.edges {
                any.push((ty(e.kind, e.target).sub)(g).to_value());
                ctx::between(i);
            }
            o.insert("anyOf".into(), Value::Array(any));
        }
        Body::KeyEnum(v) => {
            o.insert("type".into(), "string".into());
            o.insert("enum".into(), v.clone().into());
        }
        Body::KeyPattern(p) => {
            o.insert("type".into(), "string".into());
            o.insert("pattern".into(), p.clone().into());
        }
        Body::KeyInt(unsigned) => {
            o.insert("type".into(), "integer".into());
            if *unsigned {
                o.insert("minimum".into(), 0.into());
            }
        }
    }
    Schema::from(o)
}

// ------------------------------------------------------------------ derived holders
pub mod holders {
    #![allow(dead_code)]
    use super::*;

    #[derive(JsonSchema)]
    #[schemars(extend("x-holder" = "Pair"))]
    pub struct Pair<T, U> {
        pub a: T,
        pub b: U,
    }

    #[derive(JsonSchema)]
    #[schemars(extend("x-holder" = "Ext"))]
    pub enum Ext<T> {
        Unit,
        New(T),
        Tup(T, u8),
        Str { f: T },
    }

    #[derive(JsonSchema)]
    #[serde(tag = "t")]
    #[schemars(extend("x-holder" = "Int"))]
    pub enum Int<T> {
        Unit,
        New(T),
        Str { f: T },
    }

    #[derive(JsonSchema)]
    #[serde(tag = "t", content = "c")]
    #[schemars(extend("x-holder" = "Adj"))]
    pub enum Adj<T> {
        Unit,
        New(T),
        Tup(T, bool),
        Str { f: T },
    }

    #[derive(JsonSchema)]
    #[serde(untagged)]
    #[schemars(extend("x-holder" = "Unt"))]
    pub enum Unt<T> {
        New(T),
        Str { f: Vec<T> },
    }

    #[derive(JsonSchema)]
    #[schemars(extend("x-holder" = "Flat"))]
    pub struct Flat<T> {
        pub x: u8,
        #[serde(flatten)]
        pub f: T,
    }

    #[derive(JsonSchema)]
    #[serde(transparent)]
    pub struct Transparent<T> {
        pub t: T,
    }

    #[derive(JsonSchema)]
    #[schemars(rename = "Ren_{T}", extend("x-holder" = "Renamed"))]
    pub struct Renamed<T> {
        pub v: Vec<T>,
        pub o: Option<T>,
    }

    /// A fixed-size tag: its schema depends on the const parameter.
    pub struct Tag<const K: usize>;
    impl<const K: usize> JsonSchema for Tag<K> {
        fn schema_name() -> Cow<'static, str> {
            Cow::Owned(format!("Tag{K}"))
        }
        fn inline_schema() -> bool {
            true
        }
        fn json_schema(_: &mut SchemaGenerator) -> Schema {
            json_schema!({"type": "string", "maxLength": K, "x-tag": K})
        }
    }

    #[derive(JsonSchema)]
    #[schemars(extend("x-holder" = "Const"))]
    pub struct Const<T, const K: usize> {
        pub t: T,
        pub k: Tag<K>,
    }

    #[derive(JsonSchema)]
    #[schemars(inline, extend("x-holder" = "Inl"))]
    pub struct Inl<T> {
        pub v: T,
    }

    /// Recursive on its own account.
    #[derive(JsonSchema)]
    #[schemars(extend("x-holder" = "List"))]
    pub struct List<T> {
        pub head: T,
        pub tail: Option<Box<List<T>>>,
    }

    fn with_fn<T: JsonSchema>(g: &mut SchemaGenerator) -> Schema {
        g.subschema_for::<T>()
    }

    #[derive(JsonSchema)]
    #[schemars(extend("x-holder" = "With"))]
    pub struct With<T: JsonSchema> {
        #[schemars(with = "Vec<T>")]
        pub w: u8,
        #[schemars(schema_with = "with_fn::<T>")]
        pub f: u8,
        pub p: std::marker::PhantomData<T>,
    }

    #[derive(JsonSchema)]
    #[schemars(_unstable_ref_variants, extend("x-holder" = "Refs"))]
    pub enum Refs<T> {
        Unit,
        New(T),
        Str { f: Option<T> },
    }

    /// Mutually recursive derived types.
    #[derive(JsonSchema)]
    #[schemars(extend("x-holder" = "Ping"))]
    pub struct Ping<T> {
        pub t: T,
        pub pong: Option<Box<Pong<T>>>,
    }
    #[derive(JsonSchema)]
    #[schemars(extend("x-holder" = "Pong"))]
    pub struct Pong<T> {
        pub t: Vec<T>,
        pub ping: Vec<Ping<T>>,
    }

    /// Everything but the type parameter's id is the same for all of these.
    #[derive(JsonSchema)]
    #[schemars(extend("x-holder" = "W"))]
    pub struct W<T> {
        pub w: T,
    }
    #[derive(JsonSchema)]
    #[schemars(extend("x-holder" = "W2"))]
    pub struct W2<T, U> {
        pub w: T,
        pub u: U,
    }

    /// Has the library's own referenceable types next to one of ours.
    #[derive(JsonSchema)]
    #[schemars(extend("x-holder" = "Leaves"))]
    pub struct Leaves<T> {
        pub t: T,
        pub duration: std::time::Duration,
        pub time: std::time::SystemTime,
        pub os: Vec<std::ffi::OsString>,
        pub c: std::ffi::CString,
        pub version: semver1::Version,
        pub bytes: Option<bytes1::BytesMut>,
        pub nz: std::num::NonZeroU8,
        pub ip: std::net::IpAddr,
        pub any: serde_json::Value,
        pub range: std::ops::RangeInclusive<i128>,
        pub by_duration: BTreeMap<std::ffi::CString, std::ops::Bound<std::time::Duration>>,
    }

    /// Ends up with `unevaluatedProperties` holding a schema.
    #[derive(JsonSchema)]
    #[schemars(extend("x-holder" = "FlatMap"))]
    pub struct FlatMap<T> {
        #[serde(flatten)]
        pub e: FlatEnum,
        #[serde(flatten)]
        pub m: BTreeMap<String, T>,
    }
    #[derive(JsonSchema)]
    #[serde(untagged)]
    #[schemars(inline)]
    pub enum FlatEnum {
        A { a: (u8, u8) },
        B { b: bool },
    }

    /// Types of the same name in different modules.
    pub mod m1 {
        use super::*;
        #[derive(JsonSchema)]
        #[schemars(extend("x-holder" = "m1::Config"))]
        pub struct Config<T> {
            pub one: T,
        }
    }
    pub mod m2 {
        use super::*;
        #[derive(JsonSchema)]
        #[schemars(extend("x-holder" = "m2::Config"))]
        pub struct Config<T> {
            pub two: Vec<T>,
            pub other: Option<Box<super::m1::Config<T>>>,
        }
    }
}
use holders::*;

// ------------------------------------------------------------------ the table of types
#[derive(Clone, Copy)]
pub struct Ty {
    pub sub: fn(&mut SchemaGenerator) -> Schema,
    pub root: fn(&mut SchemaGenerator) -> Schema,
    pub into_root: fn(SchemaGenerator) -> Schema,
}

fn t<T: ?Sized + JsonSchema>() -> Ty {
    Ty {
        sub: SchemaGenerator::subschema_for::<T>,
        root: SchemaGenerator::root_schema_for::<T>,
        into_root: SchemaGenerator::into_root_schema_for::<T>,
    }
}

/// How an edge kind treats its target.
#[derive(Clone, Copy, PartialEq)]
pub enum How {
    /// only ever through `subschema_for`
    Ref,
    /// embeds the target's own schema in its own (flatten, internally tagged newtypes)
    Direct,
    /// uses the target as a map key: nothing of it needs to remain
    Key,
}

pub struct KindInfo {
    pub name: &'static str,
    pub how: How,
    pub two: bool,
    /// referenceable type of its own (not inlined, not forwarding)
    pub named: bool,
}

macro_rules! kinds {
    ($($name:literal $how:ident $two:literal $named:literal : |$a:ident, $b:ident| $ty:ty;)*) => {
        pub const KINDS: &[KindInfo] = &[$(KindInfo { name: $name, how: How::$how, two: $two, named: $named }),*];
        fn row<const A: usize, const B: usize>() -> Vec<Ty> {
            #[allow(unused)]
            fn mk<const A: usize, const B: usize>() -> Vec<Ty> {
                vec![$({ type $a<const I: usize> = Node<I>; type $b<const I: usize> = Node<I>; t::<$ty>() }),*]
            }
            mk::<A, B>()
        }
    };
}

kinds! {
    "Node" Ref false true : |X, Y| X<A>;
    "Option" Ref false false : |X, Y| Option<X<A>>;
    "Vec" Ref false false : |X, Y| Vec<X<A>>;
    "Box" Ref false false : |X, Y| Box<X<A>>;
    "array" Ref false false : |X, Y| [X<A>; 2];
    "tuple" Ref true false : |X, Y| (X<A>, Y<B>, u8);
    "BTreeMap" Ref false false : |X, Y| BTreeMap<String, X<A>>;
    "HashMap" Ref false false : |X, Y| HashMap<u32, X<A>>;
    "HashSet" Ref false false : |X, Y| HashSet<X<A>>;
    "VecDeque" Ref false false : |X, Y| VecDeque<Option<X<A>>>;
    "Result" Ref true true : |X, Y| Result<X<A>, Y<B>>;
    "Range" Ref false true : |X, Y| std::ops::Range<X<A>>;
    "Bound" Ref false true : |X, Y| std::ops::Bound<X<A>>;
    "&" Ref false false : |X, Y| &'static X<A>;
    "Arc<Mutex>" Ref false false : |X, Y| std::sync::Arc<std::sync::Mutex<X<A>>>;
    "Rc<RefCell>" Ref false false : |X, Y| std::rc::Rc<std::cell::RefCell<X<A>>>;
    "MapKey" Key true false : |X, Y| BTreeMap<X<A>, Y<B>>;
    "HashMapKey" Key true false : |X, Y| HashMap<X<A>, Option<Y<B>>>;
    "Pair" Ref true true : |X, Y| Pair<X<A>, Y<B>>;
    "Pair2" Ref true true : |X, Y| Pair<Y<B>, X<A>>;
    "Ext" Ref false true : |X, Y| Ext<X<A>>;
    "Int" Direct false true : |X, Y| Int<X<A>>;
    "Adj" Ref false true : |X, Y| Adj<X<A>>;
    "Unt" Ref false true : |X, Y| Unt<X<A>>;
    "Flat" Direct false true : |X, Y| Flat<X<A>>;
    "FlatOpt" Direct false true : |X, Y| Flat<Option<X<A>>>;
    "Transparent" Ref false false : |X, Y| Transparent<X<A>>;
    "Renamed" Ref false true : |X, Y| Renamed<X<A>>;
    "Const1" Ref false true : |X, Y| Const<X<A>, 1>;
    "Const2" Ref false true : |X, Y| Const<X<A>, 2>;
    "Inl" Ref false false : |X, Y| Inl<X<A>>;
    "List" Ref false true : |X, Y| List<X<A>>;
    "With" Ref false true : |X, Y| With<X<A>>;
    "Refs" Ref false true : |X, Y| Refs<X<A>>;
    "Ping" Ref false true : |X, Y| Ping<X<A>>;
    "m1::Config" Ref false true : |X, Y| m1::Config<X<A>>;
    "m2::Config" Ref false true : |X, Y| m2::Config<X<A>>;
    "W<X>" Ref false true : |X, Y| W<X<A>>;
    "W<[X;2]>" Ref false true : |X, Y| W<[X<A>; 2]>;
    "W<[X;3]>" Ref false true : |X, Y| W<[X<A>; 3]>;
    "W<Vec>" Ref false true : |X, Y| W<Vec<X<A>>>;
    "W<Option>" Ref false true : |X, Y| W<Option<X<A>>>;
    "W<Set>" Ref false true : |X, Y| W<BTreeSet<X<A>>>;
    "W<Map>" Ref false true : |X, Y| W<BTreeMap<String, X<A>>>;
    "W<IntMap>" Ref false true : |X, Y| W<BTreeMap<u32, X<A>>>;
    "W<(X,)>" Ref false true : |X, Y| W<(X<A>,)>;
    "W<(X,Y)>" Ref true true : |X, Y| W<(X<A>, Y<B>)>;
    "W<Result>" Ref true true : |X, Y| W<Result<X<A>, Y<B>>>;
    "W<Bound>" Ref false true : |X, Y| W<std::ops::Bound<X<A>>>;
    "W<Range>" Ref false true : |X, Y| W<std::ops::Range<X<A>>>;
    "W2<X,u8>" Ref false true : |X, Y| W2<X<A>, u8>;
    "W2<X,u16>" Ref false true : |X, Y| W2<X<A>, u16>;
    "Result<X,u8>" Ref false true : |X, Y| Result<X<A>, u8>;
    "Result<X,String>" Ref false true : |X, Y| Result<X<A>, String>;
    "Result<u8,X>" Ref false true : |X, Y| Result<u8, X<A>>;
    "W<(X,u8)>" Ref false true : |X, Y| W<(X<A>, u8)>;
    "W<(u8,X)>" Ref false true : |X, Y| W<(u8, X<A>)>;
    "W<Option<Vec>>" Ref false true : |X, Y| W<Option<Vec<X<A>>>>;
    "W<Map<Vec>>" Ref false true : |X, Y| W<BTreeMap<String, Vec<X<A>>>>;
    "W<ArrayVec2>" Ref false true : |X, Y| W<arrayvec07::ArrayVec<X<A>, 2>>;
    "W<ArrayVec3>" Ref false true : |X, Y| W<arrayvec07::ArrayVec<X<A>, 3>>;
    "W<Either>" Ref true true : |X, Y| W<either1::Either<X<A>, Y<B>>>;
    "W<Either<X,u8>>" Ref false true : |X, Y| W<either1::Either<X<A>, u8>>;
    "IndexMap" Ref false false : |X, Y| indexmap2::IndexMap<String, X<A>, ()>;
    "IndexSet" Ref false false : |X, Y| indexmap2::IndexSet<Option<X<A>>, ()>;
    "SmallVec" Ref false false : |X, Y| smallvec1::SmallVec<[X<A>; 2]>;
    "LinkedList" Ref false false : |X, Y| std::collections::LinkedList<X<A>>;
    "Leaves" Ref false true : |X, Y| Leaves<X<A>>;
    "FlatMap" Ref false true : |X, Y| FlatMap<X<A>>;
    "W<MapKey>" Key true true : |X, Y| W<BTreeMap<X<A>, Y<B>>>;
    "W<MapKey,u8>" Key false true : |X, Y| W<BTreeMap<X<A>, u8>>;
    "VecPair" Ref true false : |X, Y| Vec<Pair<Option<X<A>>, Box<Y<B>>>>;
}

static TABLE: OnceLock<Vec<Vec<Ty>>> = OnceLock::new();

/// Must be called once before the first fork.
pub fn init_table() {
    TABLE.get_or_init(|| {
        let rows = vec![
            row::<0, 1>(),
            row::<1, 2>(),
            row::<2, 3>(),
            row::<3, 4>(),
            row::<4, 5>(),
            row::<5, 6>(),
            row::<6, 7>(),
            row::<7, 0>(),
        ];
        assert_eq!(rows.len(), N);
        rows
    });
}

pub fn ty(kind: u8, target: u8) -> &'static Ty {
    &TABLE.get().expect("table")[target as usize][kind as usize]
}
/// Every node an edge of this kind mentions.
pub fn targets(kind: u8, target: usize) -> Vec<usize> {
    if KINDS[kind as usize].two {
        vec![target, (target + 1) % N]
    } else {
        vec![target]
    }
}

/// The nodes whose schemas must be reachable from the schema of such an edge before any other.
pub fn expected(w: &World, kind: u8, target: usize) -> BTreeSet<usize> {
    match KINDS[kind as usize].how {
        How::Key if KINDS[kind as usize].two => vec![(target + 1) % N],
        How::Key => vec![],
        _ => targets(kind, target),
    }
    .into_iter()
    .map(|t| w.canon(t))
    // nothing tells one `true` from another
    .filter(|t| w.node(*t).body != Body::True)
    .collect()
}
