//! Histories over real types: every type the library itself implements `JsonSchema` for, alone and
//! as the parameter of a derived generic type, and derived types of every form the derive macro
//! knows. The reference is a brand-new generator; nothing about the types is modelled.
use crate::history::{add, bump, panic_text, RunOut};
use crate::oracle::{bad, decode_fragment, equivalent, pure_ref, short, synthetic, Bad, Doc};
use crate::plan::SettingsSpec;
use crate::rng::Rng;
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum WhatZ {
    ZNew(usize),
    ZSub(u16),
    ZRoot(u16),
    ZInto(u16),
    ZTake(bool),
    ZClear,
    ZClone(u8),
}
use WhatZ::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OpZ {
    pub slot: u8,
    pub what: WhatZ,
    pub thread: bool,
}

/// The derived types.
#[allow(dead_code)]
pub mod derived {
    use schemars::{json_schema, JsonSchema, JsonSchema_repr, Schema, SchemaGenerator};
    use serde::{Deserialize, Serialize};
    use serde_repr::{Deserialize_repr, Serialize_repr};
    use std::borrow::Cow;
    use std::collections::{BTreeMap, BTreeSet, HashMap};
    use std::marker::PhantomData;

    /// Everything but the type parameter's id is the same for all of these.
    #[derive(JsonSchema)]
    pub struct W<T> {
        pub w: T,
    }
    #[derive(JsonSchema, Clone)]
    pub struct Leaf {
        pub leaf: bool,
    }
    #[derive(JsonSchema, Clone)]
    #[schemars(inline)]
    pub struct Inlined {
        pub leaf: Leaf,
        pub n: u8,
    }

    /// A title.
    ///
    /// A description, with `code` and a
    /// second line.
    #[derive(JsonSchema, Serialize, Deserialize, Clone, Default)]
    #[serde(rename_all = "camelCase", deny_unknown_fields)]
    pub struct Documented {
        /// # Heading
        ///
        /// of the field
        pub first_field: String,
        /// Only a description.
        #[deprecated]
        pub second_field: Option<u8>,
        #[schemars(title = "a title", description = "and a description")]
        pub third_field: Vec<u8>,
        #[serde(rename = "re named/~")]
        pub fourth: (),
    }

    #[derive(JsonSchema, Serialize, Deserialize, Clone)]
    pub struct Optional {
        #[serde(default)]
        pub a: u8,
        #[serde(default = "text")]
        pub b: String,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub c: Option<u8>,
        #[serde(skip_serializing)]
        pub d: Option<String>,
        #[serde(skip_deserializing)]
        pub e: Vec<u8>,
        #[serde(skip)]
        pub f: u64,
        #[schemars(required)]
        pub g: Option<u16>,
        #[serde(rename(serialize = "out", deserialize = "in"), alias = "other")]
        pub h: BTreeMap<String, u8>,
    }
    fn text() -> String {
        "text".into()
    }

    #[derive(JsonSchema)]
    pub struct Validated {
        #[validate(range(min = 1, max = 100))]
        pub a: u8,
        #[validate(length(min = 1, max = 10))]
        pub b: String,
        #[schemars(length(equal = 3))]
        pub c: Vec<u8>,
        #[schemars(regex(pattern = r"^[a-z]+$"), length(max = 3))]
        pub d: Option<String>,
        #[schemars(email)]
        pub e: String,
        #[schemars(url)]
        pub f: String,
        #[schemars(contains(pattern = "x.y"))]
        pub g: String,
        #[schemars(inner(length(min = 2), regex(pattern = "^q")))]
        pub h: Vec<String>,
        #[schemars(range(min = 0.5), extend("x-unit" = "cm"))]
        pub i: f64,
        #[schemars(length(min = 1))]
        pub j: BTreeMap<String, Leaf>,
        #[schemars(inner(inner(range(max = 3))))]
        pub k: Option<Vec<u8>>,
        #[schemars(extend("minLength" = 9), length(min = 1))]
        pub l: super::derived::Text,
    }
    #[derive(JsonSchema)]
    #[serde(transparent)]
    pub struct Text(pub String);

    fn custom(g: &mut SchemaGenerator) -> Schema {
        let leaf = g.subschema_for::<Leaf>();
        json_schema!({"type": "array", "items": leaf})
    }
    fn custom2(_: &mut SchemaGenerator) -> Schema {
        json_schema!({"const": "custom2"})
    }
    #[derive(JsonSchema)]
    pub struct SchemaWith {
        #[schemars(schema_with = "custom")]
        pub a: u8,
        #[schemars(schema_with = "custom2", required, extend("x-a" = 1))]
        pub b: Option<u8>,
        #[schemars(with = "Vec<Leaf>")]
        pub c: u8,
        #[schemars(with = "Option<Inlined>")]
        pub d: (),
        #[schemars(schema_with = "custom2", default = "seven")]
        pub e: u8,
    }
    fn seven() -> u8 {
        7
    }

    #[derive(JsonSchema)]
    #[schemars(extend("x-list" = [1, null, {"a": {}}], "type" = ["object", "null"]), deny_unknown_fields)]
    pub struct Extended {
        #[schemars(extend("x-1" = 1, "default" = "d"))]
        pub a: Leaf,
        #[schemars(extend("$comment" = "c"), title = "t")]
        pub b: Option<Leaf>,
    }

    fn to_array(s: &mut Schema) {
        s.insert("x-transformed".into(), true.into());
    }
    #[derive(JsonSchema)]
    #[schemars(transform = to_array, transform = schemars::transform::RecursiveTransform(to_array))]
    pub struct Transformed {
        #[schemars(transform = to_array)]
        pub a: Leaf,
        #[schemars(transform = schemars::transform::AddNullable::default())]
        pub b: u8,
    }

    #[derive(JsonSchema)]
    pub struct Unit;
    #[derive(JsonSchema)]
    pub struct Newtype(pub Leaf);
    #[derive(JsonSchema)]
    pub struct Tuple(pub u8, pub Leaf, #[serde(skip)] pub u8, pub Option<Inlined>);
    #[derive(JsonSchema)]
    pub struct TupleWith(#[schemars(range(min = 3))] pub u8, #[schemars(with = "Leaf")] pub u8);
    #[derive(JsonSchema)]
    #[serde(transparent)]
    pub struct Transparent {
        pub a: Leaf,
        #[serde(skip)]
        pub p: PhantomData<u8>,
    }

    #[derive(JsonSchema)]
    pub struct Const<const N: usize, const B: bool> {
        pub a: [u8; 2],
    }
    #[derive(JsonSchema)]
    pub struct Lifetimes<'a, T: ?Sized> {
        pub a: &'a T,
        pub b: Cow<'a, str>,
    }
    #[derive(JsonSchema)]
    pub struct Phantom<T> {
        pub a: PhantomData<T>,
        pub n: u8,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "Renamed-{T}-and-{U}")]
    pub struct Renamed<T, U> {
        pub t: T,
        pub u: Vec<U>,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "Renamed-{T}")]
    pub struct RenamedOne<T> {
        pub t: T,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "with / ~ % \u{1F680} \" name")]
    pub struct OddName {
        pub a: u8,
    }
    #[derive(JsonSchema)]
    pub enum EnumGeneric<T, U> {
        A(T),
        B { u: U },
    }
    pub trait Assoc {
        type Out;
    }
    impl Assoc for u8 {
        type Out = String;
    }
    impl Assoc for u16 {
        type Out = Leaf;
    }
    #[derive(JsonSchema)]
    #[schemars(bound = "T::Out: JsonSchema, T: JsonSchema")]
    pub struct Projected<T: Assoc> {
        pub out: T::Out,
    }

    // all the ways to write an enum
    #[derive(JsonSchema, Serialize, Deserialize)]
    #[serde(rename_all = "kebab-case")]
    pub enum UnitEnum {
        OneTwo,
        /// documented
        Three,
        #[serde(alias = "five")]
        #[deprecated]
        Four,
        #[serde(skip)]
        Never,
    }
    #[derive(JsonSchema)]
    pub enum PlainUnits {
        Uno,
        Dos,
    }
    #[derive(JsonSchema)]
    pub enum External {
        U,
        N(Leaf),
        T(u8, Leaf),
        S { a: Leaf, b: Option<u8> },
        #[schemars(with = "Inlined")]
        W(u8),
        #[serde(skip_serializing)]
        OnlyIn(u8),
        #[serde(skip_deserializing)]
        OnlyOut { x: u8 },
        Empty {},
        None(),
    }
    #[derive(JsonSchema)]
    #[serde(tag = "t", deny_unknown_fields)]
    pub enum Internal {
        U,
        N(Leaf),
        #[serde(rename = "ess")]
        S {
            a: Leaf,
            b: Option<u8>,
        },
        I(Inlined),
        D(Documented),
    }
    #[derive(JsonSchema)]
    #[serde(tag = "t")]
    pub enum InternalOpen {
        U,
        N(Leaf),
        E(UnitStruct),
        O(Optional),
        M(BTreeMap<String, u8>),
    }
    #[derive(JsonSchema)]
    pub struct UnitStruct {}
    #[derive(JsonSchema)]
    #[serde(tag = "t", content = "c", rename_all = "snake_case", rename_all_fields = "SCREAMING-KEBAB-CASE")]
    pub enum Adjacent {
        UnitOne,
        NewType(Leaf),
        TupleTwo(u8, Leaf),
        StructThree { field_a: Leaf },
    }
    #[derive(JsonSchema)]
    #[serde(untagged)]
    pub enum Untagged {
        U,
        N(Leaf),
        T(u8, Leaf),
        S { a: Leaf },
        #[schemars(schema_with = "custom")]
        W(u8),
    }
    #[derive(JsonSchema)]
    pub enum MixedUntagged {
        A,
        B { b: Leaf },
        #[serde(untagged)]
        Other(BTreeMap<String, Leaf>),
    }
    #[derive(JsonSchema)]
    #[schemars(_unstable_ref_variants)]
    pub enum RefVariants {
        U,
        N(Leaf),
        S { a: Box<RefVariants> },
    }
    #[derive(JsonSchema)]
    #[schemars(_unstable_ref_variants)]
    #[serde(tag = "k")]
    pub enum RefVariants2<T> {
        S { a: T },
        N(Leaf),
        U,
    }
    #[derive(JsonSchema_repr, Serialize_repr, Deserialize_repr)]
    #[repr(i16)]
    pub enum Repr {
        A = -3,
        B,
        /// documented
        C = 100,
    }
    #[derive(JsonSchema_repr, Serialize_repr, Deserialize_repr)]
    #[repr(u8)]
    #[schemars(extend("x-repr" = true), rename = "Repr2nd")]
    pub enum Repr2 {
        A = 1,
        B,
    }

    // flattening
    #[derive(JsonSchema)]
    pub struct Flat {
        pub own: u8,
        #[serde(flatten)]
        pub s: Optional,
        #[serde(flatten)]
        pub m: BTreeMap<String, Leaf>,
    }
    #[derive(JsonSchema)]
    #[serde(deny_unknown_fields)]
    pub struct FlatClosed {
        #[serde(flatten)]
        pub s: Documented,
        #[serde(flatten)]
        pub e: InternalOpen,
        #[serde(flatten)]
        pub o: Option<Inlined>,
    }
    #[derive(JsonSchema)]
    pub struct FlatEnums {
        pub before: Leaf,
        #[serde(flatten)]
        pub a: External,
        #[serde(flatten)]
        pub b: Untagged,
        #[serde(flatten)]
        pub c: Adjacent,
        #[serde(flatten)]
        pub d: Option<Internal>,
        pub after: Leaf,
    }
    #[derive(JsonSchema)]
    pub struct FlatValue {
        pub a: u8,
        #[serde(flatten)]
        pub rest: serde_json::Map<String, serde_json::Value>,
    }
    #[derive(JsonSchema)]
    pub struct FlatGeneric<T> {
        #[serde(flatten)]
        pub t: T,
        #[serde(flatten)]
        pub boxed: Box<UnitStruct>,
        pub n: u8,
    }
    #[derive(JsonSchema)]
    pub enum FlatVariant {
        A {
            #[serde(flatten)]
            s: Leaf,
            x: u8,
        },
        B(#[serde(with = "leaf_text")] #[schemars(with = "String")] Leaf),
    }
    pub mod leaf_text {}

    // conversions
    #[derive(JsonSchema, Serialize, Deserialize, Clone)]
    #[serde(from = "Documented", into = "Optional")]
    pub struct FromInto {
        pub x: u8,
    }
    impl From<Documented> for FromInto {
        fn from(_: Documented) -> Self {
            FromInto { x: 1 }
        }
    }
    impl From<FromInto> for Optional {
        fn from(_: FromInto) -> Self {
            Optional { a: 1, b: String::new(), c: None, d: None, e: vec![], f: 0, g: None, h: BTreeMap::new() }
        }
    }
    #[derive(JsonSchema, Serialize, Deserialize, Clone)]
    #[serde(try_from = "u8", into = "String")]
    pub struct TryFrom8(u8);
    impl TryFrom<u8> for TryFrom8 {
        type Error = std::fmt::Error;
        fn try_from(x: u8) -> Result<Self, std::fmt::Error> {
            Ok(TryFrom8(x))
        }
    }
    impl From<TryFrom8> for String {
        fn from(x: TryFrom8) -> String {
            x.0.to_string()
        }
    }

    mod foreign {
        pub struct Foreign<T> {
            pub t: T,
            pub leaf: super::Leaf,
        }
    }
    #[derive(JsonSchema)]
    #[serde(remote = "foreign::Foreign")]
    pub struct ForeignDef<T> {
        pub t: T,
        pub leaf: Leaf,
    }
    #[derive(JsonSchema)]
    pub struct Remote {
        #[schemars(with = "ForeignDef<u8>")]
        pub f: u8,
        #[schemars(with = "Vec<ForeignDef<String>>")]
        pub g: u8,
    }

    // recursion
    #[derive(JsonSchema)]
    pub struct List<T> {
        pub item: T,
        pub next: Option<Box<List<T>>>,
    }
    #[derive(JsonSchema)]
    pub struct Tree {
        pub children: Vec<Tree>,
        pub by_name: HashMap<String, Tree>,
        pub parent: Option<Box<Tree>>,
    }
    #[derive(JsonSchema)]
    pub enum Expr {
        Num(f64),
        Neg(Box<Expr>),
        Call { name: String, args: Vec<Expr>, block: Option<Box<Block>> },
    }
    #[derive(JsonSchema)]
    #[serde(tag = "kind")]
    pub enum Block {
        Seq { items: Vec<Expr> },
        Nested { inner: Box<Block> },
    }
    #[derive(JsonSchema)]
    pub struct FlatRec {
        #[serde(flatten)]
        pub leaf: Leaf,
        pub again: Vec<FlatRec>,
    }
    #[derive(JsonSchema)]
    #[serde(untagged)]
    pub enum Json {
        Null,
        Bool(bool),
        List(Vec<Json>),
        Object(BTreeMap<String, Json>),
    }

    // the same names in other places, with and without suffixes
    pub mod a {
        #[derive(schemars::JsonSchema)]
        pub struct Leaf {
            pub a: u8,
        }
        #[derive(schemars::JsonSchema)]
        pub struct Leaf2 {
            pub a2: super::Leaf,
            pub own: Leaf,
        }
        #[derive(schemars::JsonSchema)]
        pub enum External {
            A(super::Leaf),
        }
        pub mod a {
            #[derive(schemars::JsonSchema)]
            pub struct Leaf {
                pub a: String,
                pub up: Option<Box<super::super::Tree>>,
            }
        }
    }
    pub mod b {
        #[derive(schemars::JsonSchema)]
        pub struct Leaf<const N: u8> {
            pub b: [bool; 3],
        }
        #[derive(schemars::JsonSchema)]
        #[schemars(rename = "Leaf3")]
        pub struct Whatever {
            pub a: super::a::Leaf,
            pub b: Leaf<1>,
        }
        #[derive(schemars::JsonSchema)]
        pub struct W<T> {
            pub other: Vec<T>,
        }
    }

    /// Written by hand, without a `schema_id`.
    pub struct Manual;
    impl JsonSchema for Manual {
        fn schema_name() -> Cow<'static, str> {
            "Manual".into()
        }
        fn json_schema(g: &mut SchemaGenerator) -> Schema {
            let (tree, x) = (g.subschema_for::<Tree>(), g.subschema_for::<External>());
            json_schema!({"type": "array", "prefixItems": [tree, x, true, {"const": null}]})
        }
    }
    /// What the library's functions for other crates' derives are used for.
    pub struct Asks;
    impl JsonSchema for Asks {
        fn schema_name() -> Cow<'static, str> {
            "Asks".into()
        }
        fn json_schema(g: &mut SchemaGenerator) -> Schema {
            let mut s = <BTreeSet<Leaf> as JsonSchema>::json_schema(g);
            s.insert("x-contract".into(), g.contract().is_serialize().into());
            s.insert("x-inline".into(), g.settings().inline_subschemas.into());
            s
        }
    }
}

pub struct Row {
    pub name: &'static str,
    pub sub: fn(&mut SchemaGenerator) -> Schema,
    pub root: fn(&mut SchemaGenerator) -> Schema,
    into: fn(SchemaGenerator) -> Schema,
    always_inline: fn() -> bool,
}
const fn row<T: JsonSchema + ?Sized>(name: &'static str) -> Row {
    Row {
        name,
        sub: SchemaGenerator::subschema_for::<T>,
        root: SchemaGenerator::root_schema_for::<T>,
        into: SchemaGenerator::into_root_schema_for::<T>,
        always_inline: T::inline_schema,
    }
}
macro_rules! rows {
    ($name:ident: $($t:ty),* $(,)?) => {
        /// Each type, alone and as a type parameter.
        static $name: &[Row] = &[$(row::<$t>(stringify!($t)), row::<derived::W<$t>>(concat!("W<", stringify!($t), ">"))),*];
    };
}
use derived::*;
use std::net as n;
use std::num as nz;
use std::sync::atomic as at;
type H = std::collections::hash_map::RandomState;
rows! { LEAVES:
    bool, char, String, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, (),
    std::time::Duration, std::time::SystemTime, n::IpAddr, n::Ipv4Addr, n::Ipv6Addr, n::SocketAddr, n::SocketAddrV4, n::SocketAddrV6,
    std::path::PathBuf, std::ffi::OsString, std::ffi::CString,
    nz::NonZeroU8, nz::NonZeroU16, nz::NonZeroU32, nz::NonZeroU64, nz::NonZeroU128, nz::NonZeroUsize,
    nz::NonZeroI8, nz::NonZeroI16, nz::NonZeroI32, nz::NonZeroI64, nz::NonZeroI128, nz::NonZeroIsize,
    at::AtomicBool, at::AtomicU8, at::AtomicU16, at::AtomicU32, at::AtomicU64, at::AtomicI8, at::AtomicI16, at::AtomicI32, at::AtomicI64,
    Value, Map<String, Value>, serde_json::Number, std::fmt::Arguments<'static>,
    chrono04::Weekday, chrono04::TimeDelta, chrono04::NaiveDate, chrono04::NaiveTime, chrono04::NaiveDateTime, chrono04::DateTime<chrono04::Utc>,
    jiff02::SignedDuration, jiff02::Span, jiff02::Timestamp, jiff02::Zoned, jiff02::civil::Date, jiff02::civil::Time, jiff02::civil::DateTime,
    url2::Url, uuid1::Uuid, semver1::Version, bytes1::Bytes, bytes1::BytesMut, rust_decimal1::Decimal, bigdecimal04::BigDecimal, smol_str03::SmolStr,
}
rows! { CONTAINERS:
    Option<u8>, Option<Option<String>>, Vec<u8>, Vec<u16>, Vec<Vec<u8>>, std::collections::VecDeque<Leaf>, std::collections::LinkedList<Leaf>, std::collections::BinaryHeap<Leaf>,
    BTreeSet<String>, std::collections::HashSet<String>, BTreeSet<u8>, [u8; 0], [u8; 1], [u8; 2], [Leaf; 31], [Leaf; 32],
    (u8,), (u8, u8), (u8, u16), (u16, u8), (u8, String, Leaf), ((u8, u8), u8), (u8, (u8, u8)),
    BTreeMap<String, u8>, BTreeMap<String, Leaf>, BTreeMap<char, u8>, BTreeMap<u8, u8>, BTreeMap<i8, u8>, BTreeMap<bool, u8>, BTreeMap<u16, Leaf>,
    BTreeMap<UnitEnum, u8>, BTreeMap<PlainUnits, Leaf>, BTreeMap<url2::Url, u8>, std::collections::HashMap<n::IpAddr, Leaf>, std::collections::HashMap<Text, u8>,
    BTreeMap<nz::NonZeroI8, u8>, BTreeMap<Repr, u8>, BTreeMap<External, u8>, BTreeMap<Untagged, u8>,
    Result<u8, u16>, Result<u16, u8>, Result<Leaf, String>, std::ops::Bound<u8>, std::ops::Bound<u16>, std::ops::Bound<Leaf>,
    std::ops::Range<u8>, std::ops::Range<u16>, std::ops::RangeInclusive<u8>, std::ops::Range<Leaf>,
    Box<Leaf>, std::rc::Rc<Leaf>, std::sync::Arc<[Leaf]>, std::borrow::Cow<'static, str>, std::cell::Cell<u8>, std::cell::RefCell<Leaf>,
    std::sync::Mutex<Leaf>, std::sync::RwLock<u8>, std::num::Wrapping<u8>, std::cmp::Reverse<Leaf>, std::marker::PhantomData<Leaf>,
    either1::Either<u8, u16>, either1::Either<u16, u8>, either1::Either<Leaf, String>, arrayvec07::ArrayVec<u8, 3>, arrayvec07::ArrayVec<u8, 4>, arrayvec07::ArrayString<5>, arrayvec07::ArrayString<6>,
    smallvec1::SmallVec<[u8; 2]>, indexmap2::IndexMap<String, u8, H>, indexmap2::IndexSet<u8, H>, &'static str, &'static [Leaf], &'static std::path::Path,
}
rows! { DERIVED:
    Leaf, Inlined, Documented, Optional, Validated, Text, SchemaWith, Extended, Transformed, Unit, Newtype, Tuple, TupleWith, Transparent,
    Const<1, true>, Const<1, false>, Const<11, true>, Lifetimes<'static, str>, Lifetimes<'static, [u8]>, Phantom<Leaf>, Phantom<u8>,
    Renamed<u8, Leaf>, Renamed<Leaf, u8>, RenamedOne<u8>, RenamedOne<Leaf>, OddName, EnumGeneric<u8, Leaf>, EnumGeneric<Leaf, u8>, Projected<u8>, Projected<u16>,
    UnitEnum, PlainUnits, External, Internal, InternalOpen, UnitStruct, Adjacent, Untagged, MixedUntagged, RefVariants, RefVariants2<u8>, RefVariants2<Leaf>, Repr, Repr2,
    Flat, FlatClosed, FlatEnums, FlatValue, FlatGeneric<Leaf>, FlatGeneric<External>, FlatGeneric<Option<Optional>>, FlatVariant, FromInto, TryFrom8, ForeignDef<u8>, Remote,
    List<u8>, List<Leaf>, List<List<u8>>, Tree, Expr, Block, FlatRec, Json, a::Leaf, a::Leaf2, a::External, a::a::Leaf, b::Leaf<1>, b::Leaf<2>, b::Whatever, b::W<u8>, b::W<Leaf>,
    Manual, Asks,
}

pub fn at(i: u16) -> &'static Row {
    let mut i = i as usize;
    for t in [LEAVES, CONTAINERS, DERIVED] {
        if i < t.len() {
            return &t[i];
        }
        i -= t.len();
    }
    &DERIVED[i % DERIVED.len()]
}
pub fn count() -> usize {
    LEAVES.len() + CONTAINERS.len() + DERIVED.len()
}

pub fn gen_settings(r: &mut Rng) -> SettingsSpec {
    SettingsSpec { dialect: r.below(4) as u8, serialize: r.chance(1, 3), inline: r.chance(1, 6), meta: r.chance(1, 2), untagged_titles: r.chance(1, 4), ..SettingsSpec::plain() }
}

pub fn gen(r: &mut Rng, settings: usize) -> Vec<OpZ> {
    if r.chance(1, 12) {
        // one generator meets a good part of all types
        let mut ks: Vec<u16> = (0..count() as u16).collect();
        for i in (1..ks.len()).rev() {
            ks.swap(i, r.below(i + 1));
        }
        let n = r.range(40, 160);
        let mut ops = vec![OpZ { slot: 0, what: ZNew(r.below(settings)), thread: false }];
        ops.extend(ks.iter().take(n).map(|k| OpZ { slot: 0, what: ZSub(*k), thread: false }));
        for _ in 0..r.below(3) {
            let what = match r.below(3) {
                0 => ZRoot(ks[r.below(n)]),
                1 => ZClear,
                _ => ZTake(false),
            };
            ops.insert(r.range(1, ops.len()), OpZ { slot: 0, what, thread: false });
        }
        return ops;
    }
    // a handful of types, often neighbours in the table (i.e. similar ones)
    let mut pool: Vec<u16> = Vec::new();
    let many = r.chance(1, 3);
    let n = if many { r.range(20, 50) } else { r.range(2, 9) };
    while pool.len() < n {
        let k = match (pool.is_empty(), r.below(4)) {
            (false, 0 | 1) => {
                let k = pool[r.below(pool.len())] as usize;
                (k + r.range(1, 7)).saturating_sub(4) % count()
            }
            _ => match r.below(4) {
                0 => r.below(LEAVES.len()),
                1 => LEAVES.len() + r.below(CONTAINERS.len()),
                _ => LEAVES.len() + CONTAINERS.len() + r.below(DERIVED.len()),
            },
        };
        pool.push(k as u16);
    }
    let mut live = [false; 2];
    let mut ops = Vec::new();
    let n = if many { r.range(20, 60) } else { r.range(3, 14) };
    while ops.len() < n {
        let slot = r.below(2);
        let k = pool[r.below(pool.len())];
        let what = if !live[slot] {
            live[slot] = true;
            ZNew(r.below(settings))
        } else {
            match r.below(14) {
                0..=5 => ZSub(k),
                6..=8 => ZRoot(k),
                9 => {
                    live[slot] = false;
                    ZInto(k)
                }
                10 => ZTake(r.chance(1, 2)),
                11 if r.chance(1, 2) => ZClear,
                12 => {
                    live[1 - slot] = true;
                    ZClone(1 - slot as u8)
                }
                _ => ZSub(k),
            }
        };
        ops.push(OpZ { slot: slot as u8, what, thread: r.chance(1, 10) });
    }
    ops
}

struct Slot {
    g: Option<SchemaGenerator>,
    settings: usize,
    /// the name each type's definition was given
    names: BTreeMap<u16, String>,
    /// what each definition was the first time it was seen
    first: BTreeMap<String, Value>,
    /// references handed out since the definitions were last removed
    owed: BTreeSet<u16>,
}

struct Run<'a> {
    settings: &'a [SettingsSpec],
    fresh: BTreeMap<(usize, u16, bool), Value>,
}
impl Run<'_> {
    /// What a brand-new generator makes.
    fn fresh(&mut self, s: usize, k: u16, root: bool) -> &Value {
        let settings = self.settings;
        self.fresh.entry((s, k, root)).or_insert_with(|| {
            let mut g = settings[s].build().into_generator();
            if root {
                (at(k).root)(&mut g).to_value()
            } else {
                let v = (at(k).sub)(&mut g).to_value();
                synthetic(&settings[s], &v, g.definitions())
            }
        })
    }
}

fn ask(mut g: SchemaGenerator, what: &WhatZ) -> Result<(Option<SchemaGenerator>, Value), String> {
    catch_unwind(AssertUnwindSafe(|| match what {
        ZSub(k) => {
            let v = (at(*k).sub)(&mut g).to_value();
            (Some(g), v)
        }
        ZRoot(k) => {
            let v = (at(*k).root)(&mut g).to_value();
            (Some(g), v)
        }
        ZInto(k) => (None, (at(*k).into)(g).to_value()),
        ZTake(t) => {
            let v = Value::Object(g.take_definitions(*t));
            (Some(g), v)
        }
        ZClear => {
            g.definitions_mut().clear();
            (Some(g), Value::Null)
        }
        _ => (Some(g), Value::Null),
    }))
    .map_err(|p| panic_text(&*p))
}

/// Checks everything a generator holds after a request (or what it gave away).
fn held(run: &mut Run, slot: &mut Slot, defs: &Map<String, Value>, transformed: bool, stats: &mut BTreeMap<String, u64>) -> Result<(), Bad> {
    let s = &run.settings[slot.settings].clone();
    if s.inline {
        return Ok(());
    }
    let doc = synthetic(s, &Value::Object(Map::new()), defs);
    Doc::new(&doc, s).refs()?;
    for (name, v) in defs {
        if transformed && s.has_transforms() {
            continue;
        }
        let was = slot.first.entry(name.clone()).or_insert_with(|| v.clone());
        if was != v {
            return bad("definition-altered", format!("definition {name:?} is {} and was {}", short(v), short(was)));
        }
    }
    for k in slot.owed.clone() {
        let name = slot.names[&k].clone();
        let Some(v) = defs.get(&name) else {
            return bad("lost-definition", format!("no definition {name:?} of {} although it was referred to", at(k).name));
        };
        if transformed && s.has_transforms() {
            continue;
        }
        let want = run.fresh(slot.settings, k, false);
        let Some(Value::Object(sub)) = want.pointer("/allOf/0") else { continue };
        let r = pure_ref(&Value::Object(sub.clone())).map(str::to_owned);
        let Some(Ok(w)) = r.map(|r| Doc::new(want, s).resolve(&r).cloned()) else { continue };
        if v.as_bool().is_some() && v != &w {
            return bad("placeholder", format!("the definition of {} is {v}", at(k).name));
        }
        bump(stats, "definitions of real types looked at");
    }
    Ok(())
}

pub fn run(settings: &[SettingsSpec], ops: &[OpZ], all_threads: bool, out: &mut RunOut) -> Result<(), Bad> {
    let mut slots: BTreeMap<u8, Slot> = BTreeMap::new();
    let mut run = Run { settings, fresh: BTreeMap::new() };
    let mut outs = Vec::new();
    let mut asked = 0;
    for (i, op) in ops.iter().enumerate() {
        let ty = match &op.what {
            ZSub(k) | ZRoot(k) | ZInto(k) => at(*k).name,
            _ => "",
        };
        let ctx = |(c, d): Bad| (c, format!("request {i} ({:?} {ty}, generator {}): {d}", op.what, op.slot));
        match &op.what {
            ZNew(s) => {
                let g = settings[*s].build().into_generator();
                slots.insert(op.slot, Slot { g: Some(g), settings: *s, names: BTreeMap::new(), first: BTreeMap::new(), owed: BTreeSet::new() });
                continue;
            }
            ZClone(to) => {
                if let Some(s) = slots.get(&op.slot) {
                    let c = Slot { g: s.g.clone(), settings: s.settings, names: s.names.clone(), first: s.first.clone(), owed: s.owed.clone() };
                    slots.insert(*to, c);
                    bump(&mut out.stats, "op clone");
                }
                continue;
            }
            _ => {}
        }
        let Some(mut slot) = slots.remove(&op.slot) else { continue };
        let s = settings[slot.settings].clone();
        let Some(g) = slot.g.take() else { continue };
        let before = g.definitions().clone();
        let res = if op.thread || all_threads {
            let what = op.what.clone();
            bump(&mut out.stats, "fault thread-migration");
            std::thread::spawn(move || ask(g, &what)).join().map_err(|_| ("harness".to_owned(), "thread".to_owned()))?
        } else {
            ask(g, &op.what)
        };
        let (g, got) = res.or_else(|m| bad("panic", format!("the library panicked: {m}"))).map_err(ctx)?;
        out.steps += 1;
        outs.push(got.to_string());
        let none = Map::new();
        let defs = g.as_ref().map_or(&none, SchemaGenerator::definitions).clone();
        match &op.what {
            ZSub(k) => {
                let doc = synthetic(&s, &got, &defs);
                Doc::new(&doc, &s).refs().map_err(ctx)?;
                let name = got.get("$ref").and_then(Value::as_str).and_then(|r| decode_fragment(r).ok()).and_then(|mut n| n.pop());
                if let (Some(name), false) = (name, (at(*k).always_inline)()) {
                    let was = slot.names.entry(*k).or_insert_with(|| name.clone());
                    if *was != name {
                        return bad("renamed", format!("called {name:?}, and was called {was:?}")).map_err(ctx);
                    }
                    slot.owed.insert(*k);
                }
                let want = run.fresh(slot.settings, *k, false);
                let n = equivalent(&s, &doc, want, false).map_err(ctx)?;
                add(&mut out.stats, "reference pairs compared", n);
                asked += 1;
            }
            ZRoot(k) | ZInto(k) => {
                Doc::new(&got, &s).refs().map_err(ctx)?;
                let want = run.fresh(slot.settings, *k, true);
                let n = equivalent(&s, &got, want, true).map_err(ctx)?;
                add(&mut out.stats, "reference pairs compared", n);
                asked += 1;
            }
            ZTake(t) => {
                let took = got.as_object().cloned().unwrap_or_default();
                if took.keys().ne(before.keys()) || (!(*t && s.has_transforms()) && took != before) || !defs.is_empty() {
                    return bad("drain", format!("took {} of {}, leaving {}", short(&got), short(&Value::Object(before)), short(&Value::Object(defs)))).map_err(ctx);
                }
                held(&mut run, &mut slot, &took, *t, &mut out.stats).map_err(ctx)?;
                slot.owed.clear();
            }
            _ => slot.owed.clear(),
        }
        if let Some(g) = g {
            for (name, _) in &before {
                if !matches!(op.what, ZTake(_) | ZClear) && !defs.contains_key(name) {
                    return bad("lost-definition", format!("definition {name:?} is gone")).map_err(ctx);
                }
            }
            held(&mut run, &mut slot, &defs, false, &mut out.stats).map_err(ctx)?;
            slot.g = Some(g);
            slots.insert(op.slot, slot);
        }
    }
    out.nontrivial |= asked > 1;
    add(&mut out.stats, "requests for real types", asked);
    out.outs = vec![outs];
    Ok(())
}
