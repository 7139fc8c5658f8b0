//! C12: default and example values whose `Serialize` fails while a schema is being generated.
use crate::history::{add, bump, panic_text, RunOut};
use crate::oracle::{bad, short, Bad};
use crate::plan::SettingsSpec;
use crate::rng::Rng;
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde::ser::{Error, SerializeMap, Serializer};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct F12 {
    pub id: u8,
    /// step of one serialization (1 start, 2-4 entries, 5 end)
    pub at: u8,
    /// how many serializations of the request are affected, from which on
    pub first: u32,
    pub count: u32,
    pub panic: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum What12 {
    New(usize),
    Sub(u8),
    Root(u8),
    Into(u8),
    Take,
    Clone(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op12 {
    pub slot: u8,
    pub what: What12,
    pub faults: Vec<F12>,
    pub thread: bool,
}

#[derive(Default)]
struct State {
    faults: Vec<F12>,
    seen: BTreeMap<u8, u32>,
    fired: BTreeSet<u8>,
    steps: u64,
}
thread_local! {
    static STATE: RefCell<State> = RefCell::new(State::default());
}

fn attempt(id: u8) -> u32 {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        let n = s.seen.entry(id).or_default();
        *n += 1;
        *n - 1
    })
}
fn step<E: Error>(id: u8, attempt: u32, at: u8) -> Result<(), E> {
    let hit = STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.steps += 1;
        let hit = s.faults.iter().find(|f| f.id == id && f.at == at && attempt >= f.first && attempt - f.first < f.count).map(|f| f.panic);
        if hit.is_some() {
            s.fired.insert(id);
        }
        hit
    });
    match hit {
        None => Ok(()),
        Some(true) => std::panic::resume_unwind(Box::new(crate::ctx::InjectedCrash)),
        Some(false) => Err(E::custom("injected")),
    }
}

#[derive(Clone, PartialEq)]
pub struct Flaky<const I: u8>(pub u8);
impl<const I: u8> Default for Flaky<I> {
    fn default() -> Self {
        Flaky(7)
    }
}
impl<const I: u8> Serialize for Flaky<I> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let a = attempt(I);
        step(I, a, 1)?;
        let mut m = s.serialize_map(Some(3))?;
        step(I, a, 2)?;
        m.serialize_entry("flaky", &I)?;
        step(I, a, 3)?;
        m.serialize_entry("value", &self.0)?;
        step(I, a, 4)?;
        m.serialize_entry("list", &[1, 2])?;
        step(I, a, 5)?;
        m.end()
    }
}
impl<'de, const I: u8> Deserialize<'de> for Flaky<I> {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
        Err(serde::de::Error::custom("not needed"))
    }
}
impl<const I: u8> JsonSchema for Flaky<I> {
    fn schema_name() -> std::borrow::Cow<'static, str> {
        format!("Flaky{I}").into()
    }
    fn inline_schema() -> bool {
        I % 2 == 0
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        schemars::json_schema!({"type": "object", "x-flaky-type": I})
    }
}

fn mk<const I: u8>() -> Flaky<I> {
    Flaky(I)
}
fn never<const I: u8>(v: &Flaky<I>) -> bool {
    v.0 == 255
}
fn always<const I: u8>(_: &Flaky<I>) -> bool {
    true
}
fn ser_with<S: Serializer>(v: &u8, s: S) -> Result<S::Ok, S::Error> {
    Flaky::<6>(*v).serialize(s)
}
fn seven() -> u8 {
    7
}

pub mod types {
    #![allow(dead_code)]
    use super::*;

    #[derive(JsonSchema, Serialize, Deserialize, Clone)]
    pub struct A {
        #[serde(default = "mk::<0>")]
        pub a: Flaky<0>,
        pub plain: u8,
        #[serde(default)]
        pub b: Flaky<1>,
        #[serde(default = "seven")]
        pub c: u8,
    }
    impl Default for A {
        fn default() -> A {
            A { a: mk(), plain: 1, b: mk(), c: 2 }
        }
    }

    #[derive(JsonSchema, Serialize, Deserialize)]
    #[serde(default)]
    pub struct B {
        pub x: Flaky<2>,
        pub y: Option<Flaky<3>>,
        pub z: Vec<A>,
        pub nested: A,
    }
    impl Default for B {
        fn default() -> B {
            B { x: mk(), y: Some(mk()), z: vec![A::default()], nested: A::default() }
        }
    }

    #[derive(JsonSchema, Serialize, Deserialize)]
    #[serde(default = "whole")]
    pub struct Whole {
        pub x: Flaky<4>,
        #[serde(default = "mk::<5>")]
        pub y: Flaky<5>,
        pub inner: Box<A>,
    }
    fn whole() -> Whole {
        Whole { x: mk(), y: mk(), inner: Box::new(A::default()) }
    }

    #[derive(JsonSchema, Serialize, Deserialize)]
    pub struct Skips {
        #[serde(default = "mk::<4>", skip_serializing_if = "never::<4>")]
        pub shown: Flaky<4>,
        #[serde(default = "mk::<5>", skip_serializing_if = "always::<5>")]
        pub hidden: Flaky<5>,
        #[serde(default = "seven", serialize_with = "ser_with")]
        #[schemars(with = "Flaky<6>")]
        pub with: u8,
    }

    #[derive(JsonSchema, Serialize, Deserialize)]
    #[schemars(example = mk::<0>(), example = mk::<1>(), example = json!({"plain": true}))]
    pub struct Examples {
        #[schemars(example = mk::<2>())]
        #[serde(default = "mk::<3>")]
        pub one: Flaky<3>,
        #[schemars(example = &"text", example = mk::<7>())]
        pub two: Option<Box<Examples>>,
        pub b: Option<Box<B>>,
    }

    #[derive(JsonSchema, Serialize, Deserialize)]
    pub enum Choice {
        #[schemars(example = mk::<5>())]
        Unit,
        Struct {
            #[serde(default = "mk::<1>")]
            f: Flaky<1>,
            a: A,
        },
        New(B),
        Tuple(Flaky<0>, #[schemars(example = mk::<6>())] A),
    }

    #[derive(JsonSchema, Serialize, Deserialize)]
    #[serde(tag = "kind")]
    pub enum Tagged {
        S {
            #[serde(default)]
            f: Flaky<2>,
        },
        N(A),
    }

    #[derive(JsonSchema, Serialize, Deserialize)]
    pub struct Flat {
        #[serde(flatten)]
        pub a: A,
        #[serde(flatten)]
        pub t: Tagged,
        #[serde(default = "mk::<7>")]
        pub own: Flaky<7>,
    }

    /// Values that serialize to something easily taken for nothing.
    #[derive(JsonSchema, Serialize, Deserialize, Clone)]
    #[schemars(example = (), example = false, example = 0u8, example = "", example = Vec::<u8>::new(), example = 0u8, example = json!({}))]
    pub struct Falsy {
        #[serde(default)]
        pub null: Option<u8>,
        #[serde(default)]
        pub unit: (),
        #[serde(default)]
        pub no: bool,
        #[serde(default)]
        pub zero: u64,
        #[serde(default)]
        pub text: String,
        #[serde(default)]
        pub list: Vec<u8>,
        #[serde(default)]
        #[schemars(example = BTreeMap::<String, u8>::new(), example = BTreeMap::<String, u8>::new())]
        pub map: BTreeMap<String, u8>,
        #[serde(default = "most")]
        pub most: u64,
        #[serde(default = "least")]
        pub least: i64,
        #[serde(default)]
        pub zero_point: f64,
        #[serde(default = "lines")]
        #[schemars(example = lines())]
        pub lines: Vec<Option<String>>,
        #[serde(default)]
        pub required: Option<Box<Generic<Flaky<6>>>>,
    }
    fn most() -> u64 {
        u64::MAX
    }
    fn least() -> i64 {
        i64::MIN
    }
    fn lines() -> Vec<Option<String>> {
        vec![None, Some(String::new()), Some("\u{0}\n\u{1F680}".into())]
    }

    pub mod module {
        use super::*;
        pub fn serialize<S: Serializer>(v: &u8, s: S) -> Result<S::Ok, S::Error> {
            Flaky::<1>(*v).serialize(s)
        }
        pub fn deserialize<'de, D: serde::Deserializer<'de>>(_: D) -> Result<u8, D::Error> {
            Err(serde::de::Error::custom("not needed"))
        }
    }

    #[derive(JsonSchema, Serialize, Deserialize, Clone)]
    #[serde(default, bound(deserialize = "T: Default + Deserialize<'de>"))]
    #[schemars(example = Generic { value: Flaky::<3>(3), list: vec![], wrapped: 9 })]
    pub struct Generic<T: Default + Serialize> {
        pub value: T,
        pub list: Vec<T>,
        #[serde(with = "module")]
        #[schemars(with = "Flaky<1>")]
        pub wrapped: u8,
    }
    impl<T: Default + Serialize> Default for Generic<T> {
        fn default() -> Self {
            Generic { value: T::default(), list: vec![T::default()], wrapped: 8 }
        }
    }

    #[derive(JsonSchema, Serialize, Deserialize)]
    #[serde(tag = "t", content = "c", rename_all_fields = "camelCase")]
    pub enum Adjacent {
        First {
            #[serde(default = "mk::<2>", rename = "re named/~")]
            one: Flaky<2>,
            #[serde(default, alias = "other")]
            two_words: Falsy,
        },
        #[schemars(example = mk::<4>())]
        Second(Generic<Flaky<0>>),
    }
    impl Default for Falsy {
        fn default() -> Falsy {
            Falsy {
                null: None,
                unit: (),
                no: false,
                zero: 0,
                text: String::new(),
                list: vec![],
                map: BTreeMap::new(),
                most: 1,
                least: -1,
                zero_point: -0.5,
                lines: vec![],
                required: Some(Box::default()),
            }
        }
    }

    #[derive(JsonSchema, Serialize, Deserialize)]
    #[schemars(example = Many::default())]
    pub struct Many {
        pub list: Vec<Flaky<3>>,
        pub skips: Option<Box<Skips>>,
    }
    impl Default for Many {
        fn default() -> Many {
            Many { list: vec![mk(), mk()], skips: None }
        }
    }
}

pub struct T12 {
    sub: fn(&mut SchemaGenerator) -> Schema,
    root: fn(&mut SchemaGenerator) -> Schema,
    into: fn(SchemaGenerator) -> Schema,
}
fn t<T: JsonSchema>() -> T12 {
    T12 { sub: SchemaGenerator::subschema_for::<T>, root: SchemaGenerator::root_schema_for::<T>, into: SchemaGenerator::into_root_schema_for::<T> }
}
fn table() -> Vec<T12> {
    use types::*;
    vec![t::<A>(), t::<B>(), t::<Whole>(), t::<Skips>(), t::<Examples>(), t::<Choice>(), t::<Tagged>(), t::<Flat>(), t::<Many>(), t::<Vec<Examples>>(), t::<(A, Option<Flat>)>(), t::<Falsy>(), t::<Generic<Flaky<5>>>(), t::<Adjacent>()]
}
const TYPES: usize = 14;

/// (type, its place in the table, where, keyword, value) of everything that must be there when nothing fails.
fn sites() -> Vec<(&'static str, u8, &'static str, &'static str, Value)> {
    use types::*;
    fn v(x: impl Serialize) -> Value {
        serde_json::to_value(x).expect("no fault is set")
    }
    let falsy = [
        ("/properties/null", Value::Null),
        ("/properties/unit", Value::Null),
        ("/properties/no", json!(false)),
        ("/properties/zero", json!(0)),
        ("/properties/text", json!("")),
        ("/properties/list", json!([])),
        ("/properties/map", json!({})),
        ("/properties/most", json!(u64::MAX)),
        ("/properties/least", json!(i64::MIN)),
        ("/properties/zero_point", json!(0.0)),
        ("/properties/lines", json!([null, "", "\u{0}\n\u{1F680}"])),
        ("/properties/required", Value::Null),
    ];
    let mut s = vec![
        ("A", 0, "/properties/a", "default", v(mk::<0>())),
        ("A", 0, "/properties/b", "default", v(Flaky::<1>(7))),
        ("A", 0, "/properties/c", "default", json!(7)),
        ("B", 1, "/properties/x", "default", v(mk::<2>())),
        ("B", 1, "/properties/y", "default", v(mk::<3>())),
        ("B", 1, "/properties/z", "default", v(vec![A::default()])),
        ("B", 1, "/properties/nested", "default", v(A::default())),
        ("Whole", 2, "/properties/x", "default", v(mk::<4>())),
        ("Whole", 2, "/properties/y", "default", v(mk::<5>())),
        ("Whole", 2, "/properties/inner", "default", v(A::default())),
        ("Skips", 3, "/properties/shown", "default", v(mk::<4>())),
        ("Skips", 3, "/properties/with", "default", v(Flaky::<6>(7))),
        ("Examples", 4, "", "examples", json!([mk::<0>(), mk::<1>(), {"plain": true}])),
        ("Examples", 4, "/properties/one", "examples", json!([mk::<2>()])),
        ("Examples", 4, "/properties/one", "default", v(mk::<3>())),
        ("Examples", 4, "/properties/two", "examples", json!(["text", mk::<7>()])),
        ("Flat", 7, "/properties/own", "default", v(mk::<7>())),
        ("Flat", 7, "/properties/a", "default", v(mk::<0>())),
        ("Many", 8, "", "examples", json!([Many::default()])),
        ("Falsy", 11, "", "examples", json!([null, false, 0, "", [], 0, {}])),
        ("Falsy", 11, "/properties/map", "examples", json!([{}, {}])),
        ("Falsy", 11, "/properties/lines", "examples", json!([[null, "", "\u{0}\n\u{1F680}"]])),
        ("Generic_for_Flaky5", 12, "", "examples", json!([{"value": Flaky::<3>(3), "list": [], "wrapped": Flaky::<1>(9)}])),
        ("Generic_for_Flaky5", 12, "/properties/value", "default", v(Flaky::<5>(7))),
        ("Generic_for_Flaky5", 12, "/properties/list", "default", v([Flaky::<5>(7)])),
        ("Generic_for_Flaky5", 12, "/properties/wrapped", "default", v(Flaky::<1>(8))),
        ("Adjacent", 13, "/oneOf/0/properties/c/properties/re named~1~0", "default", v(mk::<2>())),
        ("Adjacent", 13, "/oneOf/0/properties/c/properties/twoWords", "default", v(Falsy::default())),
    ];
    s.extend(falsy.into_iter().map(|(p, x)| ("Falsy", 11, p, "default", x)));
    s
}

/// Whether a schema made without any fault has all its defaults and examples, in full.
fn complete(sites: &[(&'static str, u8, &'static str, &'static str, Value)], what: &What12, doc: &Value, held: Option<&Map<String, Value>>, checked: &mut u64) -> Result<(), Bad> {
    let mut one = |schema: &Value, site: &(&'static str, u8, &'static str, &'static str, Value)| {
        let (name, _, at, key, want) = site;
        *checked += 1;
        match schema.pointer(at).and_then(|s| s.get(*key)) {
            Some(v) if v == want => Ok(()),
            got => bad("incomplete", format!("{key:?} at {at:?} of {name} is {got:?} although nothing failed, instead of {}: {}", short(want), short(schema))),
        }
    };
    for s in sites {
        if matches!(what, What12::Root(k) | What12::Into(k) if *k == s.1) {
            one(doc, s)?;
        }
        let defs = [doc.get("$defs").and_then(Value::as_object), held, matches!(what, What12::Take).then(|| doc.as_object()).flatten()];
        for d in defs.into_iter().flatten().filter_map(|d| d.get(s.0)) {
            one(d, s)?;
        }
    }
    Ok(())
}

pub fn gen(r: &mut Rng, settings: usize) -> Vec<Op12> {
    let n = r.range(2, 9);
    let mut live = [false; 2];
    let mut ops = Vec::new();
    let density = r.range(1, 3);
    while ops.len() < n {
        let slot = r.below(2);
        let what = if !live[slot] {
            live[slot] = true;
            What12::New(r.below(settings))
        } else {
            let k = r.below(TYPES) as u8;
            match r.below(10) {
                0 | 1 => What12::Sub(k),
                2..=5 => What12::Root(k),
                6 => {
                    live[slot] = false;
                    What12::Into(k)
                }
                7 => What12::Take,
                8 if r.chance(1, 2) => {
                    live[1 - slot] = true;
                    What12::Clone(1 - slot as u8)
                }
                _ => What12::Root(k),
            }
        };
        let mut faults = Vec::new();
        if matches!(what, What12::Sub(_) | What12::Root(_) | What12::Into(_)) && r.chance(density, 3) {
            for _ in 0..r.range(1, 4) {
                let all = r.chance(2, 3);
                let f = F12 {
                    id: r.below(8) as u8,
                    at: r.range(1, 5) as u8,
                    first: if all { 0 } else { r.below(3) as u32 },
                    count: if all { u32::MAX } else { 1 },
                    panic: r.chance(1, 25),
                };
                faults.push(f);
            }
        }
        ops.push(Op12 { slot: slot as u8, what, faults, thread: r.chance(1, 8) });
    }
    ops
}

fn mentions(v: &Value, out: &mut BTreeSet<u8>) {
    match v {
        Value::Object(o) => {
            if let Some(i) = o.get("flaky").and_then(Value::as_u64) {
                out.insert(i as u8);
            }
            o.values().for_each(|v| mentions(v, out));
        }
        Value::Array(a) => a.iter().for_each(|v| mentions(v, out)),
        _ => {}
    }
}
fn touched(v: &Value, fired: &BTreeSet<u8>) -> bool {
    let mut m = BTreeSet::new();
    mentions(v, &mut m);
    !m.is_disjoint(fired)
}

/// `got` is `want`, except that values which failed may be missing from `default` and `examples`.
fn same_but(got: &Value, want: &Value, fired: &BTreeSet<u8>, at: &str, lost: &mut u64) -> Result<(), Bad> {
    match (got, want) {
        (Value::Object(g), Value::Object(w)) => {
            for k in g.keys() {
                if !w.contains_key(k) {
                    return bad("differs", format!("at {at}: unexpected keyword {k:?} in {}", short(got)));
                }
            }
            for (k, y) in w {
                let at = format!("{at}/{k}");
                match (k.as_str(), g.get(k)) {
                    ("default", None) if touched(y, fired) => *lost += 1,
                    ("examples", x) if y.is_array() && x.is_none_or(Value::is_array) => {
                        let empty = Vec::new();
                        let x = x.and_then(Value::as_array).unwrap_or(&empty);
                        let y = y.as_array().unwrap_or(&empty);
                        let mut xi = x.iter().peekable();
                        for e in y {
                            if xi.peek() == Some(&e) {
                                xi.next();
                            } else if touched(e, fired) {
                                *lost += 1;
                            } else {
                                return bad("lost-example", format!("at {at}: example {} is missing: {}", short(e), short(got)));
                            }
                        }
                        if let Some(e) = xi.next() {
                            return bad("differs", format!("at {at}: unexpected example {}", short(e)));
                        }
                    }
                    (_, None) => return bad("lost-keyword", format!("at {at}: missing in {}, expected {}", short(got), short(y))),
                    (_, Some(x)) => same_but(x, y, fired, &at, lost)?,
                }
            }
            Ok(())
        }
        (Value::Array(g), Value::Array(w)) if g.len() == w.len() => {
            for (i, (x, y)) in g.iter().zip(w).enumerate() {
                same_but(x, y, fired, &format!("{at}/{i}"), lost)?;
            }
            Ok(())
        }
        _ if got == want => Ok(()),
        _ => bad("differs", format!("at {at}: {} instead of {}", short(got), short(want))),
    }
}

struct Slot {
    gen: SchemaGenerator,
    twin: SchemaGenerator,
    fired: BTreeSet<u8>,
}

enum Res {
    Doc(Value),
    Crashed,
    Panicked(String),
}

fn ask(mut g: SchemaGenerator, what: &What12, faults: &[F12]) -> (Option<SchemaGenerator>, Res, BTreeSet<u8>, u64) {
    STATE.with(|s| *s.borrow_mut() = State { faults: faults.to_vec(), ..State::default() });
    let table = table();
    let mut consumed = false;
    let r = catch_unwind(AssertUnwindSafe(|| match what {
        What12::Sub(k) => (table[*k as usize].sub)(&mut g).to_value(),
        What12::Root(k) => (table[*k as usize].root)(&mut g).to_value(),
        What12::Into(k) => {
            consumed = true;
            (table[*k as usize].into)(std::mem::take(&mut g)).to_value()
        }
        What12::Take => Value::Object(g.take_definitions(false)),
        _ => Value::Null,
    }));
    let st = STATE.with(std::cell::RefCell::take);
    match r {
        Ok(v) => ((!consumed).then_some(g), Res::Doc(v), st.fired, st.steps),
        Err(p) => {
            std::mem::forget(g);
            let r = if p.is::<crate::ctx::InjectedCrash>() { Res::Crashed } else { Res::Panicked(panic_text(&*p)) };
            (None, r, st.fired, st.steps)
        }
    }
}

fn as_doc(m: &Map<String, Value>) -> Value {
    Value::Object(m.clone())
}

pub fn run(settings: &[SettingsSpec], ops: &[Op12], out: &mut RunOut) -> Result<(), Bad> {
    let mut slots: BTreeMap<u8, Slot> = BTreeMap::new();
    let mut outs = Vec::new();
    STATE.with(|s| *s.borrow_mut() = State::default());
    let (sites, mut checked) = (sites(), 0);
    for (i, op) in ops.iter().enumerate() {
        let ctx = |(c, d): Bad| (c, format!("request {i} ({:?}, generator {}): {d}", op.what, op.slot));
        match &op.what {
            What12::New(s) => {
                let mk = || settings[*s].build().into_generator();
                slots.insert(op.slot, Slot { gen: mk(), twin: mk(), fired: BTreeSet::new() });
                continue;
            }
            What12::Clone(to) => {
                if let Some(s) = slots.get(&op.slot) {
                    let c = Slot { gen: s.gen.clone(), twin: s.twin.clone(), fired: s.fired.clone() };
                    slots.insert(*to, c);
                }
                continue;
            }
            _ => {}
        }
        let Some(Slot { gen, twin, mut fired }) = slots.remove(&op.slot) else { continue };
        let (gen, res, hit, steps) = if op.thread {
            let op = op.clone();
            bump(&mut out.stats, "fault thread-migration");
            std::thread::spawn(move || ask(gen, &op.what, &op.faults)).join().map_err(|_| ("harness".to_owned(), "thread".to_owned()))?
        } else {
            ask(gen, &op.what, &op.faults)
        };
        out.steps += steps;
        add(&mut out.stats, "fault value-serialization-error", hit.len() as u64);
        fired.extend(&hit);
        let got = match res {
            Res::Crashed => {
                bump(&mut out.stats, "fault crash-in-serialize");
                outs.push("crashed".into());
                continue;
            }
            Res::Panicked(m) => return bad("panic", format!("the library panicked: {m}")).map_err(ctx),
            Res::Doc(v) => v,
        };
        outs.push(got.to_string());
        let (twin, want, _, _) = ask(twin, &op.what, &[]);
        let Res::Doc(want) = want else { return bad("panic", "the library panicked without a fault").map_err(ctx) };
        complete(&sites, &op.what, &want, twin.as_ref().map(SchemaGenerator::definitions), &mut checked).map_err(ctx)?;
        let mut lost = 0;
        same_but(&got, &want, &fired, "#", &mut lost).map_err(ctx)?;
        add(&mut out.stats, "keywords dropped because of a fault", lost);
        if let (Some(g), Some(t)) = (&gen, &twin) {
            same_but(&as_doc(g.definitions()), &as_doc(t.definitions()), &fired, "definitions", &mut lost).map_err(ctx)?;
        }
        bump(&mut out.stats, "documents compared with a fault-free generator's");
        out.nontrivial |= !hit.is_empty() && lost > 0;
        if let (Some(gen), Some(twin)) = (gen, twin) {
            slots.insert(op.slot, Slot { gen, twin, fired });
        }
    }
    add(&mut out.stats, "defaults and examples found complete", checked);
    out.outs = vec![outs];
    Ok(())
}
