//! C08 and C09: schemas written to and read from streams that misbehave.
use crate::history::{add, bump, panic_text, RunOut};
use crate::oracle::{bad, short, Bad};
use crate::plan::*;
use crate::rng::Rng;
use crate::sched::{self, Decide};
use crate::world::ty;
use schemars::Schema;
use serde::de::{DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize as DeriveSer};
use serde_json::{Map, Value};
use std::collections::{BTreeSet, VecDeque};
use std::io::{self, ErrorKind, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, DeriveSer, Deserialize, PartialEq)]
pub enum DocSpec {
    /// generated from types, after some other requests
    Types { settings: usize, warm: Vec<(u8, u8)>, kind: u8, target: u8 },
    /// any JSON object or bool
    Raw(Value),
}

#[derive(Clone, Debug, DeriveSer, Deserialize, PartialEq)]
pub enum Act {
    /// accept / deliver at most so many bytes
    Short(usize),
    Interrupted,
    /// an error, once (the stream works again afterwards)
    Error(u8),
    /// an error from here on
    Broken(u8),
    /// accept nothing / end of file, from here on
    Zero,
}

#[derive(Clone, Debug, DeriveSer, Deserialize, PartialEq)]
pub enum Sink {
    Writer { pretty: bool, script: Vec<Act> },
    /// a binary format of our own; fails at its n-th call, once or for good
    Format { fail_at: Option<u64>, sticky: bool, counted: bool, human: bool },
}

#[derive(Clone, Debug, DeriveSer, Deserialize, PartialEq)]
pub enum Source {
    /// `count` documents one after another in one stream
    Reader { script: Vec<Act> },
    /// the same through `Vec<Schema>`
    Vector { script: Vec<Act> },
    /// a format of our own announcing `hint` elements, failing at the n-th call
    Format { fail_at: Option<u64>, hint: u64 },
}

#[derive(Clone, Debug, DeriveSer, Deserialize, PartialEq)]
pub enum IoPlan {
    Write { doc: DocSpec, sinks: Vec<Sink> },
    Read { docs: Vec<Value>, source: Source, flips: Vec<(usize, u8)>, cut: Option<usize> },
}

const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::StorageFull,
    ErrorKind::UnexpectedEof,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
];
fn kind(k: u8) -> ErrorKind {
    KINDS[k as usize % KINDS.len()]
}

// ------------------------------------------------------------------ generation
const KEYWORDS: [&str; 64] = [
    "$id", "$schema", "title", "description", "type", "format", "properties", "required", "$defs", "definitions", "examples", "default", "allOf", "anyOf",
    "oneOf", "not", "items", "prefixItems", "enum", "const", "additionalProperties", "patternProperties", "dependentSchemas", "x-custom", "x-order", "if", "then",
    "else", "minimum", "maxLength", "$ref", "readOnly", "deprecated", "unknown", "", "$comment", "x-", "é", "\u{1}", "unevaluatedProperties", "multipleOf", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "pattern", "minItems", "maxItems", "uniqueItems",
    "contains", "propertyNames", "minProperties", "dependentRequired", "$anchor", "$dynamicRef", "$vocabulary", "contentMediaType", "contentSchema", "nullable",
    "writeOnly", "unevaluatedItems", "additionalItems", "example", "discriminator",
];

fn gen_json(r: &mut Rng, depth: usize) -> Value {
    if depth == 0 || r.chance(1, 3) {
        return match r.below(9) {
            0 => Value::Null,
            1 => Value::Bool(r.chance(1, 2)),
            2 => Value::from(r.u64()),
            3 => Value::from(-(r.below(1000) as i64)),
            4 => Value::from(r.below(1000) as f64 / 8.0),
            5 => Value::from("\u{7f}\n\"\\é🚀"),
            6 => Value::Array(vec![]),
            _ => Value::from(*r.pick(&KEYWORDS)),
        };
    }
    if r.chance(1, 3) {
        return Value::Array((0..r.below(4)).map(|_| gen_json(r, depth - 1)).collect());
    }
    Value::Object((0..r.below(7)).map(|_| ((*r.pick(&KEYWORDS)).to_owned(), gen_json(r, depth - 1))).collect())
}

/// A key starting with this is sent without it, as one more occurrence of the key.
const AGAIN: char = '\u{2}';
fn key(k: &str) -> &str {
    k.strip_prefix(AGAIN).unwrap_or(k)
}
/// The document as sent: JSON text in which a key may occur more than once.
fn text(v: &Value, out: &mut String) {
    match v {
        Value::Object(o) => {
            out.push('{');
            for (i, (k, v)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(&Value::from(key(k)).to_string());
                out.push(':');
                text(v, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                text(v, out);
            }
            out.push(']');
        }
        v => out.push_str(&v.to_string()),
    }
}
fn repeat_keys(r: &mut Rng, v: &mut Value) {
    match v {
        Value::Object(o) => {
            for (_, v) in o.iter_mut() {
                repeat_keys(r, v);
            }
            if r.chance(1, 3) {
                if let Some(k) = o.keys().nth(r.below(o.len().max(1))).cloned() {
                    let x = gen_json(r, 1);
                    o.insert(format!("{AGAIN}{k}"), x);
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|v| repeat_keys(r, v)),
        _ => {}
    }
}
/// Stands for a document nested far deeper than any test's: so many levels of keyword k.
const DEEP: &str = "\u{3}";
fn expand(v: &Value) -> Value {
    match v {
        Value::Object(o) => match o.get(DEEP).and_then(Value::as_u64) {
            Some(n) => {
                let mut v = Value::Bool(true);
                for i in 0..n {
                    v = if i % 7 == 3 { Value::Array(vec![v]) } else { Value::Object(Map::from_iter([(KEYWORDS[(i + n) as usize % KEYWORDS.len()].to_owned(), v)])) };
                }
                v
            }
            None => Value::Object(o.iter().map(|(k, v)| (k.clone(), expand(v))).collect()),
        },
        Value::Array(a) => Value::Array(a.iter().map(expand).collect()),
        v => v.clone(),
    }
}

fn gen_script(r: &mut Rng, len: usize, write: bool) -> Vec<Act> {
    let style = r.below(6);
    // a write call per token, a read call per chunk
    let n = if write { r.range(0, (len / 3).clamp(1, 120)) } else { r.range(0, 40) };
    let chunk = *r.pick(&[1usize, 2, 3, 7, 16, 64, 4096]);
    let mut v: Vec<Act> = (0..n)
        .map(|_| match style {
            0 => Act::Short(chunk),
            1 => Act::Short(r.range(1, 9)),
            2 if r.chance(1, 3) => Act::Interrupted,
            _ => {
                if r.chance(1, 5) {
                    Act::Interrupted
                } else {
                    Act::Short(if r.chance(1, 2) { chunk } else { 1 << 20 })
                }
            }
        })
        .collect();
    match r.below(5) {
        0 => {}
        1 | 2 => v.push(Act::Error(r.below(8) as u8)),
        3 => v.push(Act::Broken(r.below(8) as u8)),
        _ => v.push(Act::Zero),
    }
    v
}

pub fn gen_write(r: &mut Rng, plan: &mut Plan) -> IoPlan {
    let doc = if r.chance(1, 2) {
        let used = used_nodes(&plan.world);
        let t = |r: &mut Rng, w: &crate::world::World| loop {
            let k = if r.chance(1, 2) { 0 } else { crate::plan::gen_kind(r) };
            let t = r.below(used) as u8;
            if ok_request(w, k, t) {
                return (k, t);
            }
        };
        let (kind, target) = t(r, &plan.world);
        let warm = (0..r.below(3)).map(|_| t(r, &plan.world)).collect();
        DocSpec::Types { settings: r.below(plan.settings.len()), warm, kind, target }
    } else {
        loop {
            let v = if r.chance(1, 20) { Value::Bool(r.chance(1, 2)) } else { gen_json(r, 4) };
            if v.is_object() || v.is_boolean() {
                break DocSpec::Raw(v);
            }
        }
    };
    let len = 400;
    let sinks = (0..r.range(1, 3))
        .map(|_| {
            if r.chance(3, 5) {
                Sink::Writer { pretty: r.chance(1, 3), script: gen_script(r, len, true) }
            } else {
                Sink::Format { fail_at: r.chance(4, 5).then(|| if r.chance(1, 2) { r.range(1, 12) } else { r.range(1, 120) } as u64), sticky: r.chance(1, 2), counted: r.chance(1, 2), human: r.chance(1, 4) }
            }
        })
        .collect();
    IoPlan::Write { doc, sinks }
}

pub fn gen_read(r: &mut Rng) -> IoPlan {
    let n = r.range(1, 4);
    let mut docs: Vec<Value> = (0..n)
        .map(|_| match r.below(6) {
            0 if r.chance(1, 3) => Value::Object(Map::from_iter([("not".to_owned(), Value::Object(Map::from_iter([(DEEP.to_owned(), Value::from(r.range(60, 200)))])))])),
            0 => gen_json(r, 0),
            1 => Value::Bool(r.chance(1, 2)),
            2 => gen_json(r, 2),
            _ => Value::Object(match gen_json(r, 4) {
                Value::Object(o) => o,
                v => Map::from_iter([("v".to_owned(), v)]),
            }),
        })
        .collect();
    if r.chance(1, 3) {
        docs.iter_mut().for_each(|d| repeat_keys(r, d));
    }
    let len: usize = docs.iter().map(|d| expand(d).to_string().len() + 1).sum();
    let source = match r.below(6) {
        0 => Source::Format {
            fail_at: r.chance(3, 4).then(|| if r.chance(1, 2) { r.range(1, 8) } else { r.range(1, 60) } as u64),
            hint: *r.pick(&[0, 1, 5, 1 << 20, 1 << 40, u64::MAX >> 1, u64::MAX]),
        },
        1 | 2 => Source::Vector { script: gen_script(r, len, false) },
        _ => Source::Reader { script: gen_script(r, len, false) },
    };
    let flips = (0..if r.chance(1, 2) { 0 } else { r.range(1, 2) }).map(|_| (r.below(len), 1u8 << r.below(8))).collect();
    let cut = r.chance(1, 4).then(|| r.below(len));
    IoPlan::Read { docs, source, flips, cut }
}

// ------------------------------------------------------------------ streams
struct FaultIo {
    data: VecDeque<u8>,
    out: Vec<u8>,
    script: VecDeque<Act>,
    stuck: Option<Act>,
    hard: Option<ErrorKind>,
    fired: Vec<&'static str>,
}
impl FaultIo {
    fn new(data: &[u8], script: &[Act]) -> FaultIo {
        FaultIo { data: data.iter().copied().collect(), out: Vec::new(), script: script.iter().cloned().collect(), stuck: None, hard: None, fired: Vec::new() }
    }
    fn next(&mut self, want: usize, write: bool) -> io::Result<usize> {
        let act = self.stuck.clone().or_else(|| self.script.pop_front()).unwrap_or(Act::Short(usize::MAX));
        match act {
            Act::Short(n) => {
                if n < want {
                    self.fired.push(if write { "fault short-write" } else { "fault short-read" });
                }
                Ok(n.max(1).min(want))
            }
            Act::Interrupted => {
                self.fired.push("fault interrupted");
                Err(ErrorKind::Interrupted.into())
            }
            Act::Error(k) => {
                self.fired.push(if write { "fault transient-write-error" } else { "fault transient-read-error" });
                self.hard.get_or_insert(kind(k));
                Err(kind(k).into())
            }
            Act::Broken(k) => {
                self.fired.push(if write { "fault broken-sink" } else { "fault broken-source" });
                self.stuck = Some(Act::Broken(k));
                self.hard.get_or_insert(kind(k));
                Err(kind(k).into())
            }
            Act::Zero => {
                self.fired.push(if write { "fault full-sink" } else { "fault early-eof" });
                self.stuck = Some(Act::Zero);
                if write {
                    self.hard.get_or_insert(ErrorKind::WriteZero);
                } else {
                    self.data.clear();
                }
                Ok(0)
            }
        }
    }
}
impl Write for FaultIo {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        sched::callback_point();
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.next(buf.len(), true)?;
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for FaultIo {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sched::callback_point();
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.next(buf.len(), false)?.min(self.data.len());
        for b in &mut buf[..n] {
            *b = self.data.pop_front().unwrap_or(0);
        }
        Ok(n)
    }
}

// ------------------------------------------------------------------ a format of our own: writing
#[derive(Debug)]
pub struct Fail(String);
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Fail {}
impl ser::Error for Fail {
    fn custom<T: std::fmt::Display>(m: T) -> Fail {
        Fail(m.to_string())
    }
}
impl serde::de::Error for Fail {
    fn custom<T: std::fmt::Display>(m: T) -> Fail {
        Fail(m.to_string())
    }
}
const TOKEN: &str = "injected-format-error";

struct Fmt {
    calls: u64,
    fail_at: Option<u64>,
    sticky: bool,
    fired: bool,
    /// needs every length up front, like most binary formats
    counted: bool,
    human: bool,
    /// something no format could accept
    wrong: Option<String>,
}
impl Fmt {
    fn call(&mut self) -> Result<(), Fail> {
        sched::callback_point();
        self.calls += 1;
        match self.fail_at {
            Some(n) if n == self.calls || (self.sticky && self.calls > n) => {
                self.fired = true;
                Err(Fail(TOKEN.into()))
            }
            _ => Ok(()),
        }
    }
    fn wrong<T>(&mut self, m: impl Into<String>) -> Result<T, Fail> {
        let m = m.into();
        self.wrong.get_or_insert(m.clone());
        Err(Fail(m))
    }
}

struct Ser<'f>(&'f mut Fmt);
struct SeqOut<'f> {
    f: &'f mut Fmt,
    len: Option<usize>,
    items: Vec<Value>,
}
struct MapOut<'f> {
    f: &'f mut Fmt,
    len: Option<usize>,
    map: Map<String, Value>,
    key: Option<String>,
    n: usize,
}
macro_rules! prim {
    ($($n:ident $t:ty),*) => { $(fn $n(self, v: $t) -> Result<Value, Fail> { self.0.call()?; Ok(Value::from(v)) })* };
}
impl<'f> ser::Serializer for Ser<'f> {
    type Ok = Value;
    type Error = Fail;
    type SerializeSeq = SeqOut<'f>;
    type SerializeTuple = SeqOut<'f>;
    type SerializeTupleStruct = SeqOut<'f>;
    type SerializeTupleVariant = ser::Impossible<Value, Fail>;
    type SerializeMap = MapOut<'f>;
    type SerializeStruct = MapOut<'f>;
    type SerializeStructVariant = ser::Impossible<Value, Fail>;
    prim!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_str &str);
    fn serialize_char(self, v: char) -> Result<Value, Fail> {
        self.0.call()?;
        Ok(Value::from(v.to_string()))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<Value, Fail> {
        self.0.wrong("bytes are not part of a schema")
    }
    fn serialize_none(self) -> Result<Value, Fail> {
        self.serialize_unit()
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Value, Fail> {
        self.0.call()?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Value, Fail> {
        self.0.call()?;
        Ok(Value::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Value, Fail> {
        self.serialize_unit()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Value, Fail> {
        self.serialize_str(v)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Value, Fail> {
        self.0.call()?;
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Value, Fail> {
        self.0.wrong("a variant is not part of a schema")
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<SeqOut<'f>, Fail> {
        self.0.call()?;
        if len.is_none() && self.0.counted {
            return self.0.wrong("the number of elements is not announced, which a length-prefixed format needs");
        }
        Ok(SeqOut { f: self.0, len, items: Vec::new() })
    }
    fn serialize_tuple(self, len: usize) -> Result<SeqOut<'f>, Fail> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<SeqOut<'f>, Fail> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Fail> {
        self.0.wrong("a variant is not part of a schema")
    }
    fn serialize_map(self, len: Option<usize>) -> Result<MapOut<'f>, Fail> {
        self.0.call()?;
        if len.is_none() && self.0.counted {
            return self.0.wrong("the number of entries is not announced, which a length-prefixed format needs");
        }
        Ok(MapOut { f: self.0, len, map: Map::new(), key: None, n: 0 })
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<MapOut<'f>, Fail> {
        self.serialize_map(Some(len))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Fail> {
        self.0.wrong("a variant is not part of a schema")
    }
    fn is_human_readable(&self) -> bool {
        self.0.human
    }
}
impl SeqOut<'_> {
    fn add<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        self.f.call()?;
        self.items.push(v.serialize(Ser(self.f))?);
        Ok(())
    }
    fn finish(self) -> Result<Value, Fail> {
        self.f.call()?;
        if self.len.is_some_and(|l| l != self.items.len()) {
            return self.f.wrong(format!("{} elements announced, {} written", self.len.unwrap_or(0), self.items.len()));
        }
        Ok(Value::Array(self.items))
    }
}
impl SerializeSeq for SeqOut<'_> {
    type Ok = Value;
    type Error = Fail;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        self.add(v)
    }
    fn end(self) -> Result<Value, Fail> {
        self.finish()
    }
}
impl ser::SerializeTuple for SeqOut<'_> {
    type Ok = Value;
    type Error = Fail;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        self.add(v)
    }
    fn end(self) -> Result<Value, Fail> {
        self.finish()
    }
}
impl ser::SerializeTupleStruct for SeqOut<'_> {
    type Ok = Value;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        self.add(v)
    }
    fn end(self) -> Result<Value, Fail> {
        self.finish()
    }
}
impl MapOut<'_> {
    fn put(&mut self, k: String, v: Value) -> Result<(), Fail> {
        self.n += 1;
        if self.map.insert(k.clone(), v).is_some() {
            return self.f.wrong(format!("keyword {k:?} written twice"));
        }
        Ok(())
    }
    fn finish(self) -> Result<Value, Fail> {
        self.f.call()?;
        if self.len.is_some_and(|l| l != self.n) {
            return self.f.wrong(format!("{} entries announced, {} written", self.len.unwrap_or(0), self.n));
        }
        Ok(Value::Object(self.map))
    }
}
impl SerializeMap for MapOut<'_> {
    type Ok = Value;
    type Error = Fail;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Fail> {
        self.f.call()?;
        match k.serialize(Ser(self.f))? {
            Value::String(s) => {
                self.key = Some(s);
                Ok(())
            }
            v => self.f.wrong(format!("key {v}")),
        }
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        self.f.call()?;
        let v = v.serialize(Ser(self.f))?;
        match self.key.take() {
            Some(k) => self.put(k, v),
            None => self.f.wrong("a value without a key"),
        }
    }
    fn end(self) -> Result<Value, Fail> {
        self.finish()
    }
}
impl ser::SerializeStruct for MapOut<'_> {
    type Ok = Value;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Fail> {
        self.f.call()?;
        let v = v.serialize(Ser(self.f))?;
        self.put(k.to_owned(), v)
    }
    fn end(self) -> Result<Value, Fail> {
        self.finish()
    }
}

// ------------------------------------------------------------------ a format of our own: reading
struct Src {
    calls: u64,
    fail_at: Option<u64>,
    hint: usize,
    fired: bool,
}
impl Src {
    fn call(&mut self) -> Result<(), Fail> {
        sched::callback_point();
        self.calls += 1;
        if self.fail_at == Some(self.calls) {
            self.fired = true;
            return Err(Fail(TOKEN.into()));
        }
        Ok(())
    }
}
struct De<'s>(&'s mut Src, &'s Value);
struct Seq<'s>(&'s mut Src, std::slice::Iter<'s, Value>);
struct MapIn<'s>(&'s mut Src, Vec<(&'s String, &'s Value)>, usize);

impl<'de> Deserializer<'de> for De<'_> {
    type Error = Fail;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        self.0.call()?;
        match self.1 {
            Value::Null => v.visit_unit(),
            Value::Bool(b) => v.visit_bool(*b),
            Value::Number(n) => {
                if let Some(u) = n.as_u64() {
                    v.visit_u64(u)
                } else if let Some(i) = n.as_i64() {
                    v.visit_i64(i)
                } else {
                    v.visit_f64(n.as_f64().unwrap_or(0.0))
                }
            }
            Value::String(s) => v.visit_str(s),
            Value::Array(a) => v.visit_seq(Seq(self.0, a.iter())),
            Value::Object(o) => v.visit_map(MapIn(self.0, o.iter().collect(), 0)),
        }
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> SeqAccess<'de> for Seq<'_> {
    type Error = Fail;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Fail> {
        self.0.call()?;
        match self.1.next() {
            None => Ok(None),
            Some(v) => seed.deserialize(De(self.0, v)).map(Some),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.hint)
    }
}
impl<'de> MapAccess<'de> for MapIn<'_> {
    type Error = Fail;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Fail> {
        self.0.call()?;
        match self.1.get(self.2) {
            None => Ok(None),
            Some((k, _)) => {
                let v = Value::from(key(k));
                seed.deserialize(De(self.0, &v)).map(Some)
            }
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Fail> {
        self.0.call()?;
        let v = self.1[self.2].1;
        self.2 += 1;
        seed.deserialize(De(self.0, v))
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.hint)
    }
}

// ------------------------------------------------------------------ running
type Fired = Vec<&'static str>;

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Bad> {
    let h = crate::seams::set_alloc_hook(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::seams::set_alloc_hook(h);
    r.map_err(|p| ("panic".to_owned(), format!("the library panicked: {}", panic_text(&*p))))
}

fn write_once(schema: &Schema, sink: &Sink, fault: bool, fired: &mut Fired) -> Result<(Vec<u8>, bool), Bad> {
    match sink {
        Sink::Writer { pretty, script } => {
            let mut w = FaultIo::new(&[], if fault { script } else { &[] });
            let r = guarded(|| if *pretty { serde_json::to_writer_pretty(&mut w, schema) } else { serde_json::to_writer(&mut w, schema) })?;
            fired.extend(w.fired.iter());
            let text = std::mem::take(&mut w.out);
            match (r, w.hard) {
                (Ok(()), None) => Ok((text, true)),
                (Ok(()), Some(k)) => bad("error-swallowed", format!("the sink failed with {k:?}, writing reported success; written: {}", String::from_utf8_lossy(&text))),
                (Err(e), Some(k)) => {
                    if e.io_error_kind() == Some(k) {
                        Ok((text, false))
                    } else {
                        bad("wrong-error", format!("the sink failed with {k:?}, reported as {e}"))
                    }
                }
                (Err(e), None) => bad("spurious-error", format!("no write failed, but {e}")),
            }
        }
        Sink::Format { fail_at, sticky, counted, human } => {
            let mut f = Fmt { calls: 0, fail_at: fail_at.filter(|_| fault), sticky: *sticky, counted: *counted, human: *human, fired: false, wrong: None };
            let r = guarded(|| schema.serialize(Ser(&mut f)))?;
            if f.fired {
                fired.push("fault format-write-error");
            }
            if let Some(w) = f.wrong {
                return bad("bad-encoding", w);
            }
            match (r, f.fired) {
                (Ok(v), false) => {
                    if &v != schema.as_value() {
                        return bad("wrong-content", format!("wrote {} for {}", short(&v), short(schema.as_value())));
                    }
                    Ok((v.to_string().into_bytes(), true))
                }
                (Ok(v), true) => bad("error-swallowed", format!("the format failed, writing reported success: {}", short(&v))),
                (Err(e), true) => {
                    if e.0.contains(TOKEN) {
                        Ok((format!("failed at call {}", f.calls).into_bytes(), false))
                    } else {
                        bad("wrong-error", format!("the format's error was reported as {e}"))
                    }
                }
                (Err(e), false) => bad("spurious-error", format!("no call failed, but {e}")),
            }
        }
    }
}

fn write_client(schema: &Schema, before: &Value, sink: &Sink, fired: &mut Fired) -> Result<Vec<String>, Bad> {
    let mut outs = Vec::new();
    let (text, ok) = write_once(schema, sink, true, fired)?;
    let show = |t: &[u8]| String::from_utf8_lossy(t).into_owned();
    outs.push(format!("{ok} {}", show(&text)));
    let mut none = Vec::new();
    let (full, _) = write_once(schema, sink, false, &mut none)?;
    if let Sink::Writer { .. } = sink {
        let back: Value = match serde_json::from_slice(&full) {
            Ok(v) => v,
            Err(e) => return bad("wrong-content", format!("wrote something that is not JSON ({e}): {}", show(&full))),
        };
        if &back != before {
            return bad("wrong-content", format!("wrote {} for {}", short(&back), short(before)));
        }
        if ok && text != full {
            return bad("torn", format!("short writes changed the output: {} instead of {}", show(&text), show(&full)));
        }
        if !ok && !full.starts_with(&text) {
            return bad("torn", format!("a failed write left {}, which no prefix of {} is", show(&text), show(&full)));
        }
    }
    if schema.as_value() != before {
        return bad("altered", "writing altered the schema");
    }
    outs.push(show(&full));
    Ok(outs)
}

pub fn run_write(plan: &Plan, doc: &DocSpec, sinks: &[Sink], out: &mut RunOut) -> Result<(), Bad> {
    let schema: Schema = match doc {
        DocSpec::Types { settings, warm, kind, target } => {
            let mut g = plan.settings[*settings].build().into_generator();
            for (k, t) in warm {
                let _ = (ty(*k, *t).root)(&mut g);
            }
            (ty(*kind, *target).root)(&mut g)
        }
        DocSpec::Raw(v) => match Schema::try_from(v.clone()) {
            Ok(s) => s,
            Err(e) => return bad("rejected", format!("{} is not accepted as a schema: {e}", short(v))),
        },
    };
    let schema = Arc::new(schema);
    let before = schema.as_value().clone();
    let results: Arc<Mutex<Vec<Option<(Result<Vec<String>, Bad>, Fired)>>>> = Arc::new(Mutex::new(sinks.iter().map(|_| None).collect()));
    let bodies = sinks
        .iter()
        .enumerate()
        .map(|(i, sink)| {
            let (schema, before, sink, results) = (schema.clone(), before.clone(), sink.clone(), results.clone());
            Box::new(move || {
                let mut fired = Vec::new();
                let r = write_client(&schema, &before, &sink, &mut fired);
                results.lock().unwrap_or_else(std::sync::PoisonError::into_inner)[i] = Some((r, fired));
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let after = vec![None; sinks.len()];
    crate::scenario::note_schedule(out, sched::run(bodies, after, decide(&plan.sched)))?;
    let mut results = results.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
    let mut any = false;
    let mut texts: Vec<Vec<String>> = Vec::new();
    for (i, r) in results.iter_mut().enumerate() {
        let Some((r, fired)) = r.take() else { return bad("hang", format!("writer {i} never returned")) };
        for f in &fired {
            bump(&mut out.stats, f);
        }
        any |= !fired.is_empty();
        let texts_i = r.map_err(|(c, d)| (c, format!("writer {i}: {d}")))?;
        texts.push(texts_i);
    }
    add(&mut out.stats, "writers", sinks.len() as u64);
    if sinks.len() > 1 {
        bump(&mut out.stats, "fault concurrent-writers");
    }
    out.nontrivial = any && before.as_object().is_some_and(|o| o.len() > 1);
    out.outs = texts;
    Ok(())
}

pub fn decide(s: &Sched) -> Decide {
    match &s.switches {
        Some(l) => Decide::Recorded(l.clone()),
        None => Decide::Random { seed: s.seed, alloc_den: s.alloc_den, cb_den: s.cb_den, edge_gap: s.edge_gap },
    }
}

fn judge_one(i: usize, got: Result<Schema, String>, want: &Result<Value, String>, fired_hard: bool) -> Result<String, Bad> {
    match (got, want) {
        (Ok(s), Ok(v)) if v.is_object() || v.is_boolean() => {
            if s.as_value() != v {
                return bad("wrong-content", format!("document {i}: read {} from a stream holding {}", short(s.as_value()), short(v)));
            }
            Ok(format!("ok {v}"))
        }
        (Ok(s), Ok(v)) => bad("not-a-schema", format!("document {i}: {} was read as schema {}", short(v), short(s.as_value()))),
        (Ok(s), Err(e)) => bad(
            "error-swallowed",
            format!("document {i}: the stream is broken ({e}; injected error: {fired_hard}), yet a schema was read: {}", short(s.as_value())),
        ),
        (Err(g), Err(e)) => Ok(format!("err {g} / {e}")),
        (Err(e), Ok(v)) if v.is_object() || v.is_boolean() => bad("spurious-error", format!("document {i}: {} was rejected: {e}", short(v))),
        (Err(e), Ok(v)) => Ok(format!("rejected {v}: {e}")),
    }
}

pub fn run_read(plan: &Plan, docs: &[Value], source: &Source, flips: &[(usize, u8)], cut: Option<usize>, out: &mut RunOut) -> Result<(), Bad> {
    let _ = plan;
    let docs: &[Value] = &docs.iter().map(expand).collect::<Vec<_>>();
    let mut outs = Vec::new();
    match source {
        Source::Format { fail_at, hint } => {
            for (i, d) in docs.iter().enumerate() {
                let hint = usize::try_from(*hint).unwrap_or(usize::MAX);
                let mut a = Src { calls: 0, fail_at: *fail_at, hint, fired: false };
                let mut b = Src { calls: 0, fail_at: *fail_at, hint, fired: false };
                let got = guarded(|| Schema::deserialize(De(&mut a, d)))?;
                let want = Value::deserialize(De(&mut b, d)).map_err(|e| e.0);
                if a.fired {
                    bump(&mut out.stats, "fault format-read-error");
                    out.nontrivial |= d.is_object();
                    if let Ok(s) = &got {
                        return bad("error-swallowed", format!("document {i}: the source failed at call {}, yet a schema was read: {}", a.calls, short(s.as_value())));
                    }
                    outs.push(format!("err at call {} of {d}", a.calls));
                    continue;
                }
                if hint as u64 > 1 << 16 {
                    bump(&mut out.stats, "fault lying-size-hint");
                    out.nontrivial |= d.is_object();
                }
                // reading may have stopped before the fault that the reference ran into
                let want = if b.fired { Value::deserialize(De(&mut Src { calls: 0, fail_at: None, hint, fired: false }, d)).map_err(|e| e.0) } else { want };
                if d.to_string().contains("\\u0002") {
                    bump(&mut out.stats, "fault repeated-key");
                }
                outs.push(judge_one(i, got.map_err(|e| e.0), &want, false)?);
            }
        }
        Source::Reader { script } | Source::Vector { script } => {
            let vector = matches!(source, Source::Vector { .. });
            let mut sent = String::new();
            if vector {
                text(&Value::Array(docs.to_vec()), &mut sent);
            } else {
                for d in docs {
                    text(d, &mut sent);
                    sent.push('\n');
                }
            }
            if docs.iter().any(|d| d.to_string().contains("\\u0002")) {
                bump(&mut out.stats, "fault repeated-key");
            }
            let mut bytes = sent.into_bytes();
            for (at, bit) in flips {
                if let Some(b) = bytes.get_mut(*at) {
                    *b ^= bit;
                    bump(&mut out.stats, "fault flipped-bit");
                    out.nontrivial = true;
                }
            }
            if let Some(c) = cut {
                if c < bytes.len() {
                    bytes.truncate(c);
                    bump(&mut out.stats, "fault truncated");
                    out.nontrivial = true;
                }
            }
            let mut a = FaultIo::new(&bytes, script);
            let mut b = FaultIo::new(&bytes, script);
            if vector {
                let got = guarded(|| serde_json::from_reader::<_, Vec<Schema>>(&mut a))?;
                let want = serde_json::from_reader::<_, Vec<Value>>(&mut b);
                let all = want.as_ref().is_ok_and(|w| w.iter().all(|v| v.is_object() || v.is_boolean()));
                match (got, want) {
                    (Ok(g), Ok(w)) if all => {
                        if g.len() != w.len() || g.iter().zip(&w).any(|(g, w)| g.as_value() != w) {
                            return bad("wrong-content", format!("read {} from a stream holding {}", serde_json::to_string(&g).unwrap_or_default(), Value::Array(w)));
                        }
                        outs.push(format!("ok {}", Value::Array(w)));
                    }
                    (Ok(g), Ok(w)) => return bad("not-a-schema", format!("{} was read as schemas {}", Value::Array(w), serde_json::to_string(&g).unwrap_or_default())),
                    (Ok(g), Err(e)) => return bad("error-swallowed", format!("the stream is broken ({e}), yet schemas were read: {}", serde_json::to_string(&g).unwrap_or_default())),
                    (Err(e), Ok(w)) if all => return bad("spurious-error", format!("{} was rejected: {e}", Value::Array(w))),
                    (Err(e), w) => outs.push(format!("err {e} / {w:?}")),
                }
            } else {
                let mut want = serde_json::Deserializer::from_reader(&mut b).into_iter::<Value>();
                let mut got = serde_json::Deserializer::from_reader(&mut a).into_iter::<Schema>();
                for i in 0..docs.len() + 4 {
                    let w = want.next();
                    let g = guarded(|| got.next())?;
                    match (g, w) {
                        (None, None) => break,
                        (Some(g), Some(w)) => {
                            let stop = g.is_err();
                            outs.push(judge_one(i, g.map_err(|e| e.to_string()), &w.map_err(|e| e.to_string()), false)?);
                            if stop {
                                // how much a rejected document consumes is not specified
                                break;
                            }
                        }
                        (None, Some(w)) => return bad("lost-document", format!("document {i} was not read; there: {w:?}")),
                        (Some(g), None) => return bad("invented-document", format!("document {i} was read past the end: {:?}", g.map(|s| s.to_value()))),
                    }
                }
            }
            for f in &a.fired {
                bump(&mut out.stats, f);
            }
            out.nontrivial |= !a.fired.is_empty();
        }
    }
    add(&mut out.stats, "documents read", docs.len() as u64);
    out.outs = vec![outs];
    Ok(())
}

/// Everything a smaller plan of the same kind could look like.
pub fn smaller(p: &IoPlan) -> Vec<IoPlan> {
    let mut v = Vec::new();
    fn scripts(s: &[Act]) -> Vec<Vec<Act>> {
        let mut v = Vec::new();
        let mut n = s.len() / 2;
        while n >= 1 {
            for at in (0..s.len()).step_by(n) {
                let mut t = s.to_vec();
                t.drain(at..(at + n).min(s.len()));
                v.push(t);
            }
            n /= 2;
        }
        v
    }
    match p {
        IoPlan::Write { doc, sinks } => {
            for i in 0..sinks.len() {
                if sinks.len() > 1 {
                    let mut s = sinks.clone();
                    s.remove(i);
                    v.push(IoPlan::Write { doc: doc.clone(), sinks: s });
                }
                if let Sink::Writer { pretty, script } = &sinks[i] {
                    for t in scripts(script) {
                        let mut s = sinks.clone();
                        s[i] = Sink::Writer { pretty: *pretty, script: t };
                        v.push(IoPlan::Write { doc: doc.clone(), sinks: s });
                    }
                }
                if let Sink::Format { fail_at: Some(n), sticky, counted, human } = &sinks[i] {
                    for f in [None, Some(n / 2), Some(n - 1)] {
                        if f != Some(0) {
                            let mut s = sinks.clone();
                            s[i] = Sink::Format { fail_at: f, sticky: *sticky, counted: *counted, human: *human };
                            v.push(IoPlan::Write { doc: doc.clone(), sinks: s });
                        }
                    }
                }
            }
            match doc {
                DocSpec::Types { settings, warm, kind, target } => {
                    for i in 0..warm.len() {
                        let mut w = warm.clone();
                        w.remove(i);
                        v.push(IoPlan::Write { doc: DocSpec::Types { settings: *settings, warm: w, kind: *kind, target: *target }, sinks: sinks.clone() });
                    }
                }
                DocSpec::Raw(x) => {
                    for y in smaller_json(x) {
                        if y.is_object() || y.is_boolean() {
                            v.push(IoPlan::Write { doc: DocSpec::Raw(y), sinks: sinks.clone() });
                        }
                    }
                }
            }
        }
        IoPlan::Read { docs, source, flips, cut } => {
            let with = |docs: &[Value], source: &Source, flips: &[(usize, u8)], cut: Option<usize>| IoPlan::Read { docs: docs.to_vec(), source: source.clone(), flips: flips.to_vec(), cut };
            for i in 0..docs.len() {
                if docs.len() > 1 {
                    let mut d = docs.clone();
                    d.remove(i);
                    v.push(with(&d, source, flips, *cut));
                }
                for y in smaller_json(&docs[i]) {
                    let mut d = docs.clone();
                    d[i] = y;
                    v.push(with(&d, source, flips, *cut));
                }
            }
            for i in 0..flips.len() {
                let mut f = flips.clone();
                f.remove(i);
                v.push(with(docs, source, &f, *cut));
            }
            if cut.is_some() {
                v.push(with(docs, source, flips, None));
            }
            match source {
                Source::Reader { script } => {
                    for t in scripts(script) {
                        v.push(with(docs, &Source::Reader { script: t }, flips, *cut));
                    }
                }
                Source::Vector { script } => {
                    for t in scripts(script) {
                        v.push(with(docs, &Source::Vector { script: t }, flips, *cut));
                    }
                }
                Source::Format { fail_at, hint } => {
                    if fail_at.is_some() {
                        v.push(with(docs, &Source::Format { fail_at: None, hint: *hint }, flips, *cut));
                    }
                    if *hint > 0 {
                        v.push(with(docs, &Source::Format { fail_at: *fail_at, hint: 0 }, flips, *cut));
                    }
                }
            }
        }
    }
    v
}

fn smaller_json(x: &Value) -> Vec<Value> {
    let mut v = Vec::new();
    match x {
        Value::Object(o) => {
            let keys: BTreeSet<&String> = o.keys().collect();
            for k in keys {
                let mut p = o.clone();
                p.remove(k);
                v.push(Value::Object(p));
            }
            for (k, c) in o {
                for d in smaller_json(c) {
                    let mut p = o.clone();
                    p.insert(k.clone(), d);
                    v.push(Value::Object(p));
                }
            }
        }
        Value::Array(a) => {
            for i in 0..a.len() {
                let mut p = a.clone();
                p.remove(i);
                v.push(Value::Array(p));
                for d in smaller_json(&a[i]) {
                    let mut p = a.clone();
                    p[i] = d;
                    v.push(Value::Array(p));
                }
            }
        }
        Value::String(s) if !s.is_empty() => v.push(Value::from("")),
        _ => {}
    }
    v
}
