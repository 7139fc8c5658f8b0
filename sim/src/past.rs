//! Traffic in the process before the run: requests on other generators that crash, fail or succeed.
//! None of it may make a difference.
use crate::rng::Rng;
use crate::zoo;
use schemars::generate::SchemaSettings;
use schemars::{json_schema, JsonSchema, Schema, SchemaGenerator};
use serde::{ser::Error, Serialize, Serializer};
use std::borrow::Cow;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

struct Crash;
impl JsonSchema for Crash {
    fn schema_name() -> Cow<'static, str> {
        "Crash".into()
    }
    fn schema_id() -> Cow<'static, str> {
        "past::Crash".into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        resume_unwind(Box::new(crate::ctx::InjectedCrash))
    }
}
/// Re-enters, and crashes in the middle of it.
struct Around;
impl JsonSchema for Around {
    fn schema_name() -> Cow<'static, str> {
        "Around".into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        let own = g.root_schema_for::<zoo::derived::W<Around>>();
        let mut other = g.clone();
        other.subschema_for::<Vec<Crash>>();
        json_schema!({"x": own})
    }
}
/// Fails in its second element.
struct Fails(bool);
impl Serialize for Fails {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        struct No(bool);
        impl Serialize for No {
            fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
                if self.0 {
                    resume_unwind(Box::new(crate::ctx::InjectedCrash));
                }
                Err(S::Error::custom("past"))
            }
        }
        use serde::ser::SerializeStruct;
        let mut m = s.serialize_struct("Fails", 3)?;
        m.serialize_field("a", &[1, 2])?;
        m.serialize_field("b", &(Some(1), [No(self.0)]))?;
        m.end()
    }
}
#[derive(JsonSchema, Serialize)]
#[schemars(example = Fails(false))]
struct Silent {
    #[serde(default)]
    a: u8,
    #[serde(default, serialize_with = "no")]
    b: Option<String>,
}
fn no<S: Serializer>(_: &Option<String>, _: S) -> Result<S::Ok, S::Error> {
    Err(S::Error::custom("past"))
}
impl Default for Silent {
    fn default() -> Silent {
        Silent { a: 1, b: None }
    }
}

fn one(kind: usize, r: &mut Rng) {
    let settings = match r.below(4) {
        0 => SchemaSettings::draft07(),
        1 => SchemaSettings::openapi3(),
        2 => SchemaSettings::draft2020_12().for_serialize(),
        _ => SchemaSettings::draft2019_09().with(|s| s.inline_subschemas = true),
    };
    let mut g = settings.into_generator();
    match kind {
        0 => drop(g.root_schema_for::<zoo::derived::W<Vec<Crash>>>()),
        1 => drop(g.root_schema_for_value(&Fails(false))),
        2 => drop(g.root_schema_for_value(&Fails(true))),
        3 => {
            g.subschema_for::<Silent>();
            let s = (zoo::at(r.below(zoo::count()) as u16).root)(&mut g);
            g.take_definitions(true);
            drop(serde_json::to_string(&s));
        }
        4 => {
            let mut g = g.settings().clone().with_transform(|_: &mut Schema| resume_unwind(Box::new(crate::ctx::InjectedCrash))).into_generator();
            (zoo::at(r.below(zoo::count()) as u16).root)(&mut g);
        }
        5 => drop(g.into_root_schema_for::<Around>()),
        6 => {
            struct Full;
            impl std::io::Write for Full {
                fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
                    Err(std::io::ErrorKind::OutOfMemory.into())
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    Ok(())
                }
            }
            let s = g.into_root_schema_for::<Silent>();
            let _ = serde_json::to_writer(Full, &s);
            let _ = serde_json::from_str::<Schema>("{\"$defs\": {\"a\": ");
        }
        _ => {
            (zoo::at(r.below(zoo::count()) as u16).sub)(&mut g);
        }
    }
}

/// `n` requests, all of one kind or of all kinds.
pub fn traffic(past: u32) {
    let (n, kind) = (past / 16, past as usize % 16);
    let mut r = Rng::new(u64::from(past));
    for i in 0..n as usize {
        let kind = if kind < 8 { kind } else { i % 8 };
        let _ = catch_unwind(AssertUnwindSafe(|| one(kind, &mut r)));
    }
}

pub fn gen(r: &mut Rng) -> u32 {
    if !r.chance(1, 24) {
        return 0;
    }
    let n = if r.chance(1, 2) { r.range(1, 40) } else { r.range(100, 700) };
    (n * 16 + r.below(16)) as u32
}
