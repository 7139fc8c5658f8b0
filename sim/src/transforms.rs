//! Transforms that leave a trace of every application.
use crate::plan::TSpec;
use schemars::generate::GenTransform;
use schemars::transform::{RecursiveTransform, Transform};
use schemars::Schema;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Stamp {
    pub id: u8,
    /// applications so far, carried from document to document
    pub n: u64,
}

pub fn count_nodes(v: &Value) -> u64 {
    match v {
        Value::Object(o) => u64::from(o.contains_key("x-node")) + o.values().map(count_nodes).sum::<u64>(),
        Value::Array(a) => a.iter().map(count_nodes).sum(),
        _ => 0,
    }
}

impl Transform for Stamp {
    fn transform(&mut self, schema: &mut Schema) {
        crate::sched::callback_point();
        let m = count_nodes(schema.as_value());
        let o = schema.ensure_object();
        let entry = json!([self.id, self.n, m, o.contains_key("title"), o.contains_key("$schema")]);
        if let Value::Array(a) = o.entry("x-order").or_insert_with(|| json!([])) {
            a.push(entry);
        }
        self.n += 1;
    }
}

#[derive(Clone, Debug)]
pub struct RecStamp(pub u8);

impl Transform for RecStamp {
    fn transform(&mut self, schema: &mut Schema) {
        if let Some(b) = schema.as_bool() {
            // no room for a trace in a boolean
            *schema = json!({"x-bool": b}).try_into().expect("an object");
        }
        let o = schema.ensure_object();
        let k = format!("x-rec{}", self.0);
        let n = o.get(&k).and_then(Value::as_u64).unwrap_or(0);
        o.insert(k, (n + 1).into());
    }
}

#[derive(Clone, Debug)]
pub struct Nest;

impl Transform for Nest {
    fn transform(&mut self, schema: &mut Schema) {
        crate::sched::callback_point();
        let mut g = schemars::generate::SchemaSettings::draft07().into_generator();
        let a = g.root_schema_for::<crate::world::Node<0>>();
        let b = g.into_root_schema_for::<Vec<crate::world::Node<1>>>();
        let text = format!("{a:?} {b:?}");
        schema.insert("x-nest".into(), crate::rng::hash_str(&text).into());
    }
}

fn std_transform(k: u8) -> Box<dyn GenTransform> {
    use schemars::transform::*;
    match k % 12 {
        0 | 1 => {
            let mut t = ReplaceBoolSchemas::default();
            t.skip_additional_properties = k % 2 == 1;
            Box::new(t)
        }
        2 => Box::new(RemoveRefSiblings::default()),
        3 => Box::new(SetSingleExample::default()),
        4 => Box::new(ReplaceConstValue::default()),
        5 => Box::new(ReplacePrefixItems::default()),
        6 => Box::new(ReplaceUnevaluatedProperties::default()),
        7..=9 => {
            let mut t = AddNullable::default();
            t.remove_null_type = k % 2 == 1;
            t.add_const_null = k % 12 == 8;
            Box::new(t)
        }
        _ => {
            let mut t = RestrictFormats::default();
            t.infer_from_meta_schema = k % 2 == 0;
            t.allowed_formats.insert(["uuid", "custom", "date"][usize::from(k) / 12 % 3].into());
            Box::new(t)
        }
    }
}

pub fn build(t: &TSpec) -> Box<dyn GenTransform> {
    match t {
        TSpec::Stamp(id) => Box::new(Stamp { id: *id, n: 0 }),
        TSpec::Formats => Box::new(schemars::transform::RestrictFormats::default()),
        TSpec::Nest => Box::new(Nest),
        TSpec::Std(k) => std_transform(*k),
        TSpec::Rec(id) => Box::new(RecursiveTransform(RecStamp(*id))),
    }
}
