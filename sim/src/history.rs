//! Executes histories of requests against real `SchemaGenerator`s and judges every step.
use crate::ctx::{self, Act, Ctx};
use crate::oracle::*;
use crate::plan::*;
use crate::rng::{hash_bytes, hash_str};
use crate::transforms::{self, Stamp};
use crate::value::{self, FaultState, Owned};
use crate::world::*;
use schemars::{Schema, SchemaGenerator};
use serde_json::{Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Stats = BTreeMap<String, u64>;
pub fn bump(s: &mut Stats, k: &str) {
    *s.entry(k.to_owned()).or_default() += 1;
}
pub fn add(s: &mut Stats, k: &str, n: u64) {
    if n > 0 {
        *s.entry(k.to_owned()).or_default() += n;
    }
}

#[derive(Clone, Debug)]
pub enum Out {
    Schema { text: String, value: Value },
    Err(String),
    Map { text: String, map: Map<String, Value> },
    Unit,
    Crashed,
    Panicked(String),
    Runaway,
}
impl Out {
    pub fn text(&self) -> String {
        match self {
            Out::Schema { text, .. } => text.clone(),
            Out::Err(e) => format!("Err({e})"),
            Out::Map { text, .. } => format!("map {text}"),
            Out::Unit => "unit".into(),
            Out::Crashed => "crashed".into(),
            Out::Panicked(m) => format!("panicked: {m}"),
            Out::Runaway => "runaway".into(),
        }
    }
}

pub struct Ran {
    pub gen: Option<SchemaGenerator>,
    pub out: Out,
    pub ctx: Ctx,
    pub fault: FaultState,
}

fn schema_out(s: &Schema) -> Out {
    let h = crate::seams::set_alloc_hook(false);
    let o = Out::Schema { text: serde_json::to_string(s).unwrap_or_else(|e| format!("<{e}>")), value: s.as_value().clone() };
    crate::seams::set_alloc_hook(h);
    o
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_owned()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "unknown payload".to_owned()
    }
}

pub fn map_text(m: &Map<String, Value>) -> String {
    serde_json::to_string(m).unwrap_or_default()
}

/// Performs one request on `gen`, in this thread. Everything that happens is in the result.
pub fn perform(mut gen: SchemaGenerator, op: &Op, cap: u64) -> Ran {
    ctx::with(|c| {
        *c = Ctx { cap, crash_at: op.crash_at, re: op.re.clone(), ..Ctx::default() };
    });
    value::set_fault(op.fault.clone());
    let mut consumed = false;
    let sim = crate::seams::set_alloc_hook(true);
    let r = catch_unwind(AssertUnwindSafe(|| match &op.what {
        What::Sub { kind, target } => schema_out(&(ty(*kind, *target).sub)(&mut gen)),
        What::Root { kind, target } => schema_out(&(ty(*kind, *target).root)(&mut gen)),
        What::IntoRoot { kind, target } => {
            consumed = true;
            schema_out(&(ty(*kind, *target).into_root)(std::mem::take(&mut gen)))
        }
        What::Value { v } => match gen.root_schema_for_value(&Owned(v.clone())) {
            Ok(s) => schema_out(&s),
            Err(e) => Out::Err(e.to_string()),
        },
        What::IntoValue { v } => {
            consumed = true;
            match std::mem::take(&mut gen).into_root_schema_for_value(&Owned(v.clone())) {
                Ok(s) => schema_out(&s),
                Err(e) => Out::Err(e.to_string()),
            }
        }
        What::Take { apply } => {
            let m = gen.take_definitions(*apply);
            Out::Map { text: map_text(&m), map: m }
        }
        What::Clear => {
            gen.definitions_mut().clear();
            Out::Unit
        }
        What::Put { n } => {
            gen.definitions_mut().insert(format!("put/own {n}"), serde_json::json!({"x-put": n}));
            Out::Unit
        }
        What::TransMut => {
            for t in gen.transforms_mut() {
                if let Some(s) = t.downcast_mut::<Stamp>() {
                    s.n += 1000;
                }
            }
            Out::Unit
        }
        What::Real { t, root: true } => schema_out(&(crate::zoo::at(*t).root)(&mut gen)),
        What::Real { t, root: false } => schema_out(&(crate::zoo::at(*t).sub)(&mut gen)),
        What::Observe => {
            let m = gen.definitions().clone();
            Out::Map { text: map_text(&m), map: m }
        }
        What::New { .. } | What::Clone { .. } => Out::Unit,
    }));
    crate::seams::set_alloc_hook(sim);
    let out = match r {
        Ok(o) => o,
        Err(p) if p.is::<ctx::InjectedCrash>() => Out::Crashed,
        Err(p) if p.is::<ctx::Runaway>() => Out::Runaway,
        Err(p) => Out::Panicked(panic_text(&*p)),
    };
    let died = matches!(out, Out::Crashed | Out::Panicked(_) | Out::Runaway);
    let ctx = ctx::with(std::mem::take);
    ctx::with(|c| c.cap = u64::MAX);
    let fault = value::set_fault(None);
    let gen = if died {
        // the process that held it is gone; what it left in memory is not used again
        std::mem::forget(gen);
        None
    } else if consumed {
        None
    } else {
        Some(gen)
    };
    Ran { gen, out, ctx, fault }
}

fn perform_maybe_threaded(gen: SchemaGenerator, op: &Op, cap: u64, thread: bool) -> Ran {
    if thread {
        let op = op.clone();
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                let r = perform(gen, &op, cap);
                (r.gen, r.out, r.ctx, r.fault)
            })
            .expect("spawn")
            .join()
            .map(|(gen, out, ctx, fault)| Ran { gen, out, ctx, fault })
            .unwrap_or_else(|p| Ran { gen: None, out: Out::Panicked(panic_text(&*p)), ctx: Ctx::default(), fault: FaultState::default() })
    } else {
        perform(gen, op, cap)
    }
}

#[derive(Clone, Default)]
struct Model {
    name_of: BTreeMap<String, String>,
    id_of: BTreeMap<String, String>,
    /// by where it was seen: untransformed, in a root document, drained with transforms applied
    texts: BTreeMap<(u8, String), String>,
    requested: BTreeSet<usize>,
    /// the same as (kind, target, root document or not)
    asked: BTreeSet<(u8, u8, bool)>,
    nested: bool,
    referenced: BTreeSet<String>,
    builds: BTreeMap<usize, u64>,
    roots: BTreeMap<usize, u64>,
    extra_requests: BTreeMap<usize, u64>,
    stamps: Vec<(u8, u64)>,
    recs: Vec<u8>,
    /// stamps only: definitions are not transformed by anything else
    drained_once: bool,
}

struct Slot {
    gen: SchemaGenerator,
    settings: usize,
    model: Model,
    twin: Option<SchemaGenerator>,
}

#[derive(Default)]
pub struct RunOut {
    pub bad: Option<Bad>,
    /// per client: what each request returned
    pub outs: Vec<Vec<String>>,
    pub stats: Stats,
    pub trace: u64,
    pub steps: u64,
    pub nontrivial: bool,
    pub switches: Vec<(u64, u32)>,
}

pub struct Which {
    pub c01: bool,
    pub c02: bool,
    pub c03: bool,
    pub c04: bool,
    pub c05: bool,
    pub c10: bool,
    pub c11: bool,
    /// a panic of the library is a violation of the property at hand
    pub panics: bool,
}

impl Which {
    pub fn of(prop: &str) -> Which {
        let p = |x: &str| prop == x;
        Which { c01: p("C01"), c02: p("C02"), c03: p("C03"), c04: p("C04"), c05: p("C05"), c10: p("C10"), c11: p("C11"), panics: true }
    }
    pub fn none() -> Which {
        Which { c01: false, c02: false, c03: false, c04: false, c05: false, c10: false, c11: false, panics: false }
    }
}

pub fn op_name(w: &What) -> &'static str {
    match w {
        What::New { .. } => "new",
        What::Sub { .. } => "subschema_for",
        What::Root { .. } => "root_schema_for",
        What::IntoRoot { .. } => "into_root_schema_for",
        What::Value { .. } => "root_schema_for_value",
        What::IntoValue { .. } => "into_root_schema_for_value",
        What::Take { .. } => "take_definitions",
        What::Clear => "definitions_mut().clear",
        What::Put { .. } => "definitions_mut().insert",
        What::Clone { .. } => "clone",
        What::TransMut => "transforms_mut",
        What::Observe => "definitions",
        What::Real { .. } => "request for a real type",
    }
}

fn strip_refs(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(
            o.iter()
                .map(|(k, v)| (k.clone(), if k == "$ref" && v.is_string() { Value::from("*") } else { strip_refs(v) }))
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(strip_refs).collect()),
        v => v.clone(),
    }
}

pub struct Runner<'p> {
    plan: &'p Plan,
    which: Which,
    slots: BTreeMap<u8, Slot>,
    pub out: RunOut,
    fresh: Option<crate::fresh::Fresh>,
    outs: Vec<String>,
    index: usize,
    per_gen_requests: u64,
}

impl<'p> Runner<'p> {
    pub fn new(plan: &'p Plan, which: Which, fresh: Option<crate::fresh::Fresh>) -> Self {
        Runner { plan, which, slots: BTreeMap::new(), out: RunOut::default(), fresh, outs: Vec::new(), index: 0, per_gen_requests: 0 }
    }

    fn cap(&self) -> u64 {
        COST_CAP * 20 + 1000
    }

    /// Runs the history to its end or to the first violation.
    pub fn run(&mut self, ops: &[Op]) {
        for (i, op) in ops.iter().enumerate() {
            self.index = i;
            if let Err((class, detail)) = self.one(op) {
                self.out.bad = Some((class, format!("request {i} ({}, generator {}): {detail}", op_name(&op.what), op.slot)));
                break;
            }
        }
        let mut h = 0u64;
        for o in &self.outs {
            h = crate::rng::mix(h ^ hash_str(o));
        }
        self.out.trace = h;
        self.out.outs.push(std::mem::take(&mut self.outs));
        if let Some(f) = self.fresh.take() {
            f.stop();
        }
    }

    fn one(&mut self, op: &Op) -> Result<(), Bad> {
        let s = &mut self.out.stats;
        match &op.what {
            What::New { settings } => {
                let spec = &self.plan.settings[*settings];
                let mk = || spec.build().into_generator();
                let mut model = Model::default();
                if let Some((_, l)) = &spec.transforms {
                    for t in l {
                        match t {
                            TSpec::Stamp(id) => model.stamps.push((*id, 0)),
                            TSpec::Rec(id) => model.recs.push(*id),
                            TSpec::Formats | TSpec::Nest | TSpec::Std(_) => {}
                        }
                    }
                }
                let twin = self.which.c05.then(mk);
                bump(s, "op new");
                self.slots.insert(op.slot, Slot { gen: mk(), settings: *settings, model, twin });
                return Ok(());
            }
            What::Clone { to } => {
                let Some(slot) = self.slots.get(&op.slot) else { return Ok(()) };
                let c = Slot { gen: slot.gen.clone(), settings: slot.settings, model: slot.model.clone(), twin: slot.twin.clone() };
                bump(s, "op clone");
                let same = map_text(c.gen.definitions()) == map_text(slot.gen.definitions());
                self.slots.insert(*to, c);
                if self.which.c04 && !same {
                    return bad("clone-lost-definitions", "a clone does not hold the definitions of its original");
                }
                return Ok(());
            }
            _ => {}
        }
        let Some(mut slot) = self.slots.remove(&op.slot) else { return Ok(()) };
        let spec = &self.plan.settings[slot.settings];
        bump(s, &format!("op {}", op_name(&op.what)));
        if op.thread {
            bump(s, "fault thread-migration");
        }
        let before = slot.gen.definitions().clone();
        let cap = self.cap();
        let threaded = op.thread || self.plan.env.all_threads;
        let ran = perform_maybe_threaded(slot.gen, op, cap, threaded);
        let s = &mut self.out.stats;
        self.out.steps += ran.ctx.calls + ran.fault.max_step;
        add(s, "callbacks", ran.ctx.calls);
        if ran.ctx.crashed {
            bump(s, "fault crash-in-callback");
        }
        if ran.ctx.acted {
            bump(
                s,
                match op.re.as_ref().map(|r| &r.1) {
                    Some(Act::Sub { .. }) => "fault reentry subschema_for",
                    Some(Act::Root { .. }) => "fault reentry root_schema_for",
                    Some(Act::CloneIntoRoot { .. }) => "fault reentry clone",
                    Some(Act::Side { .. }) => "fault reentry second-generator",
                    Some(Act::Value { .. }) => "fault reentry value",
                    _ => "fault reentry other",
                },
            );
        }
        if !ran.fault.fired.is_empty() {
            bump(s, "fault serialize-error");
        }
        self.outs.push(ran.out.text());
        match &ran.out {
            Out::Crashed => {
                // the generator died with its process
                self.slots.remove(&op.slot);
                return Ok(());
            }
            Out::Panicked(m) => {
                if self.which.panics {
                    return bad("panic", format!("the library panicked: {m}"));
                }
                return Ok(());
            }
            Out::Runaway => {
                if self.which.panics {
                    return bad("runaway", format!("more than {cap} callbacks in one request"));
                }
                return Ok(());
            }
            _ => {}
        }
        let gen = ran.gen;
        if self.which.c05 {
            self.check_c05(op, &mut slot.twin, gen.as_ref(), &ran.out, &ran.fault)?;
        }
        // what was asked for
        let mut req = None;
        if let What::Sub { kind, target } | What::Root { kind, target } | What::IntoRoot { kind, target } = &op.what {
            req = Some((*kind, *target));
            self.per_gen_requests += 1;
            slot.model.asked.insert((*kind, *target, !matches!(op.what, What::Sub { .. })));
            for t in targets(*kind, *target as usize) {
                slot.model.requested.insert(self.plan.world.canon(t));
                *slot.model.extra_requests.entry(self.plan.world.canon(t)).or_default() += 4;
            }
            if ran.ctx.acted {
                if let Some((_, act @ (Act::Sub { kind, target } | Act::Root { kind, target }))) = &op.re {
                    slot.model.asked.insert((*kind, *target, matches!(act, Act::Root { .. })));
                    slot.model.nested = true;
                    for t in targets(*kind, *target as usize) {
                        slot.model.requested.insert(self.plan.world.canon(t));
                    }
                }
            }
        }
        if let (What::Root { .. } | What::IntoRoot { .. }, Some((kind, target))) = (&op.what, req) {
            if let Some(id) = ident(&self.plan.world, kind, target as usize) {
                if id.starts_with("Node<") {
                    *slot.model.roots.entry(self.plan.world.canon(target as usize)).or_default() += 1;
                }
            }
        }
        if let Some(g) = &gen {
            if !matches!(op.what, What::Take { .. } | What::Clear) {
                for (k, v) in before.iter() {
                    if !self.which.c04 {
                        continue;
                    }
                    match g.definitions().get(k) {
                        None => return bad("definition-lost", format!("definition {k:?} was dropped without being drained")),
                        Some(now) if now != v => {
                            return bad("definition-altered", format!("definition {k:?} was {} and is now {}", short(v), short(now)));
                        }
                        _ => {}
                    }
                }
            }
        }
        self.check_docs(op, spec, &mut slot.model, &before, gen.as_ref(), &ran.out, req)?;
        if self.which.c11 {
            self.check_c11(op, spec, &mut slot.model, &ran.ctx)?;
        }
        if self.which.c10 {
            self.check_c10(op, spec, &mut slot.model, gen.as_ref(), &before, &ran.out, req)?;
        }
        if self.which.c03 {
            self.check_c03(op, spec, gen.as_ref(), &ran.out)?;
        }
        if let Some(gen) = gen {
            if matches!(op.what, What::Take { .. } | What::Clear) {
                let m = &mut slot.model;
                m.requested.clear();
                m.asked.clear();
                m.referenced.clear();
                m.builds.clear();
                m.roots.clear();
                m.extra_requests.clear();
                m.drained_once = true;
                bump(&mut self.out.stats, "probe drained");
                if self.which.c04 && !gen.definitions().is_empty() {
                    return bad("drain-incomplete", format!("definitions left after draining: {}", map_text(gen.definitions())));
                }
            }
            self.slots.insert(op.slot, Slot { gen, ..slot });
        }
        Ok(())
    }

    /// C01, C02, C04: the content of whatever was returned and of what is held afterwards.
    #[allow(clippy::too_many_arguments)]
    fn check_docs(&mut self, op: &Op, spec: &SettingsSpec, m: &mut Model, before: &Map<String, Value>, gen: Option<&SchemaGenerator>, out: &Out, req: Option<(u8, u8)>) -> Result<(), Bad> {
        if !(self.which.c01 || self.which.c02 || self.which.c04) {
            return Ok(());
        }
        let w = &self.plan.world;
        let empty = Value::Object(Map::new());
        let mut docs: Vec<(Value, bool, Option<(u8, u8)>, u8)> = Vec::new();
        match (&op.what, out) {
            (What::Sub { .. }, Out::Schema { value, .. }) => {
                let defs = gen.map(|g| g.definitions().clone()).unwrap_or_default();
                docs.push((synthetic(spec, value, &defs), false, req, 0));
            }
            (What::Root { .. } | What::IntoRoot { .. }, Out::Schema { value, .. }) => docs.push((value.clone(), true, req, 1)),
            (What::Value { .. } | What::IntoValue { .. }, Out::Schema { value, .. }) => docs.push((value.clone(), true, None, 1)),
            (What::Take { apply }, Out::Map { map, .. }) => {
                if self.which.c04 && !apply && map != before {
                    return bad("drain-differs", format!("drained {} but {} was held", map_text(map), map_text(before)));
                }
                if self.which.c04 && *apply && map.keys().collect::<BTreeSet<_>>() != before.keys().collect::<BTreeSet<_>>() {
                    return bad("drain-differs", format!("drained {:?} but {:?} was held", map.keys(), before.keys()));
                }
                docs.push((synthetic(spec, &empty, map), false, None, if *apply { 2 } else { 0 }));
            }
            (What::Observe, Out::Map { map, .. }) => docs.push((synthetic(spec, &empty, map), false, None, 0)),
            _ => {}
        }
        let c01_only = |r: Result<Facts, Bad>, this: &Which| -> Result<Option<Facts>, Bad> {
            match r {
                Ok(f) => Ok(Some(f)),
                Err(e) if this.c01 || (this.c04 && (e.0 == "placeholder" || e.0 == "dangling-ref" || e.0 == "non-schema-definition")) => Err(e),
                // C02 does not judge the content of documents
                Err(_) => Ok(None),
            }
        };
        for (doc, is_root, req, seen) in docs {
            let Some(f) = c01_only(check_doc(w, spec, &doc, is_root, req), &self.which)? else { continue };
            add(&mut self.out.stats, "nodes verified", f.nodes_verified);
            add(&mut self.out.stats, "references resolved", f.refs_resolved);
            if f.defs > 0 && self.per_gen_requests >= 2 {
                self.out.nontrivial = true;
            }
            let d = Doc::new(&doc, spec);
            let refs = d.refs()?;
            if refs.contains("#") {
                bump(&mut self.out.stats, "probe root self-reference");
            }
            if refs.iter().any(|r| r.contains('%')) {
                bump(&mut self.out.stats, "probe percent-encoded reference");
            }
            if refs.iter().any(|r| r.ends_with("Config2") || r.ends_with("Config3")) {
                bump(&mut self.out.stats, "probe name clash");
            }
            if !matches!(op.what, What::Take { .. }) {
                m.referenced.extend(refs.iter().filter(|r| *r != "#").cloned());
            }
            if self.which.c02 {
                self.names(spec, m, &f, &refs, &d, seen)?;
            }
        }
        // a subschema request for a named type returns the very reference
        if let (true, What::Sub { kind, target }, Out::Schema { value, .. }) = (self.which.c02, &op.what, out) {
            if let (Some(id), Some(r)) = (ident(w, *kind, *target as usize), pure_ref(value)) {
                Self::name(m, &id, r)?;
            }
        }
        if self.which.c04 {
            if let Some(g) = gen {
                if !matches!(op.what, What::Take { .. } | What::Clear) {
                    let held = synthetic(spec, &empty, g.definitions());
                    let f = match check_doc(w, spec, &held, false, None) {
                        Ok(f) => f,
                        Err(e) if e.0 == "root-ref-outside-root" || e.0 == "pointer" => Facts::default(),
                        Err(e) => return Err((format!("held-{}", e.0), format!("held definitions: {}", e.1))),
                    };
                    let d = Doc::new(&held, spec);
                    for r in &m.referenced {
                        if let Err(e) = d.resolve(r) {
                            return bad("not-held", format!("{r:?} was handed out since the last drain but is not held: {}", e.1));
                        }
                    }
                    let may = w.reachable(&m.requested);
                    if !f.def_nodes.is_subset(&may) {
                        return bad("unrequested", format!("definitions describe nodes {:?}, but only {may:?} were ever needed", f.def_nodes));
                    }
                    let may = definable(w, &m.asked, spec.inline && !m.nested);
                    for (name, d) in g.definitions() {
                        let Some(i) = d.get("x-node").and_then(Value::as_u64) else { continue };
                        if d.get("x-holder").is_none() && !may.contains(&w.canon(i as usize)) {
                            return bad("unneeded", format!("definition {name:?} describes node {i}, which nothing needs a definition of (only {may:?}): {}", short(d)));
                        }
                    }
                    add(&mut self.out.stats, "held definitions verified", f.defs);
                }
            }
        }
        Ok(())
    }

    fn name(m: &mut Model, id: &str, r: &str) -> Result<(), Bad> {
        if let Some(old) = m.name_of.get(id) {
            if old != r {
                return bad("renamed", format!("{id} was {old:?} and is now {r:?}"));
            }
        } else {
            m.name_of.insert(id.to_owned(), r.to_owned());
        }
        if let Some(old) = m.id_of.get(r) {
            if old != id {
                return bad("shared-name", format!("{r:?} stands for {id} and for {old}"));
            }
        } else {
            m.id_of.insert(r.to_owned(), id.to_owned());
        }
        Ok(())
    }

    fn names(&mut self, spec: &SettingsSpec, m: &mut Model, f: &Facts, refs: &BTreeSet<String>, d: &Doc, seen: u8) -> Result<(), Bad> {
        for (r, id) in &f.made_for {
            Self::name(m, id, r)?;
        }
        for r in refs {
            if r == "#" {
                continue;
            }
            let Ok(v) = d.resolve(r) else { continue };
            if let Some(o) = v.as_object() {
                if let (Some(i), None) = (o.get("x-node").and_then(Value::as_u64), o.get("x-holder")) {
                    Self::name(m, &format!("Node<{i}>"), r)?;
                }
            }
            if !spec.inline {
                // what a name stands for does not change over the life of the generator
                let text = strip_refs(v).to_string();
                let key = (seen, r.clone());
                match m.texts.get(&key) {
                    Some(old) if *old != text => {
                        return bad("name-reused", format!("{r:?} stood for {old} and now for {text}"));
                    }
                    Some(_) => {}
                    None => {
                        m.texts.insert(key, text);
                    }
                }
            }
        }
        if m.drained_once && !f.made_for.is_empty() {
            bump(&mut self.out.stats, "probe names checked after a drain");
        }
        Ok(())
    }

    fn check_c03(&mut self, op: &Op, spec: &SettingsSpec, gen: Option<&SchemaGenerator>, out: &Out) -> Result<(), Bad> {
        let Out::Schema { value, .. } = out else { return Ok(()) };
        if spec.segments().is_empty() {
            return Ok(());
        }
        let Some(fresh) = self.fresh.as_mut() else { return Ok(()) };
        let (got, want, root) = match &op.what {
            What::Sub { kind, target } => {
                let defs = gen.map(|g| g.definitions().clone()).unwrap_or_default();
                let Some(w) = fresh.get(spec, "sub", *kind, *target)? else { return Ok(()) };
                let wd = w["defs"].as_object().cloned().unwrap_or_default();
                (synthetic(spec, value, &defs), synthetic(spec, &w["schema"], &wd), false)
            }
            What::Root { kind, target } => {
                let Some(w) = fresh.get(spec, "root", *kind, *target)? else { return Ok(()) };
                (value.clone(), w["schema"].clone(), true)
            }
            What::IntoRoot { kind, target } => {
                let Some(w) = fresh.get(spec, "into", *kind, *target)? else { return Ok(()) };
                (value.clone(), w["schema"].clone(), true)
            }
            _ => return Ok(()),
        };
        let n = equivalent(spec, &got, &want, root)?;
        bump(&mut self.out.stats, "documents compared with a fresh generator's");
        add(&mut self.out.stats, "reference pairs followed", n);
        if self.per_gen_requests >= 2 && n > 0 {
            self.out.nontrivial = true;
        }
        Ok(())
    }

    fn check_c05(&mut self, op: &Op, twin: &mut Option<SchemaGenerator>, gen: Option<&SchemaGenerator>, out: &Out, fault: &FaultState) -> Result<(), Bad> {
        let Some(t) = twin.take() else { return Ok(()) };
        let is_value = matches!(op.what, What::Value { .. } | What::IntoValue { .. });
        let fired = &fault.fired;
        if is_value && !fired.is_empty() {
            self.out.nontrivial = true;
            let token = op.fault.as_ref().map(|f| f.token.clone()).unwrap_or_default();
            match out {
                Out::Err(e) => {
                    if *e != token {
                        return bad("wrong-error", format!("the value failed with {token:?}, reported as {e:?}"));
                    }
                    if !fault.in_inference {
                        return bad("copy-failure-reported", format!("only serializing the example failed, yet the inference returned {e:?}"));
                    }
                    bump(&mut self.out.stats, "probe inference error reported");
                    // the twin never saw this request
                    *twin = Some(t);
                    if let (Some(g), Some(t)) = (gen, twin.as_ref()) {
                        let (a, b) = (map_text(g.definitions()), map_text(t.definitions()));
                        if a != b {
                            return bad("error-left-trace", format!("after a failed request the generator holds {a} instead of {b}"));
                        }
                    }
                    return Ok(());
                }
                Out::Schema { value, .. } => {
                    if fault.in_inference {
                        return bad("error-swallowed", format!("serializing the value failed during inference (attempts {fired:?} of {}), yet a schema was returned: {}", fault.attempts, short(value)));
                    }
                    // only the copy kept as an example failed: the document lacks the example, no more
                    let clean = Op { fault: None, thread: false, ..op.clone() };
                    let r = perform(t, &clean, self.cap());
                    let Out::Schema { value: mut want, .. } = r.out else { return bad("error-order", "fails without a fault, but not with one") };
                    let mut got = value.clone();
                    if let Some(o) = want.as_object_mut() {
                        o.remove("examples");
                        o.remove("example");
                    }
                    if let Some(o) = got.as_object_mut() {
                        o.remove("examples");
                        o.remove("example");
                    }
                    if got != want {
                        return bad("partial-document", format!("{} instead of {}", short(&got), short(&want)));
                    }
                    bump(&mut self.out.stats, "probe only the example copy failed");
                    *twin = r.gen;
                    return Ok(());
                }
                _ => return Ok(()),
            }
        }
        if let (What::Value { v } | What::IntoValue { v }, Out::Schema { value, .. }) = (&op.what, out) {
            value::set_fault(None);
            let example = serde_json::to_value(Owned(v.clone())).ok();
            let got = value.get("examples").and_then(|e| e.as_array()).and_then(|a| (a.len() == 1).then(|| &a[0])).or_else(|| value.get("example"));
            if got != example.as_ref() {
                let s = |v: Option<&Value>| v.map_or("none".to_owned(), short);
                return bad("wrong-example", format!("the example is {} instead of {}", s(got), s(example.as_ref())));
            }
            bump(&mut self.out.stats, "examples verified");
        }
        let clean = Op { fault: None, thread: false, ..op.clone() };
        let r = perform(t, &clean, self.cap());
        let (a, b) = (out.text(), r.out.text());
        if a != b {
            return bad("history-differs", format!("returned {a}, but without the earlier failed requests {b}"));
        }
        *twin = r.gen;
        if let (Some(g), Some(t)) = (gen, twin.as_ref()) {
            let (a, b) = (map_text(g.definitions()), map_text(t.definitions()));
            if a != b {
                return bad("history-differs", format!("holds {a}, but without the earlier failed requests {b}"));
            }
        }
        Ok(())
    }

    fn check_c11(&mut self, op: &Op, spec: &SettingsSpec, m: &mut Model, c: &Ctx) -> Result<(), Bad> {
        if spec.inline {
            // schemas are repeated by design; bounded all the same by what is not being built already
            if let (What::Sub { kind, target } | What::Root { kind, target } | What::IntoRoot { kind, target }, false) = (&op.what, c.acted) {
                let most = cost(&self.plan.world, true, *kind, *target, COST_CAP) * 3 / 2 + 4;
                if c.calls > most {
                    return bad("too-much-work", format!("{} schemas were built, {most} should be more than enough", c.calls));
                }
                self.out.nontrivial |= self.per_gen_requests >= 2;
                bump(&mut self.out.stats, "inline work verified");
            }
            return Ok(());
        }
        let w = &self.plan.world;
        for (n, k) in &c.per_node {
            *m.builds.entry(*n).or_default() += k;
        }
        for (n, k) in &m.builds {
            let mut allowed = m.roots.get(n).copied().unwrap_or(0) + 1;
            let mut embeds = 0;
            for (i, node) in w.nodes.iter().enumerate() {
                if node.alias_of.is_some() {
                    continue;
                }
                for e in &node.edges {
                    for (pos, t) in targets(e.kind, e.target as usize).into_iter().enumerate() {
                        if w.canon(t) == *n && (w.node(t).inline || (pos == 0 && KINDS[e.kind as usize].how != How::Ref)) {
                            embeds += m.builds.get(&i).copied().unwrap_or(0);
                        }
                    }
                }
            }
            allowed += 4 * embeds;
            if w.node(*n).inline || self.embedding_requests(*n) {
                allowed += m.extra_requests.get(n).copied().unwrap_or(0);
            }
            if *k > allowed {
                return bad("rebuilt", format!("node {n} was built {k} times since the last drain, at most {allowed} are needed"));
            }
            self.out.nontrivial |= self.per_gen_requests >= 2;
        }
        bump(&mut self.out.stats, "build counts verified");
        Ok(())
    }

    /// Whether any request of this history embeds node `n` directly.
    fn embedding_requests(&self, n: usize) -> bool {
        self.plan.clients.iter().flatten().any(|op| match &op.what {
            What::Sub { kind, target } | What::Root { kind, target } | What::IntoRoot { kind, target } => {
                KINDS[*kind as usize].how != How::Ref && self.plan.world.canon(*target as usize) == n
            }
            _ => false,
        })
    }

    fn check_c10(&mut self, op: &Op, spec: &SettingsSpec, m: &mut Model, gen: Option<&SchemaGenerator>, before: &Map<String, Value>, out: &Out, req: Option<(u8, u8)>) -> Result<(), Bad> {
        fn stamped(v: &Value) -> bool {
            match v {
                Value::Object(o) => o.keys().any(|k| k.starts_with("x-order") || k.starts_with("x-rec")) || o.values().any(stamped),
                Value::Array(a) => a.iter().any(stamped),
                _ => false,
            }
        }
        match (&op.what, out) {
            (What::TransMut, _) => {
                for (_, n) in &mut m.stamps {
                    *n += 1000;
                }
            }
            (What::Sub { .. } | What::Observe, Out::Schema { value, .. }) => {
                if stamped(value) {
                    return bad("transformed-subschema", format!("a transform was applied to {}", short(value)));
                }
            }
            (What::Root { .. } | What::IntoRoot { .. } | What::Value { .. } | What::IntoValue { .. }, Out::Schema { value, .. }) => {
                let nodes = transforms::count_nodes(value);
                let (title, meta) = (value.get("title").is_some(), value.get("$schema").is_some());
                if !title && req.is_some() {
                    return bad("no-title", format!("a root schema without a title: {}", short(value)));
                }
                if meta != spec.meta {
                    return bad("meta-schema", format!("the settings {} a meta-schema: {}", if spec.meta { "name" } else { "do not name" }, short(value)));
                }
                let mut want = Vec::new();
                for (id, n) in &mut m.stamps {
                    want.push(serde_json::json!([*id, *n, nodes, title, meta]));
                    *n += 1;
                }
                let got = value.get("x-order").and_then(Value::as_array).cloned().unwrap_or_default();
                if got != want {
                    return bad(
                        "transform-order",
                        format!("transforms left [id, applications so far, schemas seen, title seen, meta-schema seen] {} instead of {}; {}", Value::Array(got), Value::Array(want), short(value)),
                    );
                }
                let doc = Doc::new(value, spec);
                let recs = m.recs.clone();
                let mut check = |o: &Map<String, Value>| {
                    for k in ["$defs", "definitions"] {
                        for v in o.get(k).and_then(Value::as_object).into_iter().flat_map(Map::values) {
                            for id in recs.iter().filter(|_| v.is_object()) {
                                let n = v.get(format!("x-rec{id}")).and_then(Value::as_u64).unwrap_or(0);
                                if n != 1 {
                                    return bad("transform-recursion", format!("recursive transform {id} was applied {n} times to {} in {k}", short(v)));
                                }
                            }
                        }
                    }
                    for id in &recs {
                        let n = o.get(&format!("x-rec{id}")).and_then(Value::as_u64).unwrap_or(0);
                        if n != 1 {
                            return bad("transform-recursion", format!("recursive transform {id} was applied {n} times to {}", short(&Value::Object(o.clone()))));
                        }
                    }
                    Ok(())
                };
                if spec.standard_path() {
                    doc.walk(value, &mut check)?;
                    if !recs.is_empty() && doc.boolean(value) {
                        return bad("transform-recursion", format!("recursive transforms were not applied to a boolean subschema of {}", short(value)));
                    }
                }
                for (name, d) in doc.definitions() {
                    if d.get("x-order").is_some() {
                        return bad("transformed-definition", format!("a root transform was applied to definition {name:?}"));
                    }
                    if spec.standard_path() {
                        doc.walk(d, &mut check)?;
                    }
                }
                bump(&mut self.out.stats, "documents with transform traces");
                self.out.nontrivial |= self.per_gen_requests >= 2 && !m.stamps.is_empty();
            }
            (What::Take { apply: true }, Out::Map { map, .. }) => {
                let d = map.len() as u64;
                let mut seen: BTreeMap<u8, BTreeSet<u64>> = BTreeMap::new();
                for (name, v) in map {
                    let got = v.get("x-order").and_then(Value::as_array).cloned().unwrap_or_default();
                    let ids: Vec<u64> = got.iter().filter_map(|e| e[0].as_u64()).collect();
                    let want: Vec<u64> = m.stamps.iter().map(|s| u64::from(s.0)).collect();
                    if ids != want {
                        return bad("transform-order", format!("transforms {ids:?} were applied to drained definition {name:?}, expected {want:?}"));
                    }
                    for e in &got {
                        seen.entry(e[0].as_u64().unwrap_or(0) as u8).or_default().insert(e[1].as_u64().unwrap_or(0));
                    }
                    // a boolean has no room for a trace
                    for id in m.recs.iter().filter(|_| before.get(name).is_some_and(Value::is_object)) {
                        let n = v.get(format!("x-rec{id}")).and_then(Value::as_u64).unwrap_or(0);
                        if n != 1 {
                            return bad("transform-recursion", format!("recursive transform {id} was applied {n} times to drained definition {name:?}"));
                        }
                    }
                }
                for (id, n) in &mut m.stamps {
                    let want: BTreeSet<u64> = (*n..*n + d).collect();
                    let got = seen.remove(id).unwrap_or_default();
                    if got != want {
                        return bad("transform-state", format!("transform {id} counted {got:?} over the drained definitions, expected {want:?}"));
                    }
                    *n += d;
                }
                bump(&mut self.out.stats, "drains with transform traces");
            }
            (What::Take { apply: false }, Out::Map { map, .. }) => {
                if map.values().any(stamped) {
                    return bad("transformed-drain", "transforms were applied to definitions drained without them");
                }
            }
            _ => {}
        }
        if let Some(g) = gen {
            for (k, v) in g.definitions() {
                if stamped(v) {
                    return bad("transformed-held", format!("held definition {k:?} was altered by a transform: {}", short(v)));
                }
                if before.get(k).is_some_and(|b| b != v) {
                    return bad("altered-held", format!("held definition {k:?} changed: {}", short(v)));
                }
            }
        }
        Ok(())
    }
}

pub fn text_hash(t: &[Vec<String>]) -> u64 {
    let mut h = 0;
    for c in t {
        for o in c {
            h = crate::rng::mix(h ^ hash_bytes(o.as_bytes()));
        }
    }
    h
}
