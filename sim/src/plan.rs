//! A plan is the complete, explicit description of one simulated execution: world, settings,
//! requests, faults, schedule and environment. It is generated from one seed; running it is a pure
//! function of the plan and the code. A replay file is a (minimised) plan.
use crate::ctx::Act;
use crate::rng::Rng;
use crate::value::{self, Fault, V};
use crate::world::*;
use schemars::generate::SchemaSettings;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TSpec {
    /// stamps the schema it is given with its id and its own running count
    Stamp(u8),
    /// the same, in every subschema (through `RecursiveTransform`)
    Rec(u8),
    /// the library's own `RestrictFormats`
    Formats,
    /// one of the library's own, with options
    Std(u8),
    /// runs a generator of its own
    Nest,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SettingsSpec {
    /// 0 draft07, 1 2019-09, 2 2020-12, 3 OpenAPI 3.0
    pub dialect: u8,
    pub inline: bool,
    pub serialize: bool,
    pub path: Option<String>,
    pub meta: bool,
    pub untagged_titles: bool,
    /// None: the dialect's own transforms; Some: these instead of (false) or after (true) them
    pub transforms: Option<(bool, Vec<TSpec>)>,
}

impl SettingsSpec {
    pub fn plain() -> SettingsSpec {
        SettingsSpec { dialect: 2, inline: false, serialize: false, path: None, meta: true, untagged_titles: false, transforms: None }
    }
    pub fn build(&self) -> SchemaSettings {
        let s = match self.dialect {
            0 => SchemaSettings::draft07(),
            1 => SchemaSettings::draft2019_09(),
            2 => SchemaSettings::draft2020_12(),
            _ => SchemaSettings::openapi3(),
        };
        let mut s = s.with(|s| {
            s.inline_subschemas = self.inline;
            if let Some(p) = &self.path {
                s.definitions_path = p.clone().into();
            }
            if !self.meta {
                s.meta_schema = None;
            }
            s.untagged_enum_variant_titles = self.untagged_titles;
        });
        if self.serialize {
            s = s.for_serialize();
        }
        if let Some((after, list)) = &self.transforms {
            if !after {
                s.transforms.clear();
            }
            for t in list {
                s.transforms.push(crate::transforms::build(t));
            }
        }
        s
    }
    pub fn path(&self) -> &str {
        match (&self.path, self.dialect) {
            (Some(p), _) => p,
            (None, 0) => "/definitions",
            (None, 3) => "/components/schemas",
            _ => "/$defs",
        }
    }
    /// Segments of the definitions path, decoded.
    pub fn segments(&self) -> Vec<String> {
        let p = self.path();
        let p = p.strip_prefix('#').unwrap_or(p);
        let p = p.strip_suffix('/').unwrap_or(p);
        if p.is_empty() {
            return Vec::new();
        }
        p[1..].split('/').map(|s| s.replace("~1", "/").replace("~0", "~")).collect()
    }
    pub fn has_transforms(&self) -> bool {
        match &self.transforms {
            Some((false, l)) => !l.is_empty(),
            Some((true, l)) => !l.is_empty() || self.dialect != 2,
            None => self.dialect != 2,
        }
    }
    /// Whether recursive transforms reach the definitions of a document.
    pub fn standard_path(&self) -> bool {
        let s = self.segments();
        s.len() == 1 && (s[0] == "$defs" || s[0] == "definitions")
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    New { settings: usize },
    Sub { kind: u8, target: u8 },
    Root { kind: u8, target: u8 },
    IntoRoot { kind: u8, target: u8 },
    Value { v: V },
    IntoValue { v: V },
    Take { apply: bool },
    Clear,
    /// the user's own definition, through `definitions_mut`
    Put { n: u32 },
    Clone { to: u8 },
    /// bump the state of the generator's own transforms through `transforms_mut`
    TransMut,
    Observe,
    /// a type of the zoo: results are only ever compared with those of the same request elsewhere
    Real { t: u16, root: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub slot: u8,
    pub what: What,
    /// run on an OS thread started for this request
    #[serde(default)]
    pub thread: bool,
    /// panic inside the n-th callback
    #[serde(default)]
    pub crash_at: Option<u64>,
    /// re-enter the library inside the n-th callback
    #[serde(default)]
    pub re: Option<(u64, Act)>,
    #[serde(default)]
    pub fault: Option<Fault>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Env {
    pub hash_seed: u64,
    pub arena_seed: u64,
    pub clock0: u64,
    pub clock_step: u64,
    /// threads started and ended before the run
    pub warm_threads: u8,
    /// run each request on a thread of its own
    pub all_threads: bool,
    /// requests on other generators before the run (see past.rs)
    #[serde(default)]
    pub past: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub seed: u64,
    pub alloc_den: u32,
    pub cb_den: u32,
    #[serde(default)]
    pub edge_gap: u32,
    /// explicit switches (preemption point, thread) instead of the seed
    #[serde(default)]
    pub switches: Option<Vec<(u64, u32)>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    /// build of the library: false default features, true with `preserve_order`
    pub preserve_order: bool,
    pub world: World,
    pub settings: Vec<SettingsSpec>,
    pub clients: Vec<Vec<Op>>,
    pub sched: Sched,
    pub env: Env,
    /// parameters of the scenarios that are not request histories
    #[serde(default)]
    pub extra: Value,
    /// what a replay must report
    #[serde(default)]
    pub expect: Option<String>,
}

// ------------------------------------------------------------------ generation
const NAMES_PLAIN: [&str; 8] = ["Alpha", "Beta", "Gamma", "Delta", "Epsilon", "Zeta", "Eta", "Theta"];
const NAMES_CLASH: [&str; 8] = ["Config", "Config2", "Config22", "Config3", "Config", "Config2", "config", "Config"];
const NAMES_ODD: [&str; 38] = [
    "a b", "a%20b", "a%2520b", "x~y", "x~0y", "x~1y", "x/y", "tab\tname", "nul\u{1}", "cr\rlf\n", "\u{fc}n\u{ef}", "🚀", "", "#", "%",
    "\"q\"", "~", "/", "a\\b", "del\u{7f}", "properties", "$ref", "definitions", "<T>", "[T; 3]", "^", "`", "{x}", "|", "?q=1", "日本",
    "a#b", "Map_of_Alpha", "e\u{301}", "string", "uint8", "Duration", "W_for_Array_of_Alpha",
];
const IDS: [&str; 20] = [
    "a::Config", "b::Config", "a::b::Config", "a::Config2", "Config", "Config2", "a", "aa", "A", "a_Config", "crate::m::T", "crate::m::T2",
    "crate::m::Tt", "crate::mT", "", "x::y::z", "x::y", "x", "Ünïcode::T", "a::config",
];
const PATHS: [&str; 16] = [
    "/$defs", "/definitions", "/components/schemas", "#/$defs/", "/a~1b", "/a~0b", "/x/y/z", "", "#", "/", "#/", "/$defs/nested", "/Zoo/", "#/definitions", "/a~01b", "/~0~1/x~1~0y",
];

thread_local! {
    /// The few kinds of edges and requests this plan is about; empty: all of them.
    static SWARM: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Most combinations of kinds never meet when every edge draws from all of them.
fn gen_swarm(r: &mut Rng, pure_ref: bool) {
    let n = match r.below(6) {
        0 => 1,
        1 => 2,
        2 => r.range(3, 6),
        _ => 0,
    };
    let mut v: Vec<u8> = Vec::new();
    let named = r.chance(1, 2);
    while v.len() < n {
        let k = r.below(KINDS.len()) as u8;
        let i = &KINDS[k as usize];
        if !(pure_ref && i.how != How::Ref) && (i.named || !named) {
            v.push(k);
        }
    }
    SWARM.with(|s| *s.borrow_mut() = v);
}

pub fn forget_swarm() {
    SWARM.with(|s| s.borrow_mut().clear());
}

pub fn gen_kind(r: &mut Rng) -> u8 {
    SWARM.with(|s| {
        let s = s.borrow();
        if s.is_empty() || r.chance(1, 8) {
            r.below(KINDS.len()) as u8
        } else {
            *r.pick(&s)
        }
    })
}

pub fn gen_names(r: &mut Rng) -> Vec<String> {
    if r.chance(1, 6) {
        // one or two names for everything
        let all = |r: &mut Rng| if r.chance(1, 2) { NAMES_ODD[r.below(NAMES_ODD.len())] } else { NAMES_CLASH[r.below(8)] };
        let two = [all(r), all(r)];
        return (0..N).map(|_| two[r.below(2)].to_owned()).collect();
    }
    let style = r.below(5);
    (0..N)
        .map(|i| {
            let s: &str = match style {
                0 => NAMES_PLAIN[i],
                1 => NAMES_CLASH[r.below(8)],
                2 => NAMES_ODD[r.below(NAMES_ODD.len())],
                3 => ["Config", "a b", "Config2", "x/y"][r.below(4)],
                _ => match r.below(3) {
                    0 => NAMES_PLAIN[r.below(3)],
                    1 => NAMES_CLASH[r.below(8)],
                    _ => NAMES_ODD[r.below(NAMES_ODD.len())],
                },
            };
            s.to_owned()
        })
        .collect()
}

#[derive(Clone, Copy)]
pub struct WorldOpts {
    pub max_nodes: usize,
    pub max_degree: usize,
    /// only plain references and std containers, no embedding, no inlined nodes
    pub pure_ref: bool,
    pub aliases: bool,
}

pub fn gen_world(r: &mut Rng, o: WorldOpts) -> World {
    let names = gen_names(r);
    let mut ids: Vec<&str> = IDS.to_vec();
    r.shuffle(&mut ids);
    let used = r.range(2.min(o.max_nodes), o.max_nodes);
    let mut nodes: Vec<Node_> = (0..N)
        .map(|i| Node_ {
            name: names[i].clone(),
            id: ids[i].to_owned(),
            alias_of: None,
            inline: false,
            body: Body::Object,
            title: r.chance(1, 4),
            closed: r.chance(1, 5),
            deco: 0,
            edges: Vec::new(),
        })
        .collect();
    // bodies: leaves at the high end, so that embedding edges (always upwards) can use them
    for (i, n) in nodes.iter_mut().enumerate() {
        if i >= used || (i + 2 >= used && r.chance(1, 2)) {
            n.body = match r.below(7) {
                0 => Body::KeyEnum(vec![format!("k{i}"), "shared".into()]),
                1 => Body::KeyPattern(format!("^p{i}$")),
                2 => Body::KeyInt(r.chance(1, 2)),
                3 if i + 1 < N => Body::Union,
                4 => Body::True,
                _ => Body::Object,
            };
        } else if r.chance(1, 10) {
            n.body = Body::Union;
        }
        if !o.pure_ref && r.chance(1, 8) {
            n.inline = true;
        }
    }
    if o.aliases && r.chance(1, 4) && used >= 2 {
        let a = r.range(1, used - 1);
        let b = r.below(a);
        let (id, name) = (nodes[b].id.clone(), nodes[b].name.clone());
        nodes[a] = Node_ { id, name, alias_of: Some(b as u8), edges: vec![], ..nodes[b].clone() };
    }
    let w0 = World { nodes: nodes.clone() };
    for i in 0..N {
        if nodes[i].alias_of.is_some() {
            continue;
        }
        let is_union = nodes[i].body == Body::Union;
        if !(nodes[i].body == Body::Object || is_union) {
            continue;
        }
        let deg = if i >= used { usize::from(is_union) } else { r.range(usize::from(is_union), o.max_degree.max(1)) };
        let mut edges = Vec::new();
        let mut tries = 0;
        while edges.len() < deg && tries < 60 {
            tries += 1;
            let target = if i >= used || is_union && r.chance(1, 2) { r.below(N) } else { r.below(used) };
            let kind = if r.chance(1, 3) { 0 } else { gen_kind(r) };
            let info = &KINDS[kind as usize];
            if o.pure_ref && info.how != How::Ref {
                continue;
            }
            if is_union && info.how != How::Ref {
                continue;
            }
            let ts = targets(kind, target);
            // anything that expands the target in place must go upwards, or the type would be infinite
            let mut ok = true;
            for (n, &tt) in ts.iter().enumerate() {
                let c = w0.canon(tt);
                let expands = w0.node(tt).inline || (n == 0 && info.how != How::Ref);
                if expands && c <= i {
                    ok = false;
                }
                if info.how == How::Direct && w0.node(tt).body != Body::Object {
                    ok = false;
                }
            }
            if i >= used && ts.iter().any(|&t| w0.canon(t) <= i) {
                ok = false;
            }
            if !ok {
                continue;
            }
            edges.push(Edge { kind, target: target as u8, sibling: r.chance(1, 5) });
        }
        if is_union && edges.is_empty() {
            nodes[i].body = Body::KeyEnum(vec![format!("u{i}")]);
        }
        nodes[i].edges = edges;
    }
    if r.chance(1, 3) {
        for n in nodes.iter_mut().filter(|n| n.body == Body::Object && n.alias_of.is_none()) {
            if r.chance(1, 2) {
                n.deco = (r.u64() & r.u64()) as u32 & ((1 << (DECOS + 3)) - 1);
            }
        }
    }
    if !o.pure_ref && o.max_nodes == N && r.chance(1, 4) {
        key_cluster(r, &mut nodes);
    }
    for i in 0..N {
        if let Some(b) = nodes[i].alias_of {
            let b = nodes[b as usize].clone();
            nodes[i] = Node_ { alias_of: nodes[i].alias_of, ..b };
        }
    }
    World { nodes }
}

/// Maps whose key type refers to other definitions, some of them with names that need encoding and
/// with other types named like the encoded form.
fn key_cluster(r: &mut Rng, nodes: &mut [Node_]) {
    let (u, a, b) = (N - 3, N - 2, N - 1);
    if nodes.iter().any(|n| n.alias_of.is_some_and(|t| usize::from(t) >= u)) || [u, a, b].iter().any(|&i| nodes[i].alias_of.is_some()) {
        return;
    }
    for i in [a, b] {
        nodes[i].edges.clear();
        nodes[i].inline = false;
        nodes[i].body = match r.below(3) {
            0 => Body::KeyEnum(vec![format!("k{i}"), "shared".into()]),
            1 => Body::KeyPattern(format!("^p{i}$")),
            _ => Body::KeyInt(r.chance(1, 2)),
        };
    }
    let node = KINDS.iter().position(|k| k.name == "Node").unwrap_or(0) as u8;
    nodes[u].body = Body::Union;
    nodes[u].edges = [a, b].iter().map(|&t| Edge { kind: node, target: t as u8, sibling: false }).collect();
    let maps: Vec<u8> = (0..KINDS.len() as u8).filter(|&k| KINDS[k as usize].how == How::Key).collect();
    for i in 0..u {
        if nodes[i].alias_of.is_none() && nodes[i].body == Body::Object && r.chance(1, 2) {
            nodes[i].edges.push(Edge { kind: *r.pick(&maps), target: u as u8, sibling: false });
        }
    }
    let (plain, encoded) = *r.pick(&[("x/y", "x~1y"), ("a b", "a%20b"), ("%", "%25"), ("x~y", "x~0y"), ("\u{e9}", "%C3%A9"), ("x~1y", "x~01y")]);
    nodes[*r.pick(&[a, b])].name = plain.to_owned();
    let other = r.below(u);
    if nodes[other].alias_of.is_none() {
        nodes[other].name = encoded.to_owned();
    }
}

/// How often a schema of this kind asks for the schema of its target, at most.
fn mentions(kind: u8) -> u64 {
    match KINDS[kind as usize].name {
        "Node" | "Option" | "Vec" | "Box" | "array" | "tuple" | "BTreeMap" | "HashMap" | "HashSet" | "VecDeque" | "&" | "Arc<Mutex>" | "Rc<RefCell>" | "MapKey"
        | "HashMapKey" | "Transparent" | "IndexMap" | "IndexSet" | "SmallVec" | "LinkedList" | "W<X>" | "W<[X;2]>" | "W<Vec>" | "W<Option>" | "W<Map>" => 1,
        // derived holders
        _ => 3,
    }
}

/// Upper bound on callbacks of one request, by a model of the most work generation could do.
/// Saturates at `cap`.
pub fn cost(w: &World, inline_mode: bool, kind: u8, target: u8, cap: u64) -> u64 {
    fn go(w: &World, inline_mode: bool, i: usize, direct: bool, pending: &mut Vec<usize>, defs: &mut BTreeSet<usize>, n: &mut u64, cap: u64) {
        if *n >= cap {
            return;
        }
        let c = w.canon(i);
        let node = w.node(c);
        if !direct && !node.inline && (!inline_mode || pending.contains(&c)) {
            if !defs.insert(c) {
                return;
            }
        }
        *n += 1;
        if !direct {
            pending.push(c);
        }
        for (at, e) in node.edges.iter().enumerate() {
            let ts = targets(e.kind, e.target as usize);
            let how = KINDS[e.kind as usize].how;
            for (k, t) in ts.iter().enumerate() {
                for rep in 0..mentions(e.kind) {
                    let d = k == 0 && how != How::Ref && rep < 2;
                    go(w, inline_mode, *t, d, pending, defs, n, cap);
                }
            }
            if let Some(e) = crate::world::also(w, c, at) {
                go(w, inline_mode, e.target as usize, false, pending, defs, n, cap);
            }
        }
        if !direct {
            pending.pop();
        }
    }
    let mut n = 1;
    for t in targets(kind, target as usize) {
        for _ in 0..mentions(kind) {
            // the root is built once outside the definitions
            go(w, inline_mode, t, true, &mut vec![w.canon(t)], &mut BTreeSet::new(), &mut n, cap);
        }
    }
    n
}

pub fn gen_settings(r: &mut Rng, allow_inline: bool, root_path: bool) -> SettingsSpec {
    let mut s = SettingsSpec::plain();
    s.dialect = [2, 2, 2, 0, 1, 3, 3, 0][r.below(8)];
    s.inline = allow_inline && r.chance(1, 5);
    s.serialize = r.chance(1, 4);
    if r.chance(1, 3) {
        let p = PATHS[r.below(PATHS.len())];
        let root = ["", "#", "/", "#/"].contains(&p);
        if !root || root_path {
            s.path = Some(p.to_owned());
        }
    }
    s.meta = r.chance(4, 5);
    s.untagged_titles = r.chance(1, 5);
    s
}

/// Names that would overwrite a schema keyword when definitions are placed at the document root.
fn keyword_like(n: &str) -> bool {
    n.starts_with('$') || n == "properties" || n == "definitions" || n == "title" || n == "type" || n == "items"
}

pub struct HistOpts {
    pub max_ops: usize,
    pub slots: usize,
    pub inline: bool,
    pub values: bool,
    pub crash: bool,
    pub re: bool,
    pub pure_ref: bool,
    pub root_path: bool,
    pub clear: bool,
    pub max_settings: usize,
    pub put: bool,
}

impl Default for HistOpts {
    fn default() -> Self {
        HistOpts { max_ops: 14, slots: 3, inline: true, values: true, crash: true, re: true, pure_ref: false, root_path: true, clear: true, max_settings: 3, put: false }
    }
}

pub const COST_CAP: u64 = 1500;

/// A world and settings that go together, with bounded work per request.
pub fn gen_base(r: &mut Rng, o: &HistOpts) -> (World, Vec<SettingsSpec>) {
    loop {
        let n = r.range(1, o.max_settings);
        let mut settings: Vec<SettingsSpec> = Vec::new();
        for _ in 0..n {
            // often variations of one another, so that nothing but the setting differs
            if !settings.is_empty() && r.chance(1, 2) {
                let mut s = settings[0].clone();
                match r.below(4) {
                    0 => s.serialize = !s.serialize,
                    1 if o.inline => s.inline = !s.inline,
                    2 => s.untagged_titles = !s.untagged_titles,
                    _ => s.dialect = r.below(4) as u8,
                }
                settings.push(s);
            } else {
                settings.push(gen_settings(r, o.inline, o.root_path));
            }
        }
        let any_inline = settings.iter().any(|s| s.inline);
        let wo = if any_inline {
            WorldOpts { max_nodes: 4, max_degree: 2, pure_ref: o.pure_ref, aliases: true }
        } else {
            let d = if r.chance(1, 4) { 4 } else { 3 };
            WorldOpts { max_nodes: N, max_degree: d, pure_ref: o.pure_ref, aliases: true }
        };
        gen_swarm(r, o.pure_ref);
        let w = gen_world(r, wo);
        // there, definitions are siblings of keywords (or are taken for a schema by transforms)
        let root_path = settings.iter().any(|s| s.segments().is_empty() || s.path() == "/$defs/nested");
        if root_path && w.nodes.iter().any(|n| keyword_like(&n.name)) {
            continue;
        }
        let worst = (0..N as u8).map(|i| cost(&w, any_inline, 0, i, COST_CAP)).max().unwrap_or(0);
        if worst >= COST_CAP {
            continue;
        }
        return (w, settings);
    }
}

fn gen_ty(r: &mut Rng, used: usize) -> (u8, u8) {
    let target = if r.chance(1, 12) { r.below(N) } else { r.below(used) } as u8;
    let swarm = SWARM.with(|s| !s.borrow().is_empty());
    let kind = if r.chance(if swarm { 1 } else { 2 }, 3) { 0 } else { gen_kind(r) };
    (kind, target)
}

pub fn ok_request(w: &World, kind: u8, target: u8) -> bool {
    if KINDS[kind as usize].how == How::Direct {
        return targets(kind, target as usize).iter().all(|t| w.node(*t).body == Body::Object);
    }
    true
}

fn pick_ty(r: &mut Rng, w: &World, used: usize) -> (u8, u8) {
    loop {
        let (k, t) = gen_ty(r, used);
        if ok_request(w, k, t) {
            return (k, t);
        }
    }
}

pub fn used_nodes(w: &World) -> usize {
    (0..N).rev().find(|&i| !w.nodes[i].edges.is_empty()).map_or(1, |i| i + 1).max(3).min(N)
}

pub fn gen_history(r: &mut Rng, w: &World, settings: &[SettingsSpec], o: &HistOpts) -> Vec<Op> {
    let used = used_nodes(w);
    let n = r.range(2, o.max_ops);
    let mut live = vec![false; o.slots];
    let mut ops = Vec::new();
    // a few favourite types, so that requests overlap
    let favs: Vec<(u8, u8)> = (0..r.range(1, 4)).map(|_| pick_ty(r, w, used)).collect();
    let clone_w = r.below(3);
    let take_w = r.below(3);
    let value_w = if o.values { r.below(3) } else { 0 };
    let p_thread = r.below(4);
    let p_crash = if o.crash { r.below(3) } else { 0 };
    let p_re = if o.re { r.below(4) } else { 0 };
    while ops.len() < n {
        let slot = r.below(o.slots);
        let op = |what| Op { slot: slot as u8, what, thread: false, crash_at: None, re: None, fault: None };
        if !live[slot] {
            live[slot] = true;
            ops.push(op(What::New { settings: r.below(settings.len()) }));
            continue;
        }
        let (kind, target) = if r.chance(2, 3) { *r.pick(&favs) } else { pick_ty(r, w, used) };
        let total = 14 + clone_w + take_w + value_w;
        let mut x = r.below(total);
        let mut o2 = if x < 4 {
            op(What::Sub { kind, target })
        } else if x < 10 {
            op(What::Root { kind, target })
        } else if x < 12 {
            live[slot] = false;
            op(What::IntoRoot { kind, target })
        } else if x < 13 {
            if o.put && r.chance(1, 2) {
                op(What::Put { n: r.below(3) as u32 })
            } else {
                op(What::Observe)
            }
        } else if x < 14 {
            if o.clear && r.chance(1, 2) {
                op(What::Clear)
            } else {
                op(What::Take { apply: r.chance(1, 2) })
            }
        } else {
            x -= 14;
            if x < clone_w {
                let to = r.below(o.slots);
                if to == slot {
                    continue;
                }
                live[to] = true;
                op(What::Clone { to: to as u8 })
            } else if x < clone_w + take_w {
                op(What::Take { apply: r.chance(1, 2) })
            } else if r.chance(1, 5) {
                live[slot] = false;
                op(What::IntoValue { v: value::gen(r, 3) })
            } else {
                op(What::Value { v: value::gen(r, 3) })
            }
        };
        let generating = matches!(o2.what, What::Sub { .. } | What::Root { .. } | What::IntoRoot { .. });
        o2.thread = r.chance(p_thread, 8);
        if generating && r.chance(p_crash, 16) {
            // crash early or deep inside
            o2.crash_at = Some(if r.chance(1, 2) { r.range(1, 3) } else { r.range(1, 12) } as u64);
            live[slot] = false;
        } else if generating && r.chance(p_re, 10) {
            let (k, t) = pick_ty(r, w, used);
            let act = match r.below(5) {
                0 => Act::Sub { kind: k, target: t },
                1 => Act::Root { kind: k, target: t },
                2 => Act::CloneIntoRoot { kind: k, target: t },
                3 => Act::Side { kind: k, target: t },
                _ => Act::Value { fail: r.chance(1, 2) },
            };
            o2.re = Some((r.range(1, 5) as u64, act));
        }
        ops.push(o2);
    }
    ops
}

pub fn gen_env(r: &mut Rng) -> Env {
    Env {
        hash_seed: r.u64(),
        arena_seed: r.u64(),
        clock0: r.below(2_000_000_000) as u64 * 1_000_000_000,
        clock_step: *r.pick(&[0u64, 1, 1000, 1_000_000_000, 86_400_000_000_000]),
        warm_threads: r.below(3) as u8,
        all_threads: false,
        past: crate::past::gen(r),
    }
}
