//! What a document must look like, judged without the library's own help.
use crate::plan::SettingsSpec;
use crate::world::*;
use serde_json::{Map, Value};
use std::collections::{BTreeMap, BTreeSet};

/// `(class, detail)`; the class identifies the kind of violation while shrinking.
pub type Bad = (String, String);
pub fn bad<T>(class: &str, detail: impl Into<String>) -> Result<T, Bad> {
    Err((class.to_owned(), detail.into()))
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}... ({} bytes)", &s[..n], s.len())
    } else {
        s
    }
}

/// Decodes a URI fragment holding a JSON pointer, strictly.
pub fn decode_fragment(r: &str) -> Result<Vec<String>, String> {
    let f = r.strip_prefix('#').ok_or("not a fragment-only reference")?;
    let b = f.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'%' {
            let hex = f.get(i + 1..i + 3).ok_or("truncated percent-encoding")?;
            if !hex.bytes().all(|h| h.is_ascii_hexdigit()) {
                return Err(format!("bad percent-encoding %{hex}"));
            }
            out.push(u8::from_str_radix(hex, 16).map_err(|e| e.to_string())?);
            i += 3;
            continue;
        }
        let ok = c.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@/?".contains(&c);
        if !ok {
            return Err(format!("character {:?} is not allowed in a URI fragment", c as char));
        }
        out.push(c);
        i += 1;
    }
    let s = String::from_utf8(out).map_err(|_| "not UTF-8".to_owned())?;
    if s.is_empty() {
        return Ok(Vec::new());
    }
    let s = s.strip_prefix('/').ok_or("not a JSON pointer")?;
    s.split('/')
        .map(|seg| {
            let mut o = String::new();
            let mut it = seg.chars();
            while let Some(c) = it.next() {
                if c == '~' {
                    match it.next() {
                        Some('0') => o.push('~'),
                        Some('1') => o.push('/'),
                        _ => return Err("bad ~ escape".to_owned()),
                    }
                } else {
                    o.push(c);
                }
            }
            Ok(o)
        })
        .collect()
}

pub struct Doc<'a> {
    pub root: &'a Value,
    pub segs: Vec<String>,
}

const MAPS: [&str; 3] = ["properties", "patternProperties", "dependentSchemas"];
const ONES: [&str; 11] = [
    "contentSchema",
    "additionalProperties", "unevaluatedProperties", "unevaluatedItems", "additionalItems", "contains", "propertyNames", "not", "if", "then", "else",
];
const LISTS: [&str; 4] = ["anyOf", "oneOf", "allOf", "prefixItems"];

/// Immediate subschemas, without those in `$defs`/`definitions`.
pub fn children(o: &Map<String, Value>) -> Vec<&Value> {
    let mut out = Vec::new();
    for k in MAPS {
        if let Some(Value::Object(m)) = o.get(k) {
            out.extend(m.values());
        }
    }
    for k in ONES {
        if let Some(v @ (Value::Object(_) | Value::Bool(_))) = o.get(k) {
            out.push(v);
        }
    }
    for k in LISTS {
        if let Some(Value::Array(a)) = o.get(k) {
            out.extend(a);
        }
    }
    match o.get("items") {
        Some(Value::Array(a)) => out.extend(a),
        Some(v @ (Value::Object(_) | Value::Bool(_))) => out.push(v),
        _ => {}
    }
    out
}

impl<'a> Doc<'a> {
    pub fn new(root: &'a Value, s: &SettingsSpec) -> Doc<'a> {
        Doc { root, segs: s.segments() }
    }
    pub fn container(&self) -> Option<&'a Map<String, Value>> {
        let mut v = self.root;
        for s in &self.segs {
            v = v.get(s)?;
        }
        v.as_object()
    }
    /// The definitions of the document (empty when their place does not exist).
    pub fn definitions(&self) -> Vec<(&'a String, &'a Value)> {
        if self.segs.is_empty() {
            // mixed with the root's own keywords: those that are definitions hold a marked object
            return self
                .root
                .as_object()
                .into_iter()
                .flatten()
                .filter(|(k, v)| {
                    v.as_object().is_some_and(|o| o.contains_key("x-node") || o.contains_key("x-holder"))
                        && !ONES.contains(&k.as_str())
                        && *k != "items"
                })
                .collect();
        }
        self.container().into_iter().flatten().collect()
    }
    pub fn resolve(&self, r: &str) -> Result<&'a Value, Bad> {
        let segs = match decode_fragment(r) {
            Ok(s) => s,
            Err(e) => return bad("invalid-ref", format!("reference {r:?}: {e}")),
        };
        let mut v = self.root;
        for s in &segs {
            v = match v {
                Value::Object(o) => match o.get(s) {
                    Some(v) => v,
                    None => return bad("dangling-ref", format!("reference {r:?} does not resolve: no {s:?}; document {}", short(self.root))),
                },
                _ => return bad("dangling-ref", format!("reference {r:?} does not resolve: {s:?} is looked up in {}", short(v))),
            };
        }
        if !v.is_object() && !v.is_boolean() {
            return bad("ref-to-non-schema", format!("reference {r:?} leads to {}", short(v)));
        }
        Ok(v)
    }

    fn reach_into(&self, v: &'a Value, out: &mut BTreeSet<usize>, seen: &mut BTreeSet<String>) -> Result<(), Bad> {
        let Some(o) = v.as_object() else { return Ok(()) };
        if let Some(i) = o.get("x-node").and_then(Value::as_u64) {
            out.insert(i as usize);
            return Ok(());
        }
        if let Some(Value::String(r)) = o.get("$ref") {
            if seen.insert(r.clone()) {
                let t = self.resolve(r)?;
                self.reach_into(t, out, seen)?;
            }
        }
        for c in children(o) {
            self.reach_into(c, out, seen)?;
        }
        Ok(())
    }
    /// The nodes found from `v` by following keywords and references, not looking inside nodes.
    pub fn reach(&self, v: &'a Value) -> Result<BTreeSet<usize>, Bad> {
        let mut out = BTreeSet::new();
        self.reach_into(v, &mut out, &mut BTreeSet::new())?;
        Ok(out)
    }

    /// Calls `f` for every schema object under `v` that is not in the definitions.
    pub fn walk(&self, v: &'a Value, f: &mut dyn FnMut(&'a Map<String, Value>) -> Result<(), Bad>) -> Result<(), Bad> {
        if let Some(o) = v.as_object() {
            f(o)?;
            for c in children(o) {
                self.walk(c, f)?;
            }
        }
        Ok(())
    }

    /// A boolean subschema under `v`, if there is one.
    pub fn boolean(&self, v: &Value) -> bool {
        match v {
            Value::Bool(_) => true,
            Value::Object(o) => children(o).into_iter().any(|c| self.boolean(c)),
            _ => false,
        }
    }

    pub fn refs(&self) -> Result<BTreeSet<String>, Bad> {
        let mut out = BTreeSet::new();
        let mut f = |o: &Map<String, Value>| {
            if let Some(Value::String(r)) = o.get("$ref") {
                out.insert(r.clone());
            }
            Ok(())
        };
        self.walk(self.root, &mut f)?;
        for (_, d) in self.definitions() {
            self.walk(d, &mut f)?;
        }
        Ok(out)
    }
}

/// Finds the `$ref` of a schema that is nothing but a reference (perhaps with annotations, perhaps
/// wrapped in a one-element `allOf` by a dialect).
pub fn pure_ref(v: &Value) -> Option<&str> {
    let o = v.as_object()?;
    if let Some(Value::String(r)) = o.get("$ref") {
        if o.keys().all(|k| k == "$ref" || k == "description") {
            return Some(r);
        }
    }
    if let Some(Value::Array(a)) = o.get("allOf") {
        if a.len() == 1 && o.keys().all(|k| k == "allOf" || k == "description") {
            return pure_ref(&a[0]);
        }
    }
    None
}

/// What a reference made for such an edge stands for, if the edge makes a plain reference.
pub fn ident(w: &World, kind: u8, target: usize) -> Option<String> {
    let k = &KINDS[kind as usize];
    let ts: Vec<usize> = targets(kind, target).into_iter().map(|t| w.canon(t)).collect();
    match k.name {
        "Node" | "Box" | "&" | "Arc<Mutex>" | "Rc<RefCell>" | "Transparent" => {
            (!w.node(target).inline).then(|| format!("Node<{}>", ts[0]))
        }
        "Pair2" => Some(format!("Pair<{:?}>", [ts[1], ts[0]])),
        n if k.named => Some(format!("{n}<{ts:?}>")),
        _ => None,
    }
}

/// The nodes that may have a definition of their own after these requests: those that something
/// refers to, as opposed to those that only the schema of something else is made from.
pub fn definable(w: &World, asked: &BTreeSet<(u8, u8, bool)>, inline: bool) -> BTreeSet<usize> {
    fn edge(w: &World, kind: u8, target: usize, seen: &mut BTreeSet<usize>, may: &mut BTreeSet<usize>) {
        let info = &KINDS[kind as usize];
        for (k, t) in targets(kind, target).into_iter().enumerate() {
            let t = w.canon(t);
            let embedded = k == 0 && (info.how == How::Key || (info.how == How::Direct && info.name != "Int"));
            if !embedded && !w.node(t).inline {
                may.insert(t);
            }
            if seen.insert(t) {
                for e in &w.node(t).edges {
                    edge(w, e.kind, e.target as usize, seen, may);
                }
            }
        }
    }
    let (mut seen, mut may) = (BTreeSet::new(), BTreeSet::new());
    for (kind, target, root) in asked {
        let t = w.canon(*target as usize);
        if *root && ident(w, *kind, *target as usize).is_some_and(|i| i.starts_with("Node<")) {
            if seen.insert(t) {
                for e in &w.node(t).edges {
                    edge(w, e.kind, e.target as usize, &mut seen, &mut may);
                }
            }
        } else {
            edge(w, *kind, *target as usize, &mut seen, &mut may);
        }
    }
    if inline {
        // only what contains itself cannot be inlined
        may.retain(|&t| {
            let next: BTreeSet<usize> = w.node(t).edges.iter().flat_map(|e| targets(e.kind, e.target as usize)).collect();
            w.reachable(&next).contains(&t)
        });
    }
    may
}

#[derive(Default)]
pub struct Facts {
    /// reference -> what it was made for
    pub made_for: Vec<(String, String)>,
    pub nodes_verified: u64,
    pub refs_resolved: u64,
    pub defs: u64,
    /// nodes present in the definitions
    pub def_nodes: BTreeSet<usize>,
}

/// Checks one node's schema: contract, and that each edge leads exactly where it should.
fn verify_node<'a>(w: &World, doc: &Doc<'a>, s: &SettingsSpec, o: &'a Map<String, Value>, f: &mut Facts) -> Result<(), Bad> {
    let i = o["x-node"].as_u64().unwrap_or(u64::MAX) as usize;
    if i >= N || w.canon(i) != i {
        return bad("foreign-node", format!("schema of an unknown node {i}"));
    }
    let c = o.get("x-contract").and_then(Value::as_str);
    if c != Some(if s.serialize { "s" } else { "d" }) {
        return bad("wrong-contract", format!("node {i} was described for contract {c:?}"));
    }
    f.nodes_verified += 1;
    let n = w.node(i);
    for (k, e) in n.edges.iter().enumerate() {
        let p = format!("n{i}_e{k}");
        let v = match n.body {
            Body::Union => o.get("anyOf").and_then(|a| a.get(k)),
            _ => o.get("properties").and_then(|a| a.get(&p)),
        };
        let Some(v) = v else {
            return bad("lost-edge", format!("schema of node {i} lacks {p}: {}", short(&Value::Object(o.clone()))));
        };
        let got = doc.reach(v)?;
        let mut want = expected(w, e.kind, e.target as usize);
        if v.get("x-also").is_some() {
            if let Some(also) = also(w, i, k) {
                want.extend(expected(w, also.kind, also.target as usize));
            }
        }
        let ok = if KINDS[e.kind as usize].how == How::Key { got.is_subset(&want) } else { got == want };
        if !ok {
            return bad(
                "wrong-target",
                format!(
                    "{p} of node {i} ({} of node {}) leads to nodes {got:?}, expected {want:?}; there: {}; document: {}",
                    KINDS[e.kind as usize].name,
                    e.target,
                    short(v),
                    short(doc.root)
                ),
            );
        }
        if let (Some(id), Some(r)) = (ident(w, e.kind, e.target as usize), pure_ref(v)) {
            if r != "#" {
                f.made_for.push((r.to_owned(), id));
            }
        }
    }
    Ok(())
}

/// The whole document (or a subschema together with the definitions it refers to).
pub fn check_doc(w: &World, s: &SettingsSpec, root: &Value, is_root_doc: bool, req: Option<(u8, u8)>) -> Result<Facts, Bad> {
    let doc = Doc::new(root, s);
    let mut f = Facts::default();
    // 1. every reference anywhere resolves
    for r in doc.refs()? {
        if r == "#" && !is_root_doc {
            return bad("root-ref-outside-root", "a schema that is not a root schema refers to \"#\"");
        }
        let v = doc.resolve(&r)?;
        f.refs_resolved += 1;
        // the library's own lookup has to find the same
        if let Ok(schema) = <&schemars::Schema>::try_from(root) {
            if !schema.pointer(&r).is_some_and(|p| std::ptr::eq(p, v)) {
                return bad("pointer", format!("Schema::pointer({r:?}) gives {:?} instead of {}", schema.pointer(&r), short(v)));
            }
            if f.refs_resolved == 1 {
                let mut copy = schema.clone();
                if copy.pointer_mut(&r).map(|p| &*p) != Some(v) {
                    return bad("pointer", format!("Schema::pointer_mut({r:?}) does not give {}", short(v)));
                }
            }
        }
    }
    // 2. the root is the requested type
    if let Some((kind, target)) = req {
        let got = doc.reach(root)?;
        let want = expected(w, kind, target as usize);
        let ok = if KINDS[kind as usize].how == How::Key { got.is_subset(&want) } else { got == want };
        if !ok {
            return bad(
                "wrong-root",
                format!("the document for {} of node {target} leads to nodes {got:?}, expected {want:?}: {}", KINDS[kind as usize].name, short(root)),
            );
        }
    }
    // 3. every node in the document leads where it should, and definitions are complete
    let mut todo: Vec<&Value> = vec![root];
    for (name, d) in doc.definitions() {
        f.defs += 1;
        if d == &Value::Bool(false) || d == &serde_json::json!({"not": {}}) {
            return bad("placeholder", format!("definition {name:?} is a placeholder"));
        }
        if !d.is_object() && !(d == &Value::Bool(true) && w.nodes.iter().any(|n| n.body == Body::True)) {
            return bad("non-schema-definition", format!("definition {name:?} is {}", short(d)));
        }
        f.def_nodes.extend(doc.reach(d)?);
        todo.push(d);
    }
    for v in todo {
        let mut nodes = Vec::new();
        doc.walk(v, &mut |o| {
            if o.contains_key("x-node") {
                nodes.push(o);
            }
            Ok(())
        })?;
        for o in nodes {
            verify_node(w, &doc, s, o, &mut f)?;
        }
    }
    Ok(f)
}

/// A document made of a subschema and the definitions it may refer to.
pub fn synthetic(s: &SettingsSpec, sub: &Value, defs: &Map<String, Value>) -> Value {
    let mut root = match sub {
        Value::Object(o) => o.clone(),
        _ => Map::new(),
    };
    // the subschema itself may be a bare reference: keep it apart from the definitions
    let mut holder = Map::new();
    holder.insert("allOf".into(), Value::Array(vec![Value::Object(std::mem::take(&mut root))]));
    let segs = s.segments();
    if segs.is_empty() {
        holder.extend(defs.clone());
    } else {
        let mut cur = &mut holder;
        for seg in &segs {
            cur = cur
                .entry(seg.clone())
                .or_insert_with(|| Value::Object(Map::new()))
                .as_object_mut()
                .expect("path");
        }
        *cur = defs.clone();
    }
    Value::Object(holder)
}

// ------------------------------------------------------------------ equivalence up to names
pub struct Bisim<'a> {
    pub a: Doc<'a>,
    pub b: Doc<'a>,
    seen: BTreeSet<(String, String)>,
    /// references are compared by the node they lead to only (inlining mode)
    pub shallow: bool,
    /// a root schema and a definition may differ by what transforms do
    pub skip_root_vs_def: bool,
    pub pairs: u64,
}

impl<'a> Bisim<'a> {
    pub fn new(a: Doc<'a>, b: Doc<'a>) -> Self {
        Bisim { a, b, seen: BTreeSet::new(), shallow: false, skip_root_vs_def: false, pairs: 0 }
    }
    fn strip<'v>(&self, o: &'v Map<String, Value>, root: bool, both_root: bool) -> BTreeMap<&'v str, &'v Value> {
        o.iter()
            .filter(|(k, _)| {
                let k = k.as_str();
                // (a root and a definition: what only the root may carry is left out of both)
                !(root || !both_root) || !(self.a.segs.first().is_some_and(|s| s == k) || (!both_root && k == "$schema"))
            })
            .map(|(k, v)| (k.as_str(), v))
            .collect()
    }
    pub fn eq(&mut self, va: &'a Value, vb: &'a Value, ra: bool, rb: bool, at: &str) -> Result<(), Bad> {
        match (va, vb) {
            (Value::Object(oa), Value::Object(ob)) => {
                let mut ma = self.strip(oa, ra, ra == rb);
                let mut mb = self.strip(ob, rb, ra == rb);
                if ra != rb && ma.contains_key("title") != mb.contains_key("title") {
                    ma.remove("title");
                    mb.remove("title");
                }
                if let (Some(Value::String(x)), Some(Value::String(y))) = (ma.get("$ref").copied(), mb.get("$ref").copied()) {
                    ma.remove("$ref");
                    mb.remove("$ref");
                    self.refs(x, y, at)?;
                }
                if ma.keys().ne(mb.keys()) {
                    let (ka, kb): (Vec<_>, Vec<_>) = (ma.keys().collect(), mb.keys().collect());
                    return bad("differs", format!("at {at}: keywords {ka:?} instead of {kb:?}; {} instead of {}", short(va), short(vb)));
                }
                for (k, x) in ma {
                    let y = mb[k];
                    self.eq(x, y, false, false, &format!("{at}/{k}"))?;
                }
                Ok(())
            }
            (Value::Array(aa), Value::Array(ab)) => {
                if aa.len() != ab.len() {
                    return bad("differs", format!("at {at}: {} instead of {}", short(va), short(vb)));
                }
                for (i, (x, y)) in aa.iter().zip(ab).enumerate() {
                    self.eq(x, y, false, false, &format!("{at}/{i}"))?;
                }
                Ok(())
            }
            _ if va == vb => Ok(()),
            _ => bad("differs", format!("at {at}: {} instead of {}", short(va), short(vb))),
        }
    }
    fn refs(&mut self, x: &str, y: &str, at: &str) -> Result<(), Bad> {
        if !self.seen.insert((x.to_owned(), y.to_owned())) {
            return Ok(());
        }
        self.pairs += 1;
        let (rx, ry) = (x == "#", y == "#");
        let (tx, ty) = (self.a.resolve(x)?, self.b.resolve(y)?);
        if self.shallow {
            let (nx, ny) = (self.a.reach(tx)?, self.b.reach(ty)?);
            if nx != ny {
                return bad("differs", format!("at {at}: reference to nodes {nx:?} instead of {ny:?}"));
            }
            return Ok(());
        }
        if rx != ry && self.skip_root_vs_def {
            return Ok(());
        }
        self.eq(tx, ty, rx, ry, &format!("{at}->{y}"))
    }
}

/// `got` must be what a brand-new generator makes (`fresh`), up to the names of definitions and
/// definitions not needed.
pub fn equivalent(s: &SettingsSpec, got: &Value, fresh: &Value, is_root_doc: bool) -> Result<u64, Bad> {
    let mut b = Bisim::new(Doc::new(got, s), Doc::new(fresh, s));
    b.shallow = s.inline;
    b.skip_root_vs_def = s.has_transforms() && !s.standard_path();
    b.eq(got, fresh, is_root_doc || !s.segments().is_empty(), is_root_doc || !s.segments().is_empty(), "#")?;
    Ok(b.pairs)
}
