//! Minimises a failing plan while it keeps failing in the same way.
use crate::flaky::Op12;
use crate::history::RunOut;
use crate::io::IoPlan;
use crate::plan::*;
use crate::rng::hash_str;
use crate::scenario::judge;
use crate::seams::real_ns;
use crate::value::V;
use crate::world::*;
use crate::zoo::OpZ;
use std::collections::HashSet;

fn chunks(n: usize) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut k = n.div_ceil(2);
    while k >= 1 && n > 0 {
        let mut at = 0;
        while at < n {
            out.push((at, (at + k).min(n)));
            at += k;
        }
        if k == 1 {
            break;
        }
        k /= 2;
    }
    out
}

fn smaller_v(v: &V) -> Vec<V> {
    let list = |items: &Vec<V>| -> Vec<Vec<V>> {
        let mut o = Vec::new();
        for i in 0..items.len() {
            let mut p = items.clone();
            p.remove(i);
            o.push(p);
        }
        for i in 0..items.len() {
            for w in smaller_v(&items[i]) {
                let mut p = items.clone();
                p[i] = w;
                o.push(p);
            }
        }
        o
    };
    let pairs = |items: &Vec<(V, V)>| -> Vec<Vec<(V, V)>> {
        let mut o = Vec::new();
        for i in 0..items.len() {
            let mut p = items.clone();
            p.remove(i);
            o.push(p);
            for w in smaller_v(&items[i].1) {
                let mut p = items.clone();
                p[i].1 = w;
                o.push(p);
            }
        }
        o
    };
    match v {
        V::Some(b) | V::Newtype(b) | V::NewtypeVariant(b) => {
            let mut o = vec![(**b).clone()];
            let wrap = |x: V| match v {
                V::Some(_) => V::Some(Box::new(x)),
                V::Newtype(_) => V::Newtype(Box::new(x)),
                _ => V::NewtypeVariant(Box::new(x)),
            };
            o.extend(smaller_v(b).into_iter().map(wrap));
            o
        }
        V::Seq(l, i) => list(i).into_iter().map(|x| V::Seq(*l, x)).collect(),
        V::CollectSeq(i) => list(i).into_iter().map(V::CollectSeq).collect(),
        V::Tuple(i) => list(i).into_iter().map(V::Tuple).collect(),
        V::TupleStruct(i) => list(i).into_iter().map(V::TupleStruct).collect(),
        V::TupleVariant(i) => list(i).into_iter().map(V::TupleVariant).collect(),
        V::Struct(i) => list(i).into_iter().map(V::Struct).collect(),
        V::StructSkip(i) => list(i).into_iter().map(V::StructSkip).collect(),
        V::StructVariant(i) => list(i).into_iter().map(V::StructVariant).collect(),
        V::Map(i) => pairs(i).into_iter().map(V::Map).collect(),
        V::MapSplit(i) => pairs(i).into_iter().map(V::MapSplit).collect(),
        V::CollectMap(i) => (0..i.len())
            .map(|k| {
                let mut p = i.clone();
                p.remove(k);
                V::CollectMap(p)
            })
            .collect(),
        V::Unit => vec![],
        _ => vec![V::Unit],
    }
}

/// Smaller variants, the most drastic first.
fn candidates(p: &Plan) -> Vec<Plan> {
    let mut out: Vec<Plan> = Vec::new();
    macro_rules! cand {
        (|$q:ident| $body:expr) => {{
            let mut $q = p.clone();
            $body;
            if $q != *p {
                out.push($q);
            }
        }};
    }
    // whole clients
    if p.clients.len() > 1 {
        for i in 0..p.clients.len() {
            cand!(|q| {
                q.clients.remove(i);
                if let Some(s) = q.extra.get_mut("segments").and_then(|s| s.as_array_mut()) {
                    if i < s.len() {
                        s.remove(i);
                    }
                }
            });
        }
    }
    if p.prop == "C06" {
        cand!(|q| q.extra["guest"] = false.into());
        for i in 0..p.clients.len() {
            cand!(|q| q.extra["segments"][i] = 1.into());
        }
    }
    if p.prop == "C07" {
        let n = p.extra["envs"].as_array().map_or(0, Vec::len);
        for i in 0..n {
            if n > 1 {
                cand!(|q| {
                    if let Some(a) = q.extra["envs"].as_array_mut() {
                        a.remove(i);
                    }
                });
            }
            for k in ["hash_seed", "arena_seed", "clock0", "clock_step", "warm_threads", "all_threads", "past"] {
                let base = serde_json::to_value(&p.env).unwrap_or_default()[k].clone();
                cand!(|q| q.extra["envs"][i][k] = base.clone());
            }
        }
    }
    if let Ok(n) = serde_json::from_value::<crate::nest::Nest>(p.extra["nest"].clone()) {
        for s in crate::nest::smaller(&n) {
            cand!(|q| q.extra["nest"] = serde_json::to_value(&s).unwrap_or_default());
        }
    }
    // requests
    for c in 0..p.clients.len() {
        for (a, b) in chunks(p.clients[c].len()) {
            cand!(|q| {
                q.clients[c].drain(a..b);
            });
        }
    }
    // schedule
    if let Some(s) = &p.sched.switches {
        for (a, b) in chunks(s.len()) {
            cand!(|q| {
                if let Some(s) = &mut q.sched.switches {
                    s.drain(a..b);
                }
            });
        }
    }
    // scenarios of their own
    if let Ok(io) = serde_json::from_value::<IoPlan>(p.extra.clone()) {
        for s in crate::io::smaller(&io) {
            cand!(|q| q.extra = serde_json::to_value(&s).unwrap_or_default());
        }
    }
    if let Ok(ops) = serde_json::from_value::<Vec<Op12>>(p.extra.clone()) {
        let mut put = |o: Vec<Op12>| {
            let mut q = p.clone();
            q.extra = serde_json::to_value(&o).unwrap_or_default();
            out.push(q);
        };
        for (a, b) in chunks(ops.len()) {
            let mut o = ops.clone();
            o.drain(a..b);
            put(o);
        }
        for i in 0..ops.len() {
            for k in 0..ops[i].faults.len() {
                let mut o = ops.clone();
                o[i].faults.remove(k);
                put(o);
            }
            if ops[i].thread {
                let mut o = ops.clone();
                o[i].thread = false;
                put(o);
            }
        }
    }
    if let Ok(ops) = serde_json::from_value::<Vec<OpZ>>(p.extra["zoo"].clone()) {
        let mut put = |o: Vec<OpZ>| cand!(|q| q.extra["zoo"] = serde_json::to_value(&o).unwrap_or_default());
        for (a, b) in chunks(ops.len()) {
            let mut o = ops.clone();
            o.drain(a..b);
            put(o);
        }
        for i in 0..ops.len() {
            if ops[i].thread {
                let mut o = ops.clone();
                o[i].thread = false;
                put(o);
            }
        }
    }
    // what happens around requests
    for c in 0..p.clients.len() {
        for i in 0..p.clients[c].len() {
            let op = &p.clients[c][i];
            if op.thread {
                cand!(|q| q.clients[c][i].thread = false);
            }
            if op.crash_at.is_some() {
                cand!(|q| q.clients[c][i].crash_at = None);
            }
            if op.re.is_some() {
                cand!(|q| q.clients[c][i].re = None);
            }
            if op.fault.is_some() {
                cand!(|q| q.clients[c][i].fault = None);
            }
            match &op.what {
                What::Sub { kind, target } | What::Root { kind, target } | What::IntoRoot { kind, target } => {
                    if *kind != 0 {
                        cand!(|q| match &mut q.clients[c][i].what {
                            What::Sub { kind, .. } | What::Root { kind, .. } | What::IntoRoot { kind, .. } => *kind = 0,
                            _ => {}
                        });
                    }
                    if matches!(op.what, What::IntoRoot { .. }) {
                        let w = What::Root { kind: *kind, target: *target };
                        cand!(|q| q.clients[c][i].what = w.clone());
                    }
                }
                What::Value { v } | What::IntoValue { v } => {
                    let into = matches!(op.what, What::IntoValue { .. });
                    for w in smaller_v(v) {
                        cand!(|q| q.clients[c][i].what = if into { What::IntoValue { v: w.clone() } } else { What::Value { v: w.clone() } });
                    }
                }
                What::Take { apply: true } => cand!(|q| q.clients[c][i].what = What::Take { apply: false }),
                _ => {}
            }
        }
    }
    // types
    let w = &p.world;
    for i in 0..w.nodes.len() {
        if w.nodes[i].alias_of.is_some() {
            cand!(|q| q.world.nodes[i].alias_of = None);
            continue;
        }
        for k in 0..w.nodes[i].edges.len() {
            cand!(|q| {
                q.world.nodes[i].edges.remove(k);
            });
            if w.nodes[i].edges[k].kind != 0 {
                cand!(|q| q.world.nodes[i].edges[k].kind = 0);
            }
            if w.nodes[i].edges[k].sibling {
                cand!(|q| q.world.nodes[i].edges[k].sibling = false);
            }
        }
        if w.nodes[i].inline {
            cand!(|q| q.world.nodes[i].inline = false);
        }
        if w.nodes[i].title {
            cand!(|q| q.world.nodes[i].title = false);
        }
        if w.nodes[i].closed {
            cand!(|q| q.world.nodes[i].closed = false);
        }
        if w.nodes[i].body != Body::Object {
            cand!(|q| q.world.nodes[i].body = Body::Object);
        }
        let plain = format!("N{i}");
        if w.nodes[i].name != plain {
            cand!(|q| q.world.nodes[i].name = plain.clone());
        }
        let id = format!("id{i}");
        if w.nodes[i].id != id {
            cand!(|q| q.world.nodes[i].id = id.clone());
        }
    }
    // settings
    for i in 0..p.settings.len() {
        let s = &p.settings[i];
        if *s != SettingsSpec::plain() {
            cand!(|q| q.settings[i] = SettingsSpec::plain());
        }
        cand!(|q| q.settings[i].dialect = 2);
        cand!(|q| q.settings[i].inline = false);
        cand!(|q| q.settings[i].serialize = false);
        cand!(|q| q.settings[i].path = None);
        cand!(|q| q.settings[i].untagged_titles = false);
        cand!(|q| q.settings[i].transforms = None);
        if let Some((a, l)) = &s.transforms {
            if *a {
                cand!(|q| q.settings[i].transforms = Some((false, l.clone())));
            }
            for k in 0..l.len() {
                cand!(|q| if let Some((_, l)) = &mut q.settings[i].transforms {
                    l.remove(k);
                });
            }
        }
    }
    // environment
    cand!(|q| q.env.warm_threads = 0);
    cand!(|q| q.env.past = 0);
    for k in [2, 4, 8] {
        cand!(|q| q.env.past -= q.env.past / 16 / k * 16);
    }
    cand!(|q| q.env.past -= 16 * (q.env.past / 16).min(1));
    cand!(|q| q.env = Env { hash_seed: 0, arena_seed: 0, clock0: 0, clock_step: 0, warm_threads: 0, all_threads: false, past: 0 });
    out
}

/// A plan whose types would be infinite says nothing.
fn sane(p: &Plan) -> bool {
    let w = &p.world;
    for (i, n) in w.nodes.iter().enumerate() {
        if let Some(a) = n.alias_of {
            if w.nodes[a as usize].alias_of.is_some() {
                return false;
            }
            continue;
        }
        for e in &n.edges {
            let info = &KINDS[e.kind as usize];
            for (k, t) in targets(e.kind, e.target as usize).into_iter().enumerate() {
                let c = w.canon(t);
                if (w.node(t).inline || (k == 0 && info.how != How::Ref)) && c <= i {
                    return false;
                }
                if info.how == How::Direct && w.node(t).body != Body::Object {
                    return false;
                }
            }
        }
        if n.body == Body::Union && n.edges.is_empty() {
            return false;
        }
        if !matches!(n.body, Body::Union | Body::Object) && !n.edges.is_empty() {
            return false;
        }
    }
    // distinct types have distinct ids
    let mut ids = HashSet::new();
    for n in &w.nodes {
        if n.alias_of.is_none() && !ids.insert(&n.id) {
            return false;
        }
    }
    for (i, n) in w.nodes.iter().enumerate() {
        if n.alias_of.is_none() {
            continue;
        }
        let b = w.node(i);
        if b.id != n.id || b.name != n.name {
            return false;
        }
    }
    if !w.nodes.is_empty() {
        let inline = p.settings.iter().any(|s| s.inline);
        if (0..N as u8).any(|i| cost(w, inline, 0, i, COST_CAP) >= COST_CAP) {
            return false;
        }
        for op in p.clients.iter().flatten() {
            if let What::Sub { kind, target } | What::Root { kind, target } | What::IntoRoot { kind, target } = &op.what {
                if !ok_request(w, *kind, *target) {
                    return false;
                }
            }
        }
    }
    true
}

pub struct Shrunk {
    pub plan: Plan,
    pub out: RunOut,
    pub tried: u64,
    pub accepted: u64,
}

pub fn shrink(plan: &Plan, first: RunOut, max_ms: u64, max_runs: u64) -> Shrunk {
    let class = first.bad.as_ref().map(|b| b.0.clone()).unwrap_or_default();
    let t0 = real_ns();
    let mut best = plan.clone();
    let mut best_out = first;
    let (mut tried, mut accepted) = (0, 0);
    // an explicit schedule can be shrunk, a seed cannot
    if best.sched.switches.is_none() && !best_out.switches.is_empty() {
        let mut q = best.clone();
        q.sched.switches = Some(best_out.switches.clone());
        let o = judge(&q);
        if o.bad.as_ref().is_some_and(|b| b.0 == class) {
            best = q;
            best_out = o;
        }
    }
    let mut seen = HashSet::new();
    // hangs take a minute each to see
    let max_runs = if class == "hang" { 5 } else { max_runs };
    'again: loop {
        for q in candidates(&best) {
            if tried >= max_runs || (real_ns() - t0) / 1_000_000 > max_ms {
                break 'again;
            }
            if !sane(&q) || !seen.insert(hash_str(&serde_json::to_string(&q).unwrap_or_default())) {
                continue;
            }
            tried += 1;
            let o = judge(&q);
            if o.bad.as_ref().is_some_and(|b| b.0 == class) {
                best = q;
                best_out = o;
                accepted += 1;
                continue 'again;
            }
        }
        break;
    }
    best.expect = Some(class);
    Shrunk { plan: best, out: best_out, tried, accepted }
}
