//! Simulated user values: a tree over the serde data model whose `Serialize` counts its steps and
//! fails (or crashes) where the plan says so.
use crate::rng::Rng;
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::Deserialize;
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq, serde::Serialize, Deserialize)]
pub enum V {
    Bool(bool),
    I64(i64),
    U64(u64),
    I128(i64),
    F64(f64),
    Char(char),
    Str(String),
    CollectStr(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<V>),
    Unit,
    UnitStruct,
    UnitVariant(u8),
    Newtype(Box<V>),
    NewtypeVariant(Box<V>),
    /// with or without an announced length
    Seq(bool, Vec<V>),
    CollectSeq(Vec<V>),
    Tuple(Vec<V>),
    TupleStruct(Vec<V>),
    TupleVariant(Vec<V>),
    /// serialize_map entry by entry
    Map(Vec<(V, V)>),
    /// key and value in separate calls
    MapSplit(Vec<(V, V)>),
    CollectMap(Vec<(String, V)>),
    Struct(Vec<V>),
    /// a struct with a skipped field
    StructSkip(Vec<V>),
    StructVariant(Vec<V>),
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, Deserialize)]
pub struct Fault {
    /// fail at this step of an attempt (1-based)
    pub at: u64,
    /// index of the first attempt (0-based) affected, and how many from there
    pub first_attempt: u32,
    pub attempts: u32,
    pub token: String,
    pub panic: bool,
}

#[derive(Default, Clone)]
pub struct FaultState {
    fault: Option<Fault>,
    attempt: u32,
    step: u64,
    pub fired: Vec<u32>,
    /// this attempt is serde_json's, for the copy kept as an example
    copy: bool,
    /// a fault hit the inference itself
    pub in_inference: bool,
    pub attempts: u32,
    pub max_step: u64,
    nesting: u32,
}

thread_local! {
    static STATE: RefCell<FaultState> = RefCell::new(FaultState::default());
}

pub fn set_fault(f: Option<Fault>) -> FaultState {
    let h = crate::seams::set_alloc_hook(false);
    let r = STATE.with(|s| std::mem::replace(&mut *s.borrow_mut(), FaultState { fault: f, ..FaultState::default() }));
    crate::seams::set_alloc_hook(h);
    r
}
pub fn restore_fault(st: FaultState) {
    let h = crate::seams::set_alloc_hook(false);
    STATE.with(|s| *s.borrow_mut() = st);
    crate::seams::set_alloc_hook(h);
}
pub fn fault_state() -> FaultState {
    STATE.with(|s| s.borrow().clone())
}

/// Tells one step of serialization; Err if the plan makes this step fail.
pub fn step<E: ser::Error>() -> Result<(), E> {
    let h = crate::seams::set_alloc_hook(false);
    let r = STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.step += 1;
        s.max_step = s.max_step.max(s.step);
        let (step, attempt) = (s.step, s.attempt);
        match &s.fault {
            Some(f) if f.at == step && attempt >= f.first_attempt && attempt - f.first_attempt < f.attempts => {
                let (t, p) = (f.token.clone(), f.panic);
                s.fired.push(attempt);
                s.in_inference |= !s.copy;
                Err((t, p))
            }
            _ => Ok(()),
        }
    });
    crate::sched::callback_point();
    let r = match r {
        Ok(()) => Ok(()),
        Err((_, true)) => std::panic::resume_unwind(Box::new(crate::ctx::InjectedCrash)),
        Err((t, false)) => Err(E::custom(t)),
    };
    crate::seams::set_alloc_hook(h);
    r
}

/// The value handed to the library; each call of its `serialize` is one attempt.
pub struct Top<'a>(pub &'a V);

impl Serialize for Top<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        STATE.with(|st| {
            let mut st = st.borrow_mut();
            if st.nesting == 0 {
                st.attempt = st.attempts;
                st.attempts += 1;
                st.step = 0;
                st.copy = std::any::type_name::<S>().starts_with("serde_json::");
            }
            st.nesting += 1;
        });
        let r = Val(self.0).serialize(s);
        STATE.with(|st| st.borrow_mut().nesting -= 1);
        r
    }
}

struct Val<'a>(&'a V);

const FIELDS: [&str; 8] = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"];
const VARIANTS: [&str; 3] = ["First", "Second", "Third"];

struct Disp<'a>(&'a str);
impl std::fmt::Display for Disp<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}

impl Serialize for Val<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        step::<S::Error>()?;
        match self.0 {
            V::Bool(b) => s.serialize_bool(*b),
            V::I64(i) => s.serialize_i64(*i),
            V::U64(i) => s.serialize_u64(*i),
            V::I128(i) => s.serialize_i128(i128::from(*i)),
            V::F64(f) => s.serialize_f64(*f),
            V::Char(c) => s.serialize_char(*c),
            V::Str(x) => s.serialize_str(x),
            V::CollectStr(x) => s.collect_str(&Disp(x)),
            V::Bytes(b) => s.serialize_bytes(b),
            V::None => s.serialize_none(),
            V::Some(v) => s.serialize_some(&Val(v)),
            V::Unit => s.serialize_unit(),
            V::UnitStruct => s.serialize_unit_struct("UnitStruct"),
            V::UnitVariant(i) => s.serialize_unit_variant("Enum", u32::from(*i % 3), VARIANTS[usize::from(*i % 3)]),
            V::Newtype(v) => s.serialize_newtype_struct("Newtype", &Val(v)),
            V::NewtypeVariant(v) => s.serialize_newtype_variant("Enum", 0, VARIANTS[0], &Val(v)),
            V::Seq(len, v) => {
                let mut q = s.serialize_seq(len.then_some(v.len()))?;
                for x in v {
                    step::<S::Error>()?;
                    q.serialize_element(&Val(x))?;
                }
                step::<S::Error>()?;
                q.end()
            }
            V::CollectSeq(v) => s.collect_seq(v.iter().map(Val)),
            V::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    step::<S::Error>()?;
                    q.serialize_element(&Val(x))?;
                }
                q.end()
            }
            V::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("TupleStruct", v.len())?;
                for x in v {
                    step::<S::Error>()?;
                    q.serialize_field(&Val(x))?;
                }
                q.end()
            }
            V::TupleVariant(v) => {
                let mut q = s.serialize_tuple_variant("Enum", 1, VARIANTS[1], v.len())?;
                for x in v {
                    step::<S::Error>()?;
                    q.serialize_field(&Val(x))?;
                }
                q.end()
            }
            V::Map(v) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (k, x) in v {
                    step::<S::Error>()?;
                    q.serialize_entry(&Val(k), &Val(x))?;
                }
                step::<S::Error>()?;
                q.end()
            }
            V::MapSplit(v) => {
                let mut q = s.serialize_map(None)?;
                for (k, x) in v {
                    q.serialize_key(&Val(k))?;
                    step::<S::Error>()?;
                    q.serialize_value(&Val(x))?;
                }
                q.end()
            }
            V::CollectMap(v) => s.collect_map(v.iter().map(|(k, x)| (k, Val(x)))),
            V::Struct(v) => {
                let n = v.len().min(FIELDS.len());
                let mut q = s.serialize_struct("Struct", n)?;
                for (i, x) in v.iter().take(n).enumerate() {
                    step::<S::Error>()?;
                    q.serialize_field(FIELDS[i], &Val(x))?;
                }
                step::<S::Error>()?;
                q.end()
            }
            V::StructSkip(v) => {
                let n = v.len().min(FIELDS.len() - 1);
                let mut q = s.serialize_struct("StructSkip", n)?;
                q.skip_field(FIELDS[7])?;
                for (i, x) in v.iter().take(n).enumerate() {
                    step::<S::Error>()?;
                    q.serialize_field(FIELDS[i], &Val(x))?;
                }
                q.end()
            }
            V::StructVariant(v) => {
                let n = v.len().min(FIELDS.len());
                let mut q = s.serialize_struct_variant("Enum", 2, VARIANTS[2], n)?;
                for (i, x) in v.iter().take(n).enumerate() {
                    step::<S::Error>()?;
                    q.serialize_field(FIELDS[i], &Val(x))?;
                }
                q.end()
            }
        }
    }
}

pub struct Owned(pub V);
impl Serialize for Owned {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        Top(&self.0).serialize(s)
    }
}

pub fn sample_value() -> Owned {
    Owned(V::Struct(vec![V::Str("a".into()), V::Seq(true, vec![V::I64(1), V::I64(2)]), V::Some(Box::new(V::Bool(true)))]))
}

fn gen_str(r: &mut Rng) -> String {
    (*r.pick(&["", "a", "key", "x/y", "~", "%41", "é", "\t", "null", "2024-01-01"])).to_owned()
}

pub fn gen(r: &mut Rng, depth: usize) -> V {
    let leaf = depth == 0 || r.chance(1, 4);
    if leaf {
        return match r.below(14) {
            0 => V::Bool(r.chance(1, 2)),
            1 => V::I64(r.below(1000) as i64 - 500),
            2 => V::U64(r.u64()),
            3 => V::I128(r.below(100) as i64),
            4 => V::F64(r.below(100) as f64 / 8.0),
            5 => V::Char('c'),
            6 | 7 => V::Str(gen_str(r)),
            8 => V::CollectStr(gen_str(r)),
            9 => V::Bytes(vec![1, 2, 3]),
            10 => V::None,
            11 => V::Unit,
            12 => V::UnitStruct,
            _ => V::UnitVariant(r.below(3) as u8),
        };
    }
    let n = r.below(4);
    let same = r.chance(1, 2);
    let first = gen(r, depth - 1);
    let items = |r: &mut Rng, n: usize| -> Vec<V> {
        (0..n).map(|_| if same { first.clone() } else { gen(r, depth - 1) }).collect()
    };
    match r.below(15) {
        0 => V::Some(Box::new(gen(r, depth - 1))),
        1 => V::Newtype(Box::new(gen(r, depth - 1))),
        2 => V::NewtypeVariant(Box::new(gen(r, depth - 1))),
        3 => V::Seq(true, items(r, n)),
        4 => V::Seq(false, items(r, n)),
        5 => V::CollectSeq(items(r, n)),
        6 => V::Tuple(items(r, n)),
        7 => V::TupleStruct(items(r, n)),
        8 => V::TupleVariant(items(r, n)),
        9 | 10 => {
            let vals = items(r, n);
            let split = r.chance(1, 2);
            let kv = vals
                .into_iter()
                .enumerate()
                .map(|(i, v)| {
                    let k = match r.below(24) {
                        0 => V::U64(i as u64),
                        1 => V::Char('k'),
                        2 => V::Seq(true, vec![]),
                        _ => V::Str(format!("k{i}{}", gen_str(r))),
                    };
                    (k, v)
                })
                .collect();
            if split {
                V::MapSplit(kv)
            } else {
                V::Map(kv)
            }
        }
        11 => {
            let vals = items(r, n);
            V::CollectMap(vals.into_iter().enumerate().map(|(i, v)| (format!("c{i}"), v)).collect())
        }
        12 => V::Struct(items(r, n + 1)),
        13 => V::StructSkip(items(r, n)),
        _ => V::StructVariant(items(r, n)),
    }
}
