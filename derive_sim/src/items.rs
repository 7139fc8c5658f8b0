//! Derive inputs: Rust items as a user would write them, most of them right, some with mistakes.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Member {
    pub attrs: Vec<String>,
    /// what comes before the fields (empty for a field)
    pub head: String,
    /// fields of a variant
    pub fields: Vec<Member>,
    /// what comes after: `: T` or a discriminant
    pub tail: String,
    /// `{}`, `()` or nothing
    pub shape: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Item {
    /// JsonSchema_repr
    pub repr: bool,
    pub attrs: Vec<String>,
    pub keyword: String,
    pub name: String,
    pub generics: String,
    pub wher: String,
    pub shape: u8,
    pub members: Vec<Member>,
}

fn list(members: &[Member], shape: u8, out: &mut String) {
    let (open, close) = match shape {
        0 => ('{', '}'),
        1 => ('(', ')'),
        _ => return,
    };
    out.push(open);
    for m in members {
        for a in &m.attrs {
            out.push_str(a);
            out.push('\n');
        }
        out.push_str(&m.head);
        list(&m.fields, m.shape, out);
        out.push_str(&m.tail);
        out.push_str(",\n");
    }
    out.push(close);
}

impl Item {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for a in &self.attrs {
            s.push_str(a);
            s.push('\n');
        }
        s.push_str(&format!("{} {}{} ", self.keyword, self.name, self.generics));
        if self.shape != 1 || self.keyword != "struct" {
            s.push_str(&self.wher);
        }
        list(&self.members, if self.keyword == "enum" || self.keyword == "union" { 0 } else { self.shape }, &mut s);
        if self.shape == 1 && self.keyword == "struct" {
            s.push_str(&self.wher);
        }
        if self.keyword == "struct" && self.shape != 0 {
            s.push(';');
        }
        s
    }
}

const NAMES: [&str; 5] = ["A", "Bee", "Item", "r#Type", "A2"];
const FIELDS: [&str; 14] = ["a", "b", "first_name", "x1", "r#type", "value", "id", "kind", "the_other", "c", "d", "e", "f", "data"];
const VARIANTS: [&str; 10] = ["One", "Two", "ThreeFour", "X", "Unit", "Other", "A", "Named", "VeryLongName", "Z9"];
const CASES: [&str; 9] = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE", "Wrong_Case"];

fn ty(r: &mut Rng, params: &[&str], depth: u32) -> String {
    match r.below(if depth > 2 { 7 } else { 16 }) {
        0 => "String".into(),
        1 => "u32".into(),
        2 => "bool".into(),
        3 | 4 if !params.is_empty() => (*r.pick(params)).into(),
        3 => "f64".into(),
        4 => "&'static str".into(),
        5 => "()".into(),
        6 => "other::Thing".into(),
        7 | 8 => format!("Vec<{}>", ty(r, params, depth + 1)),
        9 | 10 => format!("Option<{}>", ty(r, params, depth + 1)),
        11 => format!("BTreeMap<String, {}>", ty(r, params, depth + 1)),
        12 => format!("[{}; {}]", ty(r, params, depth + 1), r.below(4)),
        13 => format!("({}, {})", ty(r, params, depth + 1), ty(r, params, depth + 1)),
        14 => format!("Box<{}>", ty(r, params, depth + 1)),
        _ => match params.first() {
            Some(p) => format!("PhantomData<{p}>"),
            None => "<u8 as Has>::Assoc".into(),
        },
    }
}

fn space(r: &mut Rng) -> &'static str {
    if r.chance(3, 4) { "schemars" } else { "serde" }
}

fn doc(r: &mut Rng) -> String {
    (*r.pick(&["/// Plain words.", "/// # A title\n///\n/// and more", "/** block\n comment */", "#[doc = \"one\"]", "#[doc = concat!(\"a\", \"b\")]", "#[doc(hidden)]", "/// `code` é \\ \"q\""])).into()
}

/// attributes any place may carry
fn common(r: &mut Rng) -> String {
    match r.below(9) {
        0 => doc(r),
        1 => format!("#[schemars(title = \"T{}\")]", r.below(3)),
        2 => format!("#[schemars(description = \"D{}\")]", r.below(3)),
        3 => "#[deprecated]".into(),
        4 => format!("#[schemars(example = ex{}(), example = [1, 2])]", r.below(3)),
        5 => format!("#[schemars(extend(\"x-b\" = {}, \"x-a\" = {{\"k\": [null]}}))]", r.below(9)),
        6 => "#[schemars(transform = tweak)]".into(),
        7 => "#[schemars(title = concat!(\"a\", 'b'))]".into(),
        _ => doc(r),
    }
}

/// mistakes any place may carry
fn mistake(r: &mut Rng) -> String {
    (*r.pick(&[
        "#[schemars(title = \"one\", title = \"two\")]",
        "#[schemars(nonsense)]",
        "#[schemars(nonsense = 1, more_nonsense, even::more)]",
        "#[schemars(title)]",
        "#[schemars(inline = true)]",
        "#[schemars(example = \"a::path\")]",
        "#[schemars(transform = \"tweak\")]",
        "#[schemars(extend(\"k\" = 1, \"k\" = 2))]",
        "#[schemars(extend(\"k\" = ))]",
        "#[schemars(extend(7 = 8))]",
        "#[schemars(with = \"Vec<\")]",
        "#[schemars(with = \"u8\", schema_with = \"f\")]",
        "#[schemars(!rename)]",
        "#[schemars(!rename, !rename)]",
        "#[schemars(rename = \"x\", !rename)]",
        "#[schemars(!tag, !content, !skip, !default)]",
        "#[schemars = \"x\"]",
        "#[schemars]",
        "#[schemars()]",
        "#[schemars(,)]",
        "#[schemars(rename = 5)]",
        "#[schemars(rename(serialize = \"a\", deserialize = \"b\"), bound = \"T Clone\")]",
        "#[schemars(range(min = 1, min = 2, equal = 3, nope = 4))]",
        "#[schemars(length(min = 1, equal = 3), regex(pattern = \"a\"), pattern(\"b\"), contains(pattern = \"c\"))]",
        "#[schemars(regex(path = X))]",
        "#[validate(regex(pattern = \"x\"), length)]",
        "#[schemars(email, url, email)]",
        "#[garde(inner(nope), pattern)]",
        "#[schemars(default = \"1 +\", skip_serializing_if = \"\")]",
        "#[serde(rename = )]",
        "#[serde(flatten = 3, tag = 4, default = 5)]",
        "#[schemars(crate = \"a b\", crate = \"c\")]",
        "#[schemars(rename_all = \"sPoNgE\")]",
        "#[doc = 5]",
    ]))
    .into()
}

fn field_attr(r: &mut Rng) -> String {
    let s = space(r);
    match r.below(26) {
        0 => format!("#[{s}(rename = \"n{}\")]", r.below(4)),
        1 => format!("#[{s}(rename(serialize = \"s\", deserialize = \"d\"))]"),
        2 => format!("#[{s}(skip)]"),
        3 => format!("#[{s}(skip_serializing)]"),
        4 => format!("#[{s}(skip_deserializing)]"),
        5 => format!("#[{s}(skip_serializing_if = \"is_none\")]"),
        6 => format!("#[{s}(default)]"),
        7 => format!("#[{s}(default = \"make\")]"),
        8 => format!("#[{s}(flatten)]"),
        9 => format!("#[{s}(with = \"u{}\")]", [8, 16, 32][r.below(3)]),
        10 => format!("#[schemars(schema_with = \"schemas::f{}\")]", r.below(3)),
        11 => "#[serde(serialize_with = \"ser\", deserialize_with = \"de\")]".into(),
        12 => "#[schemars(length(min = 1, max = MAX))]".into(),
        13 => "#[validate(length(equal = 3), range(min = -1., max = 2))]".into(),
        14 => "#[garde(range(min = 0), length(max = 10))]".into(),
        15 => "#[schemars(regex(pattern = r\"^a+$\"))]".into(),
        16 => "#[garde(pattern(\"x\"))]".into(),
        17 => "#[schemars(email)]".into(),
        18 => "#[schemars(required, inner(length(min = 1), url))]".into(),
        19 => "#[validate(contains = \"x\", required)]".into(),
        20 => "#[schemars(bound = \"T: Copy, U: Sized\")]".into(),
        21 => "#[serde(alias = \"old\", borrow)]".into(),
        22 => "#[schemars(!skip)]\n#[serde(skip)]".into(),
        23 => "#[schemars(rename = \"mine\", default)]\n#[serde(rename = \"theirs\", skip_serializing, default = \"no\", flatten)]".into(),
        _ => common(r),
    }
}

fn variant_attr(r: &mut Rng) -> String {
    let s = space(r);
    match r.below(11) {
        0 => format!("#[{s}(rename = \"v{}\")]", r.below(4)),
        1 => format!("#[{s}(skip)]"),
        2 => format!("#[{s}(skip_deserializing)]"),
        3 => format!("#[{s}(rename_all = \"{}\")]", r.pick(&CASES)),
        4 => format!("#[{s}(untagged)]"),
        5 => "#[serde(other)]".into(),
        6 => format!("#[{s}(with = \"W\")]"),
        7 => "#[schemars(schema_with = \"g\")]".into(),
        8 => "#[serde(alias = \"a\", alias = \"b\")]".into(),
        _ => common(r),
    }
}

fn container_attr(r: &mut Rng, params: &[&str], consts: &[&str], is_enum: bool) -> String {
    let s = space(r);
    match r.below(24) {
        0 => format!("#[{s}(rename = \"Name{}\")]", r.below(3)),
        1 | 2 => {
            let mut all: Vec<&str> = params.iter().chain(consts).copied().collect();
            r.shuffle(&mut all);
            let shown: String = all.iter().map(|p| format!("_{{{p}}}")).collect();
            format!("#[schemars(rename = \"N{shown}{}\")]", *r.pick(&["", "", "", "{{}}", "{Q}", "}", "{", "{Q}{R}{"]))
        }
        3 => format!("#[{s}(rename_all = \"{}\")]", r.pick(&CASES)),
        4 => format!("#[{s}(rename_all_fields = \"{}\")]", r.pick(&CASES)),
        5 | 6 if is_enum => format!("#[{s}(tag = \"t{}\")]", r.below(2)),
        7 | 8 if is_enum => format!("#[{s}(tag = \"t\", content = \"c\")]"),
        9 if is_enum => format!("#[{s}(untagged)]"),
        5 => format!("#[{s}(tag = \"type\")]"),
        10 => format!("#[{s}(deny_unknown_fields)]"),
        11 | 6 => format!("#[{s}(default)]"),
        12 if !is_enum => format!("#[{s}(transparent)]"),
        13 => "#[schemars(inline)]".into(),
        14 => "#[schemars(crate = \"my::schemars\")]".into(),
        15 => "#[schemars(bound = \"T: Default\")]".into(),
        16 => "#[serde(remote = \"other::A\")]".into(),
        17 => format!("#[{s}(from = \"u8\", into = \"u16\")]"),
        18 => format!("#[{s}(try_from = \"String\")]"),
        19 => "#[schemars(_unstable_ref_variants)]".into(),
        20 => "#[schemars(with = \"X\")]".into(),
        21 => "#[schemars(schema_with = \"h\")]".into(),
        22 => "#[schemars(!tag)]\n#[serde(tag = \"gone\", content = \"gone2\", rename_all = \"camelCase\")]".into(),
        _ => common(r),
    }
}

fn attrs(r: &mut Rng, bad: bool, max: usize, mut f: impl FnMut(&mut Rng) -> String) -> Vec<String> {
    let n = if max == 0 || r.chance(1, 3) { 0 } else { r.range(0, max) };
    let mut v: Vec<String> = (0..n).map(|_| f(r)).collect();
    while bad && r.chance(1, 5) {
        let at = r.below(v.len() + 1);
        let m = mistake(r);
        v.insert(at, m);
    }
    v
}

fn fields(r: &mut Rng, shape: u8, params: &[&str], bad: bool, big: bool) -> Vec<Member> {
    if shape > 1 {
        return Vec::new();
    }
    let n = if big { r.range(10, 30) } else { r.range(0, 4) };
    (0..n)
        .map(|i| {
            let t = ty(r, params, 0);
            Member {
                attrs: attrs(r, bad, 2, field_attr),
                head: if shape == 0 {
                    let base = *r.pick(&FIELDS);
                    let vis = *r.pick(&["", "pub ", "pub(crate) "]);
                    if big || r.chance(1, 4) { format!("{vis}{}_{i}: ", base.trim_start_matches("r#")) } else { format!("{vis}{base}: ") }
                } else {
                    String::new()
                },
                fields: Vec::new(),
                tail: t,
                shape: 9,
            }
        })
        .collect()
}

pub fn item(r: &mut Rng) -> Item {
    let bad = r.chance(1, 3);
    let repr = r.chance(1, 8);
    let kind = if repr && r.chance(9, 10) { 1 } else { r.below(20) };
    let is_enum = kind % 2 == 1 && kind < 18;
    let is_union = kind == 19;
    let mut params: Vec<&str> = Vec::new();
    let mut consts: Vec<&str> = Vec::new();
    let mut g = String::new();
    let mut wher = String::new();
    if r.chance(1, 2) && !repr {
        let mut all = vec!["T", "U", "V", "Key", "B", "Zed"];
        r.shuffle(&mut all);
        all.truncate(r.range(0, 5));
        let mut cs = vec!["N", "M", "LEN", "C"];
        r.shuffle(&mut cs);
        cs.truncate(r.below(4));
        let mut parts: Vec<String> = Vec::new();
        if r.chance(1, 4) {
            parts.push("'a".into());
        }
        for p in &all {
            parts.push(match r.below(4) {
                0 => format!("{p}: Clone"),
                1 => format!("{p}: ?Sized + Has<Assoc = u8>"),
                2 if r.chance(1, 2) => format!("{p} = u8"),
                _ => (*p).to_owned(),
            });
        }
        for c in &cs {
            parts.push(format!("const {c}: {}", r.pick(&["usize", "bool", "char"])));
        }
        if !parts.is_empty() {
            g = format!("<{}>", parts.join(", "));
        }
        if let Some(p) = all.first().filter(|_| r.chance(1, 3)) {
            wher = format!("where {p}: Debug, Vec<{p}>: Sized ");
        }
        params = all;
        consts = cs;
    }
    let big = r.chance(1, 25);
    let shape = if is_union { 0 } else { *r.pick(&[0, 0, 0, 1, 1, 2]) };
    let mut at = attrs(r, bad, 3, |r| container_attr(r, &params, &consts, is_enum));
    if repr && r.chance(9, 10) {
        at.push("#[repr(u8)]".into());
    }
    let members = if is_enum {
        let n = if big { 30 } else { r.range(0, 5) };
        (0..n)
            .map(|i| {
                let shape = if repr && r.chance(19, 20) { 9 } else { *r.pick(&[0, 0, 1, 1, 1, 9]) };
                Member {
                    attrs: attrs(r, bad, 2, variant_attr),
                    head: if big || r.chance(3, 4) { format!("{}{i}", r.pick(&VARIANTS)) } else { (*r.pick(&VARIANTS)).into() },
                    fields: fields(r, shape, &params, bad, false),
                    tail: if repr && r.chance(1, 3) { format!(" = {}", r.below(200)) } else { String::new() },
                    shape,
                }
            })
            .collect()
    } else {
        fields(r, shape, &params, bad, big)
    };
    Item {
        repr,
        attrs: at,
        keyword: if is_enum { "enum" } else if is_union { "union" } else { "struct" }.into(),
        name: (*r.pick(&NAMES)).into(),
        generics: g,
        wher,
        shape,
        members,
    }
}
