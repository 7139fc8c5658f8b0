//! Known findings: genuine defects that are recorded, not repaired. Each has a scenario of its own
//! which shows whether the defect is still there; the searches stay away from exactly that input.
use schemars::JsonSchema;
use std::path::Path;

/// F5: two derived types of one module that are given the same name by attribute.
#[allow(dead_code)]
mod same_module {
    use super::JsonSchema;

    #[derive(JsonSchema)]
    #[schemars(rename = "Shared")]
    pub struct First {
        pub one: u8,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "Shared")]
    pub struct Second {
        pub two: String,
    }
}

fn same_module_rename() -> Option<String> {
    let mut g = schemars::SchemaGenerator::default();
    let a = g.subschema_for::<same_module::First>();
    let b = g.subschema_for::<same_module::Second>();
    (a == b).then(|| "two derived types of the same module with the same rename attribute share one definition".to_owned())
}

/// `(property, scenario, check)`
type Scenario = (&'static str, &'static str, fn() -> Option<String>);
const SCENARIOS: [Scenario; 1] = [("C02", "same-module-rename", same_module_rename)];

/// Prints what is known; returns the first scenario that fails without being listed.
pub fn report(prop: &str, file: &Path) -> Result<u64, (String, String)> {
    let text = std::fs::read_to_string(file).unwrap_or_default();
    let mut n = 0;
    for (p, name, f) in SCENARIOS {
        if p != prop {
            continue;
        }
        if let Some(what) = f() {
            let listed = text.lines().any(|l| l.starts_with(&format!("finding: property={p} scenario={name} ")));
            if !listed {
                return Err((name.to_owned(), what));
            }
            println!("KNOWN-FINDING: property={p} {name}: {what}");
            n += 1;
        }
    }
    Ok(n)
}
