//! Reading ITF traces.
use num_bigint::BigInt;
use serde_json::Value;

pub fn int(v: &Value) -> BigInt {
    if let Some(b) = v.get("#bigint") {
        b.as_str().unwrap().parse().unwrap()
    } else if let Some(n) = v.as_i64() {
        n.into()
    } else if let Some(b) = v.as_bool() {
        (b as u8).into()
    } else {
        panic!("harness: not an integer: {v}")
    }
}

pub fn list(v: &Value) -> Vec<BigInt> {
    v.as_array().map(|a| a.iter().map(int).collect()).unwrap_or_else(|| panic!("harness: not a list: {v}"))
}

pub fn lists(v: &Value) -> Vec<Vec<BigInt>> {
    v.as_array().expect("harness: list of lists").iter().map(list).collect()
}

/// The state variable `name`, whatever instance prefix it carries.
pub fn var<'a>(state: &'a Value, name: &str) -> &'a Value {
    let suffix = format!("::{name}");
    for (k, v) in state.as_object().expect("harness: state") {
        if k == name || k.ends_with(&suffix) {
            return v;
        }
    }
    panic!("harness: no variable {name} in trace")
}
