//! Reading ITF traces.
use alloy_primitives::U256;
use serde_json::Value;

pub fn int(v: &Value) -> U256 {
    let s = if let Some(b) = v.get("#bigint") {
        b.as_str().unwrap().to_string()
    } else if let Some(n) = v.as_i64() {
        n.to_string()
    } else if let Some(b) = v.as_bool() {
        (b as u8).to_string()
    } else {
        panic!("not an integer: {v}")
    };
    match s.strip_prefix('-') {
        Some(p) => U256::ZERO.wrapping_sub(U256::from_str_radix(p, 10).unwrap()),
        None => U256::from_str_radix(&s, 10)
            .unwrap_or_else(|e| panic!("bad int {s}: {e}")),
    }
}

pub fn list(v: &Value) -> Vec<U256> {
    v.as_array().map(|a| a.iter().map(int).collect()).unwrap_or_else(|| {
        panic!("not a list: {v}")
    })
}

pub fn lists(v: &Value) -> Vec<Vec<U256>> {
    v.as_array().expect("list of lists").iter().map(list).collect()
}

/// Entries of a map; a tuple key becomes several integers.
pub fn map(v: &Value) -> Vec<(Vec<U256>, &Value)> {
    v["#map"]
        .as_array()
        .expect("map")
        .iter()
        .map(|e| {
            let k = &e[0];
            let key = match k.get("#tup") {
                Some(t) => t.as_array().unwrap().iter().map(int).collect(),
                None => vec![int(k)],
            };
            (key, &e[1])
        })
        .collect()
}

pub fn set(v: &Value) -> Vec<&Value> {
    v["#set"].as_array().expect("set").iter().collect()
}

/// The state variable `name`, whatever instance prefix it carries; a dotted
/// name selects a field of a record.
pub fn var<'a>(state: &'a Value, name: &str) -> &'a Value {
    let mut parts = name.split('.');
    let root = parts.next().unwrap();
    let suffix = format!("::{root}");
    for (k, v) in state.as_object().expect("state") {
        if k == root || k.ends_with(&suffix) {
            return parts.fold(v, |v, f| {
                v.get(f).unwrap_or_else(|| panic!("no field {f} in {name}"))
            });
        }
    }
    panic!("no variable {name} in trace")
}
