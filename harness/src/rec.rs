//! Operations and behaviours as printed by TLC.

use serde_json::Value;

pub const INF: i64 = 1_000_000_000;

#[derive(Clone, Debug)]
pub struct Op {
    pub o: String,
    pub a: Vec<i64>,
    pub r: Vec<i64>,
    /// allowed capacities, and the one the model chose
    pub k: (i64, i64),
    pub km: i64,
    /// the same for the values of a surjection arena
    pub k2: (i64, i64),
    pub km2: i64,
    pub g: (i64, i64),
}

pub fn ints(v: &Value) -> Vec<i64> {
    match v {
        Value::Array(a) => a.iter().map(|x| x.as_i64().expect("int")).collect(),
        Value::Null => vec![],
        _ => panic!("not an array of integers: {v}"),
    }
}

/// array of arrays of integers
pub fn rows(v: &Value) -> Vec<Vec<i64>> {
    match v {
        Value::Array(a) => a.iter().map(ints).collect(),
        Value::Null => vec![],
        _ => panic!("not an array: {v}"),
    }
}

fn pair(v: &Value) -> (i64, i64) {
    let x = ints(v);
    if x.is_empty() {
        (-INF, INF)
    } else {
        (x[0], x[1])
    }
}

impl Op {
    pub fn from(v: &Value) -> Op {
        Op {
            o: v["o"].as_str().expect("op name").to_string(),
            a: ints(&v["a"]),
            r: ints(&v["r"]),
            k: pair(&v["k"]),
            km: ints(&v["k"]).get(2).copied().unwrap_or(-1),
            k2: {
                let k = ints(&v["k"]);
                if k.len() >= 6 { (k[3], k[4]) } else { (-INF, INF) }
            },
            km2: ints(&v["k"]).get(5).copied().unwrap_or(-1),
            g: pair(&v["g"]),
        }
    }
}

pub struct Line {
    pub h: Vec<Op>,
    pub s: Value,
}

impl Line {
    pub fn parse(text: &str) -> Line {
        let v: Value = serde_json::from_str(text).expect("behaviour line");
        Line {
            h: v["h"].as_array().expect("h").iter().map(Op::from).collect(),
            s: v["s"].clone(),
        }
    }
}
