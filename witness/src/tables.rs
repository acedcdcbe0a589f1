//! The documented tables, from /verif/spec/tables.json.
pub struct Row { pub set: String, pub key: String, pub from: String, pub to: String }
pub fn rows() -> Vec<Row> {
    let v: serde_json::Value = serde_json::from_str(include_str!("../../spec/tables.json")).unwrap();
    let s = |v: &serde_json::Value| v.as_str().unwrap().to_string();
    v.as_array().unwrap().iter().map(|r| Row { set: s(&r["set"]), key: s(&r["key"]), from: s(&r["from"]), to: s(&r["to"]) }).collect()
}
pub fn preset() -> Vec<(String, String)> {
    rows().into_iter().filter(|r| r.set != "cjk_compatibilities").map(|r| (r.from, r.to)).collect()
}
pub fn of(set: &str) -> Vec<(String, String)> {
    rows().into_iter().filter(|r| r.set == set).map(|r| (r.from, r.to)).collect()
}
