use serde_json::{json, Value};

/// One input of one property's check.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Case {
    pub kind: String,
    pub text: String,
    pub strs: Vec<String>,
    pub lists: Vec<Vec<(String, String)>>,
    pub flag: bool,
}

impl Case {
    pub fn new(kind: &str) -> Case { Case { kind: kind.to_string(), ..Default::default() } }
    pub fn text(mut self, t: &str) -> Case { self.text = t.to_string(); self }
    pub fn strs(mut self, s: Vec<String>) -> Case { self.strs = s; self }
    pub fn lists(mut self, l: Vec<Vec<(String, String)>>) -> Case { self.lists = l; self }
    pub fn flag(mut self, f: bool) -> Case { self.flag = f; self }
    pub fn heavy(&self) -> bool { self.text.len() > 2000 }
    pub fn to_json(&self) -> Value {
        json!({"kind": self.kind, "text": self.text, "strs": self.strs, "flag": self.flag,
               "lists": self.lists.iter().map(|l| l.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()).collect::<Vec<_>>()})
    }
    pub fn from_json(v: &Value) -> Case {
        let s = |v: &Value| v.as_str().unwrap_or("").to_string();
        Case {
            kind: s(&v["kind"]), text: s(&v["text"]), flag: v["flag"].as_bool().unwrap_or(false),
            strs: v["strs"].as_array().map(|a| a.iter().map(s).collect()).unwrap_or_default(),
            lists: v["lists"].as_array().map(|a| a.iter().map(|l| l.as_array().unwrap().iter().map(|p| (s(&p[0]), s(&p[1]))).collect()).collect()).unwrap_or_default(),
        }
    }
    pub fn smaller(&self) -> Vec<Case> {
        let mut r = Vec::new();
        let cs: Vec<char> = self.text.chars().collect();
        let mut k = cs.len();
        while k >= 1 {
            let mut i = 0;
            while i < cs.len() {
                let j = (i + k).min(cs.len());
                let mut t: Vec<char> = cs[..i].to_vec();
                t.extend(&cs[j..]);
                r.push(Case { text: t.into_iter().collect(), ..self.clone() });
                i += k;
                if r.len() > 400 { break; }
            }
            k /= 2;
        }
        for i in 0..self.strs.len() {
            let mut c = self.clone();
            c.strs.remove(i);
            r.push(c);
        }
        for i in 0..self.lists.len() {
            let n = self.lists[i].len();
            let mut k = n;
            while k >= 1 {
                let mut j = 0;
                while j < n {
                    let mut c = self.clone();
                    c.lists[i].drain(j..(j + k).min(n));
                    r.push(c);
                    j += k;
                }
                k /= 2;
            }
        }
        r.retain(|c| c != self);
        r
    }
}
