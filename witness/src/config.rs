//! Configuration files, discovery, export and the command line programs.
use crate::case::Case;
use crate::oracle as o;
use crate::props::{corr, eq, pairs, R};
use crate::Ctx;
use chanoma::file::{modifiers_from_yaml_path, table_from_csv_path, table_from_yaml_path, to_csv_writer, to_serialized_corr};
use chanoma::file_extension::FileExtension;
use chanoma::verif_hooks::*;
use chanoma::{Chanoma, Table, TableBuilder};
use serde_yaml::Value;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};

type L = Vec<(String, String)>;

pub fn run(c: &Case, scratch: &Path) -> R {
    match c.kind.as_str() {
        "csv" => csv(c, scratch),
        "yaml" => yaml(c, scratch),
        "export" => export(c, scratch),
        "program" => program(c, scratch),
        "ext" => ext(c, scratch),
        "missing" => missing(c, scratch),
        "discover" => discover(c, scratch),
        "cli" => cli(c, scratch),
        "py" => py(c, scratch),
        _ => Err(format!("no such kind of case: {}", c.kind)),
    }
}

// ---------------------------------------------------------------------------------------------- loading
/// CSV text of records, each a list of (field, style)
fn csv_text(rows: &[L], eol: &str, last: bool) -> String {
    let mut s = String::new();
    for (i, r) in rows.iter().enumerate() {
        let f: Vec<String> = r.iter().map(|(f, style)| {
            if style == "q" || f.contains(&[',', '"', '\n', '\r'][..]) || (r.len() == 1 && f.is_empty()) { format!("\"{}\"", f.replace('"', "\"\"")) } else { f.clone() }
        }).collect();
        s.push_str(&f.join(","));
        if i + 1 < rows.len() || last { s.push_str(eol); }
    }
    s
}
fn probe(items: &L) -> String { items.iter().flat_map(|(a, b)| a.chars().chain(b.chars())).chain("zあ \n".chars()).collect() }
fn loaded<E: std::fmt::Debug>(what: &str, got: Result<Table, E>, want: &Option<L>) -> Result<(), String> {
    match (got, want) {
        (Ok(t), Some(w)) => eq(what, pairs(&t.items()), w.clone()),
        (Err(_), None) => Ok(()),
        (Ok(t), None) => Err(format!("{what}: expected an error, got {:?}", pairs(&t.items()))),
        (Err(e), Some(_)) => Err(format!("{what}: got the error {e:?}")),
    }
}
/// a builder that had items before
fn added<E: std::fmt::Debug>(what: &str, mut b: TableBuilder, r: impl FnOnce(&mut TableBuilder) -> Result<(), E>, want: &Option<L>, base: &L) -> Result<(), String> {
    match (r(&mut b), want) {
        (Ok(()), Some(w)) => eq(what, pairs(&b.build().items()), o::union(base, w)),
        (Err(_), None) => eq(&format!("{what}: after an error"), pairs(&b.build().items()), base.clone()),
        (Ok(()), None) => Err(format!("{what}: expected an error")),
        (Err(e), Some(_)) => Err(format!("{what}: got the error {e:?}")),
    }
}
fn base() -> L { vec![("q".into(), "Q".into()), ("z".into(), "あ".into())] }
fn base_builder() -> TableBuilder { let mut b = TableBuilder::new(); b.add_corr(&corr(&base())); b }

fn csv(c: &Case, scratch: &Path) -> R {
    let p = scratch.join("t.csv");
    let eol = if c.strs.iter().any(|s| s == "crlf") { "\r\n" } else { "\n" };
    let mut data = csv_text(&c.lists, eol, !c.strs.iter().any(|s| s == "open")).into_bytes();
    if c.flag { data.extend(b"x\xff,y\n"); }
    std::fs::write(&p, &data).unwrap();
    let items: L = c.lists.iter().skip(1).filter(|r| !r.is_empty()).flat_map(|r| { let to = r.last().unwrap().0.clone(); r[..r.len() - 1].iter().map(move |f| (f.0.clone(), to.clone())) }).collect();
    // a broken header is not looked at
    let want = if c.flag && !c.lists.is_empty() { None } else if c.flag { return Ok(false) } else { Some(items.clone()) };
    if c.flag && c.strs.iter().any(|s| s == "open") { return Ok(false); }
    loaded("table_from_csv_path", table_from_csv_path(&p), &want)?;
    loaded("TableBuilder::from_csv_path", TableBuilder::from_csv_path(&p).map(|b| b.build()), &want)?;
    added("TableBuilder::add_from_csv", base_builder(), |b| b.add_from_csv(&p).map(|_| ()), &want, &base())?;
    configured(&p, &want.clone().map(|w| vec![CharacterConverter::from_map(o::table_map(&[w])).into()]), &probe(&items))?;
    Ok(want.map_or(true, |w| !w.is_empty()))
}

/// the modifiers of a configuration file
fn configured(p: &Path, want: &Option<Vec<ModifierKind>>, text: &str) -> Result<(), String> {
    match (Configuration::from_path(p), Chanoma::from_config_file(p), want) {
        (Ok(k), Ok(n), Some(w)) => {
            if &k != w { return Err(format!("Configuration::from_path: got {k:?}, expected {w:?}")); }
            let mut t = text.to_string();
            for m in w { t = m.modify(&t); }
            eq("from_config_file().normalize", n.normalize(text), t)
        }
        (Err(_), Err(_), None) => Ok(()),
        (k, n, _) => Err(format!("expected {}, got {:?} from Configuration::from_path and {:?} from Chanoma::from_config_file", if want.is_some() { "a configuration" } else { "an error" }, k.map_err(|e| e.to_string()), n.map(|_| ()).map_err(|e| e.to_string()))),
    }
}

fn vstr(v: &Value) -> Option<&str> { if let Value::String(s) = v { Some(s) } else { None } }
fn vchar(v: &Value) -> Option<char> { vstr(v)?.chars().next() }
fn key<'a>(v: &'a Value, k: &str) -> Option<&'a Value> {
    match v { Value::Mapping(m) => m.iter().filter(|(a, _)| vstr(a) == Some(k)).last().map(|(_, b)| b), _ => None }
}
/// what a document says about items
fn doc_items(v: &Value) -> Option<L> {
    let mut r = vec![];
    match key(v, "items") {
        None => {}
        Some(Value::Sequence(s)) => for e in s { r.push((vstr(key(e, "from")?)?.to_string(), vstr(key(e, "to")?)?.to_string())); },
        Some(Value::Mapping(m)) => for (k, f) in m {
            let to = vstr(k)?.to_string();
            match f {
                Value::String(f) => r.push((f.clone(), to)),
                Value::Sequence(s) => for f in s { r.push((vstr(f)?.to_string(), to.clone())); },
                _ => return None,
            }
        },
        _ => return None,
    }
    Some(r)
}
fn doc_mods(v: &Value) -> Option<Vec<ModifierKind>> {
    let mut r = vec![];
    match key(v, "modifiers") {
        None => {}
        Some(Value::Mapping(m)) => for (k, v) in m {
            let null = matches!(v, Value::Null);
            r.push(match vstr(k)? {
                "character_converter" => { let mut x = HashMap::new(); if let Value::Mapping(m) = v { for (a, b) in m { x.insert(vchar(a)?, vchar(b)?); } } else { return None; } CharacterConverter::from_map(x).into() }
                "character_eliminator" => { let mut x = vec![]; if let Value::Sequence(s) = v { for a in s { x.push(vchar(a)?); } } else { return None; } CharacterEliminator::from_chars(x).into() }
                "consecutive_character_reducer" => ConsecutiveCharacterReducer::new(vchar(v)?).into(),
                "ligature_translator" => { let mut x = HashMap::new(); if let Value::Mapping(m) = v { for (a, b) in m { x.insert(vstr(a)?.to_string(), vstr(b)?.to_string()); } } else { return None; } LigatureTranslator::from_map(x).into() }
                "dotted_space_eliminator" if null => DottedSpaceEliminator::new().into(),
                "trim" if null => Trim::new().into(),
                "neologdn" if null => { thread_local! { static N: Neologdn = Neologdn::new(); } N.with(|n| n.clone()).into() }
                _ => return None,
            });
        },
        _ => return None,
    }
    Some(r)
}

/// text: the document; strs[0]: the extension
fn yaml(c: &Case, scratch: &Path) -> R {
    let e = c.strs.first().map_or("yaml", |s| s.as_str());
    let p = scratch.join(format!("t.{e}"));
    let mut data = c.text.clone().into_bytes();
    if c.flag { data.extend(b"\"\xff\"\n"); }
    std::fs::write(&p, &data).unwrap();
    let doc: Option<Value> = if c.flag { None } else { serde_yaml::from_str(&c.text).ok() };
    let items = doc.as_ref().and_then(doc_items);
    let mods = doc.as_ref().and_then(doc_mods);
    loaded("table_from_yaml_path", table_from_yaml_path(&p), &items)?;
    loaded("TableBuilder::from_yaml_path", TableBuilder::from_yaml_path(&p).map(|b| b.build()), &items)?;
    added("TableBuilder::add_from_yaml", base_builder(), |b| b.add_from_yaml(&p).map(|_| ()), &items, &base())?;
    match (modifiers_from_yaml_path(&p), &mods) {
        (Ok(g), Some(w)) if &g == w => {}
        (Err(_), None) => {}
        (g, w) => return Err(format!("modifiers_from_yaml_path: got {g:?}, expected {w:?}")),
    }
    let want = match (&items, &mods) {
        (Some(i), Some(m)) => { let mut m = m.clone(); m.push(CharacterConverter::from_map(o::table_map(&[i.clone()])).into()); Some(m) }
        _ => None,
    };
    if e == "yaml" || e == "yml" { configured(&p, &want, &format!("{}{}", probe(&items.clone().unwrap_or_default()), "ｶﾞ ー ー aa  bb ~ カ゛ハ゜"))?; }
    Ok(items.map_or(false, |i| !i.is_empty()) || mods.map_or(false, |m| !m.is_empty()))
}

/// paths that cannot be read
fn missing(c: &Case, scratch: &Path) -> R {
    let p = scratch.join(&c.text);
    let none = None;
    loaded("table_from_csv_path", table_from_csv_path(&p), &none)?;
    loaded("table_from_yaml_path", table_from_yaml_path(&p), &none)?;
    if modifiers_from_yaml_path(&p).is_ok() { return Err("modifiers_from_yaml_path: expected an error".into()); }
    loaded("TableBuilder::from_csv_path", TableBuilder::from_csv_path(&p).map(|b| b.build()), &none)?;
    loaded("TableBuilder::from_yaml_path", TableBuilder::from_yaml_path(&p).map(|b| b.build()), &none)?;
    added("TableBuilder::add_from_csv", base_builder(), |b| b.add_from_csv(&p).map(|_| ()), &none, &base())?;
    added("TableBuilder::add_from_yaml", base_builder(), |b| b.add_from_yaml(&p).map(|_| ()), &none, &base())?;
    configured(&p, &None, "a")?;
    Ok(true)
}

// ---------------------------------------------------------------------------------------------- export
/// a CSV reader of its own
pub fn parse_csv(s: &str) -> Vec<Vec<String>> {
    let mut rows = vec![];
    let mut row: Vec<String> = vec![];
    let mut f = String::new();
    let mut it = s.chars().peekable();
    let mut quoted = false;
    let mut any = false;
    while let Some(c) = it.next() {
        if quoted {
            if c == '"' { if it.peek() == Some(&'"') { it.next(); f.push('"'); } else { quoted = false; } } else { f.push(c); }
            continue;
        }
        match c {
            '"' if f.is_empty() => { quoted = true; any = true; }
            ',' => { row.push(std::mem::take(&mut f)); any = true; }
            '\n' => { if any || !f.is_empty() { row.push(std::mem::take(&mut f)); rows.push(std::mem::take(&mut row)); } any = false; }
            '\r' if it.peek() == Some(&'\n') => {}
            c => f.push(c),
        }
    }
    if any || !f.is_empty() { row.push(f); rows.push(row); }
    rows
}
fn groups(items: &L) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (f, t) in items { m.entry(t.clone()).or_default().push(f.clone()); }
    m
}
fn set(l: &L) -> std::collections::BTreeSet<(String, String)> { l.iter().cloned().collect() }

fn export(c: &Case, scratch: &Path) -> R {
    let items = c.lists.first().cloned().unwrap_or_default();
    let g = groups(&items);
    let cr = corr(&items);
    let data = to_csv_writer(&cr, Vec::new()).into_inner().map_err(|e| e.to_string())?;
    let text = String::from_utf8(data).map_err(|e| e.to_string())?;
    let want: Vec<Vec<String>> = g.iter().map(|(t, f)| { let mut r = f.clone(); r.push(t.clone()); r }).collect();
    eq("records of to_csv_writer", parse_csv(&text), want)?;
    let p = scratch.join("e.csv");
    std::fs::write(&p, format!("from,to\n{text}")).unwrap();
    let back = table_from_csv_path(&p).map_err(|e| format!("the exported CSV does not load: {e}"))?;
    eq("items of the exported CSV, loaded", set(&pairs(&back.items())), set(&items))?;
    let y = serde_yaml::to_string(&to_serialized_corr(&cr)).map_err(|e| e.to_string())?;
    let v: BTreeMap<String, BTreeMap<String, Vec<String>>> = serde_yaml::from_str(&y).map_err(|e| format!("the exported YAML is none: {e}"))?;
    eq("keys of the exported YAML", v.keys().cloned().collect::<Vec<_>>(), vec!["items".to_string()])?;
    eq("the exported YAML", v["items"].clone(), g)?;
    let p = scratch.join("e.yaml");
    std::fs::write(&p, &y).unwrap();
    let back = table_from_yaml_path(&p).map_err(|e| format!("the exported YAML does not load: {e}"))?;
    eq("items of the exported YAML, loaded", set(&pairs(&back.items())), set(&items))?;
    Ok(!items.is_empty())
}

fn cli_dir() -> PathBuf { crate::CLI.get().expect("--cli").clone() }
/// the program that prints the preset
fn program(c: &Case, scratch: &Path) -> R {
    let mut cmd = std::process::Command::new(cli_dir().join("output"));
    if c.text != "default" { cmd.args(["--format", &c.text]); }
    let r = cmd.output().map_err(|e| format!("cannot run output: {e}"))?;
    if !r.status.success() { return Err(format!("output ended with {:?}", r.status)); }
    let text = String::from_utf8(r.stdout).map_err(|e| e.to_string())?;
    let want = set(&crate::tables::preset());
    if c.text == "yaml" {
        let p = scratch.join("o.yaml");
        std::fs::write(&p, &text).unwrap();
        eq("the printed YAML, loaded", set(&pairs(&table_from_yaml_path(&p).map_err(|e| e.to_string())?.items())), want)?;
    } else {
        let p = scratch.join("o.csv");
        std::fs::write(&p, &text).unwrap();
        eq("the printed CSV, loaded", set(&pairs(&table_from_csv_path(&p).map_err(|e| e.to_string())?.items())), want.clone())?;
        let rows: L = parse_csv(&text).into_iter().skip(1).flat_map(|r| { let t = r.last().unwrap().clone(); r[..r.len() - 1].iter().map(move |f| (f.clone(), t.clone())).collect::<L>() }).collect();
        eq("the printed CSV", set(&rows), want)?;
    }
    Ok(true)
}

// ---------------------------------------------------------------------------------------------- kinds of files
fn ext(c: &Case, scratch: &Path) -> R {
    use std::os::unix::ffi::{OsStrExt, OsStringExt};
    if c.strs.first().map_or(false, |s| s == "bytes") {
        // an extension that is no valid text
        let mut b = c.text.clone().into_bytes();
        b.push(0xff);
        let p = PathBuf::from(std::ffi::OsString::from_vec(b.clone()));
        if Path::new(std::ffi::OsStr::from_bytes(&b)).extension().map_or(true, |e| e.to_str().is_some()) { return Ok(false); }
        eq("from_path of an extension that is no text", FileExtension::from_path(&p).ok(), None)?;
        let f = scratch.join("ext").join(&p);
        std::fs::create_dir_all(scratch.join("ext")).unwrap();
        if std::fs::write(&f, "from,to\na,A\n").is_ok() {
            eq("from_config_file of an extension that is no text", chanoma::Chanoma::from_config_file(&f).is_ok(), false)?;
            std::fs::remove_file(&f).unwrap();
        }
        return Ok(true);
    }
    let p = Path::new(&c.text);
    if c.flag && !c.text.contains('/') && !c.text.contains('\0') && !["", ".", ".."].contains(&c.text.as_str()) {
        // the same content is a table as CSV and nothing as YAML
        std::fs::create_dir_all(scratch.join("ext")).unwrap();
        let f = scratch.join("ext").join(p);
        if std::fs::write(&f, "from,to\na,A\n").is_ok() {
            let want = match p.extension().and_then(|e| e.to_str()) { Some("csv") => Some("A b"), Some("yaml") | Some("yml") => Some("a b"), _ => None };
            let got = chanoma::Chanoma::from_config_file(&f).ok().map(|n| n.normalize("a b"));
            std::fs::remove_file(&f).unwrap();
            eq("what from_config_file makes of it", got, want.map(String::from))?;
        }
    }
    let want = match p.extension().and_then(|e| e.to_str()) { Some("csv") => Some(FileExtension::Csv), Some("yaml") | Some("yml") => Some(FileExtension::Yaml), _ => None };
    let same = want.is_some();
    eq("from_path(&str)", FileExtension::from_path(c.text.as_str()).ok(), match &want { Some(FileExtension::Csv) => Some(FileExtension::Csv), Some(FileExtension::Yaml) => Some(FileExtension::Yaml), None => None })?;
    eq("from_path(PathBuf)", FileExtension::from_path(p.to_path_buf()).ok(), want)?;
    Ok(same)
}

// ---------------------------------------------------------------------------------------------- discovery
/// the content of configuration file number n and what it configures
fn good(ext: &str, n: usize) -> (String, Vec<ModifierKind>) {
    let a = (b'a' + (n % 20) as u8) as char;
    let b = (b'a' + (n % 20) as u8 + 1) as char;
    let items = (String::from(a), String::from(b));
    if ext == "csv" {
        (format!("from,to\n{a},{b}\n"), vec![CharacterConverter::from_map(o::table_map(&[vec![items]])).into()])
    } else if n % 3 == 0 {
        (format!("items:\n  - from: \"{a}\"\n    to: \"{b}\"\n"), vec![CharacterConverter::from_map(o::table_map(&[vec![items]])).into()])
    } else {
        (format!("modifiers:\n  trim:\n  consecutive_character_reducer: \"{a}\"\nitems:\n  \"{b}\": [\"{a}\"]\n"),
         vec![Trim::new().into(), ConsecutiveCharacterReducer::new(a).into(), CharacterConverter::from_map(o::table_map(&[vec![items]])).into()])
    }
}
const DIRS: [&str; 3] = ["home/.config/chanoma", "home", "cwd"];
const NAMES: [&str; 6] = ["chanomarc.csv", "chanomarc.yaml", "chanomarc.yml", ".chanomarc.csv", ".chanomarc.yaml", ".chanomarc.yml"];

/// Lay out a tree of files, given by entries "path=content", where content is a number, `bad`, `dir`, `link`, `dangling` or `other`.
/// Returns what every path holds.
fn lay(root: &Path, entries: &[String]) -> BTreeMap<PathBuf, Result<Vec<ModifierKind>, ()>> {
    std::fs::remove_dir_all(root).ok();
    for d in DIRS { std::fs::create_dir_all(root.join(d)).unwrap(); }
    std::fs::create_dir_all(root.join("else")).unwrap();
    let mut m = BTreeMap::new();
    for (i, e) in entries.iter().enumerate() {
        let Some((path, what)) = e.split_once('=') else { continue };
        if path == "env" || path == "cwd" { continue; }
        let p = root.join(path);
        let ext = p.extension().and_then(|e| e.to_str()).unwrap_or("").to_string();
        if let Some(d) = p.parent() { std::fs::create_dir_all(d).ok(); }
        if p.symlink_metadata().is_ok() { continue; }
        match what {
            "dir" => { std::fs::create_dir_all(&p).unwrap(); }
            "bad" => { std::fs::write(&p, if ext == "csv" { &b"from,to\na,\xff\n"[..] } else { &b"items: [\n"[..] }).unwrap(); m.insert(p, Err(())); }
            "link" => { let (t, k) = good(&ext, i); let q = root.join(format!("else/{i}")); std::fs::write(&q, t).unwrap(); std::os::unix::fs::symlink(&q, &p).unwrap(); m.insert(p, Ok(k)); }
            "dangling" => { std::os::unix::fs::symlink(root.join("else/none"), &p).unwrap(); }
            "empty" => { std::fs::write(&p, if ext == "csv" { "from,to\n" } else { "items: []\n" }).unwrap(); m.insert(p, Ok(vec![CharacterConverter::from_map(HashMap::new()).into()])); }
            _ => { let (t, k) = good(&ext, what.parse().unwrap_or(0)); std::fs::write(&p, t).unwrap(); m.insert(p, Ok(k)); }
        }
    }
    m
}
/// (CHANOMARC, current directory, what should be configured)
fn expected(root: &Path, entries: &[String]) -> (Option<String>, PathBuf, Option<Vec<ModifierKind>>) {
    let files = lay(root, entries);
    let val = |k: &str| entries.iter().filter_map(|e| e.split_once('=')).filter(|(a, _)| *a == k).last().map(|(_, b)| b.to_string());
    let cwd = root.join(val("cwd").unwrap_or("cwd".into()));
    std::fs::create_dir_all(&cwd).ok();
    let cwd = std::fs::canonicalize(&cwd).unwrap_or(cwd);
    let env = val("env").map(|e| if let Some(e) = e.strip_prefix('@') { root.join(e).to_str().unwrap().to_string() } else { e });
    let one = |p: &Path| -> Option<Vec<ModifierKind>> {
        let q = if p.is_absolute() { p.to_path_buf() } else { cwd.join(p) };
        let known = matches!(q.extension().and_then(|e| e.to_str()), Some("csv") | Some("yaml") | Some("yml"));
        if !known { return None; }
        files.iter().find(|(f, _)| **f == q || std::fs::canonicalize(f).ok().map_or(false, |a| std::fs::canonicalize(&q).ok() == Some(a)) && f.file_name() == q.file_name()).and_then(|(_, k)| k.clone().ok())
    };
    let want = match &env {
        Some(e) => one(Path::new(e)),
        None => {
            let mut r = Some(vec![]);
            for d in [root.join(DIRS[0]), root.join(DIRS[1]), cwd.clone()] {
                for n in NAMES {
                    let p = d.join(n);
                    if p.is_file() { r = match (r, one(&p)) { (Some(mut r), Some(k)) => { r.extend(k); Some(r) } _ => None }; }
                }
            }
            r
        }
    };
    (env, cwd, want)
}
fn root_of(scratch: &Path) -> PathBuf { std::fs::canonicalize(scratch).unwrap().join("d") }

fn discover(c: &Case, scratch: &Path) -> R {
    let root = root_of(scratch);
    let (env, cwd, want) = expected(&root, &c.strs);
    let back = std::env::current_dir().ok();
    std::env::set_var("HOME", root.join("home"));
    match &env { Some(e) => std::env::set_var("CHANOMARC", e), None => std::env::remove_var("CHANOMARC") }
    std::env::set_current_dir(&cwd).unwrap();
    if c.flag { log::set_max_level(log::LevelFilter::Trace); }
    let r = std::panic::catch_unwind(|| (Configuration.load(), Chanoma::load_rc()));
    log::set_max_level(log::LevelFilter::Off);
    std::env::remove_var("CHANOMARC");
    std::env::set_current_dir(back.unwrap_or(scratch.to_path_buf())).ok();
    let (k, n) = match r { Ok(x) => x, Err(_) => return Err(format!("load panicked at {}", crate::PANIC_AT.lock().map(|g| g.clone()).unwrap_or_default())) };
    let text = format!(" {} aabbccddee ", c.text);
    match (k, n, &want) {
        (Ok(k), Ok(n), Some(w)) => {
            if &k != w { return Err(format!("Configuration::load: got {k:?}, expected {w:?}")); }
            let mut t = text.clone();
            for m in w { t = m.modify(&t); }
            eq("load_rc().normalize", n.normalize(&text), t)?;
            Ok(!w.is_empty())
        }
        (Err(_), Err(_), None) => Ok(true),
        (k, n, _) => Err(format!("expected {}, got {:?} from Configuration::load and {:?} from load_rc", if want.is_some() { "a configuration" } else { "an error" }, k.map_err(|e| e.to_string()), n.map(|_| ()).map_err(|e| e.to_string()))),
    }
}

// ---------------------------------------------------------------------------------------------- command line
/// strs: the tree as in `discover`, and "arg=-p" / "arg=-n" / ...; text: the input, as an argument or (flag) on standard input
fn cli(c: &Case, scratch: &Path) -> R {
    let root = root_of(scratch);
    let files: Vec<String> = c.strs.iter().filter(|s| !s.starts_with("arg=")).cloned().collect();
    let args: Vec<&str> = c.strs.iter().filter_map(|s| s.strip_prefix("arg=")).collect();
    if !c.flag && c.text.contains('\0') { return Ok(false); }
    let (env, cwd, want) = expected(&root, &files);
    let mut cmd = std::process::Command::new(cli_dir().join("chanoma"));
    cmd.env("HOME", root.join("home")).env_remove("CHANOMARC").env_remove("RUST_LOG").env_remove("RUST_BACKTRACE").current_dir(&cwd);
    if let Some(e) = &env { cmd.env("CHANOMARC", e); }
    cmd.args(&args);
    if !c.flag { cmd.arg("--").arg(&c.text); }
    cmd.stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
    let mut ch = cmd.spawn().map_err(|e| format!("cannot run chanoma: {e}"))?;
    { use std::io::Write; let mut i = ch.stdin.take().unwrap(); i.write_all(if c.flag { c.text.as_bytes() } else { "STDIN ａ\nｂ\n".as_bytes() }).ok(); }
    let r = ch.wait_with_output().map_err(|e| e.to_string())?;
    let out = String::from_utf8_lossy(&r.stdout).to_string();
    match want {
        None => {
            if r.status.success() || !out.is_empty() { return Err(format!("the configuration cannot be loaded, but chanoma ended with {:?} and printed {out:?}", r.status.code())); }
            Ok(true)
        }
        Some(w) => {
            let input = if c.flag { c.text.split('\n').next().unwrap_or("").to_string() } else { c.text.clone() };
            let mut t = input.clone();
            for m in &w { t = m.modify(&t); }
            thread_local! { static M: (HashMap<char, char>, HashMap<char, char>, BTreeMap<String, String>) = (o::table_map(&[crate::tables::preset()]), o::neologdn_map(), o::neologdn_kana()); }
            M.with(|(p, m, k)| {
                if args.iter().any(|a| ["-p", "--preset", "-pn", "-np", "-dp"].contains(a)) { t = o::convert(p, &t); }
                if args.iter().any(|a| ["-n", "--neologdn", "-pn", "-np"].contains(a)) { t = o::neologdn(m, k, &t); }
            });
            if !r.status.success() { return Err(format!("chanoma ended with {:?}: {}", r.status.code(), String::from_utf8_lossy(&r.stderr))); }
            let changed = t != input;
            eq("what chanoma prints", out, format!("{t}\n"))?;
            Ok(changed)
        }
    }
}

// ---------------------------------------------------------------------------------------------- Python module
struct Py { child: std::process::Child, out: std::io::BufReader<std::process::ChildStdout> }
static PY: std::sync::Mutex<Option<Py>> = std::sync::Mutex::new(None);
fn ask(v: &serde_json::Value) -> Result<serde_json::Value, String> {
    use std::io::{BufRead, Write};
    let mut g = PY.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        let d = crate::PYDIR.get().expect("--py");
        let mut child = std::process::Command::new(d.join("python")).arg(d.join("driver.py")).arg(d)
            .stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().map_err(|e| format!("cannot run Python: {e}"))?;
        let out = std::io::BufReader::new(child.stdout.take().unwrap());
        *g = Some(Py { child, out });
    }
    let p = g.as_mut().unwrap();
    let mut l = String::new();
    let sent = writeln!(p.child.stdin.as_mut().unwrap(), "{v}");
    let got = p.out.read_line(&mut l);
    if sent.is_err() || got.is_err() || !l.ends_with('\n') {
        let st = p.child.wait();
        *g = None;
        return Err(format!("the Python process ended: {st:?}"));
    }
    serde_json::from_str(&l).map_err(|e| e.to_string())
}
/// strs: a tree as in `discover`, "kw=preset|neologdn|rc|config:PATH", "tab=|preset|csv:PATH|yaml:PATH", "add=items:N|duck:N|set:NAME|bad:WHAT"; lists: the items to add
fn py(c: &Case, scratch: &Path) -> R {
    let root = root_of(scratch);
    let files: Vec<String> = c.strs.iter().filter(|s| !["kw=", "tab=", "add="].iter().any(|p| s.starts_with(p))).cloned().collect();
    let get = |p: &str| -> Vec<String> { c.strs.iter().filter_map(|s| s.strip_prefix(p)).map(|s| s.to_string()).collect() };
    let (env, cwd, rc) = expected(&root, &files);
    let laid: BTreeMap<PathBuf, Result<L, ()>> = files.iter().filter_map(|e| e.split_once('=')).filter(|(p, _)| *p != "env" && *p != "cwd").map(|(p, w)| {
        let a = match w { "bad" | "dir" | "dangling" => Err(()), "empty" => Ok(vec![]), n => { let n = n.parse::<usize>().unwrap_or(0) % 20; let (a, b) = ((b'a' + n as u8) as char, (b'a' + n as u8 + 1) as char); Ok(vec![(a.to_string(), b.to_string())]) } };
        (root.join(p), a)
    }).collect();
    let mut kw = serde_json::json!({});
    let mut config: Option<PathBuf> = None;
    for k in get("kw=") {
        if let Some(p) = k.strip_prefix("config_raw:") { kw["configfile"] = p.into(); config = Some(PathBuf::from(p)); } else if let Some(p) = k.strip_prefix("config:") { let p = root.join(p); kw["configfile"] = p.to_str().unwrap().into(); config = Some(p); } else { kw[&k] = true.into(); }
    }
    let mods: Option<Vec<ModifierKind>> = match &config {
        Some(p) => { let (fs, known) = (lay(&root, &files), matches!(p.extension().and_then(|e| e.to_str()), Some("csv") | Some("yaml") | Some("yml"))); if known { fs.get(p).and_then(|k| k.clone().ok()) } else { None } }
        None if kw["rc"] == true => rc,
        None => Some(vec![]),
    };
    let mut table = serde_json::Value::Null;
    let mut items: Option<std::collections::BTreeSet<(String, String)>> = None;
    let mut table_ok = true;
    for t in get("tab=") {
        if table.is_null() { table = serde_json::json!({}); items = Some(Default::default()); }
        if t == "preset" { table["preset"] = true.into(); items.as_mut().unwrap().extend(crate::tables::preset()); }
        if let Some((k, p)) = t.split_once(':') {
            if !table[k].is_null() { continue; }
            let p = root.join(p);
            table[k] = p.to_str().unwrap().into();
            match laid.get(&p) { Some(Ok(l)) => items.as_mut().unwrap().extend(l.clone()), _ => table_ok = false }
        }
    }
    let mut adds = vec![];
    let mut ok = vec![];
    if !table.is_null() {
        for a in get("add=") {
            let Some((k, v)) = a.split_once(':') else { continue };
            let set = items.as_mut().unwrap();
            match k {
                "items" | "duck" => { let l = c.lists.get(v.parse::<usize>().unwrap_or(0)).cloned().unwrap_or_default(); adds.push(serde_json::json!([k, l])); set.extend(l); ok.push(true); }
                "set" => {
                    let l: L = match v { "Alphabets" => crate::tables::of("alphabets"), "Digits" => crate::tables::of("digits"), "Punctuations" => crate::tables::of("punctuations"), "Kanas" => crate::tables::of("kanas"), _ => crate::tables::of("cjk_compatibilities") };
                    adds.push(serde_json::json!([k, v])); set.extend(l); ok.push(true);
                }
                _ => { adds.push(serde_json::json!([k, v])); ok.push(false); }
            }
        }
    }
    let r = ask(&serde_json::json!({"home": root.join("home"), "env": env, "cwd": cwd, "kw": kw, "table": table, "adds": adds, "text": c.text}))?;
    for (k, v) in r.as_object().unwrap() { if v.as_str().map_or(false, |s| s.starts_with("panic")) { return Err(format!("{k}: {v}")); } }
    if !table.is_null() {
        if !table_ok { return if r["table"] == "OSError" { Ok(true) } else { Err(format!("Table of a bad file: got {r}, expected OSError")) }; }
        if !r["table"].is_null() { return Err(format!("Table(...) raised {}", r["table"])); }
        for (i, o) in ok.iter().enumerate() { if (r["adds"][i] == "ok") != *o { return Err(format!("Table.add {}: got {}", adds[i], r["adds"][i])); } }
    }
    let Some(mods) = mods else { return if r["new"] == "OSError" { Ok(true) } else { Err(format!("Chanoma of a bad configuration: got {r}, expected OSError")) } };
    if !r["new"].is_null() { return Err(format!("Chanoma(...) raised {}", r["new"])); }
    let mut t = c.text.clone();
    for m in &mods { t = m.modify(&t); }
    if let Some(i) = items { t = o::convert(&o::table_map(&[i.into_iter().collect()]), &t); }
    thread_local! { static M: (HashMap<char, char>, HashMap<char, char>, BTreeMap<String, String>) = (o::table_map(&[crate::tables::preset()]), o::neologdn_map(), o::neologdn_kana()); }
    M.with(|(p, m, k)| {
        if kw["preset"] == true { t = o::convert(p, &t); }
        if kw["neologdn"] == true { t = o::neologdn(m, k, &t); }
    });
    eq("what normalize returns in Python", r["text"].as_str().map(|s| s.to_string()), Some(t.clone()))?;
    eq("what normalize returns the second time", r["again"].as_str().map(|s| s.to_string()), Some(t.clone()))?;
    Ok(t != c.text)
}

// ---------------------------------------------------------------------------------------------- searches
const FIELDS: &[&str] = &["a", "A", "", " ", " a ", "a b", "\"", "a\"b", ",", "a,b", "\n", "a\nb", "\r\n", "\t", "#a", "'", ";", "=1", "\\", "\\n", "あ", "㍿", "株式会社", "😀", "か゛", "from", "to", "null", "1", "\u{3000}", "a\u{a0}", "é"];

fn fields(ctx: &mut Ctx) -> Vec<String> { FIELDS.iter().map(|s| s.to_string()).chain(ctx.strs.iter().filter(|s| !s.contains('\0')).cloned()).collect() }
fn row(f: &[&str]) -> L { f.iter().map(|s| (s.to_string(), String::new())).collect() }

fn csv_search(ctx: &mut Ctx) {
    let head = row(&["from", "to"]);
    let fs = fields(ctx);
    ctx.run(Case::new("csv"));
    for h in [row(&["from", "to"]), row(&["a", "b"]), row(&["x"]), row(&["a", "b", "c"]), row(&[""])] {
        ctx.run(Case::new("csv").lists(vec![h.clone()]));
        ctx.run(Case::new("csv").lists(vec![h.clone(), row(&["a", "A"])]));
        ctx.run(Case::new("csv").lists(vec![h.clone(), row(&["a", "A"])]).flag(true));
    }
    for n in 1..12 { let r: L = (0..n).map(|i| (format!("{}", (b'a' + i as u8) as char), String::new())).collect(); ctx.run(Case::new("csv").lists(vec![head.clone(), r.clone(), r[..(n + 1) / 2].to_vec(), row(&["é"])])); }
    for a in &fs { for b in &fs { for q in ["", "q"] {
        ctx.run(Case::new("csv").lists(vec![head.clone(), vec![(a.clone(), q.into()), (b.clone(), q.into())]]));
    } } }
    for a in &fs { for strs in [vec![], vec!["crlf".to_string()], vec!["open".into()], vec!["crlf".into(), "open".into()]] {
        ctx.run(Case::new("csv").lists(vec![head.clone(), row(&["x", "y"]), vec![(a.clone(), "".into()), ("k".into(), "".into())], vec![("k".into(), "".into()), (a.clone(), "".into())]]).strs(strs));
    } }
    for n in crate::gen::lengths(ctx) { if n > 5000 || ctx.over_now() { break; }
        let mut l = vec![head.clone()];
        l.extend((0..n).map(|i| vec![(char::from_u32(0x4e00 + i as u32).unwrap().to_string(), "".to_string()), ((if i % 2 == 0 { "x" } else { "y" }).to_string(), "".into())]));
        ctx.run(Case::new("csv").lists(l));
        let r: L = (0..n + 1).map(|i| (char::from_u32(0x4e00 + i as u32).unwrap().to_string(), "".to_string())).collect();
        if n < 600 { ctx.run(Case::new("csv").lists(vec![head.clone(), r])); }
    }
    while !ctx.over_now() {
        let n = ctx.rng.below(6);
        let mut l = vec![head.clone()];
        for _ in 0..n { let k = 1 + ctx.rng.below(4); l.push((0..k).map(|_| { let f = if ctx.rng.chance(4) { ctx.rng.text(crate::gen::SPECIAL, 3) } else { ctx.rng.pick(&fs).clone() }; (if f.contains('\0') || f.starts_with('\u{feff}') { "n".into() } else { f }, if ctx.rng.chance(3) { "q".into() } else { String::new() }) }).collect()); }
        let mut strs = vec![];
        if ctx.rng.chance(3) { strs.push("crlf".to_string()); }
        if ctx.rng.chance(3) { strs.push("open".to_string()); }
        let flag = ctx.rng.chance(12);
        ctx.run(Case::new("csv").lists(l).strs(strs).flag(flag));
        if ctx.evals > 60_000 && !ctx.thorough { break; }
    }
}

fn q(s: &str) -> String { serde_json::to_string(s).unwrap() }
/// documents, good ones and bad ones
fn documents(ctx: &mut Ctx) -> Vec<String> {
    let mut v: Vec<String> = [
        "", "---\n", "null\n", "[]\n", "{}\n", "a\n", "items:\n", "items: []\n", "items: {}\n", "items: a\n", "items: 1\n", "items: true\n", "items: ~\n", "items: [a]\n", "items: [1]\n", "items: [[a, b]]\n",
        "items: [{}]\n", "items: [{from: a}]\n", "items: [{to: a}]\n", "items: [{from: a, to: b}]\n", "items: [{to: b, from: a}]\n", "items: [{from: a, to: b, x: c}]\n", "items: [{from: 1, to: b}]\n", "items: [{from: a, to: 1}]\n",
        "items: [{from: [a], to: b}]\n", "items: [{from: a, to: ~}]\n", "items: [{from: a, to: b}, {from: c}]\n", "items: [{from: '', to: b}, {from: c, to: ''}]\n", "items: [{from: a, to: b}, {from: a, to: c}, {from: b, to: a}]\n",
        "items: {b: a}\n", "items: {b: [a, c]}\n", "items: {b: []}\n", "items: {b: 1}\n", "items: {b: ~}\n", "items: {b: {a: c}}\n", "items: {1: a}\n", "items: {b: [1]}\n", "items: {b: [a, 1]}\n", "items: {b: [[a]]}\n", "items: {z: a, y: [a, b], x: c}\n", "items: {'': a}\n",
        "items: {b: [a, true]}\n", "items: {? [b] : a}\n", "Items: {b: a}\n", "items: {b: a}\nitems: {c: a}\n", "items: {b: a}\n---\nitems: {c: a}\n", "items: &x {b: a}\nother: *x\n", "modifiers:\n", "modifiers: []\n", "modifiers: {}\n", "modifiers: trim\n", "modifiers: [trim]\n", "modifiers: 1\n",
        "modifiers: {trim: }\n", "modifiers: {trim: 1}\n", "modifiers: {trim: true}\n", "modifiers: {trim: []}\n", "modifiers: {trim: ''}\n", "modifiers: {neologdn: }\n", "modifiers: {neologdn: {}}\n", "modifiers: {dotted_space_eliminator: }\n", "modifiers: {dotted_space_eliminator: a}\n",
        "modifiers: {Trim: }\n", "modifiers: {unknown: }\n", "modifiers: {trim: , unknown: 1}\n", "modifiers: {1: }\n", "modifiers: {~: }\n", "modifiers: {[trim]: }\n",
        "modifiers: {consecutive_character_reducer: a}\n", "modifiers: {consecutive_character_reducer: ab}\n", "modifiers: {consecutive_character_reducer: ''}\n", "modifiers: {consecutive_character_reducer: 1}\n", "modifiers: {consecutive_character_reducer: [a]}\n", "modifiers: {consecutive_character_reducer: }\n", "modifiers: {consecutive_character_reducer: ' '}\n",
        "modifiers: {character_eliminator: [a, b, bc]}\n", "modifiers: {character_eliminator: []}\n", "modifiers: {character_eliminator: a}\n", "modifiers: {character_eliminator: ['']}\n", "modifiers: {character_eliminator: [a, 1]}\n", "modifiers: {character_eliminator: {a: b}}\n", "modifiers: {character_eliminator: }\n", "modifiers: {character_eliminator: [a, ~]}\n",
        "modifiers: {character_converter: {a: b, c: d}}\n", "modifiers: {character_converter: {}}\n", "modifiers: {character_converter: {ab: cd, ax: y}}\n", "modifiers: {character_converter: {'': b}}\n", "modifiers: {character_converter: {a: ''}}\n", "modifiers: {character_converter: {a: 1}}\n", "modifiers: {character_converter: {1: a}}\n", "modifiers: {character_converter: [a]}\n", "modifiers: {character_converter: a}\n", "modifiers: {character_converter: }\n", "modifiers: {character_converter: {a: }}\n", "modifiers: {character_converter: {a: [b]}}\n",
        "modifiers: {ligature_translator: {ab: c, b: cd}}\n", "modifiers: {ligature_translator: {}}\n", "modifiers: {ligature_translator: {'': b}}\n", "modifiers: {ligature_translator: {a: ''}}\n", "modifiers: {ligature_translator: {a: 1}}\n", "modifiers: {ligature_translator: {1: a}}\n", "modifiers: {ligature_translator: [a]}\n", "modifiers: {ligature_translator: a}\n", "modifiers: {ligature_translator: }\n",
        "modifiers: {trim: , neologdn: , dotted_space_eliminator: , consecutive_character_reducer: ー, character_eliminator: [〜], character_converter: {a: b}, ligature_translator: {カ゛: ガ}}\nitems: {b: [a, c], d: e}\n",
        "modifiers: {neologdn: , trim: }\nitems: [{from: a, to: b}]\n", "modifiers: {trim: }\nitems: 1\n", "modifiers: 1\nitems: {b: a}\n", "items: [\n", "items: {b: a\n", "\t\n", "a: b: c\n", "\"\\xff\"\n", "!!binary a\n", "items: !x {b: a}\n", "<<: {items: {b: a}}\n", "&a [*a]\n", "*a\n", "%YAML 1.1\n", "- items\n", "items: |\n  a\n",
    ].iter().map(|s| s.to_string()).collect();
    // every kind in every place, and a bad entry before, between and after good ones
    let kinds = ["trim: ", "neologdn: ", "dotted_space_eliminator: ", "consecutive_character_reducer: ー", "character_eliminator: [〜]", "character_converter: {a: b}", "ligature_translator: {カ゛: ガ}"];
    for r in 0..kinds.len() {
        let mut k: Vec<&str> = kinds.to_vec();
        k.rotate_left(r);
        v.push(format!("modifiers: {{{}}}\n", k.join(", ")));
        v.push(format!("modifiers: {{{}}}\n", k.iter().rev().cloned().collect::<Vec<_>>().join(", ")));
        for bad in ["unknown: ", "1: ", "Trim: ", "trim : a"] { for i in 0..=k.len() { let mut k: Vec<&str> = k.iter().cloned().filter(|x| bad != "trim : a" || *x != "trim: ").collect(); k.insert(i.min(k.len()), bad); v.push(format!("modifiers: {{{}}}\n", k.join(", "))); } }
    }
    for i in 0..8 {
        for bad in ["{from: z}", "{to: z}", "z", "{from: z, to: 1}", "~", "[]", "{}"] { let mut k: Vec<String> = (0..7).map(|j| format!("{{from: a{j}, to: b{j}}}")).collect(); k.insert(i, bad.into()); v.push(format!("items: [{}]\n", k.join(", "))); }
        for bad in ["z: 1", "1: z", "z: ~", "~: z", "z: [a, 1]", "z: {a: b}", "z: [~]"] { let mut k: Vec<String> = (0..7).map(|j| format!("b{j}: [a{j}, c{j}]")).collect(); k.insert(i, bad.into()); v.push(format!("items: {{{}}}\n", k.join(", "))); }
    }
    // every field in every place
    for f in fields(ctx) {
        let f = q(&f);
        v.push(format!("items: [{{from: {f}, to: x}}, {{from: y, to: {f}}}]\n"));
        v.push(format!("items: {{{f}: [a, b], x: {f}, y: [{f}, {f}]}}\n"));
        v.push(format!("modifiers: {{character_converter: {{{f}: x, y: {f}}}}}\n"));
        v.push(format!("modifiers: {{character_eliminator: [a, {f}]}}\n"));
        v.push(format!("modifiers: {{consecutive_character_reducer: {f}}}\n"));
        v.push(format!("modifiers: {{ligature_translator: {{{f}: x, y: {f}}}}}\n"));
        v.push(format!("modifiers: {{{f}: }}\n"));
        v.push(format!("{f}: {{b: a}}\n"));
    }
    v
}
fn any_value(ctx: &mut Ctx, d: usize) -> String {
    let f = fields(ctx);
    match ctx.rng.below(if d == 0 { 12 } else { 16 }) {
        0 => "~".into(), 1 => "1".into(), 2 => "true".into(), 3 => "1.5".into(),
        4..=11 => { let s = ctx.rng.pick(&f).clone(); q(&s) }
        12 | 13 => { let n = ctx.rng.below(4); let v: Vec<String> = (0..n).map(|_| any_value(ctx, d - 1)).collect(); format!("[{}]", v.join(", ")) }
        _ => { let n = ctx.rng.below(4); let v: Vec<String> = (0..n).map(|_| format!("{}: {}", { let s = ctx.rng.pick(&f).clone(); q(&s) }, any_value(ctx, d - 1))).collect(); format!("{{{}}}", v.join(", ")) }
    }
}
fn yaml_search(ctx: &mut Ctx, malformed: bool) {
    let docs = documents(ctx);
    for d in &docs { for e in ["yaml", "yml"] { ctx.run(Case::new("yaml").text(d).strs(vec![e.into()])); } }
    for d in &docs { ctx.run(Case::new("yaml").text(d).strs(vec!["yaml".into()]).flag(true)); }
    for n in crate::gen::lengths(ctx) { if n > 2000 || ctx.over_now() { break; }
        let c = |i: usize| char::from_u32(0x4e00 + i as u32).unwrap();
        ctx.run(Case::new("yaml").text(&format!("items: [{}]\n", (0..n).map(|i| format!("{{from: {}, to: {}}}", c(i), i % 2 == 0 || i > 9999)).map(|s| s.replace("true", "x").replace("false", "y")).collect::<Vec<_>>().join(", "))).strs(vec!["yaml".into()]));
        ctx.run(Case::new("yaml").text(&format!("items: {{{}}}\n", (0..n).map(|i| format!("{}: [a, {}]", c(n - i), c(i))).collect::<Vec<_>>().join(", "))).strs(vec!["yaml".into()]));
        ctx.run(Case::new("yaml").text(&format!("modifiers: {{character_eliminator: [{}], character_converter: {{{}}}}}\n", (0..n).map(|i| c(i).to_string()).collect::<Vec<_>>().join(", "), (0..n).map(|i| format!("{}: {}", c(i), c(i + 1))).collect::<Vec<_>>().join(", "))).strs(vec!["yaml".into()]));
        ctx.run(Case::new("yaml").text(&format!("modifiers: {{ligature_translator: {{{}}}}}\n", (0..n).map(|i| format!("{}{}: {}", c(i), c(i + 1), c(i + 2))).collect::<Vec<_>>().join(", "))).strs(vec!["yaml".into()]));
    }
    let f = fields(ctx);
    let mut k = 0;
    while !ctx.over_now() {
        k += 1;
        if k > 15_000 && !ctx.thorough { break; }
        let mut d = String::new();
        let kind = ctx.rng.below(if malformed { 12 } else { 9 });
        if kind >= 9 {
            // damage a good document
            let mut s: Vec<char> = ctx.rng.pick(&docs).chars().collect();
            for _ in 0..1 + ctx.rng.below(3) { if s.is_empty() { break; } let i = ctx.rng.below(s.len()); match ctx.rng.below(3) { 0 => { s.remove(i); } 1 => { let c = *ctx.rng.pick(&['{', '}', '[', ']', ':', ',', '"', '\'', '\n', ' ', '-', '1', '~', '&', '*', '!', '\t']); s.insert(i, c); } _ => { let j = ctx.rng.below(s.len()); s.swap(i, j); } } }
            d = s.into_iter().collect();
        } else {
            if kind % 3 != 1 {
                if ctx.rng.chance(3) { d.push_str(&format!("items: {}\n", any_value(ctx, 2))); }
                else if ctx.rng.chance(2) { d.push_str("items:\n"); for _ in 0..ctx.rng.below(5) { let (a, b) = (ctx.rng.pick(&f).clone(), ctx.rng.pick(&f).clone()); d.push_str(&format!("  - from: {}\n    to: {}\n", q(&a), q(&b))); } }
                else { d.push_str("items:\n"); for i in 0..ctx.rng.below(5) { let (a, b, c) = (ctx.rng.pick(&f).clone(), ctx.rng.pick(&f).clone(), ctx.rng.pick(&f).clone()); if i % 2 == 0 { d.push_str(&format!("  {}: {}\n", q(&a), q(&b))); } else { d.push_str(&format!("  {}:\n    - {}\n    - {}\n", q(&a), q(&b), q(&c))); } } }
            }
            if kind % 3 != 0 {
                let names = ["character_converter", "character_eliminator", "consecutive_character_reducer", "ligature_translator", "dotted_space_eliminator", "trim", "neologdn"];
                d.push_str("modifiers:\n");
                let mut left: Vec<&str> = names.to_vec();
                for _ in 0..1 + ctx.rng.below(4) {
                    let i = ctx.rng.below(left.len());
                    let n = left.remove(i);
                    if ctx.rng.chance(6) { d.push_str(&format!("  {n}: {}\n", any_value(ctx, 2))); continue; }
                    let (a, b, c) = (ctx.rng.pick(&f).clone(), ctx.rng.pick(&f).clone(), ctx.rng.pick(&f).clone());
                    match n {
                        "character_converter" | "ligature_translator" => d.push_str(&format!("  {n}:\n    {}: {}\n    {}: {}\n", q(&a), q(&b), q(&b), q(&c))),
                        "character_eliminator" => d.push_str(&format!("  {n}: [{}, {}]\n", q(&a), q(&b))),
                        "consecutive_character_reducer" => d.push_str(&format!("  {n}: {}\n", q(&a))),
                        _ => d.push_str(&format!("  {n}:\n")),
                    }
                }
            }
        }
        let e = if ctx.rng.chance(3) { "yml" } else { "yaml" };
        ctx.run(Case::new("yaml").text(&d).strs(vec![e.into()]));
    }
}

fn export_search(ctx: &mut Ctx) {
    if crate::CLI.get().is_some() { for t in ["default", "csv", "yaml", "other"] { ctx.run(Case::new("program").text(t)); } }
    ctx.run(Case::new("export").lists(vec![vec![]]));
    // what serde_yaml can print and read back
    let ok = |s: &str| -> bool { let m: BTreeMap<String, Vec<String>> = [(s.to_string(), vec![s.to_string(), "a".into()])].into(); serde_yaml::to_string(&m).ok().and_then(|t| serde_yaml::from_str::<BTreeMap<String, Vec<String>>>(&t).ok()) == Some(m) };
    let fs: Vec<String> = fields(ctx).into_iter().chain(crate::gen::SPECIAL.iter().map(|c| c.to_string())).chain(["\0", "a\0", "\0a", "a\0b", "\0\0", "あ\0"].iter().map(|s| s.to_string())).filter(|s| ok(s)).collect();
    let sp = |a: &str, b: &str| (a.to_string(), b.to_string());
    for a in &fs { for b in &fs {
        ctx.run(Case::new("export").lists(vec![vec![sp(a, b)]]));
        if a.len() + b.len() < 4 { ctx.run(Case::new("export").lists(vec![vec![sp(a, b), sp("x", b), sp(b, "t"), sp(b, a)]])); }
    } }
    for n in crate::gen::lengths(ctx) { if n > 3000 || ctx.over_now() { break; }
        let c = |i: usize| char::from_u32(0x4e00 + i as u32).unwrap().to_string();
        ctx.run(Case::new("export").lists(vec![(0..n).map(|i| (c(i), c(n - i))).collect()]));
        ctx.run(Case::new("export").lists(vec![(0..n).map(|i| (c(n - i), (if i % 3 == 0 { "x" } else { "y" }).to_string())).collect()]));
    }
    while !ctx.over_now() {
        let n = ctx.rng.below(9);
        let l: L = (0..n).map(|_| { let (a, b) = (ctx.rng.pick(&fs).clone(), ctx.rng.pick(&fs).clone()); (a, b) }).collect();
        ctx.run(Case::new("export").lists(vec![l]));
        if ctx.evals > 60_000 && !ctx.thorough { break; }
    }
}

fn ext_search(ctx: &mut Ctx) {
    let stems = ["", "a", "a.b", ".a", "chanomarc", ".chanomarc", "d.csv/a", "d/a", "/x/y.yaml/z", "a b", "あ", "..", ".", "a.", "/"];
    let mut exts: Vec<String> = ["csv", "yaml", "yml", "CSV", "Csv", "YAML", "Yml", "YML", "json", "csv ", " csv", "csvx", "xcsv", "cs", "yam", "yamll", "yym", "ym", "txt", "", "csv/", "csv.bak", "yaml~", "yml.csv", "csv.yml", "csv\n", "ｃｓｖ", "tsv", "toml", "yaml/..", "yml/."].iter().map(|s| s.to_string()).collect();
    exts.extend(ctx.strs.clone());
    for s in ["a", ".a", "chanomarc", ".chanomarc", "a.csv", "a.yaml", "あ"] { for e in &exts { ctx.run(Case::new("ext").text(&format!("{s}.{e}")).flag(true)); } ctx.run(Case::new("ext").text(s).flag(true)); }
    for s in ["a.csv", "a.yaml", "a.", "a", "a.yml", ".csv", "a.csv."] { ctx.run(Case::new("ext").text(s).strs(vec!["bytes".into()])); }
    for s in stems { for e in &exts { for d in [".", "", "..", "/."] { ctx.run(Case::new("ext").text(&format!("{s}{d}{e}"))); } } }
    crate::gen::exhaustive(&['.', 'c', 's', 'v', 'y', 'm', 'l', '/'], 5, &mut |s| { ctx.run(Case::new("ext").text(s)); !ctx.over_now() });
    for a in ["yaml", "yml", "csv"] { for i in 0..=a.len() { for c in 0u32..0x180 { if let Some(c) = char::from_u32(c) { let mut s = a.to_string(); s.insert(i, c); ctx.run(Case::new("ext").text(&format!("x.{s}"))); if i < a.len() { let mut s: Vec<char> = a.chars().collect(); s[i] = c; ctx.run(Case::new("ext").text(&format!("x.{}", s.into_iter().collect::<String>()))); } } } } }
}

fn discover_search(ctx: &mut Ctx) {
    let all: Vec<String> = DIRS.iter().flat_map(|d| NAMES.iter().map(move |n| format!("{d}/{n}"))).collect();
    let mut run = |ctx: &mut Ctx, v: Vec<String>, flag: bool| ctx.run(Case::new("discover").text("abcdefghijklmnopqrstuvwxyz").strs(v).flag(flag));
    run(ctx, vec![], false);
    let whats = ["0", "1", "dir", "bad", "link", "dangling", "empty"];
    for a in &all { for w in whats { run(ctx, vec![format!("{a}={w}")], false); } }
    for (i, a) in all.iter().enumerate() { for (j, b) in all.iter().enumerate() { if i != j {
        // each pair in both orders of the chain
        run(ctx, vec![format!("{a}=1"), format!("{b}=2")], false);
    } } }
    run(ctx, all.iter().enumerate().map(|(i, a)| format!("{a}={i}")).collect(), true);
    run(ctx, all.iter().enumerate().map(|(i, a)| format!("{a}={}", 17 - i)).collect(), true);
    // other names are none
    for d in DIRS { for n in ["chanomarc", ".chanomarc", "chanomarc.json", "chanomarc.CSV", "chanoma.csv", "chanomarc.csv.bak", "Chanomarc.yaml", "chanomarc.yaml~", "rc.yml", "..chanomarc.csv", "config.yaml", "chanomarc.tsv"] { run(ctx, vec![format!("{d}/{n}=1"), format!("{d}/.chanomarc.csv=2")], false); } }
    for d in ["home/.chanoma", "home/.config", "home/chanoma", "home/.config/chanoma/chanoma", "."] { for n in NAMES { run(ctx, vec![format!("{d}/{n}=1")], false); } }
    // CHANOMARC
    for e in ["@else/x.csv", "@else/x.yaml", "@else/x.yml", "@else/x.txt", "@else/x", "@else/none.csv", "@else/none", "", "x.csv", "./x.yaml", "../cwd/x.yml", "@else", "@else/d.csv", "@else/bad.yaml", "@else/bad.csv", "@cwd/chanomarc.csv", "@else/x.CSV", "@else/x.csv/", "@else/link.csv", "~/x.csv", "x.csv:y.csv"] {
        for other in [vec![], vec!["home/chanomarc.csv=3".to_string()], vec!["cwd/chanomarc.csv=4".to_string(), "home/.config/chanoma/.chanomarc.yaml=5".into()], vec!["home/chanomarc.csv=bad".to_string()]] {
            for flag in [false, true] {
                let mut v: Vec<String> = ["else/x.csv=1", "else/x.yaml=2", "else/x.yml=4", "else/x.txt=1", "else/x=1", "else/x.CSV=1", "else/d.csv=dir", "else/bad.yaml=bad", "else/bad.csv=bad", "cwd/x.csv=5", "cwd/x.yaml=7", "cwd/x.yml=8", "else/link.csv=link"].iter().map(|s| s.to_string()).collect();
                if e == "@else/x.csv/" { continue; }
                v.extend(other.clone());
                v.push(format!("env={e}"));
                run(ctx, v, flag);
            }
        }
    }
    // the current directory is one of the others
    for cwd in ["home", "home/.config/chanoma", "home/.config", "cwd/deep", "else"] { for a in &all { run(ctx, vec![format!("{a}=1"), "home/.chanomarc.yml=2".into(), format!("cwd={cwd}")], false); } }
    let mut k = 0;
    while !ctx.over_now() {
        k += 1;
        if k > 6000 && !ctx.thorough { break; }
        let mut v = vec![];
        for a in &all { if ctx.rng.chance(3) { let w = if ctx.rng.chance(5) { ctx.rng.pick(&whats).to_string() } else { ctx.rng.below(18).to_string() }; if w != "bad" || ctx.rng.chance(3) { v.push(format!("{a}={w}")); } } }
        if ctx.rng.chance(6) { let a = ctx.rng.pick(&all).clone(); v.push(format!("env=@{a}")); }
        if ctx.rng.chance(6) { let c = *ctx.rng.pick(&["home", "home/.config/chanoma", "else"]); v.push(format!("cwd={c}")); }
        let flag = ctx.rng.chance(2);
        run(ctx, v, flag);
    }
}

fn cli_search(ctx: &mut Ctx) {
    let inputs = ["", "a", "ｶﾞａー ーー ~ b", "  ａ  ｂ  ", "ﾊﾝｶｸｶﾅ", "-p", "--", "a\tb", "カ゛＝ a  b ", "abc", "１２３ (ab)", "a\\nb", "{}", "%s", "\u{3000}x\u{3000}", "😀", " ", "aa bb", "é\u{301}", "\r", "a\rb", "ーーー"];
    let args: Vec<Vec<&str>> = vec![vec![], vec!["-p"], vec!["-n"], vec!["-p", "-n"], vec!["-n", "-p"], vec!["-pn"], vec!["-np"], vec!["--preset"], vec!["--neologdn"], vec!["--preset", "--neologdn"], vec!["-d"], vec!["-dp"], vec!["--debug", "-n"]];
    let trees: Vec<Vec<&str>> = vec![vec![], vec!["home/chanomarc.csv=0"], vec!["cwd/.chanomarc.yaml=1", "home/chanomarc.csv=0"], vec!["else/x.yml=1", "env=@else/x.yml", "home/chanomarc.csv=0"], vec!["cwd/chanomarc.csv=bad"], vec!["env=@else/none.csv"], vec!["env=@else/x.txt", "else/x.txt=1"]];
    let mk = |t: &str, a: &[&str], tr: &[&str], flag: bool| {
        let mut s: Vec<String> = tr.iter().map(|s| s.to_string()).collect();
        s.extend(a.iter().map(|s| format!("arg={s}")));
        Case::new("cli").text(t).strs(s).flag(flag)
    };
    for a in &args { for t in &inputs { for flag in [false, true] { ctx.run(mk(t, a, &[], flag)); } } }
    for tr in &trees { for a in &args[..5] { for t in inputs.iter().take(7) { for flag in [false, true] { ctx.run(mk(t, a, tr, flag)); } } } }
    for t in ["a\n", "a\nb\n", "\na\n", "\n", "\n\n\n", "a\r\n", "a \n", " a", "ｶﾞ\nﾊﾟ\n", "a", "a\0b\n", &"ａ ".repeat(5000)] { for a in &args[..5] { ctx.run(mk(t, a, &[], true)); ctx.run(mk(t, a, &["cwd/.chanomarc.yaml=1"], true)); } }
    // arguments keep their line ends
    for t in ["a\n", "a\nb", "\n", "a\n\n", "ａ\r\nｂ\r\n"] { for a in &args[..5] { ctx.run(mk(t, a, &[], false)); } }
    let mut k = 0;
    while !ctx.over_now() {
        k += 1;
        if k > 2500 && !ctx.thorough { break; }
        let t = ctx.rng.text(&[' ', 'a', 'ー', '~', 'カ', '゛', 'ｶ', 'ﾞ', '＝', 'Ａ', 'b', '\n'], 12);
        let t = if t.contains('\0') { "x".to_string() } else { t };
        let a = ctx.rng.pick(&args).clone();
        let tr = if ctx.rng.chance(3) { ctx.rng.pick(&trees).clone() } else { vec![] };
        let flag = ctx.rng.chance(2);
        ctx.run(mk(&t, &a, &tr, flag));
    }
}

fn py_search(ctx: &mut Ctx) {
    let texts = ["", "a", "abcＡＢ１２ｶﾞ", "  ａ  ｂ ー~ー カ゛", "＝㍿(a)aabbcc", "😀é\u{301}", "ＡＢＣ abc ｶﾞｷﾞ １２３ ！？ ㌔", "\u{0}x\n y"];
    let trees: Vec<Vec<&str>> = vec![vec![], vec!["home/chanomarc.csv=0"], vec!["cwd/.chanomarc.yaml=1", "home/chanomarc.csv=0"], vec!["else/x.yml=1", "env=@else/x.yml", "home/chanomarc.csv=0"], vec!["cwd/chanomarc.csv=bad"], vec!["env=@else/none.csv"],
        vec!["else/x.txt=1", "env=@else/x.txt"], vec!["else/x.csv=0", "else/y.yaml=1", "else/z.yml=3", "else/b.csv=bad", "else/b.yaml=bad", "else/e.csv=empty"]];
    let flags: Vec<Vec<&str>> = vec![vec![], vec!["kw=preset"], vec!["kw=neologdn"], vec!["kw=preset", "kw=neologdn"]];
    let confs = ["", "kw=rc", "kw=config:else/x.csv", "kw=config:else/y.yaml", "kw=config:else/x.yml", "kw=config:else/b.csv", "kw=config:else/b.yaml", "kw=config:else/none.csv", "kw=config:else/x.txt", "kw=config:else/e.csv", "kw=config_raw:", "kw=config_raw:csv", "kw=config_raw: "];
    let tabs: Vec<Vec<&str>> = vec![vec![], vec!["tab="], vec!["tab=preset"], vec!["tab=csv:else/x.csv"], vec!["tab=yaml:else/y.yaml"], vec!["tab=preset", "tab=csv:else/x.csv", "tab=yaml:else/z.yml"], vec!["tab=csv:else/b.csv"], vec!["tab=yaml:else/b.yaml"],
        vec!["tab=csv:else/none.csv"], vec!["tab=yaml:else/none.yaml"], vec!["tab=csv:else/x.csv", "tab=yaml:else/none.yaml"]];
    let adds: Vec<Vec<&str>> = vec![vec![], vec!["add=items:0"], vec!["add=duck:0"], vec!["add=items:0", "add=items:1"], vec!["add=items:1", "add=items:0"], vec!["add=set:Alphabets"], vec!["add=set:Digits"], vec!["add=set:Punctuations"], vec!["add=set:Kanas"], vec!["add=set:CjkCompatibilities"],
        vec!["add=bad:none"], vec!["add=bad:object"], vec!["add=items:0", "add=bad:mixed"], vec!["add=bad:str"], vec!["add=bad:list", "add=items:1"], vec!["add=bad:item"], vec!["add=bad:int"], vec!["add=items:2"]];
    let l = |v: &[(&str, &str)]| -> L { v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() };
    let lists = vec![l(&[("a", "b"), ("b", "c")]), l(&[("a", "x"), ("ab", "yz"), ("", "q"), ("c", ""), ("あ", "い"), ("Ａ", "a")]), l(&[])];
    let every: String = [crate::tables::preset(), crate::tables::of("cjk_compatibilities")].concat().into_iter().map(|(f, _)| f).collect();
    let mk = |t: &str, p: &[&[&str]]| Case::new("py").text(t).strs(p.iter().flat_map(|x| x.iter()).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()).lists(lists.clone());
    for t in texts.iter().copied().chain([&every[..]]) {
        for f in &flags {
            for c in confs { for tr in &trees { if c == "kw=rc" || tr.len() == 6 || (tr.is_empty() && c.is_empty()) { ctx.run(mk(t, &[f, &[c], tr])); ctx.run(mk(t, &[f, &[c], tr, &["tab=", "add=items:0"]])); } } }
            for tb in &tabs[1..] { ctx.run(mk(t, &[f, tb, &trees[7]])); }
            for a in &adds { ctx.run(mk(t, &[f, &["tab="], a])); ctx.run(mk(t, &[f, &["tab=preset"], a])); }
        }
        ctx.run(mk(t, &[&["kw=rc", "kw=config_raw:"], &trees[7], &["home/chanomarc.yml=4"]]));
        ctx.run(mk(t, &[&["kw=rc", "kw=config_raw:"]]));
        ctx.run(mk(t, &[&["kw=rc", "kw=config:else/x.csv"], &trees[7], &["home/chanomarc.yml=4"]]));
        ctx.run(mk(t, &[&["kw=rc", "kw=config:else/x.csv"], &trees[7], &["home/chanomarc.yml=bad"]]));
    }
    let mut k = 0;
    while !ctx.over_now() {
        k += 1;
        if k > 4000 && !ctx.thorough { break; }
        let t = ctx.rng.text(&[' ', 'a', 'b', 'c', 'd', 'ー', '~', 'カ', '゛', 'ｶ', 'ﾞ', '＝', 'Ａ', 'あ', '㍿'], 12);
        let (f, c, tr, tb, a, a2) = (ctx.rng.pick(&flags).clone(), *ctx.rng.pick(&confs), ctx.rng.pick(&trees).clone(), ctx.rng.pick(&tabs).clone(), ctx.rng.pick(&adds).clone(), ctx.rng.pick(&adds).clone());
        let tr = if ctx.rng.chance(2) { trees[7].clone() } else { tr };
        ctx.run(mk(&t, &[&f, &[c], &tr, &tb, &a, &a2]));
    }
}

fn malformed_search(ctx: &mut Ctx) {
    std::fs::create_dir_all(ctx.scratch.join("dir.csv")).unwrap();
    std::fs::create_dir_all(ctx.scratch.join("dir.yaml")).unwrap();
    std::os::unix::fs::symlink("none", ctx.scratch.join("dangling.yaml")).ok();
    std::fs::write(ctx.scratch.join("file.csv"), "from,to\n").unwrap();
    for p in ["", "none.csv", "none.yaml", "none.yml", "none", "dir.csv", "dir.yaml", "dangling.yaml", "no/such/dir.yaml", "file.csv/x.csv", "."] { ctx.run(Case::new("missing").text(p)); }
    ctx.slice(0.25, csv_search);
    ctx.stopped = false;
    yaml_search(ctx, true);
}

pub fn search(ctx: &mut Ctx) {
    match ctx.prop.clone().as_str() {
        "C13" => csv_search(ctx),
        "C14" => yaml_search(ctx, false),
        "C15" => export_search(ctx),
        "C16" => discover_search(ctx),
        "C17" => ext_search(ctx),
        "C18" => malformed_search(ctx),
        "C19" => py_search(ctx),
        "C20" => cli_search(ctx),
        p => panic!("no property {p}"),
    }
}
