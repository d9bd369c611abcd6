//! The JavaScript side of the package, run by Node with the native functions in place of
//! the WebAssembly module.
use crate::core::*;
use crate::values::*;
use crate::{Answer, Entry, call, library};
use hongdown::Options;
use js_sys::Function;
use serde_json::{Value as Json, json};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Mutex;
use wasm_bindgen::JsValue;

fn value(j: &Json) -> JsValue {
    match j {
        Json::Null => JsValue::Null,
        Json::Bool(b) => JsValue::Bool(*b),
        Json::Number(n) => JsValue::Num(n.as_f64().unwrap()),
        Json::String(s) => JsValue::Str(s.clone()),
        Json::Array(a) => JsValue::Array(a.iter().map(value).collect()),
        Json::Object(o) if o.contains_key("$undefined") => JsValue::Undefined,
        Json::Object(o) => JsValue::Object(o.iter().map(|(k, v)| (k.clone(), value(v))).collect()),
    }
}
fn json(v: &JsValue) -> Json {
    match v {
        JsValue::Undefined | JsValue::Func(_) => json!({"$undefined": 1}),
        JsValue::Null => Json::Null,
        JsValue::Bool(b) => json!(b),
        JsValue::Num(n) => json!(n),
        JsValue::Str(s) => json!(s),
        JsValue::Array(a) => Json::Array(a.iter().map(json).collect()),
        JsValue::Object(o) => Json::Object(o.iter().map(|(k, v)| (k.clone(), json(v))).collect()),
    }
}

/// Calls from standard input, one JSON document per line, answered on standard output
pub fn serve() {
    use std::io::{BufRead, Write};
    for l in std::io::stdin().lock().lines() {
        let q: Json = serde_json::from_str(&l.unwrap()).unwrap();
        let (doc, o) = (q["input"].as_str().unwrap(), value(&q["options"]));
        let a = match q["entry"].as_str().unwrap() {
            "format" => call(Entry::Format, doc, o, None).map(|r| json!(r.0)),
            "formatWithWarnings" => call(Entry::Warnings, doc, o, None).map(shape),
            _ => {
                // the answers of the callback so far; the next question stops the call
                let answers: Option<Vec<Json>> = q["answers"].as_array().cloned();
                let asked: Rc<RefCell<(usize, Option<Json>)>> = Default::default();
                let (log, known) = (asked.clone(), answers.clone().unwrap_or_default());
                let f = answers.is_some().then(|| Function::new(move |a| {
                    let mut s = log.borrow_mut();
                    let i = s.0;
                    s.0 += 1;
                    match known.get(i) {
                        Some(x) if x.get("$throw").is_some() => Err("thrown".into()),
                        Some(x) => Ok(value(x)),
                        None => { s.1.get_or_insert_with(|| Json::Array(a.iter().map(json).collect())); Ok(JsValue::Null) }
                    }
                }));
                let r = call(Entry::Code, doc, o, f).map(shape);
                match &asked.borrow().1 { Some(a) => Ok(json!({"ask": a})), None => r }
            }
        };
        let mut out = std::io::stdout().lock();
        writeln!(out, "{}", match a { Ok(v) => json!({"ok": v}), Err(e) => json!({"error": e}) }).unwrap();
        out.flush().unwrap();
    }
}
fn shape(a: Answer) -> Json { json!({"output": a.0, "warnings": a.1.iter().map(|w| json!({"line": w.0, "message": w.1})).collect::<Vec<_>>()}) }

const MODULE: &str = r#"
import { execFileSync } from "node:child_process";
let ready = 0;
export default async function init(o) {
  await new Promise((r) => setTimeout(r, 5));
  if (!o || !("module_or_path" in o) || o.module_or_path?.marker !== 7) throw new Error("bad init");
  ready++;
}
function encode(v) {
  if (v === undefined || typeof v === "function") return { $undefined: 1 };
  if (Array.isArray(v)) return v.map(encode);
  if (v && typeof v === "object") return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, encode(x)]));
  return v;
}
function native(q) {
  if (ready !== 1) throw new Error("initialised " + ready + " times");
  const line = execFileSync(process.env.WASMMC, ["call"], { input: JSON.stringify(q) + "\n", encoding: "utf8" });
  const a = JSON.parse(line);
  if ("error" in a) throw new Error(a.error);
  return a.ok;
}
export function format(input, options) { return native({ entry: "format", input, options: encode(options) }); }
export function formatWithWarnings(input, options) { return native({ entry: "formatWithWarnings", input, options: encode(options) }); }
export function formatWithCodeFormatter(input, options, callback) {
  if (options && "codeFormatter" in options) throw new Error("callback among the options");
  if (callback === undefined || callback === null) return native({ entry: "code", input, options: encode(options) });
  const answers = [];
  for (;;) {
    const a = native({ entry: "code", input, options: encode(options), answers });
    if (!a.ask) return a;
    let v;
    try { v = callback(...a.ask); v = encode(v); } catch { v = { $throw: 1 }; }
    answers.push(v);
  }
}
"#;
const RUN: &str = r#"
import { readFileSync } from "node:fs";
const api = await import("./src/index.ts");
const decode = (v) => v && typeof v === "object" ? (Array.isArray(v) ? v.map(decode) : "$undefined" in v ? undefined : Object.fromEntries(Object.entries(v).map(([k, x]) => [k, decode(x)]))) : v;
const cases = JSON.parse(readFileSync(process.argv[2], "utf8"));
const callbacks = {
  upper: (l, c) => c.toUpperCase(), nothing: () => null, undef: () => undefined, throws: () => { throw new Error("x"); },
  number: () => 3, language: (l, c) => l + "\n", empty: () => "",
};
async function one(c) {
  try {
    let o = decode(c.options);
    if (c.callback !== undefined) { o = o ?? {}; o.codeFormatter = callbacks[c.callback] ?? decode(JSON.parse(c.callback)); }
    const r = c.bare ? await api[c.entry](c.input) : await api[c.entry](c.input, o);
    return { ok: r };
  } catch (e) { return { error: String(e) }; }
}
// the first calls run at the same time, before the module is there
const first = cases.splice(0, 5);
const out = await Promise.all(first.map(one));
for (const c of cases) out.push(await one(c));
console.log(JSON.stringify(out));
"#;

struct Case { entry: &'static str, input: &'static str, options: Json, callback: Option<&'static str>, bare: bool, want: Answer }

pub fn run(e: &Engine) {
    let mut cases: Vec<Case> = vec![];
    let names = ["format", "formatWithWarnings", "formatWithCodeFormatter"];
    for entry in names {
        for d in DOCS {
            cases.push(Case { entry, input: d, options: Json::Null, callback: None, bare: true, want: library(d, &Options::default()) });
            cases.push(Case { entry, input: d, options: json!({"$undefined": 1}), callback: None, bare: false, want: library(d, &Options::default()) });
        }
        for x in fields() {
            let mut o = Options::default();
            (x.set)(&mut o);
            cases.push(Case { entry, input: DOCS[0], options: json!({ x.field: json(&x.js.clone()) }), callback: None, bare: false, want: library(DOCS[0], &o) });
        }
    }
    const CODE: &str = "~~~~ js\nlet a\n~~~~\n\n- item\n\n  ~~~~ py x\n  b c\n  ~~~~\n\n~~~~\nnone\n~~~~\n\n~~~~ js hongdown-no-format\nkept\n~~~~\n";
    let with = |f: fn(&str, &str) -> String| {
        let d = format!("~~~~ js\n{}~~~~\n\n- item\n\n  ~~~~ py x\n  {}  ~~~~\n\n~~~~\nnone\n~~~~\n\n~~~~ js hongdown-no-format\nkept\n~~~~\n", f("js", "let a\n"), f("py", "b c\n")).replace("  ~~~~\n\n~~~~\nn", "  ~~~~\n\n~~~~\nn");
        library(&d, &Options::default())
    };
    let answers: &[(&'static str, fn(&str, &str) -> String)] = &[
        ("upper", |_, c| c.to_uppercase()), ("nothing", |_, c| c.into()), ("undef", |_, c| c.into()), ("throws", |_, c| c.into()), ("number", |_, c| c.into()),
        ("language", |l, _| format!("{l}\n")), ("null", |_, c| c.into()), ("{\"$undefined\":1}", |_, c| c.into()),
    ];
    for (name, f) in answers {
        cases.push(Case { entry: "formatWithCodeFormatter", input: CODE, options: json!({}), callback: Some(*name), bare: false, want: with(*f) });
        for d in &DOCS[1..] { cases.push(Case { entry: "formatWithCodeFormatter", input: d, options: json!({}), callback: Some(*name), bare: false, want: library(d, &Options::default()) }); }
    }
    for x in fields() {
        let mut o = Options::default();
        (x.set)(&mut o);
        cases.push(Case { entry: "formatWithCodeFormatter", input: DOCS[0], options: json!({ x.field: json(&x.js.clone()) }), callback: Some("nothing"), bare: false, want: library(DOCS[0], &o) });
    }
    let cases = &cases;
    // eight processes of Node, each with its own module
    let results: Mutex<HashMap<usize, Json>> = Default::default();
    let base = format!("{}/hdmc-{}-node", if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" }, std::process::id());
    let node = |part: usize| -> Result<(), String> {
        let dir = format!("{base}-{part}");
        let w = |f: &str, t: &[u8]| std::fs::create_dir_all(std::path::Path::new(&format!("{dir}/{f}")).parent().unwrap()).and_then(|_| std::fs::write(format!("{dir}/{f}"), t)).map_err(|e| e.to_string());
        let src = std::fs::read("/repo/packages/wasm/src/index.ts").map_err(|e| e.to_string())?;
        w("src/index.ts", &src)?;
        for f in std::fs::read_dir("/repo/packages/wasm/src").map_err(|e| e.to_string())?.flatten() {
            if let (Ok(t), Some(n)) = (std::fs::read(f.path()), f.file_name().to_str()) { w(&format!("src/{n}"), &t)?; }
        }
        w("package.json", br##"{"type":"module","imports":{"#wasm-loader":"./loader.js"}}"##)?;
        w("loader.js", b"export async function loadWasmBuffer() { await new Promise((r) => setTimeout(r, 3)); return { marker: 7 }; }\n")?;
        w("pkg/hongdown.js", MODULE.as_bytes())?;
        w("run.mjs", RUN.as_bytes())?;
        let mine: Vec<usize> = (0..cases.len()).filter(|i| i % 8 == part).collect();
        let list: Vec<Json> = mine.iter().map(|i| { let c = &cases[*i]; let mut j = json!({"entry": c.entry, "input": c.input, "options": c.options, "bare": c.bare}); if let Some(k) = c.callback { j["callback"] = json!(k); } j }).collect();
        w("cases.json", serde_json::to_string(&list).unwrap().as_bytes())?;
        let o = std::process::Command::new("node").args(["--no-warnings", "--experimental-strip-types", "run.mjs", "cases.json"]).current_dir(&dir).env("WASMMC", std::env::current_exe().unwrap()).output().map_err(|e| e.to_string())?;
        let _ = std::fs::remove_dir_all(&dir);
        let out: Vec<Json> = serde_json::from_slice(&o.stdout).map_err(|_| format!("node: {}", String::from_utf8_lossy(&o.stderr)))?;
        let mut r = results.lock().unwrap();
        for (i, x) in mine.iter().zip(out) { r.insert(*i, x); }
        Ok(())
    };
    let errors: Vec<String> = std::thread::scope(|s| { let node = &node; let t: Vec<_> = (0..8).map(|p| s.spawn(move || node(p))).collect(); t.into_iter().filter_map(|t| t.join().unwrap().err()).collect() });
    let (results, errors) = (&results, &errors);
    e.run(domain("script", "the functions of index.ts, run by Node: every value of every field, no options, and callbacks of every kind × documents; the first calls of each process at the same time", cases.len() as u64, |i, r| {
        let c = &cases[i as usize];
        r.case(c.input, &format!("{} {} {:?}{}", c.entry, c.options, c.callback, if c.bare { " bare" } else { "" }));
        r.calls += 1;
        r.traces += 1;
        r.nontrivial = true;
        let got = results.lock().unwrap().get(&(i as usize)).cloned();
        let Some(got) = got else { r.fail("node", "", errors.join("\n")); return };
        let want = if c.entry == "format" { json!(c.want.0) } else { shape(c.want.clone()) };
        if got["ok"] != want { r.fail("script", &got.to_string(), format!("expected {want}")); }
    }));
}
