//! The model: session types and the calls between them, read from the compiler's own description
//! (rustdoc JSON) of the public interface of a crate.
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

/// what a call hands out, besides plain values
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct Out {
    /// local types, aliases and contents of enums and structs resolved
    pub types: BTreeSet<String>,
    /// hash outputs
    pub hash: bool,
    /// byte strings and arrays
    pub bytes: bool,
    pub scalar: bool,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Recv {
    None,
    Value,
    Ref,
    Mut,
}
#[derive(Clone, Debug)]
pub struct Call {
    /// type whose method or associated function it is ("" for free functions)
    pub on: String,
    pub name: String,
    pub recv: Recv,
    /// number of arguments besides self
    pub args: usize,
    /// types in the arguments
    pub takes: BTreeSet<String>,
    pub out: Out,
    /// the trait it belongs to
    pub tr: Option<String>,
}
#[derive(Default)]
pub struct Model {
    pub calls: Vec<Call>,
    /// traits implemented by hand or derived: type -> names
    pub impls: BTreeMap<String, BTreeSet<String>>,
    /// implementations of foreign traits that mention local types in the trait's own arguments, such as
    /// `impl From<Session> for Vec<u8>`: (trait, implementing type, types mentioned)
    pub about: Vec<(String, String, BTreeSet<String>)>,
    /// public fields: type -> names
    pub fields: BTreeMap<String, Vec<String>>,
    /// every public struct, enum and union
    pub types: BTreeSet<String>,
}

struct Rd<'a> {
    ix: &'a serde_json::Map<String, Value>,
}
fn last(p: &str) -> &str {
    p.rsplit("::").next().unwrap_or(p)
}
impl<'a> Rd<'a> {
    fn item(&self, id: &Value) -> Option<&'a Value> {
        self.ix.get(&id.to_string()).filter(|i| i["crate_id"] == 0)
    }
    /// everything that a type mentions
    fn walk(&self, t: &Value, me: &str, deep: bool, seen: &mut BTreeSet<String>, out: &mut Out) {
        match t {
            Value::Array(a) => a.iter().for_each(|x| self.walk(x, me, deep, seen, out)),
            Value::Object(o) => {
                if o.get("generic").and_then(Value::as_str) == Some("Self") && !me.is_empty() {
                    out.types.insert(me.to_string());
                }
                if o.contains_key("slice") || o.contains_key("array") {
                    out.bytes = true;
                }
                if let Some(p) = o.get("resolved_path") {
                    let name = p["path"].as_str().or(p["name"].as_str()).unwrap_or("");
                    match last(name) {
                        "Output" | "GenericArray" => out.hash = true,
                        "Vec" | "String" => out.bytes = true,
                        "Scalar" => out.scalar = true,
                        _ => (),
                    }
                    if let Some(i) = self.item(&p["id"]) {
                        let inner = &i["inner"];
                        if let Some(a) = inner.get("type_alias") {
                            if seen.insert(format!("{}", p["id"])) {
                                self.walk(&a["type"], me, deep, seen, out);
                            }
                        } else {
                            out.types.insert(i["name"].as_str().unwrap_or("").to_string());
                            if deep && seen.insert(format!("{}", p["id"])) {
                                self.contents(inner, me, seen, out);
                            }
                        }
                    }
                }
                for (k, v) in o {
                    if k != "id" {
                        self.walk(v, me, deep, seen, out)
                    }
                }
            }
            _ => (),
        }
    }
    /// the local types in the public fields of a struct or enum (byte strings in messages are not of interest)
    fn contents(&self, inner: &Value, me: &str, seen: &mut BTreeSet<String>, out: &mut Out) {
        let mut ids = vec![];
        collect_ids(inner, &mut ids);
        for id in ids {
            if let Some(f) = self.item(&id) {
                let mut o = Out::default();
                if let Some(t) = f["inner"].get("struct_field") {
                    self.walk(t, me, true, seen, &mut o);
                } else if f["inner"].get("variant").is_some() {
                    self.contents(&f["inner"]["variant"], me, seen, &mut o);
                }
                out.types.extend(o.types);
            }
        }
    }
    fn call(&self, f: &Value, on: &str, tr: Option<String>) -> Option<Call> {
        let fun = f["inner"].get("function")?;
        let (inp, outp) = (fun["sig"]["inputs"].as_array()?, &fun["sig"]["output"]);
        let recv = match inp.first() {
            Some(a) if a[0] == "self" => match &a[1] {
                t if t.get("borrowed_ref").is_some() => {
                    if t["borrowed_ref"]["is_mutable"] == true {
                        Recv::Mut
                    } else {
                        Recv::Ref
                    }
                }
                _ => Recv::Value,
            },
            _ => Recv::None,
        };
        let mut takes = Out::default();
        for a in inp.iter().skip((recv != Recv::None) as usize) {
            self.walk(&a[1], on, false, &mut BTreeSet::new(), &mut takes);
        }
        let mut out = Out::default();
        self.walk(outp, on, true, &mut BTreeSet::new(), &mut out);
        Some(Call { on: on.into(), name: f["name"].as_str()?.into(), recv: recv.clone(), args: inp.len() - (recv != Recv::None) as usize, takes: takes.types, out, tr })
    }
}
fn collect_ids(v: &Value, ids: &mut Vec<Value>) {
    for k in ["fields", "variants", "tuple"] {
        if let Some(Value::Array(a)) = v.get(k) {
            ids.extend(a.iter().filter(|x| x.is_number()).cloned());
        }
    }
    for k in ["struct", "enum", "union", "plain", "kind"] {
        if let Some(x) = v.get(k) {
            match x {
                Value::Array(a) => ids.extend(a.iter().filter(|x| x.is_number()).cloned()),
                _ => collect_ids(x, ids),
            }
        }
    }
}

pub fn read(json: &Value) -> Option<Model> {
    let rd = Rd { ix: json["index"].as_object()? };
    let mut m = Model::default();
    let mut owned: BTreeSet<String> = BTreeSet::new();
    let local: Vec<(&String, &Value)> = rd.ix.iter().filter(|(_, i)| i["crate_id"] == 0).collect();
    for (_, i) in &local {
        if let Some(im) = i["inner"].get("impl") {
            for x in im["items"].as_array()? {
                owned.insert(x.to_string());
            }
            if im["is_synthetic"] != true && im["blanket_impl"].is_null() && im["trait"].is_object() {
                let tr = im["trait"]["path"].as_str().or(im["trait"]["name"].as_str()).map(last).unwrap_or("").to_string();
                let (mut args, mut on) = (Out::default(), Out::default());
                rd.walk(&im["trait"]["args"], "", false, &mut BTreeSet::new(), &mut args);
                rd.walk(&im["for"], "", false, &mut BTreeSet::new(), &mut on);
                // a reference to a session, or a tuple with one, is not listed under the type itself
                let direct = im["for"].get("resolved_path").is_some();
                if !direct {
                    args.types.extend(on.types.iter().cloned());
                }
                let on = on.types.iter().next().cloned().unwrap_or(format!("a foreign type ({})", if on.bytes { "bytes" } else { "other" }));
                m.about.push((tr, on, args.types));
            }
        }
        if let Some(t) = i["inner"].get("trait") {
            for x in t["items"].as_array()? {
                owned.insert(x.to_string());
            }
        }
    }
    for (id, i) in &local {
        let name = i["name"].as_str().unwrap_or("");
        if i["inner"].get("function").is_some() && !owned.contains(*id) {
            m.calls.extend(rd.call(i, "", None));
        }
        let Some(s) = ["struct", "enum", "union"].iter().find_map(|k| i["inner"].get(*k)) else { continue };
        m.types.insert(name.into());
        let mut ids = vec![];
        if i["inner"].get("enum").is_none() {
            collect_ids(s, &mut ids);
        }
        for f in ids {
            if let Some(f) = rd.item(&f) {
                m.fields.entry(name.into()).or_default().push(f["name"].as_str().unwrap_or("").into());
            }
        }
        for im in s["impls"].as_array()? {
            let Some(im) = rd.ix.get(&im.to_string()).and_then(|x| x["inner"].get("impl")) else { continue };
            if im["is_synthetic"] == true || !im["blanket_impl"].is_null() {
                continue;
            }
            let tr = im["trait"]["path"].as_str().or(im["trait"]["name"].as_str()).map(|p| last(p).to_string());
            let foreign = im["trait"].is_object() && rd.item(&im["trait"]["id"]).is_none();
            if let Some(t) = &tr {
                m.impls.entry(name.into()).or_default().insert(t.clone());
            }
            if foreign {
                continue;
            }
            for f in im["items"].as_array()? {
                if let Some(f) = rd.item(f) {
                    m.calls.extend(rd.call(f, name, tr.clone()));
                }
            }
        }
    }
    m.about.sort();
    m.calls.sort_by(|a, b| (&a.on, &a.name).cmp(&(&b.on, &b.name)));
    Some(m)
}
