//! stands in for jsonschema 0.16: the keywords the module uses, any other is refused
use serde_json::Value;
use std::fmt;

pub struct JSONSchema {
    schema: Value,
}
#[derive(Debug)]
pub struct Path(String);
impl fmt::Display for Path {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
#[derive(Debug)]
pub struct ValidationError {
    what: String,
    pub instance_path: Path,
}
impl fmt::Display for ValidationError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.what)
    }
}
pub type ErrorIterator = Box<dyn Iterator<Item = ValidationError> + Sync + Send>;

const KNOWN: [&str; 12] = [
    "$schema", "type", "properties", "required", "items", "enum", "additionalProperties", "default", "examples", "title", "description", "const",
];

fn known(s: &Value) -> Result<(), ValidationError> {
    let unsupported = |k: &str| ValidationError { what: format!("stand-in: keyword {}", k), instance_path: Path(String::new()) };
    let o = s.as_object().ok_or_else(|| unsupported("boolean schema"))?;
    for (k, v) in o {
        if !KNOWN.contains(&k.as_str()) || (k == "additionalProperties" && !v.is_boolean()) || (k == "type" && !v.is_string()) {
            eprintln!("stand-in for jsonschema: keyword {} is not known", k);
            return Err(unsupported(k));
        }
    }
    if let Some(p) = o.get("properties") {
        for (_, v) in p.as_object().unwrap() {
            known(v)?;
        }
    }
    if let Some(v) = o.get("items") {
        known(v)?;
    }
    Ok(())
}

fn check(s: &Value, x: &Value, path: &str, out: &mut Vec<ValidationError>) {
    let mut say = |what: String| out.push(ValidationError { what, instance_path: Path(path.to_string()) });
    if let Some(t) = s.get("type") {
        let ok = match t.as_str().unwrap() {
            "object" => x.is_object(),
            "array" => x.is_array(),
            "string" => x.is_string(),
            "number" => x.is_number(),
            "integer" => x.is_i64() || x.is_u64() || x.as_f64().map_or(false, |v| v.fract() == 0.0),
            "boolean" => x.is_boolean(),
            "null" => x.is_null(),
            _ => false,
        };
        if !ok {
            say(format!("{} is not of type {}", x, t));
        }
    }
    if let Some(e) = s.get("enum") {
        if !e.as_array().unwrap().contains(x) {
            say(format!("{} is not one of {}", x, e));
        }
    }
    if let Some(e) = s.get("const") {
        if e != x {
            say(format!("{} is not {}", x, e));
        }
    }
    if let Some(o) = x.as_object() {
        if let Some(r) = s.get("required") {
            for k in r.as_array().unwrap() {
                if !o.contains_key(k.as_str().unwrap()) {
                    say(format!("{} is required", k));
                }
            }
        }
        let empty = serde_json::Map::new();
        let props = s.get("properties").and_then(|p| p.as_object()).unwrap_or(&empty);
        if s.get("additionalProperties") == Some(&Value::Bool(false)) {
            for k in o.keys() {
                if !props.contains_key(k) {
                    say(format!("{} is not allowed", k));
                }
            }
        }
        for (k, p) in props {
            if let Some(v) = o.get(k) {
                check(p, v, &format!("{}/{}", path, k), out);
            }
        }
    }
    if let (Some(a), Some(p)) = (x.as_array(), s.get("items")) {
        for (i, v) in a.iter().enumerate() {
            check(p, v, &format!("{}/{}", path, i), out);
        }
    }
}

impl JSONSchema {
    pub fn compile(schema: &Value) -> Result<Self, ValidationError> {
        known(schema)?;
        Ok(JSONSchema { schema: schema.clone() })
    }
    pub fn validate<'a>(&'a self, x: &'a Value) -> Result<(), ErrorIterator> {
        let mut out = vec![];
        check(&self.schema, x, "", &mut out);
        if out.is_empty() {
            Ok(())
        } else {
            Err(Box::new(out.into_iter()))
        }
    }
    pub fn is_valid(&self, x: &Value) -> bool {
        self.validate(x).is_ok()
    }
}
