//! The JSON accessors against what a JSON value is.
use serde_json::builder::ObjectBuilder;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use unjson::error::Error;
use unjson::ty::{Object, Ty, TyOf};
use unjson::{ExtractField, GetField, Unjson};

fn ty(v: &Value) -> Ty {
    match *v {
        Value::Null => Ty::Null, Value::Bool(_) => Ty::Boolean, Value::String(_) => Ty::String, Value::Array(_) => Ty::Array, Value::Object(_) => Ty::Object,
        Value::I64(_) | Value::U64(_) | Value::F64(_) => Ty::Number,
    }
}
/// what the value is as `want`, or None
fn is(v: &Value, want: &str) -> Option<String> {
    match (want, v) {
        ("boolean", &Value::Bool(b)) => Some(format!("{:?}", b)),
        ("i64", &Value::I64(n)) => Some(format!("{:?}", n)),
        ("i64", &Value::U64(n)) if n <= i64::MAX as u64 => Some(format!("{:?}", n as i64)),
        ("u64", &Value::U64(n)) => Some(format!("{:?}", n)),
        ("u64", &Value::I64(n)) if n >= 0 => Some(format!("{:?}", n as u64)),
        ("f64", &Value::I64(n)) | ("number", &Value::I64(n)) => Some(format!("{:?}", n as f64)),
        ("f64", &Value::U64(n)) | ("number", &Value::U64(n)) => Some(format!("{:?}", n as f64)),
        ("f64", &Value::F64(n)) | ("number", &Value::F64(n)) => Some(format!("{:?}", n)),
        ("string", &Value::String(ref s)) => Some(format!("{:?}", s)),
        ("array", &Value::Array(ref s)) => Some(format!("{:?}", s)),
        ("object", &Value::Object(ref s)) => Some(format!("{:?}", s)),
        ("field", v) => Some(format!("{:?}", v)),
        _ => None,
    }
}
#[derive(Clone, Debug)]
pub enum Want { Val(String), Mismatch(String, Ty), Missing(String) }
fn expect(v: Option<&Value>, want: &str, opt: bool, field: &str) -> Want {
    match v {
        None => Want::Missing(field.to_string()),
        Some(&Value::Null) if opt => Want::Val("None".to_string()),
        Some(v) => match is(v, want) {
            Some(s) => Want::Val(if opt { format!("Some({})", s) } else { s }),
            None => Want::Mismatch(want.to_string(), ty(v)),
        },
    }
}
fn agrees(w: &Want, r: &Result<String, Error>) -> bool {
    match (w, r) {
        (Want::Val(a), Ok(b)) => a == b,
        (Want::Mismatch(a, t), Err(Error::TypeMismatch(x, u))) => (x == a || *x == format!("{} or null", a)) && t == u,
        (Want::Missing(f), Err(Error::MissingField(g))) => f == g,
        _ => false,
    }
}
fn d<T: std::fmt::Debug>(r: Result<T, Error>) -> Result<String, Error> { r.map(|x| format!("{:?}", x)) }

pub fn values() -> Vec<Value> {
    let mut v = vec![Value::Null, Value::Bool(true), Value::Bool(false)];
    for n in [0i64, 1, -1, 2, 127, -128, i32::MAX as i64, i32::MIN as i64, (1 << 53) + 1, -(1 << 53) - 1, i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1] { v.push(Value::I64(n)) }
    for n in [0u64, 1, 255, u32::MAX as u64, (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX] { v.push(Value::U64(n)) }
    for n in [0.0f64, -0.0, 0.5, -1.5, 1.0, 3.0, 1e300, -1e-300, 9007199254740993.0, 18446744073709551616.0, f64::MIN_POSITIVE] { v.push(Value::F64(n)) }
    for s in ["", "a", "null", "true", "1", "\u{0}", "\u{1f600}x"] { v.push(Value::String(s.to_string())) }
    v.push(Value::Array(vec![]));
    v.push(Value::Array(vec![Value::Null]));
    v.push(Value::Array(vec![Value::Bool(true), Value::U64(3)]));
    v.push(Value::Object(BTreeMap::new()));
    v.push(ObjectBuilder::new().insert("a", 1).build());
    v.push(ObjectBuilder::new().insert("type", "x").insert("value", Value::Null).build());
    v
}
pub struct Bad { pub label: &'static str, pub value: String, pub op: String, pub expected: String, pub actual: String }

pub struct Run { pub n: u64, pub bad: Vec<Bad> }
impl Run {
    fn eq(&mut self, label: &'static str, op: &str, v: &str, want: Want, f: &mut dyn FnMut() -> Result<String, Error>) {
        self.n += 1;
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        let (ok, act) = match r { Ok(r) => (agrees(&want, &r), format!("{:?}", r)), Err(_) => (false, "panic".to_string()) };
        if !ok { self.bad.push(Bad { label, value: v.to_string(), op: op.to_string(), expected: format!("{:?}", want), actual: act }) }
    }
}
const FIELDS: [&'static str; 5] = ["a", "type", "value", "", "zz"];

pub fn check(run: &mut Run) {
    std::panic::set_hook(Box::new(|_| {}));
    let vs = values();
    for v in vs.iter() {
        let t = format!("{:?}", v);
        run.n += 1;
        if v.ty() != ty(v) { run.bad.push(Bad { label: "C15", value: t.clone(), op: "ty".to_string(), expected: format!("{:?}", ty(v)), actual: format!("{:?}", v.ty()) }) }
        macro_rules! own { ($($w:expr, $m:ident, $o:ident);*) => { $(
            run.eq("C17", stringify!($m), &t, expect(Some(v), $w, false, ""), &mut || d(v.clone().$m()));
            run.eq("C16", stringify!($o), &t, expect(Some(v), $w, true, ""), &mut || d(v.clone().$o()));
            run.eq("C17", stringify!($o), &t, expect(Some(v), $w, true, ""), &mut || d(v.clone().$o()));
        )* } }
        own!("array", into_array, into_array_opt; "string", into_string, into_string_opt; "object", into_object, into_object_opt;
             "boolean", to_bool, to_bool_opt; "i64", to_i64, to_i64_opt; "u64", to_u64, to_u64_opt; "f64", to_f64, to_f64_opt; "number", to_number, to_number_opt);
    }
    // every value in a field, with neighbours; every name asked for
    for v in vs.iter() { for (k, name) in FIELDS.iter().enumerate() { for ask in FIELDS.iter() {
        let mut o: Object = BTreeMap::new();
        o.insert(name.to_string(), v.clone());
        o.insert(FIELDS[(k + 1) % 4].to_string(), vs[(k * 7 + 3) % vs.len()].clone());
        let t = format!("{:?} field {:?}", o, ask);
        macro_rules! get { ($($w:expr, $g:ident, $go:ident, $x:ident, $xo:ident);*) => { $(
            let got = o.get(*ask);
            run.eq("C15", stringify!($g), &t, expect(got, $w, false, ask), &mut || d(o.$g(ask)));
            run.eq("C16", stringify!($go), &t, expect(got, $w, true, ask), &mut || d(o.$go(ask)));
            let mut left = o.clone(); left.remove(*ask);
            let mut p = o.clone();
            run.eq("C17", stringify!($x), &t, expect(got, $w, false, ask), &mut || d(p.$x(ask)));
            if p != left { run.bad.push(Bad { label: "C17", value: t.clone(), op: stringify!($x).to_string(), expected: format!("left: {:?}", left), actual: format!("left: {:?}", p) }) }
            for l in ["C17", "C16"] {
                let mut p = o.clone();
                run.eq(l, stringify!($xo), &t, expect(got, $w, true, ask), &mut || d(p.$xo(ask)));
                if p != left { run.bad.push(Bad { label: "C17", value: t.clone(), op: stringify!($xo).to_string(), expected: format!("left: {:?}", left), actual: format!("left: {:?}", p) }) }
            }
        )* } }
        get!("string", get_string, get_string_opt, extract_string, extract_string_opt; "array", get_array, get_array_opt, extract_array, extract_array_opt;
             "object", get_object, get_object_opt, extract_object, extract_object_opt; "boolean", get_bool, get_bool_opt, extract_bool, extract_bool_opt;
             "i64", get_i64, get_i64_opt, extract_i64, extract_i64_opt; "u64", get_u64, get_u64_opt, extract_u64, extract_u64_opt;
             "f64", get_f64, get_f64_opt, extract_f64, extract_f64_opt; "number", get_number, get_number_opt, extract_number, extract_number_opt);
        let got = o.get(*ask);
        run.eq("C15", "get_field", &t, expect(got, "field", false, ask), &mut || d(o.get_field(ask)));
        let mut p = o.clone();
        run.eq("C17", "extract_field", &t, expect(got, "field", false, ask), &mut || d(p.extract_field(ask)));
        let mut left = o.clone(); left.remove(*ask);
        if p != left { run.bad.push(Bad { label: "C17", value: t.clone(), op: "extract_field".to_string(), expected: format!("left: {:?}", left), actual: format!("left: {:?}", p) }) }
    } } }
}
pub fn main() {
    let mut run = Run { n: 0, bad: vec![] };
    check(&mut run);
    let mut seen = BTreeSet::new();
    let mut arr = Vec::new();
    run.bad.sort_by_key(|b| b.value.len());
    for b in run.bad.iter() {
        if !seen.insert(b.label) { continue }
        arr.push(ObjectBuilder::new().insert("property", b.label).insert("labels", vec![b.label.to_string()]).insert("input", b.value.clone())
            .insert("ops", vec![b.op.clone()]).insert("expected", b.expected.clone()).insert("actual", b.actual.clone()).build());
    }
    let out = ObjectBuilder::new().insert("evaluations", run.n).insert("nontrivial", run.n).insert("mismatches", run.bad.len() as u64).insert("complete", true)
        .insert("samples", vec!["every accessor on 50 values and 1250 objects with every field name".to_string()]).insert("found", Value::Array(arr)).build();
    println!("{}", serde_json::to_string(&out).unwrap());
}
