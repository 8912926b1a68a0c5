// ================================================================ JSON values
// What a JSON value is as each of the types it can be asked for.
spec fn v_ty(v: Value) -> Ty {
    match v {
        Value::Null => Ty::Null, Value::Bool(_) => Ty::Boolean, Value::String(_) => Ty::String,
        Value::I64(_) => Ty::Number, Value::U64(_) => Ty::Number, Value::F64(_) => Ty::Number,
        Value::Array(_) => Ty::Array, Value::Object(_) => Ty::Object,
    }
}
spec fn v_bool(v: Value) -> Option<bool> { match v { Value::Bool(b) => Some(b), _ => None } }
spec fn v_i64(v: Value) -> Option<i64> {
    match v { Value::I64(n) => Some(n), Value::U64(n) => if n <= i64::MAX as u64 { Some(n as i64) } else { None }, _ => None }
}
spec fn v_u64(v: Value) -> Option<u64> {
    match v { Value::U64(n) => Some(n), Value::I64(n) => if n >= 0 { Some(n as u64) } else { None }, _ => None }
}
spec fn v_f64(v: Value) -> Option<f64> {
    match v { Value::I64(n) => Some(f64_of_i64(n)), Value::U64(n) => Some(f64_of_u64(n)), Value::F64(n) => Some(n), _ => None }
}
spec fn v_str(v: Value) -> Option<String> { match v { Value::String(s) => Some(s), _ => None } }
spec fn v_arr(v: Value) -> Option<Vec<Value>> { match v { Value::Array(a) => Some(a), _ => None } }
spec fn v_obj(v: Value) -> Option<BTreeMap<String, Value>> { match v { Value::Object(o) => Some(o), _ => None } }

// the error for a value of the wrong type: what was wanted, what was found
spec fn names(e: Error, want: Seq<char>, v: Value) -> bool {
    e matches Error::TypeMismatch(x, t) && (x@ == want || x@ == want + " or null"@) && t == v_ty(v)
}
// a conversion that either yields what the value is, or reports the mismatch
spec fn conv<T>(r: std::result::Result<T, Error>, is: Option<T>, want: Seq<char>, v: Value) -> bool {
    match is { Some(x) => r == std::result::Result::<T, Error>::Ok(x), None => r matches Err(e) && names(e, want, v) }
}
// the optional form: null is absence
spec fn conv_opt<T>(r: std::result::Result<Option<T>, Error>, is: Option<T>, want: Seq<char>, v: Value) -> bool {
    if v is Null { r == std::result::Result::<Option<T>, Error>::Ok(None) }
    else { match is { Some(x) => r == std::result::Result::<Option<T>, Error>::Ok(Some(x)), None => r matches Err(e) && names(e, want, v) } }
}
spec fn missing<T>(r: std::result::Result<T, Error>, name: &str) -> bool {
    r matches Err(e) && e matches Error::MissingField(n) && n@ == name@
}
// a result by reference, as the value it points at
spec fn deref<T>(r: std::result::Result<&T, Error>) -> std::result::Result<T, Error> {
    match r { Ok(x) => Ok(*x), Err(e) => Err(e) }
}
spec fn deref_opt<T>(r: std::result::Result<Option<&T>, Error>) -> std::result::Result<Option<T>, Error> {
    match r { Ok(Some(x)) => Ok(Some(*x)), Ok(None) => Ok(None), Err(e) => Err(e) }
}
spec fn str_conv(r: std::result::Result<&str, Error>, v: Value) -> bool {
    match v { Value::String(s) => r matches Ok(x) && x@ == s@, _ => r matches Err(e) && names(e, "string"@, v) }
}
spec fn str_conv_opt(r: std::result::Result<Option<&str>, Error>, v: Value) -> bool {
    match v { Value::Null => r matches Ok(None), Value::String(s) => r matches Ok(Some(x)) && x@ == s@, _ => r matches Err(e) && names(e, "string"@, v) }
}
