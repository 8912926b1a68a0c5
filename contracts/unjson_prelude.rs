// Stand-ins for serde_json 0.8 and std.  external_body / assume_specification /
// uninterp items are trusted.

// std::collections::BTreeMap keyed by strings
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct BTreeMap<K, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
impl<V> BTreeMap<String, V> {
    uninterp spec fn view(&self) -> vstd::map::Map<Seq<char>, V>;
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&V>)
        ensures self@.contains_key(k@) ==> r is Some && *r->0 == self@[k@],
                !self@.contains_key(k@) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &str) -> (r: Option<V>)
        ensures old(self)@.contains_key(k@) ==> r == Some(old(self)@[k@]),
                !old(self)@.contains_key(k@) ==> r is None,
                final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
}

// serde_json::value::Value, its data and the accessors this crate calls
enum Value {
    Null,
    Bool(bool),
    I64(i64),
    U64(u64),
    F64(f64),
    String(String),
    Array(Vec<Value>),
    Object(BTreeMap<String, Value>),
}
pub uninterp spec fn f64_of_i64(n: i64) -> f64;
pub uninterp spec fn f64_of_u64(n: u64) -> f64;
impl Value {
    #[verifier::external_body]
    fn as_str(&self) -> (r: Option<&str>)
        ensures match *self { Value::String(s) => r is Some && r->0@ == s@, _ => r is None } { unimplemented!() }
    #[verifier::external_body]
    fn as_array(&self) -> (r: Option<&Vec<Value>>)
        ensures match *self { Value::Array(a) => r is Some && *r->0 == a, _ => r is None } { unimplemented!() }
    #[verifier::external_body]
    fn as_object(&self) -> (r: Option<&BTreeMap<String, Value>>)
        ensures match *self { Value::Object(o) => r is Some && *r->0 == o, _ => r is None } { unimplemented!() }
    #[verifier::external_body]
    fn as_bool(&self) -> (r: Option<bool>)
        ensures r == v_bool(*self) { unimplemented!() }
    #[verifier::external_body]
    fn as_i64(&self) -> (r: Option<i64>)
        ensures r == v_i64(*self) { unimplemented!() }
    #[verifier::external_body]
    fn as_u64(&self) -> (r: Option<u64>)
        ensures r == v_u64(*self) { unimplemented!() }
    #[verifier::external_body]
    fn as_f64(&self) -> (r: Option<f64>)
        ensures r == v_f64(*self) { unimplemented!() }
    #[verifier::external_body]
    fn is_null(&self) -> (r: bool) ensures r == (*self is Null) { unimplemented!() }
}
// `n as f64`
trait VpF64: Sized { spec fn as_f(self) -> f64; fn vp_f64(self) -> (r: f64) ensures r == self.as_f(); }
impl VpF64 for i64 {
    spec fn as_f(self) -> f64 { f64_of_i64(self) }
    #[verifier::external_body]
    fn vp_f64(self) -> (r: f64) { self as f64 }
}
impl VpF64 for u64 {
    spec fn as_f(self) -> f64 { f64_of_u64(self) }
    #[verifier::external_body]
    fn vp_f64(self) -> (r: f64) { self as f64 }
}
