//@root pub use vx_pre::Map;
// ---- serde_json stand-ins: Value has the real variants, Number the real three representations,
// ---- Map is the list of its entries in iteration order (keys are distinct: see value_wf)
pub enum N { PosInt(u64), NegInt(i64), Float(f64) }
pub struct Number { pub n: N }
pub open spec fn num_is_int(x: Number) -> bool { !(x.n is Float) }
pub open spec fn num_int(x: Number) -> int { match x.n { N::PosInt(v) => v as int, N::NegInt(v) => v as int, N::Float(_) => 0 } }
pub open spec fn num_f64(x: Number) -> f64 { match x.n { N::PosInt(v) => i2f(v as int), N::NegInt(v) => i2f(v as int), N::Float(f) => f } }
impl Number {
    pub fn is_i64(&self) -> (r: bool) ensures r == (num_is_int(*self) && num_int(*self) <= i64::MAX)
    { match self.n { N::PosInt(v) => v <= i64::MAX as u64, N::NegInt(_) => true, N::Float(_) => false } }
    pub fn is_u64(&self) -> (r: bool) ensures r == (self.n is PosInt)
    { match self.n { N::PosInt(_) => true, _ => false } }
    pub fn is_f64(&self) -> (r: bool) ensures r == !num_is_int(*self)
    { match self.n { N::Float(_) => true, _ => false } }
    pub fn as_i64(&self) -> (r: Option<i64>)
        ensures r is Some <==> (num_is_int(*self) && num_int(*self) <= i64::MAX), r is Some ==> r.unwrap() == num_int(*self)
    { match self.n { N::PosInt(v) => if v <= i64::MAX as u64 { Some(v as i64) } else { None }, N::NegInt(v) => Some(v), N::Float(_) => None } }
    pub fn as_u64(&self) -> (r: Option<u64>)
        ensures r is Some <==> (num_is_int(*self) && num_int(*self) >= 0), r is Some ==> r.unwrap() == num_int(*self)
    { match self.n { N::PosInt(v) => Some(v), N::NegInt(v) => if v >= 0 { Some(v as u64) } else { None }, N::Float(_) => None } }
    pub fn as_f64(&self) -> (r: Option<f64>) ensures r == Some(num_f64(*self))
    { match self.n { N::PosInt(v) => Some(vx_as_f64(v)), N::NegInt(v) => Some(vx_as_f64(v)), N::Float(f) => Some(f) } }
}
// allocations are limited to isize::MAX bytes
pub mod vx_ax_len { use super::*; pub broadcast axiom fn ax_value_vec_len(v: Vec<Value>) ensures #[trigger] v@.len() <= i64::MAX;
    pub broadcast axiom fn ax_map_vec_len(v: Vec<(String, Value)>) ensures #[trigger] v@.len() <= i64::MAX;
    pub broadcast axiom fn ax_chars_len(v: Vec<char>) ensures #[trigger] v@.len() <= i64::MAX;
    pub broadcast group group_len { ax_value_vec_len, ax_map_vec_len, ax_chars_len } }
pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(Map) }
pub struct Map { pub e: Vec<(String, Value)> }

/// position of the entry with key k, or -1
pub open spec fn mfind(e: Seq<(String, Value)>, k: Seq<char>) -> int decreases e.len() {
    if e.len() == 0 { -1 } else {
        let p = mfind(e.drop_last(), k);
        if p >= 0 { p } else if e.last().0@ == k { e.len() - 1 } else { -1 }
    }
}
pub proof fn lemma_mfind(e: Seq<(String, Value)>, k: Seq<char>)
    ensures -1 <= mfind(e, k) < e.len(),
        mfind(e, k) >= 0 ==> e[mfind(e, k)].0@ == k && forall|j: int| 0 <= j < mfind(e, k) ==> (#[trigger] e[j]).0@ != k,
        mfind(e, k) < 0 ==> forall|j: int| 0 <= j < e.len() ==> (#[trigger] e[j]).0@ != k,
    decreases e.len()
{ if e.len() > 0 { lemma_mfind(e.drop_last(), k); let p = mfind(e.drop_last(), k); assert forall|j: int| 0 <= j < e.len() && p < 0 && e.last().0@ != k implies (#[trigger] e[j]).0@ != k by { if j < e.len() - 1 { assert(e.drop_last()[j] == e[j]); } }
    if p >= 0 { assert forall|j: int| 0 <= j < p implies (#[trigger] e[j]).0@ != k by { assert(e.drop_last()[j] == e[j]); } }
    else { assert forall|j: int| 0 <= j < e.len() - 1 implies (#[trigger] e[j]).0@ != k by { assert(e.drop_last()[j] == e[j]); } } } }
pub proof fn lemma_mfind_is(e: Seq<(String, Value)>, k: Seq<char>, i: int)
    requires 0 <= i < e.len(), e[i].0@ == k, forall|j: int| 0 <= j < i ==> (#[trigger] e[j]).0@ != k,
    ensures mfind(e, k) == i,
{ lemma_mfind(e, k); }
/// keys of objects are distinct, at every level
pub open spec fn value_wf(v: Value) -> bool decreases v {
    match v {
        Value::Array(a) => forall|i: int| 0 <= i < a@.len() ==> value_wf(#[trigger] a@[i]),
        Value::Object(m) => (forall|i: int| 0 <= i < m.e@.len() ==> value_wf((#[trigger] m.e@[i]).1))
            && (forall|i: int, j: int| 0 <= i < j < m.e@.len() ==> (#[trigger] m.e@[i]).0@ != (#[trigger] m.e@[j]).0@),
        _ => true,
    }
}
impl Map {
    pub fn get(&self, k: &String) -> (r: Option<&Value>)
        ensures mfind(self.e@, k@) < 0 ==> r is None,
            mfind(self.e@, k@) >= 0 ==> r is Some && *r.unwrap() == self.e@[mfind(self.e@, k@)].1 && 0 <= mfind(self.e@, k@) < self.e@.len()
    { match self.get_key_value(k) { Some((_, v)) => Some(v), None => None } }
    pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == (mfind(self.e@, k@) >= 0)
    { self.get_key_value(k).is_some() }
    pub fn get_key_value(&self, k: &String) -> (r: Option<(&String, &Value)>)
        ensures mfind(self.e@, k@) < 0 ==> r is None,
            mfind(self.e@, k@) >= 0 ==> r is Some && *r.unwrap().0 == self.e@[mfind(self.e@, k@)].0 && *r.unwrap().1 == self.e@[mfind(self.e@, k@)].1
                && r.unwrap().0@ == k@ && 0 <= mfind(self.e@, k@) < self.e@.len()
    {
        let mut i: usize = 0;
        while i < self.e.len()
            invariant 0 <= i <= self.e.len(), forall|j: int| 0 <= j < i ==> (#[trigger] self.e@[j]).0@ != k@,
            decreases self.e.len() - i
        {
            if self.e[i].0 == *k { proof { lemma_mfind_is(self.e@, k@, i as int); } return Some((&self.e[i].0, &self.e[i].1)); }
            i += 1;
        }
        proof { lemma_mfind(self.e@, k@); }
        None
    }
    pub fn len(&self) -> (r: usize) ensures r == self.e@.len() { self.e.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.e@.len() == 0) { self.e.len() == 0 }
    pub fn vx_iter<'a>(&'a self) -> (r: VIter<(&'a String, &'a Value)>)
        ensures r.v@.len() == self.e@.len(), forall|i: int| #![trigger r.v@[i]] #![trigger self.e@[i]] 0 <= i < r.v@.len() ==> *(r.v@[i]).0 == self.e@[i].0 && *r.v@[i].1 == self.e@[i].1
    {
        let mut out: Vec<(&'a String, &'a Value)> = Vec::new();
        let mut i: usize = 0;
        while i < self.e.len()
            invariant 0 <= i <= self.e.len(), out.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] out@[j]).0 == self.e@[j].0 && *out@[j].1 == self.e@[j].1
            decreases self.e.len() - i
        { out.push((&self.e[i].0, &self.e[i].1)); i += 1; }
        VIter { v: out }
    }
    pub fn values<'a>(&'a self) -> (r: VIter<&'a Value>)
        ensures r.v@.len() == self.e@.len(), forall|i: int| #![trigger r.v@[i]] #![trigger self.e@[i]] 0 <= i < r.v@.len() ==> *(r.v@[i]) == self.e@[i].1
    {
        let mut out: Vec<&'a Value> = Vec::new();
        let mut i: usize = 0;
        while i < self.e.len()
            invariant 0 <= i <= self.e.len(), out.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] out@[j]) == self.e@[j].1
            decreases self.e.len() - i
        { out.push(&self.e[i].1); i += 1; }
        VIter { v: out }
    }
}
impl<'a> VxSeq for &'a Map { type Item = (&'a String, &'a Value);
    open spec fn vx_seq(self) -> Seq<(&'a String, &'a Value)> { Seq::new(self.e@.len(), |i: int| (&self.e@[i].0, &self.e@[i].1)) }
    fn vx_vec(self) -> (r: Vec<(&'a String, &'a Value)>) { let r = self.vx_iter().v; proof { assert(r@ =~= self.vx_seq()); } r } }
impl<'a, T> VxSeq for &'a Vec<T> { type Item = &'a T;
    open spec fn vx_seq(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    fn vx_vec(self) -> (r: Vec<&'a T>) { let r = self.vx_iter().v; proof { assert(r@ =~= self.vx_seq()); } r } }
impl Value {
    pub fn as_array(&self) -> (r: Option<&Vec<Value>>)
        ensures match *self { Value::Array(a) => r == Some(&a), _ => r is None }
    { match self { Value::Array(a) => Some(a), _ => None } }
    pub fn as_object(&self) -> (r: Option<&Map>)
        ensures match *self { Value::Object(m) => r == Some(&m), _ => r is None }
    { match self { Value::Object(m) => Some(m), _ => None } }
    pub fn get(&self, k: &String) -> (r: Option<&Value>)
        ensures match *self {
            Value::Object(m) => if mfind(m.e@, k@) < 0 { r is None } else { r is Some && *r.unwrap() == m.e@[mfind(m.e@, k@)].1 && m.e@[mfind(m.e@, k@)].0@ == k@ && 0 <= mfind(m.e@, k@) < m.e@.len() },
            _ => r is None }
    { match self { Value::Object(m) => { proof { lemma_mfind(m.e@, k@); } m.get(k) } _ => None } }
    pub fn is_array(&self) -> (r: bool) ensures r == (*self is Array) { match self { Value::Array(_) => true, _ => false } }
    pub fn is_object(&self) -> (r: bool) ensures r == (*self is Object) { match self { Value::Object(_) => true, _ => false } }
}
// PartialEq of serde_json::Value, as far as it is relied on
pub uninterp spec fn vx_serde_eq(a: Value, b: Value) -> bool;
impl PartialEqSpecImpl for Value {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Value) -> bool {
        match (*self, *o) {
            (Value::Null, Value::Null) => true,
            (Value::Bool(a), Value::Bool(b)) => a == b,
            (Value::String(a), Value::String(b)) => a@ == b@,
            (Value::Number(_), Value::Number(_)) | (Value::Array(_), Value::Array(_)) | (Value::Object(_), Value::Object(_)) => vx_serde_eq(*self, *o),
            _ => false,
        }
    }
}
impl PartialEq for Value {
    #[verifier::external_body]
    fn eq(&self, o: &Value) -> bool { unimplemented!() }
}
