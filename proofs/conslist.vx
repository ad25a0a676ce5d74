#use base.rs
#raw
//@root use std::rc::Rc;
//@root use std::cmp::Ordering;
//@root use vstd::std_specs::cmp::*;
use std::rc::Rc;
#end
#type conslist.rs Node subst=Option<Rc<Self>>=>Option<Rc<Node<T>>>
#type conslist.rs Iter
#type conslist.rs ConsList
#raw
/// the elements of a chain, front first
pub open spec fn cells<T>(n: Option<Rc<Node<T>>>) -> Seq<T> decreases n {
    match n { None => Seq::empty(), Some(c) => seq![c.elem] + cells(c.next) }
}
pub open spec fn cell<T>(n: Option<&Node<T>>) -> Seq<T> { match n { None => Seq::empty(), Some(c) => seq![c.elem] + cells(c.next) } }
pub open spec fn rcell<T>(n: Option<&Rc<Node<T>>>) -> Seq<T> { match n { None => Seq::empty(), Some(c) => seq![c.elem] + cells(c.next) } }
impl<T> ConsList<T> {
    pub open spec fn view(&self) -> Seq<T> { cells(self.front) }
    /// the recorded length is the number of elements
    pub open spec fn wf(&self) -> bool { self.length as int == self@.len() }
    /// what Iterator's provided methods see of `self.iter()`: next until None (iter and next are verified below)
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: VIter<&'a T>)
        requires self.wf(),
        ensures refs(r.v@, self@),
    { unimplemented!() }
}
/// lexicographic order
pub open spec fn lex<T: PartialOrd>(a: Seq<T>, b: Seq<T>) -> Option<std::cmp::Ordering> decreases a.len() {
    if a.len() == 0 && b.len() == 0 { Some(std::cmp::Ordering::Equal) }
    else if a.len() == 0 { Some(std::cmp::Ordering::Less) }
    else if b.len() == 0 { Some(std::cmp::Ordering::Greater) }
    else { match a[0].partial_cmp_spec(&b[0]) { Some(std::cmp::Ordering::Equal) => lex(a.skip(1), b.skip(1)), o => o } }
}
/// Rc::try_unwrap: what is in it when nobody else holds it, itself otherwise
#[verifier::external_body] pub fn vx_try_unwrap<T>(x: Rc<T>) -> (r: Result<T, Rc<T>>) ensures r is Ok ==> r->Ok_0 == *x, r is Err ==> r->Err_0 == x { unimplemented!() }
pub open spec fn refs<T>(v: Seq<&T>, s: Seq<T>) -> bool { v.len() == s.len() && forall|i: int| #![trigger v[i]] #![trigger s[i]] 0 <= i < s.len() ==> *v[i] == s[i] }
impl<'a, T> Iter<'a, T> {
    pub open spec fn rest(&self) -> Seq<T> { cell(self.head) }
    pub open spec fn wf(&self) -> bool { self.nelem as int == self.rest().len() }
}
pub mod vx_none { use super::*; use vstd::prelude::*; pub broadcast proof fn ax_none(n: nat) ensures #[trigger] (n + 0) == n {} }
pub trait VxDeref<T> { fn vx_as_deref<'a>(&'a self) -> Option<&'a T>; }
impl<T> VxDeref<T> for Option<Rc<T>> {
    fn vx_as_deref<'a>(&'a self) -> (r: Option<&'a T>)
        ensures r is Some == self is Some, self is Some ==> *r.unwrap() == *self.unwrap(),
    { match self { Some(x) => Some(&**x), None => None } }
}
pub trait VxCloneRc: Sized { fn vx_clone_rc(&self) -> (r: Self) ensures r == *self; }
impl<T> VxCloneRc for Option<Rc<T>> { fn vx_clone_rc(&self) -> (r: Self) { match self { Some(x) => Some(x.clone()), None => None } } }
pub trait VxIntoRc: Sized { fn vx_into_rc(self) -> (r: Rc<Self>) ensures *r == self; }
impl<T> VxIntoRc for Node<T> { fn vx_into_rc(self) -> (r: Rc<Self>) { Rc::new(self) } }
#end
#props P09
#fn conslist.rs Node::new
@ret r
@spec
    ensures r.elem == elem, r.next == next,
#end
#fn conslist.rs ConsList<Default>::default
@ret r
@spec
    ensures r.wf(), r@ == Seq::<T>::empty(),
#end
#fn conslist.rs ConsList::new
@ret r
@spec
    ensures r.wf(), r@ == Seq::<T>::empty(),
#end
#fn conslist.rs ConsList::append
@ret r
@spec
    // a list has a heap cell per element, so this holds at every call
    requires self.wf(), self@.len() < usize::MAX,
    ensures r.wf(), r@ =~= seq![elem] + self@,
@callren .into vx_into_rc
@callren .clone vx_clone_rc
#end
#fn conslist.rs ConsList::head
@ret r
@spec
    ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 },
@closure 0
|$0: &Rc<Node<T>>| -> (o: &T)
    ensures *o == $0.elem
#end
#fn conslist.rs ConsList::tail
@ret r
@spec
    requires self.wf(),
    ensures r.wf(), r@ =~= (if self@.len() == 0 { Seq::empty() } else { self@.skip(1) }),
#end
#fn conslist.rs ConsList::tailn
@ret r
@spec
    requires self.wf(),
    ensures r.wf(), r@ =~= (if n >= self@.len() { Seq::empty() } else { self@.skip(n as int) }),
@loop 0
    invariant self.wf(), vx_all0.len() == n, n < self.length, rcell(head) =~= self@.skip(vx_n0),
@loopentry 0
    let ghost h0 = head;
    let ghost r0 = rcell(head);
    proof { assert(r0.len() > 0); }
@loopexit 0
    proof { assert(rcell(head) =~= cells(h0.unwrap().next)); assert(cells(h0.unwrap().next) =~= r0.skip(1)); }
#end
#fn conslist.rs ConsList::last
@ret r
@spec
    requires self.wf(),
    ensures match r { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 },
#end
#fn conslist.rs ConsList::lastn
@ret r
@spec
    requires self.wf(),
    ensures r.wf(), r@ =~= (if n >= self@.len() { self@ } else { self@.skip(self@.len() - n) }),
#end
#fn conslist.rs ConsList::iter
@noren iter
@ret r
@spec
    requires self.wf(),
    ensures r.wf(), r.rest() == self@,
@callren .as_deref vx_as_deref
#end
#fn conslist.rs ConsList::len
@ret r
@spec
    ensures r == self.length, self.wf() ==> r == self@.len(),
#end
#fn conslist.rs ConsList::is_empty
@ret r
@spec
    requires self.wf(),
    ensures r == (self@.len() == 0),
#end
#fn conslist.rs ConsList<Clone>::clone
@ret r
@spec
    ensures r@ == self@, r.length == self.length,
@callren .clone vx_clone_rc
#end
#fn conslist.rs Iter<Iterator>::next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), match r { Some(x) => old(self).rest().len() > 0 && *x == old(self).rest()[0] && final(self).rest() =~= old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest().len() == 0 },
@callren .as_deref vx_as_deref
#end
#fn conslist.rs Iter<Iterator>::size_hint
@ret r
@spec
    requires self.wf(),
    ensures r.0 == self.rest().len(), r.1 == Some(r.0),
#end
#fn conslist.rs ConsList<FromIterator>::from_iter
@ret r
@spec
    requires iter.vx_seq().len() < usize::MAX,
    ensures r.wf(), r@ =~= iter.vx_seq().reverse(),
@entry
    let ghost s = iter.vx_seq();
@loop 0
    invariant s.len() < usize::MAX, vx_all0 == s, list.wf(), list@ =~= s.take(vx_n0).reverse(),
@loopexit 0
    proof { assert(s.take(vx_n0).drop_last() =~= s.take(vx_n0 - 1)); }
@tail
    proof { assert(s.take(s.len() as int) =~= s); }
#end
#fn conslist.rs ConsList<PartialEq>::eq
@ret r
@spec
    requires self.wf(), other.wf(), <T as PartialEqSpec>::obeys_eq_spec(),
    ensures r == (self@.len() == other@.len() && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i].eq_spec(&other@[i])),
@closure 0
|$0: (&T, &T)| -> (o: bool)
    ensures o == $0.0.eq_spec($0.1)
#end
#fn conslist.rs ConsList<IntoIterator>::into_iter
@ret r
@spec
    requires self.wf(),
    ensures r.wf(), r.rest() == self@,
@noren iter
#end
#fn conslist.rs ConsList<PartialOrd>::partial_cmp
@ret r
@spec
    requires self.wf(), other.wf(), <T as PartialOrdSpec>::obeys_partial_cmp_spec(),
    ensures r == lex(self@, other@),
@noren iter
@loop 0
    invariant a.wf(), b.wf(), <T as PartialOrdSpec>::obeys_partial_cmp_spec(), lex(a.rest(), b.rest()) == lex(self@, other@),
    decreases a.rest().len(),
#end
#fn conslist.rs ConsList<Drop>::drop as=drop_cells
@spec
    ensures true,
@loop 0
    decreases cells(head).len(),
@callren Rc::try_unwrap vx_try_unwrap
#end
