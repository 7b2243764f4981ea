// ---- std collections ------------------------------------------------------------------------
// VMap<K, V> stands for BTreeMap and HashMap, VSet<T> for BTreeSet, VHSet<T> for HashSet.  Keys
// are viewed as the values Ord / Hash+Eq identify them by.
pub mod vxcoll {
use super::vxp::*;
use vstd::prelude::*;
use vstd::string::*;
use core::cmp::Ordering;
verus! {
/// a key, by what Eq / Ord of its type see
pub trait VxKey { type K; spec fn k(&self) -> Self::K; }
impl VxKey for String { type K = Seq<char>; open spec fn k(&self) -> Seq<char> { self@ } }
impl VxKey for str { type K = Seq<char>; open spec fn k(&self) -> Seq<char> { self@ } }
impl<T: VxKey + ?Sized> VxKey for &T { type K = T::K; open spec fn k(&self) -> T::K { (**self).k() } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VMap<K, V> { _p: core::marker::PhantomData<(K, V)> }
impl<K: VxKey, V> View for VMap<K, V> { type V = Map<K::K, V>; uninterp spec fn view(&self) -> Map<K::K, V>; }
impl<K: Clone, V: Clone> Clone for VMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn str_le(a: Seq<char>, b: Seq<char>) -> bool { str_order(a, b) != Ordering::Greater }
pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool { str_order(a, b) == Ordering::Less }
/// e lists the entries of m whose key satisfies p, each once
pub open spec fn lists<'a, K: VxKey, V>(e: Seq<(&'a K, &'a V)>, m: Map<K::K, V>, p: spec_fn(K::K) -> bool) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> m.dom().contains((#[trigger] e[i]).0.k()) && *e[i].1 == m[e[i].0.k()] && p(e[i].0.k())
    &&& forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> (#[trigger] e[i]).0.k() != (#[trigger] e[j]).0.k()
    &&& forall|k: K::K| #[trigger] m.dom().contains(k) && p(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == k
}
pub open spec fn lists_all<'a, K: VxKey, V>(e: Seq<(&'a K, &'a V)>, m: Map<K::K, V>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> m.dom().contains((#[trigger] e[i]).0.k()) && *e[i].1 == m[e[i].0.k()]
    &&& forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> (#[trigger] e[i]).0.k() != (#[trigger] e[j]).0.k()
    &&& forall|k: K::K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == k
}
pub proof fn lemma_listed<'a, K: VxKey, V>(e: Seq<(&'a K, &'a V)>, m: Map<K::K, V>, k: K::K) requires lists_all::<K, V>(e, m), m.dom().contains(k) ensures exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == k {}
pub open spec fn ascending<'a, V>(e: Seq<(&'a String, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> str_lt((#[trigger] e[i]).0@, (#[trigger] e[j]).0@) }
impl<K: VxKey, V> VMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key<Q: VxKey<K = K::K> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self@.dom().contains(q.k()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.k(), v), r == (if old(self)@.dom().contains(k.k()) { Some(old(self)@[k.k()]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn remove<Q: VxKey<K = K::K> + ?Sized>(&mut self, q: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(q.k()), r == (if old(self)@.dom().contains(q.k()) { Some(old(self)@[q.k()]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn get<'a, Q: VxKey<K = K::K> + ?Sized>(&'a self, q: &Q) -> (r: Option<&'a V>)
        ensures match r { None => !self@.dom().contains(q.k()), Some(v) => self@.dom().contains(q.k()) && *v == self@[q.k()] } { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<'a, Q: VxKey<K = K::K> + ?Sized>(&'a mut self, q: &Q) -> (r: Option<&'a mut V>)
        ensures match r { None => !old(self)@.dom().contains(q.k()) && final(self)@ == old(self)@, Some(v) => old(self)@.dom().contains(q.k()) && *v == old(self)@[q.k()] && final(self)@ == old(self)@.insert(q.k(), *final(v)) } { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<K::K>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] pub fn vx_iter<'a>(&'a self) -> (r: VIter<(&'a K, &'a V)>) ensures lists::<K, V>(r@, self@, |k: K::K| true) { unimplemented!() }
    #[verifier::external_body] pub fn values<'a>(&'a self) -> (r: VIter<&'a V>) ensures exists|e: Seq<(&'a K, &'a V)>| #[trigger] lists_all::<K, V>(e, self@) && r@ == e.map_values(|x: (&'a K, &'a V)| x.1),
        forall|i: int| 0 <= i < r@.len() ==> exists|k: K::K| #[trigger] self@.dom().contains(k) && self@[k] == *(#[trigger] r@[i]), forall|k: K::K| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == self@[k] { unimplemented!() }
    /// entry(k).or_default()
    #[verifier::external_body] pub fn vx_entry_or_default<'a>(&'a mut self, k: K) -> (r: &'a mut V) where V: VxDefault
        ensures *r == (if old(self)@.dom().contains(k.k()) { old(self)@[k.k()] } else { *r }), !old(self)@.dom().contains(k.k()) ==> r.is_default(), final(self)@ == old(self)@.insert(k.k(), *final(r)) { unimplemented!() }
}
impl<K: VxKey, V> VxIntoIterator for VMap<K, V> {
    type Item = (K, V);
    uninterp spec fn items(self) -> Seq<(K, V)>;
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<(K, V)>) { unimplemented!() /* self.into_iter() */ }
}
/// the entries of a map taken apart, each once
pub broadcast axiom fn ax_map_items<K: VxKey, V>(m: VMap<K, V>)
    ensures ({ let e = #[trigger] m.items();
        &&& forall|i: int| 0 <= i < e.len() ==> m@.dom().contains((#[trigger] e[i]).0.k()) && e[i].1 == m@[e[i].0.k()]
        &&& forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> (#[trigger] e[i]).0.k() != (#[trigger] e[j]).0.k()
        &&& forall|k: K::K| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == k });
impl<'a, K: VxKey, V> VxIntoIterator for &'a VMap<K, V> {
    type Item = (&'a K, &'a V);
    uninterp spec fn items(self) -> Seq<(&'a K, &'a V)>;
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<(&'a K, &'a V)>) { unimplemented!() /* self.into_iter() */ }
}
pub broadcast axiom fn ax_map_ref_items<'a, K: VxKey, V>(m: &'a VMap<K, V>)
    ensures lists::<K, V>(#[trigger] m.items(), m@, |k: K::K| true);

/// the map of these entries: every key given, with the last value given for it
pub open spec fn map_of<K: VxKey, V>(e: Seq<(K, V)>, m: Map<K::K, V>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> m.dom().contains((#[trigger] e[i]).0.k())
    &&& forall|k: K::K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == k && m[k] == e[i].1 && forall|j: int| i < j < e.len() ==> (#[trigger] e[j]).0.k() != k
}
impl<K: VxKey, V> VxFromIter<(K, V)> for VMap<K, V> { open spec fn from_seq(s: Seq<(K, V)>, r: Self) -> bool { map_of(s, r@) } }
pub open spec fn oks<T, E>(s: Seq<core::result::Result<T, E>>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i]->Ok_0) }
impl<K: VxKey, V, E> VxFromIter<core::result::Result<(K, V), E>> for core::result::Result<VMap<K, V>, E> {
    open spec fn from_seq(s: Seq<core::result::Result<(K, V), E>>, r: Self) -> bool {
        match r { Ok(m) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok && oks(s)[i] == s[i]->Ok_0) && map_of(oks(s), m@), Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<(K, V), E>(e) } }
}

/// HashSet: at most one element of each class of elements that are equal; viewed by key
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VHSet<T> { _p: core::marker::PhantomData<T> }
impl<T: VxKey> View for VHSet<T> { type V = Map<T::K, T>; uninterp spec fn view(&self) -> Map<T::K, T>; }
impl<T: Clone> Clone for VHSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub broadcast axiom fn ax_hset_keys<T: VxKey>(s: VHSet<T>, k: T::K) ensures #[trigger] s@.dom().contains(k) ==> s@[k].k() == k;
pub open spec fn hset_add<T: VxKey>(s: Map<T::K, T>, x: T) -> Map<T::K, T> { if s.dom().contains(x.k()) { s } else { s.insert(x.k(), x) } }
pub open spec fn hset_add_all<T: VxKey>(s: Map<T::K, T>, xs: Seq<T>) -> Map<T::K, T> decreases xs.len() { if xs.len() == 0 { s } else { hset_add(hset_add_all(s, xs.drop_last()), xs.last()) } }
pub open spec fn hset_lists<T: VxKey>(e: Seq<T>, m: Map<T::K, T>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> m.dom().contains((#[trigger] e[i]).k()) && e[i] == m[e[i].k()]
    &&& forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> (#[trigger] e[i]).k() != (#[trigger] e[j]).k()
    &&& forall|k: T::K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).k() == k
}
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
impl<T: VxKey> VHSet<T> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<T::K, T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains<Q: VxKey<K = T::K> + ?Sized>(&self, x: &Q) -> (r: bool) ensures r == self@.dom().contains(x.k()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == hset_add(old(self)@, x), r == !old(self)@.dom().contains(x.k()) { unimplemented!() }
    #[verifier::external_body] pub fn replace(&mut self, x: T) -> (r: Option<T>) ensures final(self)@ == old(self)@.insert(x.k(), x), r == (if old(self)@.dom().contains(x.k()) { Some(old(self)@[x.k()]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn take(&mut self, x: &T) -> (r: Option<T>)
        ensures final(self)@ == old(self)@.remove(x.k()), r == (if old(self)@.dom().contains(x.k()) { Some(old(self)@[x.k()]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, x: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(x.k()), r == old(self)@.dom().contains(x.k()) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<T::K>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn extend<I: VxIntoIterator<Item = T>>(&mut self, it: I) ensures final(self)@ == hset_add_all(old(self)@, it.items()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_iter<'a>(&'a self) -> (r: VIter<&'a T>) ensures hset_lists(derefs(r@), self@) { unimplemented!() }
    #[verifier::external_body] pub fn difference<'a>(&'a self, o: &'a VHSet<T>) -> (r: VIter<&'a T>) ensures hset_lists(derefs(r@), self@.remove_keys(o@.dom())) { unimplemented!() }
}
impl<T: VxKey> VxFromIter<T> for VHSet<T> { open spec fn from_seq(s: Seq<T>, r: Self) -> bool { r@ == hset_add_all(Map::<T::K, T>::empty(), s) } }
impl<T: VxKey> VxIntoIterator for VHSet<T> {
    type Item = T;
    uninterp spec fn items(self) -> Seq<T>;
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<T>) { unimplemented!() /* self.into_iter() */ }
}
pub broadcast axiom fn ax_hset_items<T: VxKey>(m: VHSet<T>) ensures hset_lists(#[trigger] m.items(), m@);
impl<V> VMap<String, V> {
    // BTreeMap<String, V>::range in its shapes
    #[verifier::external_body] pub fn vx_range_to_incl<'a>(&'a self, x: &String) -> (r: VIter<(&'a String, &'a V)>) ensures lists::<String, V>(r@, self@, |k: Seq<char>| str_le(k, x@)), ascending(r@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_range_to<'a>(&'a self, x: &String) -> (r: VIter<(&'a String, &'a V)>) ensures lists::<String, V>(r@, self@, |k: Seq<char>| str_lt(k, x@)), ascending(r@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_range_from<'a>(&'a self, x: &String) -> (r: VIter<(&'a String, &'a V)>) ensures lists::<String, V>(r@, self@, |k: Seq<char>| str_le(x@, k)), ascending(r@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_range_mut_to_incl<'a>(&'a mut self, x: &String) -> (r: VMutRange<'a, V>) ensures r.map@ == old(self)@, *final(r.map) == *final(self), r.bound@ == x@, r.incl { unimplemented!() }
    #[verifier::external_body] pub fn vx_range_mut_to<'a>(&'a mut self, x: &String) -> (r: VMutRange<'a, V>) ensures r.map@ == old(self)@, *final(r.map) == *final(self), r.bound@ == x@, !r.incl { unimplemented!() }
}
/// `range_mut(..x)`, of which only the last entry is taken
pub struct VMutRange<'a, V> { pub map: &'a mut VMap<String, V>, pub bound: String, pub incl: bool }
pub open spec fn in_bound(k: Seq<char>, b: Seq<char>, incl: bool) -> bool { if incl { str_le(k, b) } else { str_lt(k, b) } }
impl<'a, V> VMutRange<'a, V> {
    #[verifier::external_body] pub fn next_back(self) -> (r: Option<(&'a String, &'a mut V)>)
        ensures match r {
            None => final(self.map)@ == old(self.map)@ && (forall|k: Seq<char>| #[trigger] old(self.map)@.dom().contains(k) ==> !in_bound(k, self.bound@, self.incl)),
            Some((k, v)) => old(self.map)@.dom().contains(k@) && in_bound(k@, self.bound@, self.incl) && *v == old(self.map)@[k@] && final(self.map)@ == old(self.map)@.insert(k@, *final(v))
                && (forall|j: Seq<char>| #[trigger] old(self.map)@.dom().contains(j) && in_bound(j, self.bound@, self.incl) ==> str_le(j, k@)) }
    { unimplemented!() }
}
pub trait VxDefault: Sized { spec fn is_default(&self) -> bool; }
impl<T> VxDefault for Vec<T> { open spec fn is_default(&self) -> bool { self@ == Seq::<T>::empty() } }
pub trait VxOptDefault<T> { spec fn od(self) -> Option<T>; fn unwrap_or_default(self) -> T; }
impl<T> VxOptDefault<Vec<T>> for Option<Vec<T>> {
    open spec fn od(self) -> Option<Vec<T>> { self }
    #[verifier::external_body] fn unwrap_or_default(self) -> (r: Vec<T>) ensures match self { None => r@.len() == 0, Some(x) => r == x } { unimplemented!() }
}

/// BTreeSet: at most one of each class of elements that compare equal
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VSet<T> { _p: core::marker::PhantomData<T> }
impl<T> View for VSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T: Clone> Clone for VSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn set_add<T: VxOrd>(s: Set<T>, x: T) -> Set<T> { if exists|e: T| #[trigger] s.contains(e) && e.order(x) == Ordering::Equal { s } else { s.insert(x) } }
pub open spec fn set_add_all<T: VxOrd>(s: Set<T>, xs: Seq<T>) -> Set<T> decreases xs.len() { if xs.len() == 0 { s } else { set_add(set_add_all(s, xs.drop_last()), xs.last()) } }
impl<T: VxOrd> VSet<T> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == set_add(old(self)@, x) { unimplemented!() }
    #[verifier::external_body] pub fn vx_iter<'a>(&'a self) -> (r: VIter<&'a T>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains(*#[trigger] r@[i]), forall|e: T| #[trigger] self@.contains(e) ==> exists|i: int| 0 <= i < r@.len() && *#[trigger] r@[i] == e,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (*#[trigger] r@[i]).order(*#[trigger] r@[j]) == Ordering::Less
    { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, it: VIter<T>) ensures final(self)@ == set_add_all(old(self)@, it@) { unimplemented!() }
}
/// operators == and !=
pub trait VxEq<O: ?Sized> { spec fn same(&self, o: &O) -> bool; }
impl<A: VxEq<B> + ?Sized, B: ?Sized> VxEq<&B> for &A { open spec fn same(&self, o: &&B) -> bool { (**self).same(&**o) } }
impl<A: VxEq<B> + ?Sized, B: ?Sized> VxEq<&B> for &mut A { open spec fn same(&self, o: &&B) -> bool { (**self).same(&**o) } }
impl<A: VxEq<B> + ?Sized, B: ?Sized> VxEq<&mut B> for &mut A { open spec fn same(&self, o: &&mut B) -> bool { (**self).same(&**o) } }
impl VxEq<str> for str { open spec fn same(&self, o: &str) -> bool { self@ == o@ } }
impl VxEq<String> for String { open spec fn same(&self, o: &String) -> bool { self@ == o@ } }
impl VxEq<str> for String { open spec fn same(&self, o: &str) -> bool { self@ == o@ } }
impl VxEq<&str> for String { open spec fn same(&self, o: &&str) -> bool { self@ == (*o)@ } }
impl VxEq<String> for str { open spec fn same(&self, o: &String) -> bool { self@ == o@ } }
/// slice.chunks(n) and .to_vec(), usize::div_ceil, cmp::max
pub open spec fn chunk<T>(s: Seq<T>, n: int, i: int) -> Seq<T> { s.subrange(i * n, if (i + 1) * n <= s.len() { (i + 1) * n } else { s.len() as int }) }
pub open spec fn chunk_count(len: int, n: int) -> int { (len + n - 1) / n }
pub trait VxChunks<T> { fn vx_chunks<'a>(&'a self, n: usize) -> VIter<&'a [T]>; }
impl<T> VxChunks<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_chunks<'a>(&'a self, n: usize) -> (r: VIter<&'a [T]>)
        ensures r@.len() == chunk_count(self@.len() as int, n as int), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == chunk(self@, n as int, i)
    { unimplemented!() /* self.chunks(n) */ }
}
pub open spec fn cloned_all<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> cloned(a[i], b[i]) }
pub trait VxToVec<T> { fn vx_to_vec(&self) -> Vec<T>; }
impl<T: Clone> VxToVec<T> for [T] {
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) ensures cloned_all(self@, r@) { unimplemented!() /* self.to_vec() */ }
}
pub trait VxDivCeil { fn vx_div_ceil(self, n: usize) -> usize requires n > 0; }
impl VxDivCeil for usize { #[verifier::external_body] fn vx_div_ceil(self, n: usize) -> (r: usize) ensures r as int == (self as int + n as int - 1) / (n as int) { unimplemented!() /* self.div_ceil(n) */ } }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
impl VxEq<usize> for usize { open spec fn same(&self, o: &usize) -> bool { *self == *o } }
impl VxEq<u32> for u32 { open spec fn same(&self, o: &u32) -> bool { *self == *o } }
impl VxEq<u64> for u64 { open spec fn same(&self, o: &u64) -> bool { *self == *o } }
#[verifier::external_body]
pub fn vx_eq<A: VxEq<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.same(b) { unimplemented!() /* a == b */ }
}
}
pub use vxcoll::*;
