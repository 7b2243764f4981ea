// ---------------------------------------------------------------------------------------
// Prelude: contracts ASSUMED about std (strings, options, iterators).  Every
// `external_body` function's body is literally the std call it stands for; every
// `axiom`/`assume_specification`/`external_body` in here is listed in the evidence.
// ---------------------------------------------------------------------------------------
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces, non_camel_case_types)]
#![feature(pattern, allocator_api)]
pub mod vxp {
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use std::collections::{HashMap, HashSet, BTreeMap, BTreeSet};
use std::sync::Arc;

verus! {

// ---- strings ----------------------------------------------------------------------------
/// Two strings with the same characters are the same string.
pub broadcast axiom fn ax_str_ext(a: &str, b: &str)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub broadcast axiom fn ax_string_ext(a: String, b: String)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;

pub broadcast group group_vx_str { ax_str_ext, ax_string_ext, ax_pat_str, ax_pat_string, ax_pat_char }

/// std guarantees this for every string: its UTF-8 length is 0 iff it has no characters,
/// and equals the number of characters iff all are ASCII.
pub uninterp spec fn utf8_len(s: Seq<char>) -> nat;

/// A pattern of the std string searching API: a char or a &str.
pub trait VxPat: Sized {
    spec fn pat(&self) -> Seq<char>;
}
impl VxPat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl VxPat for &str { open spec fn pat(&self) -> Seq<char> { self@ } }
impl VxPat for &String { open spec fn pat(&self) -> Seq<char> { self@ } }

/// `p` occurs in `s` at position i
pub open spec fn occurs_at(s: Seq<char>, p: Seq<char>, i: int) -> bool {
    0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p
}
pub open spec fn occurs(s: Seq<char>, p: Seq<char>) -> bool {
    exists|i: int| #[trigger] occurs_at(s, p, i)
}
/// (a, b) is the split of s at the first occurrence of p
pub open spec fn is_split_once(s: Seq<char>, p: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool {
    &&& s == a + p + b
    &&& forall|i: int| 0 <= i < a.len() ==> !(#[trigger] occurs_at(s, p, i))
}
/// (a, b) is the split of s at the last occurrence of p
pub open spec fn is_rsplit_once(s: Seq<char>, p: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool {
    &&& s == a + p + b
    &&& forall|i: int| i > a.len() ==> !(#[trigger] occurs_at(s, p, i))
}
pub open spec fn is_prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn is_suffix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }

/// the pieces between occurrences of a one-character separator
pub open spec fn split_char(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::<char>::empty()] }
    else {
        let rest = split_char(s.drop_first(), c);
        if s[0] == c { seq![Seq::<char>::empty()] + rest }
        else { rest.update(0, seq![s[0]] + rest[0]) }
    }
}

/// the split at the first / last c is unique
pub proof fn lemma_split_unique(a: Seq<char>, b: Seq<char>, a2: Seq<char>, b2: Seq<char>, c: char)
    requires a + seq![c] + b == a2 + seq![c] + b2, !a.contains(c), !a2.contains(c)
    ensures a == a2, b == b2
{
    let s = a + seq![c] + b; let s2 = a2 + seq![c] + b2;
    assert(s[a.len() as int] == c); assert(s2[a2.len() as int] == c);
    if a.len() < a2.len() { assert(s2[a.len() as int] == a2[a.len() as int]); assert(a2.contains(c)); }
    if a2.len() < a.len() { assert(s[a2.len() as int] == a[a2.len() as int]); assert(a.contains(c)); }
    assert(a =~= s.subrange(0, a.len() as int)); assert(a2 =~= s2.subrange(0, a.len() as int));
    assert(b =~= s.subrange((a.len() + 1) as int, s.len() as int)); assert(b2 =~= s2.subrange((a.len() + 1) as int, s.len() as int));
}
pub proof fn lemma_rsplit_unique(a: Seq<char>, b: Seq<char>, a2: Seq<char>, b2: Seq<char>, c: char)
    requires a + seq![c] + b == a2 + seq![c] + b2, !b.contains(c), !b2.contains(c)
    ensures a == a2, b == b2
{
    let s = a + seq![c] + b; let s2 = a2 + seq![c] + b2;
    assert(s[a.len() as int] == c); assert(s2[a2.len() as int] == c);
    if a.len() < a2.len() { assert(s.len() == s2.len()); let k = a2.len() - a.len() - 1; assert(0 <= k < b.len()); assert(s[a.len() + 1 + k] == b[k]); assert(b.contains(c)); }
    if a2.len() < a.len() { assert(s.len() == s2.len()); let k = a.len() - a2.len() - 1; assert(0 <= k < b2.len()); assert(s2[a2.len() + 1 + k] == b2[k]); assert(b2.contains(c)); }
    assert(a =~= s.subrange(0, a.len() as int)); assert(a2 =~= s2.subrange(0, a.len() as int));
    assert(b =~= s.subrange((a.len() + 1) as int, s.len() as int)); assert(b2 =~= s2.subrange((a.len() + 1) as int, s.len() as int));
}
pub proof fn lemma_contains_mid(a: Seq<char>, b: Seq<char>, c: char)
    ensures (a + seq![c] + b).contains(c)
{ assert((a + seq![c] + b)[a.len() as int] == c); }

/// pieces of a split: the first piece ends at the first separator
pub proof fn lemma_split_none(s: Seq<char>, c: char)
    requires !s.contains(c)
    ensures split_char(s, c) == seq![s]
    decreases s.len()
{
    if s.len() == 0 { assert(s =~= Seq::<char>::empty()); }
    else {
        let t = s.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies t[i] != c by { assert(s[i + 1] != c) by { if s[i + 1] == c { assert(s.contains(c)); } } }
        assert(s[0] != c) by { if s[0] == c { assert(s.contains(c)); } }
        lemma_split_none(t, c);
        assert(split_char(s, c) =~= seq![s]) by { assert(seq![s[0]] + t =~= s); }
    }
}
pub proof fn lemma_split_cons(a: Seq<char>, b: Seq<char>, c: char)
    requires !a.contains(c)
    ensures split_char(a + seq![c] + b, c) == seq![a] + split_char(b, c)
    decreases a.len()
{
    let s = a + seq![c] + b;
    if a.len() == 0 { assert(s.drop_first() =~= b); assert(s[0] == c); assert(a =~= Seq::<char>::empty()); }
    else {
        let t = a.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies t[i] != c by { assert(a[i + 1] != c) by { if a[i + 1] == c { assert(a.contains(c)); } } }
        assert(s[0] == a[0] && a[0] != c) by { if a[0] == c { assert(a.contains(c)); } }
        lemma_split_cons(t, b, c);
        assert(s.drop_first() =~= t + seq![c] + b);
        let rest = split_char(t + seq![c] + b, c);
        assert(seq![a[0]] + rest[0] =~= a);
        assert(split_char(s, c) =~= seq![a] + split_char(b, c));
    }
}
pub open spec fn first_index(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + first_index(s.drop_first(), c) } }
pub proof fn lemma_first_index(s: Seq<char>, c: char)
    requires s.contains(c)
    ensures 0 <= first_index(s, c) < s.len(), s[first_index(s, c)] == c, !s.subrange(0, first_index(s, c)).contains(c),
        s == s.subrange(0, first_index(s, c)) + seq![c] + s.subrange(first_index(s, c) + 1, s.len() as int)
    decreases s.len()
{
    if s[0] != c {
        let t = s.drop_first(); let k = choose|k: int| 0 <= k < s.len() && s[k] == c; assert(t[k - 1] == c); assert(t.contains(c));
        lemma_first_index(t, c);
        let i = first_index(t, c);
        assert forall|j: int| 0 <= j < i + 1 implies s[j] != c by { if j > 0 { assert(s[j] == t[j - 1]); assert(t.subrange(0, i)[j - 1] == t[j - 1]); } }
    }
    let i = first_index(s, c);
    assert(s =~= s.subrange(0, i) + seq![c] + s.subrange(i + 1, s.len() as int));
}
/// a split in three pieces, both ways
pub proof fn lemma_split_three(s: Seq<char>, c: char)
    ensures split_char(s, c).len() == 3 ==> ({ let p = split_char(s, c); s == p[0] + seq![c] + (p[1] + seq![c] + p[2]) && !p[0].contains(c) && !p[1].contains(c) && !p[2].contains(c) }),
        split_char(s, c).len() >= 1,
{
    if !s.contains(c) { lemma_split_none(s, c); } else {
        lemma_first_index(s, c);
        let i = first_index(s, c); let a = s.subrange(0, i); let b = s.subrange(i + 1, s.len() as int);
        lemma_split_cons(a, b, c);
        if !b.contains(c) { lemma_split_none(b, c); } else {
            lemma_first_index(b, c);
            let j = first_index(b, c); let d = b.subrange(0, j); let e = b.subrange(j + 1, b.len() as int);
            lemma_split_cons(d, e, c);
            if !e.contains(c) { lemma_split_none(e, c); } else { lemma_split_three_tail(e, c); }
        }
    }
}
proof fn lemma_split_three_tail(e: Seq<char>, c: char) requires e.contains(c) ensures split_char(e, c).len() >= 2
{ lemma_first_index(e, c); let i = first_index(e, c); let b = e.subrange(i + 1, e.len() as int); lemma_split_cons(e.subrange(0, i), b, c); lemma_split_len(b, c); }
pub proof fn lemma_split_len(s: Seq<char>, c: char) ensures split_char(s, c).len() >= 1 decreases s.len() { if s.len() > 0 { lemma_split_len(s.drop_first(), c); } }
pub proof fn lemma_split_three_back(a: Seq<char>, b: Seq<char>, d: Seq<char>, c: char)
    requires !a.contains(c), !b.contains(c), !d.contains(c)
    ensures split_char(a + seq![c] + (b + seq![c] + d), c) == seq![a, b, d]
{ lemma_split_cons(a, b + seq![c] + d, c); lemma_split_cons(b, d, c); lemma_split_none(d, c); assert(seq![a] + (seq![b] + seq![d]) =~= seq![a, b, d]); }

/// nothing outside [a, b) satisfies p
pub proof fn lemma_filter_window<T>(s: Seq<T>, p: spec_fn(T) -> bool, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|i: int| 0 <= i < a ==> !p(#[trigger] s[i]), forall|i: int| b <= i < s.len() ==> !p(#[trigger] s[i])
    ensures s.filter(p) == s.subrange(a, b).filter(p)
{
    let x = s.subrange(0, a); let y = s.subrange(a, b); let z = s.subrange(b, s.len() as int);
    assert(s =~= (x + y) + z);
    Seq::filter_distributes_over_add(x + y, z, p);
    Seq::filter_distributes_over_add(x, y, p);
    lemma_filter_none(x, p); lemma_filter_none(z, p);
    assert(s.filter(p) =~= y.filter(p));
}
pub proof fn lemma_filter_none<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> !p(#[trigger] s[i])
    ensures s.filter(p) == Seq::<T>::empty()
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { lemma_filter_none(s.drop_last(), p); assert(!p(s[s.len() - 1])); }
}
pub proof fn lemma_filter_congr<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i])
    ensures s.filter(p) == s.filter(q)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies p(#[trigger] s.drop_last()[i]) == q(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } lemma_filter_congr(s.drop_last(), p, q); assert(p(s[s.len() - 1]) == q(s[s.len() - 1])); }
}
/// filtering references is filtering what they refer to
pub proof fn lemma_filter_refs<T>(s: Seq<T>, r: Seq<&T>, p: spec_fn(T) -> bool, q: spec_fn(&T) -> bool)
    requires r.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r[i]) == s[i], forall|x: &T| #[trigger] q(x) == p(*x)
    ensures r.filter(q).len() == s.filter(p).len(), forall|i: int| 0 <= i < s.filter(p).len() ==> *(#[trigger] r.filter(q)[i]) == s.filter(p)[i]
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { lemma_filter_refs(s.drop_last(), r.drop_last(), p, q); assert(*r.last() == s.last()); }
}
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
pub open spec fn dec(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0int } else { dec(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
/// `str::parse` for the standard types
#[verifier::external_body] pub struct ParseBoolError { _p: () }
#[verifier::external_body] pub struct ParseIntError { _p: () }
pub trait VxFromStr: Sized { type Err; spec fn parsed(s: Seq<char>) -> Option<Self>; }
pub uninterp spec fn parsed_u32(s: Seq<char>) -> Option<u32>;
impl VxFromStr for u32 { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<u32> { parsed_u32(s) } }
pub broadcast axiom fn ax_parse_u32(s: Seq<char>)
    ensures digits(s) && 1 <= s.len() <= 9 ==> #[trigger] parsed_u32(s) == Some(dec(s) as u32);
pub uninterp spec fn parsed_u64(s: Seq<char>) -> Option<u64>;
impl VxFromStr for u64 { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<u64> { parsed_u64(s) } }
pub broadcast axiom fn ax_parse_u64(s: Seq<char>)
    ensures digits(s) && 1 <= s.len() && dec(s) <= u64::MAX ==> #[trigger] parsed_u64(s) == Some(dec(s) as u64);
pub broadcast group group_vx_parse { ax_parse_u32, ax_parse_u64 }
/// strings compare by code point, which for UTF-8 is byte order
pub open spec fn str_order(a: Seq<char>, b: Seq<char>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if (a[0] as u32) < (b[0] as u32) { Ordering::Less }
    else if (a[0] as u32) > (b[0] as u32) { Ordering::Greater }
    else { str_order(a.drop_first(), b.drop_first()) }
}
pub open spec fn flip(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub proof fn lemma_str_order(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures str_order(a, b) == Ordering::Equal <==> a == b, str_order(b, a) == flip(str_order(a, b)),
        str_order(a, b) == Ordering::Less && str_order(b, c) == Ordering::Less ==> str_order(a, c) == Ordering::Less,
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { assert(a =~= b); } }
    else if b.len() > 0 {
        lemma_str_order(a.drop_first(), b.drop_first(), if c.len() > 0 { c.drop_first() } else { c });
        if a == b { assert(a.drop_first() == b.drop_first()); }
        if a[0] == b[0] && a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); assert(a =~= b); }
        assert((a[0] as u32 == b[0] as u32) == (a[0] == b[0]));
        if c.len() > 0 { assert((b[0] as u32 == c[0] as u32) == (b[0] == c[0])); }
    }
}

/// the first k characters of s take n bytes
pub open spec fn byte_pos(s: Seq<char>, k: int, n: int) -> bool { 0 <= k <= s.len() && vstd::utf8::encode_utf8(s.subrange(0, k)).len() == n }
pub proof fn lemma_digits_bytes(s: Seq<char>, k: int)
    ensures digits(s) ==> vstd::utf8::encode_utf8(s).len() == s.len(), digits(s) && 0 <= k <= s.len() ==> byte_pos(s, k, k)
{
    if digits(s) {
        vstd::utf8::is_ascii_chars_encode_utf8(s);
        if 0 <= k <= s.len() { let t = s.subrange(0, k); assert(digits(t)); vstd::utf8::is_ascii_chars_encode_utf8(t); }
    }
}

// std's own string searching, where a unit's rules do not rename it: what a pattern stands for
#[verifier::external_trait_specification]
pub trait ExPattern: Sized { type ExternalTraitSpecificationFor: core::str::pattern::Pattern; }
/// the text a pattern is, for patterns that are texts
pub uninterp spec fn pat_text<P>(p: P) -> Option<Seq<char>>;
pub broadcast axiom fn ax_pat_str(p: &str) ensures #[trigger] pat_text::<&str>(p) == Some(p@);
pub broadcast axiom fn ax_pat_string(p: &String) ensures #[trigger] pat_text::<&String>(p) == Some(p@);
pub broadcast axiom fn ax_pat_char(p: char) ensures #[trigger] pat_text::<char>(p) == Some(seq![p]);
pub assume_specification<P: core::str::pattern::Pattern> [str::contains::<P>] (s: &str, p: P) -> (r: bool) ensures pat_text(p) matches Some(q) ==> r == occurs(s@, q);
pub assume_specification<P: core::str::pattern::Pattern> [str::starts_with::<P>] (s: &str, p: P) -> (r: bool) ensures pat_text(p) matches Some(q) ==> r == is_prefix(q, s@);
pub assume_specification<'a, P: core::str::pattern::Pattern> [str::strip_prefix::<P>] (s: &'a str, p: P) -> (r: Option<&'a str>) ensures pat_text(p) matches Some(q) ==> match r { None => !is_prefix(q, s@), Some(t) => s@ == q + t@ };
pub assume_specification<'a, P: core::str::pattern::Pattern> [str::split_once::<P>] (s: &'a str, p: P) -> (r: Option<(&'a str, &'a str)>) ensures pat_text(p) matches Some(q) ==> match r { None => !occurs(s@, q), Some((a, b)) => is_split_once(s@, q, a@, b@) };
pub assume_specification<'a> [str::trim] (s: &'a str) -> (r: &'a str) ensures r@ == spec_trim(s@);
pub assume_specification [str::to_lowercase] (s: &str) -> (r: String) ensures r@ == str_lower(s@);
pub assume_specification [str::to_uppercase] (s: &str) -> (r: String) ensures r@ == str_upper(s@);
pub uninterp spec fn str_lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn str_upper(s: Seq<char>) -> Seq<char>;

pub trait VxStr: View<V = Seq<char>> {
    fn vx_split_once<'a, P: VxPat>(&'a self, p: P) -> Option<(&'a str, &'a str)>;
    fn vx_rsplit_once<'a, P: VxPat>(&'a self, p: P) -> Option<(&'a str, &'a str)>;
    fn vx_starts_with<P: VxPat>(&self, p: P) -> bool;
    fn vx_ends_with<P: VxPat>(&self, p: P) -> bool;
    fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> Option<&'a str>;
    fn vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> Option<&'a str>;
    fn vx_split<'a>(&'a self, p: char) -> VIter<&'a str>;
    fn vx_trim<'a>(&'a self) -> &'a str;
    fn vx_chars<'a>(&'a self) -> VIter<char>;
    fn vx_to_ascii_lowercase(&self) -> String;
    fn vx_str_len(&self) -> usize;
    fn vx_to<'a>(&'a self, n: usize) -> &'a str
        requires exists|k: int| #[trigger] byte_pos(self@, k, n as int);
    fn vx_from<'a>(&'a self, n: usize) -> &'a str
        requires exists|k: int| #[trigger] byte_pos(self@, k, n as int);
    fn vx_parse<T: VxFromStr>(&self) -> core::result::Result<T, T::Err>;
}

pub open spec fn ascii_lower_char(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
pub open spec fn ascii_lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| ascii_lower_char(c)) }
pub uninterp spec fn spec_trim(s: Seq<char>) -> Seq<char>;

impl VxStr for str {
    #[verifier::external_body]
    fn vx_split_once<'a, P: VxPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>)
        ensures match r { None => !occurs(self@, p.pat()), Some((a, b)) => is_split_once(self@, p.pat(), a@, b@) },
            p.pat().len() == 1 ==> match r { None => !self@.contains(p.pat()[0]), Some((a, b)) => self@ == a@ + seq![p.pat()[0]] + b@ && !a@.contains(p.pat()[0]) },
    { unimplemented!() /* self.split_once(p) */ }
    #[verifier::external_body]
    fn vx_rsplit_once<'a, P: VxPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>)
        ensures match r { None => !occurs(self@, p.pat()), Some((a, b)) => is_rsplit_once(self@, p.pat(), a@, b@) },
            p.pat().len() == 1 ==> match r { None => !self@.contains(p.pat()[0]), Some((a, b)) => self@ == a@ + seq![p.pat()[0]] + b@ && !b@.contains(p.pat()[0]) },
    { unimplemented!() /* self.rsplit_once(p) */ }
    #[verifier::external_body]
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == is_prefix(p.pat(), self@)
    { unimplemented!() /* self.starts_with(p) */ }
    #[verifier::external_body]
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == is_suffix(p.pat(), self@)
    { unimplemented!() /* self.ends_with(p) */ }
    #[verifier::external_body]
    fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures match r { None => !is_prefix(p.pat(), self@), Some(t) => self@ == p.pat() + t@ }
    { unimplemented!() /* self.strip_prefix(p) */ }
    #[verifier::external_body]
    fn vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures match r { None => !is_suffix(p.pat(), self@), Some(t) => self@ == t@ + p.pat() }
    { unimplemented!() /* self.strip_suffix(p) */ }
    #[verifier::external_body]
    fn vx_split<'a>(&'a self, p: char) -> (r: VIter<&'a str>)
        ensures r@.len() == split_char(self@, p).len(), r@.len() >= 1,
            forall|i: int| #![trigger r@[i]] #![trigger split_char(self@, p)[i]] 0 <= i < r@.len() ==> r@[i]@ == split_char(self@, p)[i]
    { unimplemented!() /* self.split(p) */ }
    #[verifier::external_body]
    fn vx_trim<'a>(&'a self) -> (r: &'a str) ensures r@ == spec_trim(self@)
    { unimplemented!() /* self.trim() */ }
    #[verifier::external_body]
    fn vx_chars<'a>(&'a self) -> (r: VIter<char>) ensures r@ == self@
    { unimplemented!() /* self.chars() */ }
    #[verifier::external_body]
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r@ == ascii_lower(self@)
    { self.to_ascii_lowercase() }
    #[verifier::external_body]
    fn vx_str_len(&self) -> (r: usize) ensures r == vstd::utf8::encode_utf8(self@).len()
    { unimplemented!() /* self.len() */ }
    #[verifier::external_body]
    fn vx_to<'a>(&'a self, n: usize) -> (r: &'a str)
        ensures forall|k: int| #[trigger] byte_pos(self@, k, n as int) ==> r@ == self@.subrange(0, k)
    { unimplemented!() /* &self[..n] */ }
    #[verifier::external_body]
    fn vx_from<'a>(&'a self, n: usize) -> (r: &'a str)
        ensures forall|k: int| #[trigger] byte_pos(self@, k, n as int) ==> r@ == self@.subrange(k, self@.len() as int)
    { unimplemented!() /* &self[n..] */ }
    #[verifier::external_body]
    fn vx_parse<T: VxFromStr>(&self) -> (r: core::result::Result<T, T::Err>)
        ensures match r { Ok(v) => T::parsed(self@) == Some(v), Err(_) => T::parsed(self@) is None }
    { unimplemented!() /* self.parse::<T>() */ }
}

// ---- format! ------------------------------------------------------------------------------
/// What `{}` prints for a value.
pub trait VxDisp { spec fn disp(&self) -> Seq<char>; }
impl VxDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VxDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VxDisp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } }
impl<T: VxDisp + ?Sized> VxDisp for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }

pub trait VxToString: VxDisp { fn vx_to_string(&self) -> String; }
impl<T: VxDisp + ?Sized> VxToString for T {
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.disp() { unimplemented!() /* self.to_string() */ }
}

#[verifier::external_body]
pub fn vx_fmt_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn vx_fmt_lit(s: String, l: &str) -> (r: String) ensures r@ == s@ + l@ { let mut s = s; s.push_str(l); s }
#[verifier::external_body]
pub fn vx_fmt_disp<T: VxDisp + ?Sized>(s: String, x: &T) -> (r: String) ensures r@ == s@ + x.disp() { unimplemented!() /* write!(s, "{}", x) */ }
/// Message text whose content no property depends on (error messages, Debug output).
#[verifier::external_body]
pub fn vx_opaque_string() -> (r: String) { unimplemented!() }
/// Reaching a panic is an obligation: it must be impossible.
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }

pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c <= '9');

pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::shrink_to_fit] (v: &mut Vec<T, A>) ensures final(v)@ == old(v)@;
// ---- Option / slice ------------------------------------------------------------------------
pub assume_specification<T, E> [Option::<core::result::Result<T, E>>::transpose] (o: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)
    ensures r == (match o { None => Ok::<Option<T>, E>(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == (exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x));
pub assume_specification [Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering)
    ensures r == (if a == Ordering::Equal { b } else { a });
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]);

pub trait VxOptOrElse<T>: Sized { fn vx_or_else<D: FnOnce() -> Option<T>>(self, d: D) -> Option<T>; }
impl<T> VxOptOrElse<T> for Option<T> {
    #[verifier::external_body]
    fn vx_or_else<D: FnOnce() -> Option<T>>(self, d: D) -> (r: Option<T>)
        ensures match self { Some(x) => r == Some(x), None => call_ensures(d, (), r) }
    { self.or_else(d) }
}
pub trait VxOption<T> {
    spec fn o(self) -> Option<T>;
    fn vx_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U
        requires self.o() is None ==> d.requires(()), self.o() matches Some(x) ==> f.requires((x,));
}
impl<T> VxOption<T> for Option<T> {
    open spec fn o(self) -> Option<T> { self }
    fn vx_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U)
        ensures match self { None => d.ensures((), r), Some(x) => f.ensures((x,), r) }
    { match self { None => d(), Some(x) => f(x) } }
}
pub trait VxOptStr { fn vx_as_deref<'a>(&'a self) -> Option<&'a str>; }
impl VxOptStr for Option<String> {
    #[verifier::external_body]
    fn vx_as_deref<'a>(&'a self) -> (r: Option<&'a str>) ensures (r is Some) == (self is Some), self is Some ==> r->Some_0@ == self->Some_0@
    { self.as_deref() }
}
pub trait VxSlice<T>: View<V = Seq<T>> {
    fn vx_partition_point<F: Fn(&T) -> bool>(&self, f: F) -> usize
        requires forall|x: &T| #[trigger] f.requires((x,));
    fn vx_to<'a>(&'a self, n: usize) -> &'a [T] requires n <= self@.len();
    fn vx_from<'a>(&'a self, n: usize) -> &'a [T] requires n <= self@.len();
    fn vx_range<'a>(&'a self, n: usize, m: usize) -> &'a [T] requires n <= m <= self@.len();
    fn vx_full<'a>(&'a self) -> &'a [T];
}
impl<T> VxSlice<T> for [T] {
    #[verifier::external_body]
    fn vx_partition_point<F: Fn(&T) -> bool>(&self, f: F) -> (r: usize)
        ensures r <= self@.len() <= usize::MAX,
            // for a predicate that is never false before it is true
            (forall|i: int, j: int| 0 <= i < j < self@.len() ==> !(f.ensures((&#[trigger] self@[i],), false) && f.ensures((&#[trigger] self@[j],), true)))
            ==> (forall|i: int| 0 <= i < r ==> f.ensures((&#[trigger] self@[i],), true)) && (forall|i: int| r <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), false)),
    { self.partition_point(f) }
    #[verifier::external_body] fn vx_to<'a>(&'a self, n: usize) -> (r: &'a [T]) ensures r@ == self@.subrange(0, n as int) { &self[..n] }
    #[verifier::external_body] fn vx_from<'a>(&'a self, n: usize) -> (r: &'a [T]) ensures r@ == self@.subrange(n as int, self@.len() as int) { &self[n..] }
    #[verifier::external_body] fn vx_range<'a>(&'a self, n: usize, m: usize) -> (r: &'a [T]) ensures r@ == self@.subrange(n as int, m as int) { &self[n..m] }
    #[verifier::external_body] fn vx_full<'a>(&'a self) -> (r: &'a [T]) ensures r@ == self@ { self }
}

pub open spec fn vx_int_cmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub trait VxIntCmp { fn vx_cmp(&self, o: &Self) -> Ordering; }
impl VxIntCmp for String { #[verifier::external_body] fn vx_cmp(&self, o: &String) -> (r: Ordering) ensures r == str_order(self@, o@) { self.cmp(o) } }
pub open spec fn opt_u64_order(a: Option<u64>, b: Option<u64>) -> Ordering { match (a, b) { (None, None) => Ordering::Equal, (None, _) => Ordering::Less, (_, None) => Ordering::Greater, (Some(x), Some(y)) => vx_int_cmp(x as int, y as int) } }
impl VxIntCmp for Option<u64> { #[verifier::external_body] fn vx_cmp(&self, o: &Option<u64>) -> (r: Ordering) ensures r == opt_u64_order(*self, *o) { self.cmp(o) } }
impl VxIntCmp for i64 { #[verifier::external_body] fn vx_cmp(&self, o: &i64) -> (r: Ordering) ensures r == vx_int_cmp(*self as int, *o as int) { self.cmp(o) } }
pub assume_specification<F: FnOnce() -> Ordering> [Ordering::then_with] (a: Ordering, f: F) -> (r: Ordering)
    requires f.requires(()),
    ensures a != Ordering::Equal ==> r == a, a == Ordering::Equal ==> f.ensures((), r);
/// the order a sort uses: the result is a permutation, and no later element is less than an earlier one
pub trait VxSort<T> { fn vx_sort_unstable(&mut self); }
impl<T: VxOrd> VxSort<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_sort_unstable(&mut self)
        ensures final(self)@.to_multiset() == old(self)@.to_multiset(), final(self)@.len() == old(self)@.len(),
            T::total() ==> forall|i: int, j: int| 0 <= i < j < final(self)@.len() ==> (#[trigger] final(self)@[i]).order(#[trigger] final(self)@[j]) != Ordering::Greater,
    { unimplemented!() }
}
pub trait VxOrd: Sized { spec fn order(self, o: Self) -> Ordering; spec fn total() -> bool; }

// ---- iterators --------------------------------------------------------------------------
// One iterator type stands for every std iterator chain: its view is the sequence of items
// still to come.  Each adapter's body is the std adapter.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { _p: core::marker::PhantomData<T> }
impl<T> View for VIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }

/// what a filter closure answers (a function of the item)
pub uninterp spec fn vx_pred<T, F>(f: F) -> spec_fn(T) -> bool;
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first()
    { unimplemented!() /* next */ }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last()
    { unimplemented!() /* next_back */ }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures forall|q: spec_fn(T) -> bool|
            (forall|i: int| 0 <= i < self@.len() ==> ((#[trigger] f.ensures((&self@[i],), true) ==> q(self@[i])) && (#[trigger] f.ensures((&self@[i],), false) ==> !q(self@[i]))))
            ==> r@ == #[trigger] self@.filter(q),
            r@ == self@.filter(vx_pred::<T, F>(f)), forall|i: int| 0 <= i < self@.len() ==> f.ensures((&self@[i],), #[trigger] vx_pred::<T, F>(f)(self@[i]))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> f.ensures((self@[i],), r@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true),
            !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
            r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VIter<T>) ensures r@ == self@.reverse()
    { unimplemented!() /* rev */ }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VIter<T>) ensures r@ == (if n < self@.len() { self@.subrange(0, n as int) } else { self@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VIter<T>) ensures r@ == (if n < self@.len() { self@.subrange(n as int, self@.len() as int) } else { Seq::empty() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures r == (if self@.len() == 0 { None } else { Some(self@.last()) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures n >= old(self)@.len() ==> r.is_none() && final(self)@.len() == 0,
            n < old(self)@.len() ==> r == Some(old(self)@[n as int]) && final(self)@ == old(self)@.subrange(n + 1, old(self)@.len() as int)
    { unimplemented!() }
    #[verifier::external_body] pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures match r { Some(x) => exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == x && f.ensures((&x,), true) && (forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] self@[j],), false)),
            None => forall|j: int| 0 <= j < self@.len() ==> f.ensures((&#[trigger] self@[j],), false) } { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
        ensures r is None ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), false),
            r matches Some(x) ==> 0 <= x < old(self)@.len() && f.ensures((old(self)@[x as int],), true) && forall|j: int| 0 <= j < x ==> f.ensures((#[trigger] old(self)@[j],), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VxFromIter<T>>(self) -> (r: C) ensures C::from_seq(self@, r)
    { unimplemented!() }
}
impl<'a, T: Clone> VIter<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VIter<T>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> cloned(*self@[i], r@[i])
    { unimplemented!() }
}
/// `collect` into a container: which containers the collected sequence may become.
pub trait VxFromIter<T>: Sized { spec fn from_seq(s: Seq<T>, r: Self) -> bool; }
/// all, or the first error
impl<T, E> VxFromIter<core::result::Result<T, E>> for core::result::Result<Vec<T>, E> {
    open spec fn from_seq(s: Seq<core::result::Result<T, E>>, r: Self) -> bool {
        match r { Ok(v) => v@.len() == s.len() && (forall|i: int| #![trigger s[i]] #![trigger v@[i]] 0 <= i < s.len() ==> s[i] == Ok::<T, E>(v@[i])), Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e) } }
}
impl<T> VxFromIter<T> for Vec<T> { open spec fn from_seq(s: Seq<T>, r: Self) -> bool { r@ == s } }

// `.iter()` on slices and vectors
pub trait VxSliceIter<T> { fn vx_iter<'a>(&'a self) -> VIter<&'a T>; }
impl<T> VxSliceIter<T> for [T] {
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: VIter<&'a T>) ensures r@ == self@.map_values(|x: T| &x), r@.len() == self@.len(), forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < self@.len() ==> *r@[i] == self@[i]
    { unimplemented!() /* self.iter() */ }
}
// `for x in e` / `.into_iter()`
pub trait VxIntoIterator: Sized { type Item; spec fn items(self) -> Seq<Self::Item>; fn vx_into_iter(self) -> (r: VIter<Self::Item>) ensures r@ == self.items(); }
impl<T> VxIntoIterator for VIter<T> { type Item = T; open spec fn items(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<T>) { self } }
impl<T, const N: usize> VxIntoIterator for [T; N] { type Item = T; open spec fn items(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<T>) { unimplemented!() /* self.into_iter() */ } }
impl<T> VxIntoIterator for Vec<T> { type Item = T; open spec fn items(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<T>) { unimplemented!() /* self.into_iter() */ } }
impl<'a, T> VxIntoIterator for &'a Vec<T> { type Item = &'a T; open spec fn items(self) -> Seq<&'a T> { self@.map_values(|x: T| &x) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() /* self.into_iter() */ } }
impl<'a, T> VxIntoIterator for &'a [T] { type Item = &'a T; open spec fn items(self) -> Seq<&'a T> { self@.map_values(|x: T| &x) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() /* self.into_iter() */ } }

} // verus!
} // mod vxp
pub use vxp::*;
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use std::collections::{HashMap, HashSet, BTreeMap, BTreeSet};
use std::sync::Arc;
fn main() {}
