// C26: what a path query prescribes at each path. grovedb/src/query/mod.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
//@ include query_item.inc assumed query_item

// ---- trusted stand-ins --------------------------------------------------------
#[derive(Debug)]
#[verifier::external_body] pub struct Error { x: u8 }
#[verifier::external_body] pub fn err() -> (r: Error) { unimplemented!() }
pub type Path = Vec<Vec<u8>>;
pub type Key = Vec<u8>;
// an insertion-ordered map, as its list of entries
pub struct IndexMap<K, V> { pub e: Vec<(K, V)> }
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
pub open spec fn cow<T>(c: Cow<'_, T>) -> T { match c { Cow::Borrowed(x) => *x, Cow::Owned(x) => x } }
pub fn cow_slice<'x>(c: &'x Cow<'_, Vec<u8>>) -> (r: &'x [u8]) ensures r@ == cow(*c)@ { match c { Cow::Borrowed(x) => slice_of(*x), Cow::Owned(x) => slice_of(x) } }
pub fn cow_map<'x, K, V>(c: &'x Cow<'_, IndexMap<K, V>>) -> (r: &'x IndexMap<K, V>) ensures *r == cow(*c) { match c { Cow::Borrowed(x) => *x, Cow::Owned(x) => x } }
// of the protocol version, only the part consulted here
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBPathQueryMethodVersions
pub type FeatureVersion = u16;
pub struct GroveDBVersions { pub path_query_methods: GroveDBPathQueryMethodVersions }
pub struct GroveVersion { pub grovedb_versions: GroveDBVersions }

pub open spec fn dv(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> { s.map_values(|v: Vec<u8>| v@) }
pub open spec fn sv(s: Seq<&[u8]>) -> Seq<Seq<u8>> { s.map_values(|v: &[u8]| v@) }
// the two agree as far as both go
pub open spec fn agree(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < a.len() && i < b.len() ==> #[trigger] a[i] == b[i] }
// a.iter().take(n).zip(b).all(equal)
pub fn zip_eq(a: &[&[u8]], n: usize, b: &Vec<Vec<u8>>) -> (r: bool)
    ensures r == agree(sv(a@.take(if n <= a@.len() { n as int } else { a@.len() as int })), dv(b@))
{
    let m = if n <= a.len() { n } else { a.len() };
    let ghost x = sv(a@.take(m as int));
    let mut i: usize = 0;
    while i < m && i < b.len()
        invariant i <= m <= a@.len(), m == (if n <= a@.len() { n as int } else { a@.len() as int }), i <= b@.len(), x == sv(a@.take(m as int)), forall|k: int| 0 <= k < i ==> #[trigger] x[k] == dv(b@)[k]
        decreases m - i
    {
        assert(x[i as int] == a@[i as int]@ && dv(b@)[i as int] == b@[i as int]@);
        if !bytes_eq(a[i], b[i].as_slice()) { assert(x[i as int] != dv(b@)[i as int]); assert(!agree(x, dv(b@))); return false; }
        i += 1;
    }
    true
}
pub fn tail<'x, 'y>(a: &'y [&'x [u8]], n: usize) -> (r: &'y [&'x [u8]])
    requires n <= a@.len() ensures r@ == a@.skip(n as int)
{ let r = vstd::slice::slice_subrange(a, n, a.len()); assert(r@ =~= a@.skip(n as int)); r }
pub fn one_key(k: Vec<u8>) -> (r: Vec<QueryItem>) ensures r@ == seq![QueryItem::Key(k)] { let mut v = Vec::new(); v.push(QueryItem::Key(k)); assert(v@ =~= seq![QueryItem::Key(k)]); v }
// map.keys().any(|item| item.contains(key))
pub fn any_key(m: &IndexMap<QueryItem, SubqueryBranch>, key: &[u8]) -> (r: bool) ensures r == conditional(m.e@, key@, 0).is_some()
{
    let mut i: usize = 0;
    while i < m.e.len() invariant i <= m.e@.len(), conditional(m.e@, key@, 0) == conditional(m.e@, key@, i as nat) decreases m.e@.len() - i
    { if m.e[i].0.contains(key) { return true; } i += 1; }
    false
}
//@ rules
check_grovedb_v0!($m, $v..); ==> if $v != 0 { return Err(err()); }
Error::$v($x..) ==> err()
path_after_top_removed.iter().zip(subquery_path).all(|($a, $b)| *$a == $b.as_slice()) ==> zip_eq(path_after_top_removed, path_after_top_removed.len(), subquery_path)
path_after_top_removed.iter().take($n..).zip(subquery_path).all(|($a, $b)| *$a == $b.as_slice()) ==> zip_eq(path_after_top_removed, $n, subquery_path)
path.iter().zip(&self.path).all(|($a, $b)| *$a == $b.as_slice()) ==> zip_eq(path, path.len(), &self.path)
self.path.iter().zip(path).all(|($a, $b)| $a.as_slice() == *$b) ==> zip_eq(path, path.len(), &self.path)
&path[1..] ==> tail(path, 1)
&path[self_path_len..] ==> tail(path, self_path_len)
&path_after_top_removed[subquery_path.len()..] ==> tail(path_after_top_removed, subquery_path.len())
else if $c.. && let Some(subquery) = $e.. { $b.. } ==> else if $c { if let Some(subquery) = $e { $b } }
subquery_branch.subquery.as_ref().map(|subquery| { SinglePathSubquery::from_query(subquery) }) ==> (match &subquery_branch.subquery { Some(subquery) => Some(SinglePathSubquery::from_query(subquery)), None => None })
query.default_subquery_branch.subquery.as_ref().map(|subquery| { SinglePathSubquery::from_query(subquery) }) ==> (match &query.default_subquery_branch.subquery { Some(subquery) => Some(SinglePathSubquery::from_query(subquery)), None => None })
subquery_branch.subquery.as_ref().map(|subquery| SinglePathSubquery::from_query(subquery)) ==> (match &subquery_branch.subquery { Some(subquery) => Some(SinglePathSubquery::from_query(subquery)), None => None })
query.default_subquery_branch.subquery.as_ref().map(|subquery| SinglePathSubquery::from_query(subquery)) ==> (match &query.default_subquery_branch.subquery { Some(subquery) => Some(SinglePathSubquery::from_query(subquery)), None => None })
subquery_branch.subquery.as_ref().is_some_and(|subquery| { subquery.add_parent_tree_on_subquery }) ==> (match &subquery_branch.subquery { Some(subquery) => subquery.add_parent_tree_on_subquery, None => false })
query.default_subquery_branch.subquery.as_ref().is_some_and(|subquery| { subquery.add_parent_tree_on_subquery }) ==> (match &query.default_subquery_branch.subquery { Some(subquery) => subquery.add_parent_tree_on_subquery, None => false })
subquery_branch.subquery.as_ref().is_some_and(|subquery| subquery.add_parent_tree_on_subquery) ==> (match &subquery_branch.subquery { Some(subquery) => subquery.add_parent_tree_on_subquery, None => false })
query.default_subquery_branch.subquery.as_ref().is_some_and(|subquery| subquery.add_parent_tree_on_subquery) ==> (match &query.default_subquery_branch.subquery { Some(subquery) => subquery.add_parent_tree_on_subquery, None => false })
for ($a, $c) in conditional_branches { $b.. } ==> let mut ci: usize = 0; while ci < conditional_branches.e.len() { let ($a, $c) = (&conditional_branches.e[ci].0, &conditional_branches.e[ci].1); ci += 1; $b }
//@ end

//@ type grovedb-query/src/subquery_branch.rs SubqueryBranch
//@ type grovedb-query/src/query.rs Query
//@ type grovedb/src/query/mod.rs SizedQuery
//@ type grovedb/src/query/mod.rs PathQuery
//@ type grovedb/src/query/mod.rs HasSubquery
//@ type grovedb/src/query/mod.rs SinglePathSubquery

// ---- descending one segment at a time ------------------------------------------
// the first conditional branch, from entry i on, whose item holds the key
pub open spec fn conditional(m: Seq<(QueryItem, SubqueryBranch)>, k: Seq<u8>, i: nat) -> Option<SubqueryBranch> decreases m.len() - i
{ if i >= m.len() { None } else if sel(m[i as int].0, k) { Some(m[i as int].1) } else { conditional(m, k, i + 1) } }
pub open spec fn branch(q: Query, k: Seq<u8>) -> SubqueryBranch {
    match q.conditional_subquery_branches { Some(m) => match conditional(m.e@, k, 0) { Some(b) => b, None => q.default_subquery_branch }, None => q.default_subquery_branch }
}
// where a path has led: to a query, part of the way along a branch's path, or nowhere
pub enum Pos { At(Query), Along(SubqueryBranch, int), Nowhere }
pub open spec fn segments(b: SubqueryBranch) -> Seq<Seq<u8>> { match b.subquery_path { Some(p) => dv(p@), None => Seq::empty() } }
pub open spec fn along(b: SubqueryBranch, n: int) -> Pos {
    if n < segments(b).len() { Pos::Along(b, n) } else { match b.subquery { Some(q) => Pos::At(*q), None => Pos::Nowhere } }
}
pub open spec fn step(p: Pos, k: Seq<u8>) -> Pos {
    match p {
        Pos::At(q) => along(branch(q, k), 0),
        Pos::Along(b, n) => if segments(b)[n] == k { along(b, n + 1) } else { Pos::Nowhere },
        Pos::Nowhere => Pos::Nowhere,
    }
}
pub open spec fn descend(p: Pos, path: Seq<Seq<u8>>) -> Pos decreases path.len()
{ if path.len() == 0 { p } else { descend(step(p, path[0]), path.skip(1)) } }
// a path query is a branch: its start path, then its query
pub open spec fn start(q: PathQuery) -> Pos
{ if q.path@.len() > 0 { Pos::Along(SubqueryBranch { subquery_path: Some(q.path), subquery: Some(Box::new(q.query.query)) }, 0) } else { Pos::At(q.query.query) } }

// ---- what is prescribed there --------------------------------------------------
pub enum Has { No, Always, If(Seq<(QueryItem, SubqueryBranch)>) }
pub struct Level { pub items: Seq<QueryItem>, pub key: Option<Seq<u8>>, pub has: Has, pub left_to_right: bool, pub on: Option<Seq<u8>> }
pub open spec fn presence(q: Query) -> Has {
    if q.default_subquery_branch.subquery is Some || q.default_subquery_branch.subquery_path is Some { Has::Always }
    else { match q.conditional_subquery_branches { Some(m) => Has::If(m.e@), None => Has::No } }
}
pub open spec fn prescribed(p: Pos) -> Option<Level> {
    match p {
        Pos::At(q) => Some(Level { items: q.items@, key: None, has: presence(q), left_to_right: q.left_to_right, on: None }),
        // exactly the next segment, and it is descended into unless nothing lies below it
        Pos::Along(b, n) => Some(Level { items: Seq::empty(), key: Some(segments(b)[n]), has: Has::No, left_to_right: true,
            on: if n + 1 == segments(b).len() && b.subquery is None { None } else { Some(segments(b)[n]) } }),
        Pos::Nowhere => None,
    }
}
pub open spec fn has_is(h: HasSubquery<'_>, s: Has) -> bool {
    match h { HasSubquery::NoSubquery => s == Has::No, HasSubquery::Always => s == Has::Always, HasSubquery::Conditionally(m) => s == Has::If(cow(m).e@) }
}
pub open spec fn is(r: SinglePathSubquery<'_>, l: Level) -> bool {
    &&& match l.key { None => cow(r.items)@ == l.items, Some(k) => cow(r.items)@.len() == 1 && kind(cow(r.items)@[0]) == 0 && cow(r.items)@[0] is Key && cow(r.items)@[0]->Key_0@ == k }
    &&& has_is(r.has_subquery, l.has)
    &&& r.left_to_right == l.left_to_right
    &&& match r.in_path { None => l.on is None, Some(k) => l.on == Some(cow(k)@) }
}
pub open spec fn ois(r: Option<SinglePathSubquery<'_>>, l: Option<Level>) -> bool { match r { None => l is None, Some(x) => l is Some && is(x, l.unwrap()) } }
pub open spec fn present(s: Has, k: Seq<u8>) -> bool { match s { Has::No => false, Has::Always => true, Has::If(m) => conditional(m, k, 0) is Some } }
// whether the parent of what is found there is itself wanted
pub open spec fn parent(p: Pos) -> bool { match p { Pos::At(q) => q.add_parent_tree_on_subquery, _ => false } }

// ---- walking along a branch's path at once -----------------------------------
pub proof fn lemma_nowhere(path: Seq<Seq<u8>>) ensures descend(Pos::Nowhere, path) == Pos::Nowhere decreases path.len()
{ if path.len() > 0 { lemma_nowhere(path.skip(1)); } }
pub proof fn lemma_along(b: SubqueryBranch, n: int, path: Seq<Seq<u8>>)
    requires 0 <= n <= segments(b).len()
    ensures ({ let rest = segments(b).skip(n); let d = descend(along(b, n), path);
        &&& !agree(path, rest) ==> d == Pos::Nowhere
        &&& agree(path, rest) && path.len() <= rest.len() ==> d == along(b, n + path.len())
        &&& agree(path, rest) && path.len() >= rest.len() ==> d == descend(along(b, segments(b).len() as int), path.skip(rest.len() as int)) })
    decreases segments(b).len() - n
{
    let rest = segments(b).skip(n);
    if path.len() == 0 { assert(path.skip(0) =~= path); }
    else if rest.len() == 0 { assert(path.skip(0) =~= path); }
    else {
        assert(rest[0] == segments(b)[n]);
        if path[0] == rest[0] {
            lemma_along(b, n + 1, path.skip(1));
            let r2 = segments(b).skip(n + 1);
            assert forall|i: int| 0 <= i < r2.len() implies #[trigger] r2[i] == rest[i + 1] by { }
            if agree(path, rest) { assert forall|i: int| 0 <= i < path.skip(1).len() && i < r2.len() implies #[trigger] path.skip(1)[i] == r2[i] by { assert(path[i + 1] == rest[i + 1]); } }
            else { let i = choose|i: int| 0 <= i < path.len() && i < rest.len() && #[trigger] path[i] != rest[i]; assert(i > 0); assert(path.skip(1)[i - 1] != r2[i - 1]); }
            if path.len() >= rest.len() { assert(path.skip(1).skip(r2.len() as int) =~= path.skip(rest.len() as int)); }
        } else { lemma_nowhere(path.skip(1)); assert(!agree(path, rest)); }
    }
}
pub proof fn lemma_tail(path: Seq<&[u8]>, n: int) requires 0 <= n <= path.len() ensures sv(path.skip(n)) =~= sv(path).skip(n), sv(path.take(n)) =~= sv(path).take(n), path.take(path.len() as int) =~= path { }
pub proof fn lemma_agree_take(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) requires b.len() <= a.len() ensures agree(a.take(b.len() as int), b) == agree(a, b)
{
    let t = a.take(b.len() as int);
    if agree(t, b) { assert forall|i: int| 0 <= i < a.len() && i < b.len() implies #[trigger] a[i] == b[i] by { assert(t[i] == b[i]); } }
    if agree(a, b) { assert forall|i: int| 0 <= i < t.len() && i < b.len() implies #[trigger] t[i] == b[i] by { assert(a[i] == b[i]); } }
}
// everything at once about going from a query along the branch chosen for the first segment
pub proof fn lemma_first(q: Query, path: Seq<&[u8]>)
    requires path.len() > 0
    ensures ({ let b = branch(q, path[0]@); let p = path.skip(1); let s = segments(b); let d = descend(Pos::At(q), sv(path));
        &&& p.take(p.len() as int) == p
        &&& p.len() > s.len() ==> agree(sv(p.take(s.len() as int)), s) == agree(sv(p), s)
        &&& s == s.skip(0)
        &&& !agree(sv(p), s) ==> d == Pos::Nowhere
        &&& agree(sv(p), s) && p.len() <= s.len() ==> d == along(b, p.len() as int)
        &&& agree(sv(p), s) && p.len() >= s.len() ==> d == descend(along(b, s.len() as int), sv(p.skip(s.len() as int)))
        &&& b.subquery_path is None ==> agree(sv(p), s) && s.len() == 0 && p.skip(0) == p
        &&& b.subquery is None && p.len() >= s.len() ==> d == Pos::Nowhere })
{
    let b = branch(q, path[0]@); let p = path.skip(1); let s = segments(b);
    assert(s.skip(0) =~= s);
    assert(sv(path)[0] == path[0]@); lemma_tail(path, 1); lemma_tail(p, p.len() as int);
    lemma_along(b, 0, sv(p));
    if p.len() >= s.len() { lemma_tail(p, s.len() as int); lemma_agree_take(sv(p), s); lemma_nowhere(sv(p).skip(s.len() as int)); }
    assert(p.skip(0) =~= p);
}

// ---- the code ------------------------------------------------------------------
impl HasSubquery<'_> {
//@ fn grovedb/src/query/mod.rs HasSubquery::has_subquery_on_key
//@ rule conditionally.keys().any(|query_item| query_item.contains(key)) ==> any_key(cow_map(conditionally), key)
//@ ret r
//@ spec
  ensures forall|s: Has| has_is(*self, s) ==> r == #[trigger] present(s, key@)
//@ end
}
impl<'a> SinglePathSubquery<'a> {
//@ fn grovedb/src/query/mod.rs SinglePathSubquery::has_subquery_or_matching_in_path_on_key
//@ rule path.as_slice() == key ==> bytes_eq(cow_slice(path), key)
//@ rule self.in_path.as_ref() ==> &self.in_path
//@ ret r
//@ spec
  ensures forall|l: Level| #[trigger] is(*self, l) ==> r == (present(l.has, key@) || l.on == Some(key@))
//@ end
//@ fn grovedb/src/query/mod.rs SinglePathSubquery::from_key_when_in_path
//@ rule Some(Borrowed($k)) ==> Some(Cow::Borrowed($k))
//@ rule vec![QueryItem::Key(key.clone())] ==> one_key(clone_of(key))
//@ rule vec![QueryItem::Key(clone_of(key))] ==> one_key(clone_of(key))
//@ ret r
//@ spec
  ensures is(r, Level { items: Seq::empty(), key: Some(key@), has: Has::No, left_to_right: true, on: if subquery_is_last_path_item && !subquery_has_inner_subquery { None } else { Some(key@) } })
//@ end
//@ fn grovedb/src/query/mod.rs SinglePathSubquery::from_path_query
//@ ret r
//@ spec
  ensures is(r, prescribed(Pos::At(path_query.query.query)).unwrap())
//@ end
//@ fn grovedb/src/query/mod.rs SinglePathSubquery::from_query
//@ rule query.conditional_subquery_branches.as_ref() ==> &query.conditional_subquery_branches
//@ ret r
//@ spec
  ensures is(r, prescribed(Pos::At(*query)).unwrap())
//@ end
}
//@ fn grovedb/src/query/mod.rs PathQuery::query_items_at_path > recursive_query_items
//@ ret r
//@ spec
  ensures ois(r, prescribed(descend(Pos::At(*query), sv(path@))))
  decreases path@.len()
//@ at start
  proof { if path@.len() > 0 { lemma_first(*query, path@); } }
//@ loop 1
  invariant ci <= conditional_branches.e@.len(), query.conditional_subquery_branches == Some(*conditional_branches), path@.len() > 0, key@ == path@[0]@, path_after_top_removed@ == path@.skip(1),
    branch(*query, key@) == (match conditional(conditional_branches.e@, key@, ci as nat) { Some(b) => b, None => query.default_subquery_branch }),
    ({ let b = branch(*query, path@[0]@); let p = path@.skip(1); let s = segments(b); let d = descend(Pos::At(*query), sv(path@));
        &&& p.take(p.len() as int) == p
        &&& p.len() > s.len() ==> agree(sv(p.take(s.len() as int)), s) == agree(sv(p), s)
        &&& s == s.skip(0)
        &&& !agree(sv(p), s) ==> d == Pos::Nowhere
        &&& agree(sv(p), s) && p.len() <= s.len() ==> d == along(b, p.len() as int)
        &&& agree(sv(p), s) && p.len() >= s.len() ==> d == descend(along(b, s.len() as int), sv(p.skip(s.len() as int)))
        &&& b.subquery_path is None ==> agree(sv(p), s) && s.len() == 0 && p.skip(0) == p
        &&& b.subquery is None && p.len() >= s.len() ==> d == Pos::Nowhere }),
  decreases conditional_branches.e@.len() - ci
//@ end
//@ fn grovedb/src/query/mod.rs PathQuery::should_add_parent_tree_at_path > recursive_should_add_parent_tree_at_path
//@ ret r
//@ spec
  ensures r == parent(descend(Pos::At(*query), sv(path@)))
  decreases path@.len()
//@ at start
  proof { if path@.len() > 0 { lemma_first(*query, path@); } }
//@ loop 1
  invariant ci <= conditional_branches.e@.len(), query.conditional_subquery_branches == Some(*conditional_branches), path@.len() > 0, key@ == path@[0]@, path_after_top_removed@ == path@.skip(1),
    branch(*query, key@) == (match conditional(conditional_branches.e@, key@, ci as nat) { Some(b) => b, None => query.default_subquery_branch }),
    ({ let b = branch(*query, path@[0]@); let p = path@.skip(1); let s = segments(b); let d = descend(Pos::At(*query), sv(path@));
        &&& p.take(p.len() as int) == p
        &&& p.len() > s.len() ==> agree(sv(p.take(s.len() as int)), s) == agree(sv(p), s)
        &&& s == s.skip(0)
        &&& !agree(sv(p), s) ==> d == Pos::Nowhere
        &&& agree(sv(p), s) && p.len() <= s.len() ==> d == along(b, p.len() as int)
        &&& agree(sv(p), s) && p.len() >= s.len() ==> d == descend(along(b, s.len() as int), sv(p.skip(s.len() as int)))
        &&& b.subquery_path is None ==> agree(sv(p), s) && s.len() == 0 && p.skip(0) == p
        &&& b.subquery is None && p.len() >= s.len() ==> d == Pos::Nowhere }),
  decreases conditional_branches.e@.len() - ci
//@ end
impl PathQuery {
//@ fn grovedb/src/query/mod.rs PathQuery::query_items_at_path
//@ rulefirst fn recursive_query_items<'b>($x..) -> Option<SinglePathSubquery<'b>> { $y.. } ==>
//@ ret r
//@ spec
  ensures r is Ok == (grove_version.grovedb_versions.path_query_methods.query_items_at_path == 0), r is Ok ==> ois(r.unwrap(), prescribed(descend(start(*self), sv(path@))))
//@ at start
  proof { lemma_start(*self, path@); }
//@ end
//@ fn grovedb/src/query/mod.rs PathQuery::should_add_parent_tree_at_path
//@ rulefirst fn recursive_should_add_parent_tree_at_path($x..) -> bool { $y.. } ==>
//@ ret r
//@ spec
  ensures r is Ok == (grove_version.grovedb_versions.path_query_methods.should_add_parent_tree_at_path == 0), r is Ok ==> r.unwrap() == parent(descend(start(*self), sv(path@)))
//@ at start
  proof { lemma_start(*self, path@); }
//@ end
}
pub proof fn lemma_start(q: PathQuery, path: Seq<&[u8]>)
    ensures ({ let s = dv(q.path@); let d = descend(start(q), sv(path)); let b = SubqueryBranch { subquery_path: Some(q.path), subquery: Some(Box::new(q.query.query)) };
        &&& path.take(path.len() as int) == path && sv(path).len() == path.len() && s.len() == q.path@.len()
        &&& !agree(sv(path), s) ==> d == Pos::Nowhere
        &&& agree(sv(path), s) && path.len() < s.len() ==> d == Pos::Along(b, path.len() as int) && segments(b) == s && s[path.len() as int] == q.path@[path.len() as int]@
        &&& agree(sv(path), s) && path.len() == s.len() ==> d == Pos::At(q.query.query)
        &&& agree(sv(path), s) && path.len() >= s.len() ==> d == descend(Pos::At(q.query.query), sv(path.skip(s.len() as int))) })
{
    let b = SubqueryBranch { subquery_path: Some(q.path), subquery: Some(Box::new(q.query.query)) };
    assert(start(q) == along(b, 0));
    assert(segments(b).skip(0) =~= segments(b));
    lemma_along(b, 0, sv(path)); lemma_tail(path, path.len() as int);
    if path.len() >= segments(b).len() { lemma_tail(path, segments(b).len() as int); }
}

// Going along the start path of a query: the segment asked for is descended into, and something is prescribed below it
// (what the layered verifier relies on, `follows` in unit layered).
pub open spec fn asks(l: Level, k: Seq<u8>) -> bool { match l.key { Some(x) => x == k, None => exists|i: int| 0 <= i < l.items.len() && sel(#[trigger] l.items[i], k) } }
pub proof fn follows(q: PathQuery, at: Seq<Seq<u8>>, k: Seq<u8>)
    requires at.len() < q.path@.len(), prescribed(descend(start(q), at)) is Some, asks(prescribed(descend(start(q), at)).unwrap(), k)
    ensures ({ let l = prescribed(descend(start(q), at)).unwrap(); present(l.has, k) || l.on == Some(k) }), prescribed(descend(start(q), at.push(k))) is Some
{
    let b = SubqueryBranch { subquery_path: Some(q.path), subquery: Some(Box::new(q.query.query)) }; let s = segments(b); let n = at.len() as int; let p = at.push(k);
    assert(start(q) == along(b, 0)); assert(s.skip(0) =~= s); assert(s.len() == q.path@.len());
    lemma_along(b, 0, at); lemma_along(b, 0, p);
    assert(agree(at, s)); assert(descend(start(q), at) == Pos::Along(b, n)); assert(s[n] == k);
    assert forall|i: int| 0 <= i < p.len() && i < s.len() implies #[trigger] p[i] == s[i] by { if i < n { assert(at[i] == s[i]); } }
}

// ---- merging: the common start path, and the branch below it ------------------------
pub open spec fn shared(l: Seq<Seq<u8>>, r: Seq<Seq<u8>>, n: int) -> bool
{ 0 <= n <= l.len() && n <= r.len() && l.take(n) == r.take(n) && (n == l.len() || n == r.len() || l[n] != r[n]) }
pub fn path_eq(a: &Path, b: &Path) -> (r: bool) ensures r == (dv(a@) == dv(b@))
{
    if a.len() != b.len() { assert(dv(a@).len() != dv(b@).len()); return false; }
    let mut i: usize = 0;
    while i < a.len() invariant i <= a@.len(), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> a@[k]@ == b@[k]@ decreases a@.len() - i
    { if !bytes_eq(a[i].as_slice(), b[i].as_slice()) { assert(dv(a@)[i as int] != dv(b@)[i as int]); return false; } i += 1; }
    assert(dv(a@) =~= dv(b@));
    true
}
#[verifier::external_body] pub fn clone_path(p: &[Vec<u8>]) -> (r: Path) ensures dv(r@) == dv(p@) { unimplemented!() }
#[verifier::external_body] pub fn extend_path(p: &mut Path, s: &[Vec<u8>]) ensures dv(final(p)@) == dv(old(p)@) + dv(s@) { unimplemented!() }
// p.split_at(n).1
pub fn split_after(p: &Path, n: usize) -> (r: &[Vec<u8>]) requires n <= p@.len() ensures dv(r@) == dv(p@).skip(n as int)
{ let r = vstd::slice::slice_subrange(p.as_slice(), n, p.len()); assert(dv(r@) =~= dv(p@).skip(n as int)); r }
pub fn min_len(q: &[&PathQuery]) -> (r: usize)
    requires q@.len() > 0
    ensures forall|i: int| 0 <= i < q@.len() ==> r <= (#[trigger] q@[i]).path@.len(), exists|i: int| 0 <= i < q@.len() && r == (#[trigger] q@[i]).path@.len()
{
    let mut m = q[0].path.len(); let mut i: usize = 1;
    while i < q.len() invariant 1 <= i <= q@.len(), forall|k: int| 0 <= k < i ==> m <= (#[trigger] q@[k]).path@.len(), exists|k: int| 0 <= k < i && m == (#[trigger] q@[k]).path@.len() decreases q@.len() - i
    { if q[i].path.len() < m { m = q[i].path.len(); assert(m == q@[i as int].path@.len()); } i += 1; }
    m
}
pub fn keys_at<'a>(q: &'a [&'a PathQuery], level: usize) -> (r: Vec<&'a Vec<u8>>)
    requires forall|i: int| 0 <= i < q@.len() ==> level < (#[trigger] q@[i]).path@.len()
    ensures r@.len() == q@.len(), forall|i: int| 0 <= i < q@.len() ==> *(#[trigger] r@[i]) == q@[i].path@[level as int]
{
    let mut v: Vec<&'a Vec<u8>> = Vec::new(); let mut i: usize = 0;
    while i < q.len() invariant i <= q@.len(), v@.len() == i, forall|k: int| 0 <= k < q@.len() ==> level < (#[trigger] q@[k]).path@.len(), forall|k: int| 0 <= k < i ==> *(#[trigger] v@[k]) == q@[k].path@[level as int] decreases q@.len() - i
    { v.push(&q[i].path[level]); i += 1; }
    v
}
pub fn all_same(v: &Vec<&Vec<u8>>, x: &Vec<u8>) -> (r: bool) ensures r == (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@ == x@)
{
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> (#[trigger] v@[k])@ == x@ decreases v@.len() - i
    { if !bytes_eq(v[i].as_slice(), x.as_slice()) { return false; } i += 1; }
    true
}
// the first n segments of every path
pub open spec fn all_start(q: Seq<&PathQuery>, c: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < q.len() ==> c.len() <= (#[trigger] q[i]).path@.len() && dv(q[i].path@).take(c.len() as int) == c }
//@ type grovedb-query/src/common_path.rs CommonPathResult
impl CommonPathResult {
//@ fn grovedb-query/src/common_path.rs CommonPathResult::from_paths
//@ rule left.eq(right) ==> path_eq(left, right)
//@ rulefirst left.clone() ==> clone_path(left.as_slice())
//@ rule vec![] ==> Vec::<Vec<u8>>::new()
//@ rule for ($a, $c) in left.iter().zip(right.iter()) { $b.. } ==> let mut zi: usize = 0; while zi < left.len() && zi < right.len() { let ($a, $c) = (&left[zi], &right[zi]); zi += 1; $b }
//@ rule ours_key != theirs_key ==> !bytes_eq(slice_of(ours_key), slice_of(theirs_key))
//@ rule $v.extend_from_slice($p.split_at($n..).1) ==> extend_path(&mut $v, split_after($p, $n))
//@ ret r
//@ spec
  ensures shared(dv(left@), dv(right@), r.common_path@.len() as int), dv(r.common_path@) == dv(left@).take(r.common_path@.len() as int),
    dv(r.left_path_leftovers@) == dv(left@).skip(r.common_path@.len() as int), dv(r.right_path_leftovers@) == dv(right@).skip(r.common_path@.len() as int),
//@ at start
  proof { let (l, r) = (dv(left@), dv(right@)); assert(l.take(l.len() as int) =~= l); assert(r.take(r.len() as int) =~= r); assert(l.skip(l.len() as int) =~= Seq::empty()); assert(r.skip(r.len() as int) =~= Seq::empty()); assert forall|v: Seq<Vec<u8>>| #[trigger] dv(v).len() == v.len() by { } assert(dv(Seq::<Vec<u8>>::empty()) =~= Seq::<Seq<u8>>::empty()); }
//@ loop 1
  invariant_except_break zi <= left@.len(), zi <= right@.len(), common_path@.len() == zi,
  invariant left_path_leftovers@.len() == 0, right_path_leftovers@.len() == 0, forall|k: int| 0 <= k < common_path@.len() ==> (#[trigger] common_path@[k])@ == left@[k]@, forall|k: int| 0 <= k < common_path@.len() ==> (#[trigger] common_path@[k])@ == right@[k]@,
  ensures common_path@.len() <= left@.len(), common_path@.len() <= right@.len(),
    common_path@.len() == left@.len() || common_path@.len() == right@.len() || left@[common_path@.len() as int]@ != right@[common_path@.len() as int]@,
  decreases left@.len() - zi
//@ postloop 1
  proof { let n = common_path@.len() as int; assert(dv(common_path@) =~= dv(left@).take(n)); assert forall|k: int| 0 <= k < n implies dv(left@)[k] == dv(right@)[k] by { assert(common_path@[k]@ == left@[k]@); assert(common_path@[k]@ == right@[k]@); } assert(dv(left@).take(n) =~= dv(right@).take(n)); 
    assert(dv(left_path_leftovers@) + dv(left@).skip(n) =~= dv(left@).skip(n)); assert(dv(right_path_leftovers@) + dv(right@).skip(n) =~= dv(right@).skip(n)); }
//@ end
}
impl PathQuery {
//@ fn grovedb/src/query/mod.rs PathQuery::get_common_path
//@ rule path_queries.iter().map(|path_query| path_query.path.len()).min().expect($m) ==> min_len(path_queries)
//@ rule path_queries.iter().map(|path_query| &path_query.path[level]).collect::<Vec<_>>() ==> keys_at(path_queries, level)
//@ rule keys_at_level.iter().all(|&curr_key| curr_key == first_key) ==> all_same(&keys_at_level, first_key)
//@ rule first_key.to_vec() ==> copy_bytes(first_key)
//@ rule vec![] ==> Vec::<Vec<u8>>::new()
//@ ret r
//@ spec
  requires path_queries@.len() > 0
  ensures r.1 == r.0@.len(), all_start(path_queries@, dv(r.0@)),
    (exists|i: int| 0 <= i < path_queries@.len() && (#[trigger] path_queries@[i]).path@.len() == r.1) || (exists|i: int| 0 <= i < path_queries@.len() && (#[trigger] path_queries@[i]).path@[r.1 as int]@ != path_queries@[0].path@[r.1 as int]@)
//@ preloop 1
  proof { assert(dv(common_path@) =~= Seq::<Seq<u8>>::empty()); assert forall|i: int| 0 <= i < path_queries@.len() implies dv((#[trigger] path_queries@[i]).path@).take(0) == Seq::<Seq<u8>>::empty() by { assert(dv(path_queries@[i].path@).take(0) =~= Seq::<Seq<u8>>::empty()); } }
//@ loop 1
  invariant path_queries@.len() > 0, forall|i: int| 0 <= i < path_queries@.len() ==> min_path_length <= (#[trigger] path_queries@[i]).path@.len(), exists|i: int| 0 <= i < path_queries@.len() && min_path_length == (#[trigger] path_queries@[i]).path@.len(),
    level == common_path@.len(), level <= min_path_length, all_start(path_queries@, dv(common_path@)),
  ensures level == common_path@.len(), all_start(path_queries@, dv(common_path@)),
    (exists|i: int| 0 <= i < path_queries@.len() && (#[trigger] path_queries@[i]).path@.len() == level) || (exists|i: int| 0 <= i < path_queries@.len() && (#[trigger] path_queries@[i]).path@[level as int]@ != path_queries@[0].path@[level as int]@),
  decreases min_path_length - level
//@ loopend 1
  proof { let c = dv(common_path@); assert forall|i: int| 0 <= i < path_queries@.len() implies c.len() <= (#[trigger] path_queries@[i]).path@.len() && dv(path_queries@[i].path@).take(c.len() as int) == c by { let d = dv(path_queries@[i].path@); assert(keys_at_level@[i]@ == d[c.len() - 1]); assert(c.drop_last() =~= d.take(c.len() - 1)); assert(d.take(c.len() as int) =~= c); } }
//@ end
//@ fn grovedb/src/query/mod.rs PathQuery::to_subquery_branch_with_offset_start_index
//@ rule let (_, remainder) = path.split_at($n..); ==> let remainder = split_after(path, $n);
//@ rulefirst self.query.query.clone() ==> clone_of(&self.query.query)
//@ rule remainder.to_vec() ==> clone_path(remainder)
//@ ret r
//@ spec
  ensures r is Ok == (start_index <= self.path@.len()), r is Ok ==> segments(r.unwrap()) == dv(self.path@).skip(start_index as int) && r.unwrap().subquery == Some(Box::new(self.query.query)) && (r.unwrap().subquery_path is None == (start_index == self.path@.len())),
//@ end
}
} // verus!
fn main() {}
