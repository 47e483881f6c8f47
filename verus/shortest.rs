//! Model of the part of petgraph the library uses: directed graphs with float weights and
//! Dijkstra's algorithm. Lengths are sums in floating point, taken from the start of the path.
use vstd::prelude::*;
use crate::prelude::*;
use crate::lawful::*;
use crate::iters::*;
use crate::models::*;
use crate::digraphs::*;
verus! {

pub type WEdge = (u32, u32, f64);

#[derive(Clone, Copy)]
pub struct NodeIndex { pub i: u32 }
impl NodeIndex {
    pub fn from(i: u32) -> (r: NodeIndex)
        ensures r.i == i,
    { NodeIndex { i } }
    pub fn new(i: usize) -> (r: NodeIndex)
        requires i <= u32::MAX,
        ensures r.i == i,
    { NodeIndex { i: i as u32 } }
    pub fn index(self) -> (r: usize)
        ensures r == self.i,
    { self.i as usize }
}
#[derive(Clone, Copy)]
pub struct EdgeReference { pub e: WEdge }
impl EdgeReference {
    pub fn weight(&self) -> (r: &f64)
        ensures *r == self.e.2,
    { &self.e.2 }
}
/// nodes are numbered in the order in which they are added
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
#[verifier::reject_recursive_types(E)]
pub struct Graph<N, E> { n: Vec<N>, e: Vec<E> }
impl Graph<Unit, f64> {
    pub uninterp spec fn nodes(&self) -> nat;
    pub uninterp spec fn edges(&self) -> Seq<WEdge>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.nodes() == 0, r.edges() == Seq::<WEdge>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize, m: usize) -> (r: Self)
        ensures r.nodes() == 0, r.edges() == Seq::<WEdge>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_node(&mut self, w: Unit) -> (r: NodeIndex)
        requires old(self).nodes() < u32::MAX,
        ensures final(self).nodes() == old(self).nodes() + 1, r.i == old(self).nodes(), final(self).edges() == old(self).edges(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_edge(&mut self, a: NodeIndex, b: NodeIndex, w: f64)
        requires a.i < old(self).nodes(), b.i < old(self).nodes(),
        ensures final(self).nodes() == old(self).nodes(), final(self).edges() == old(self).edges().push((a.i, b.i, w)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_with_edges(&mut self, it: It<&WEdge>)
        requires forall|k: int| 0 <= k < it@.len() ==> (#[trigger] it@[k]).0 < old(self).nodes() && it@[k].1 < old(self).nodes(),
        ensures final(self).nodes() == old(self).nodes(), final(self).edges() == old(self).edges() + derefs(it@),
    { unimplemented!() }
}

pub open spec fn derefs(s: Seq<&WEdge>) -> Seq<WEdge> { s.map_values(|e: &WEdge| *e) }
/// floating-point addition
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
/// some set of edges
pub type Edges = spec_fn(WEdge) -> bool;
pub open spec fn is_walk(g: Edges, i: u32, p: Seq<WEdge>, j: u32) -> bool
    decreases p.len(),
{ if p.len() == 0 { i == j } else { g(p.last()) && p.last().1 == j && is_walk(g, i, p.drop_last(), p.last().0) } }
pub open spec fn length(p: Seq<WEdge>) -> f64
    decreases p.len(),
{ if p.len() == 0 { f64_zero() } else { fadd(length(p.drop_last()), p.last().2) } }
pub open spec fn reachable(g: Edges, i: u32, j: u32) -> bool { exists|p: Seq<WEdge>| #[trigger] is_walk(g, i, p, j) }
/// `t` is the length of a shortest walk
pub open spec fn is_dist(g: Edges, i: u32, j: u32, t: Time) -> bool {
    &&& exists|p: Seq<WEdge>| #[trigger] is_walk(g, i, p, j) && nn(length(p)) == t
    &&& forall|p: Seq<WEdge>| #[trigger] is_walk(g, i, p, j) ==> leq(t, nn(length(p)))
}
/// the length of a shortest walk, if there is a walk
pub open spec fn dist(g: Edges, i: u32, j: u32) -> Option<Time> {
    if exists|t: Time| is_dist(g, i, j, t) { Some(choose|t: Time| is_dist(g, i, j, t)) } else { None }
}
pub open spec fn listed_edges(s: Seq<WEdge>) -> Edges { |e: WEdge| s.contains(e) }
pub proof fn dist_is(g: Edges, i: u32, j: u32, t: Time)
    requires is_dist(g, i, j, t),
    ensures dist(g, i, j) == Some(t),
{
    time_lawful();
    let u = choose|u: Time| is_dist(g, i, j, u);
    assert(is_dist(g, i, j, u));
    let p = choose|p: Seq<WEdge>| #[trigger] is_walk(g, i, p, j) && nn(length(p)) == t;
    let q = choose|p: Seq<WEdge>| #[trigger] is_walk(g, i, p, j) && nn(length(p)) == u;
    leq_antisym(t, u);
}
/// Dijkstra's algorithm (assumption: petgraph computes shortest walks when no weight is negative)
#[verifier::external_body]
pub fn dijkstra<F: Fn(EdgeReference) -> f64>(g: &Graph<Unit, f64>, start: NodeIndex, goal: Option<NodeIndex>, cost: F) -> (r: HashMap<NodeIndex, f64>)
    requires
        start.i < g.nodes(), goal is None,
        forall|e: EdgeReference| cost.requires((e,)),
        forall|e: EdgeReference, w: f64| #[trigger] cost.ensures((e,), w) ==> w == e.e.2,
        forall|k: int| 0 <= k < g.edges().len() ==> f64_le(f64_zero(), (#[trigger] g.edges()[k]).2),
    ensures
        forall|j: NodeIndex| #[trigger] r@.dom().contains(j) <==> reachable(listed_edges(g.edges()), start.i, j.i),
        forall|j: NodeIndex| #[trigger] r@.dom().contains(j) ==> !f64_nan(r@[j]) && is_dist(listed_edges(g.edges()), start.i, j.i, nn(r@[j])),
{ unimplemented!() }
/// (assumption: adding a weight that is not negative does not make a length smaller)
pub axiom fn axiom_fadd(a: f64, w: f64)
    requires f64_le(f64_zero(), w), leq(nn(f64_zero()), nn(a)),
    ensures leq(nn(f64_zero()), nn(fadd(a, w)));
pub proof fn length_non_negative(g: Edges, i: u32, p: Seq<WEdge>, j: u32)
    requires is_walk(g, i, p, j), forall|e: WEdge| #[trigger] g(e) ==> f64_le(f64_zero(), e.2),
    ensures leq(nn(f64_zero()), nn(length(p))),
    decreases p.len(),
{
    time_lawful();
    leq_refl(nn(f64_zero()));
    if p.len() > 0 {
        length_non_negative(g, i, p.drop_last(), p.last().0);
        assert(g(p.last()));
        axiom_fadd(length(p.drop_last()), p.last().2);
    }
}

} // verus!
