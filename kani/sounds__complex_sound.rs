//@ subst cut `for b in &self\.process_order \{` `for b in crate::sounds::complex_sound::vk::order(&self.process_order, &raw mut out) {`
//@ subst cut `for root in (.*?) \{` `for root in crate::sounds::complex_sound::vk::roots(\1) {`
use crate::vkp::*;
use petgraph::graph::{NodeIndex, EdgeIndex};

// ---- one sample: contracts of the graph are assumed (node_weight_mut finds a node's
// block, neighbors walks over the nodes it is connected to, each once) --------------
static mut NODE: u32 = 0;
static mut OK: bool = true;
static mut PRIMED: (u8, u32, f32) = (0, 0, 0.0);
static mut MADE: (u8, u32, f32) = (0, 0, 0.0);
/// Events of the block of the node last asked for.
pub struct B;
impl Block for B {
    fn prime_input(&mut self, x: f32) { unsafe { PRIMED = (PRIMED.0 + 1, NODE, x); } }
    fn process(&mut self) -> f32 { unsafe { MADE = (MADE.0 + 1, NODE, kani::any()); OK = OK && PRIMED.0 == 0; MADE.2 } }
}
pub fn node_weight_mut<N, E, Ty: petgraph::EdgeType, Ix: graph::IndexType>(g: &mut graph::Graph<N, E, Ty, Ix>, a: NodeIndex<Ix>) -> Option<&mut N> {
    unsafe {
        NODE = a.index() as u32;
        g.node_weights_mut().next()
    }
}
static mut OF: u32 = 0;
static mut WALK: (u8, u32) = (0, 0);
pub fn neighbors<N, E, Ty: petgraph::EdgeType, Ix: graph::IndexType>(g: &graph::Graph<N, E, Ty, Ix>, a: NodeIndex<Ix>) -> graph::Neighbors<E, Ix> {
    unsafe { OF = a.index() as u32; OK = OK && WALK.0 == 0; WALK.0 = 1; }
    g.neighbors_directed(NodeIndex::new(0), petgraph::Direction::Outgoing)
}
/// The rule for the loop over the neighbours: any one of them; nothing but it is
/// primed, once, with what the node made.
pub struct Walks<Ix>(Ix);
impl<Ix: graph::IndexType> Walks<Ix> {
pub fn walk<N, E, Ty: petgraph::EdgeType>(w: &mut graph::WalkNeighbors<Ix>, g: &graph::Graph<N, E, Ty, Ix>) -> Option<(EdgeIndex<Ix>, NodeIndex<Ix>)> {
    unsafe {
        if WALK.0 == 2 {
            assert!(PRIMED.0 == 1 && PRIMED.1 == WALK.1 && same32(PRIMED.2, MADE.2), "complex sound: a connected block is not given the sample made");
            assert!(MADE.0 == 1, "complex sound: a block is not processed once");
            kani::assume(false);
        }
        assert!(WALK.0 == 1 && OF == MADE.1, "complex sound: the neighbours of another block");
        assert!(MADE.0 == 1 && PRIMED.0 == 0, "complex sound: a block is not processed once, before those connected to it");
        if kani::any() { WALK.0 = 3; return None; }
        WALK = (2, kani::any());
        Some((EdgeIndex::new(kani::any::<u32>() as usize), NodeIndex::new(WALK.1 as usize)))
    }
}
}
static mut START: (u32, f32) = (0, 0.0);
pub struct Order { at: NodeIndex, out: *mut f32, calls: u8 }
/// The rule for the loop over the order: any one node of it.
pub fn order(o: &ProcessOrder, out: *mut f32) -> Order { Order { at: NodeIndex::new(0), out, calls: 0 } }
impl Iterator for Order {
    type Item = &'static NodeIndex;
    fn next(&mut self) -> Option<&'static NodeIndex> {
        unsafe {
            self.calls += 1;
            if self.calls == 2 {
                assert!(OK && MADE.0 == 1 && MADE.1 == self.at.index() as u32, "complex sound: a block is not processed once, in order");
                assert!(PRIMED.0 == 0 && WALK.0 == 3, "complex sound: not exactly the connected blocks are given the sample made");
                assert!(same32(*self.out, MADE.2), "complex sound: output is not the last block's");
                kani::assume(false);
            }
            assert!(OK && MADE.0 == 0, "complex sound: a block is processed out of order");
            assert!(PRIMED.0 == 1 && PRIMED.1 == START.0 && same32(PRIMED.2, START.1), "complex sound: input gain not given the input");
            PRIMED.0 = 0;
            let k: u32 = kani::any();
            self.at = NodeIndex::new(k as usize);
            MADE.2 = kani::any();
            *self.out = MADE.2;
            if kani::any() { None } else { Some(&*(&self.at as *const NodeIndex)) }
        }
    }
}
fn any() -> ComplexSound {
    let mut g = Graph::new();
    g.add_node(Arc::new(B));
    let (i, o): (u32, u32) = kani::any();
    ComplexSound { graph: g, process_order: ProcessOrder::new(), input_gain: NodeIndex::new(i as usize), output_gain: NodeIndex::new(o as usize), id: kani::any(), is_muted: kani::any(), is_paused: kani::any() }
}
//# C25 C23 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(petgraph::graph::Graph::node_weight_mut, node_weight_mut)]
#[kani::stub(petgraph::graph::Graph::neighbors, neighbors)]
#[kani::stub(petgraph::graph::WalkNeighbors::next, Walks::walk)]
pub fn complex_process() {
    let mut s = any();
    s.is_paused = false;
    let x: f32 = kani::any();
    unsafe { START = (s.input_gain.index() as u32, x); }
    let y = s.process(x);
    assert!(same32(y, if s.is_muted { 0.0 } else { unsafe { MADE.2 } }), "complex sound: not the last block's sample, or silence when muted");
    kani::cover!(!s.is_muted, "reached");
    std::mem::forget(s);
}
//# C23
#[kani::proof]
#[kani::unwind(3)]
pub fn complex_pause() {
    let mut s = any();
    s.is_paused = true;
    assert!(s.process(kani::any()) == 0.0, "complex sound: paused but not silent");
    assert!(unsafe { MADE.0 == 0 && PRIMED.0 == 0 }, "complex sound: plays though paused");
    kani::cover!(true, "reached");
    std::mem::forget(s);
}
//# C23
#[kani::proof]
#[kani::unwind(3)]
pub fn complex_switches() {
    let mut s = any();
    let (p, m, id) = (s.is_paused, s.is_muted, s.id);
    let c: u8 = kani::any();
    let i: usize = kani::any();
    match c { 0 => s.toggle_pause(), 1 => s.toggle_mute(), 2 => s.register(i), 3 => s.unregister(), _ => {} }
    assert!(s.is_paused() == if c == 0 { !p } else { p }, "complex sound: paused or not by something else");
    assert!(s.is_muted() == if c == 1 { !m } else { m }, "complex sound: muted or not by something else");
    assert!(s.get_id() == if c == 2 { Some(i) } else if c == 3 { None } else { id }, "complex sound: registered or not by something else");
    kani::cover!(true, "reached");
    std::mem::forget(s);
}

// ---- the order: contract of DfsPostOrder assumed: it makes a sequence of the nodes
// reachable from those moved to, each once, unless on a cycle after those connected to it.
// The K-th of it, W, is watched. -----------------------------------------------------
static mut K: usize = 0;
static mut W: u32 = 0;
static mut COUNT: usize = 0;
static mut HELD: u32 = 0;
static mut SEARCH: (u8, usize) = (9, 0);
static mut STAGE: u8 = 0;
static mut ENDS: (u32, u32) = (0, 0);
/// The order holds, from its back, the first i nodes found.
fn holds(i: usize) -> bool { unsafe { COUNT == i && (i <= K || HELD == W) } }
fn arbitrary() { unsafe { COUNT = kani::any(); HELD = kani::any(); kani::assume(COUNT < 1 << 40 && holds(COUNT)); } }
fn as32<T>(v: &T) -> u32 { unsafe { *(v as *const T as *const u32) } }
pub fn clear<T, A: std::alloc::Allocator>(q: &mut VecDeque<T, A>) { unsafe { assert!(STAGE == 0, "order: cleared when it has begun"); STAGE = 1; COUNT = 0; } }
pub fn push_front<T, A: std::alloc::Allocator>(q: &mut VecDeque<T, A>, v: T) {
    unsafe {
        if STAGE == 1 { if COUNT == K { HELD = as32(&v); } COUNT += 1; }
        else { assert!(STAGE == 2 && as32(&v) == ENDS.0, "order: not the input gain in front"); STAGE = 3; }
    }
}
pub fn push_back<T, A: std::alloc::Allocator>(q: &mut VecDeque<T, A>, v: T) {
    unsafe { assert!(STAGE == 3 && as32(&v) == ENDS.1, "order: not the output gain at the back"); STAGE = 4; }
}
pub struct Queues<T, A>(T, A);
impl<T, A: std::alloc::Allocator> Queues<T, A> {
pub fn retain<F>(q: &mut VecDeque<T, A>, mut f: F) where F: FnMut(&T) -> bool {
    unsafe {
        assert!(STAGE == 1, "order: filtered before it is made");
        STAGE = 2;
        let v: u32 = kani::any();
        assert!(f(&*(&v as *const u32 as *const T)) == (v != ENDS.0 && v != ENDS.1), "order: not exactly the gains taken out");
    }
}
}
pub fn move_to<N, VM>(d: &mut petgraph::visit::DfsPostOrder<N, VM>, n: N) { unsafe { SEARCH = (0, as32(&n) as usize); } }
/// The rule for the loop over the nodes found from one root.
pub struct Search<N, VM>(N, VM);
impl<N: Copy + PartialEq, VM: petgraph::visit::VisitMap<N>> Search<N, VM> {
pub fn found<G: petgraph::visit::IntoNeighbors<NodeId = N>>(d: &mut petgraph::visit::DfsPostOrder<N, VM>, g: G) -> Option<N> {
    unsafe {
        if SEARCH.0 == 1 { assert!(holds(SEARCH.1 + 1), "order: a node found is not put in front of those found before"); kani::assume(false); }
        assert!(SEARCH.0 == 0, "order: searched without a root");
        arbitrary();
        if kani::any() { SEARCH.0 = 2; return None; }
        SEARCH = (1, COUNT);
        let n: u32 = if COUNT == K { W } else { kani::any() };
        Some(*(&n as *const u32 as *const N))
    }
}
}
static mut NODES: usize = 0;
pub struct Roots { at: u32, calls: u8 }
/// The rule for the loop over the roots; all nodes are among them.
pub fn roots<I: Iterator<Item = NodeIndex>>(mut i: I) -> Roots {
    let u: usize = kani::any();
    kani::assume(u < 3);
    assert!(i.any(|n| n.index() == u), "order: a node that nothing is connected to is missed");
    Roots { at: 0, calls: 0 }
}
impl Iterator for Roots {
    type Item = NodeIndex;
    fn next(&mut self) -> Option<NodeIndex> {
        unsafe {
            self.calls += 1;
            assert!(STAGE == 1, "order: not begun anew");
            if self.calls == 2 { assert!(SEARCH.0 == 2, "order: not all nodes found are put in"); assert!(holds(COUNT), "order: nodes found are put elsewhere"); kani::assume(false); }
            assert!(holds(0), "order: not empty at first");
            arbitrary();
            if kani::any() { None } else { Some(NodeIndex::new(kani::any::<u32>() as usize)) }
        }
    }
}
//# C24 variant=cut
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(std::collections::VecDeque::clear, clear)]
#[kani::stub(std::collections::VecDeque::push_front, push_front)]
#[kani::stub(std::collections::VecDeque::push_back, push_back)]
#[kani::stub(std::collections::VecDeque::retain, Queues::retain)]
#[kani::stub(petgraph::visit::DfsPostOrder::move_to, move_to)]
#[kani::stub(petgraph::visit::DfsPostOrder::next, Search::found)]
pub fn complex_order_made() {
    let mut s = any();
    s.graph.add_node(Arc::new(B));
    s.graph.add_node(Arc::new(B));
    unsafe { K = kani::any(); W = kani::any(); ENDS = (s.input_gain.index() as u32, s.output_gain.index() as u32); }
    s.process_order();
    unsafe { assert!(STAGE == 4 && holds(COUNT), "order: not the input gain, the nodes found last to first, the output gain"); }
    kani::cover!(unsafe { COUNT > 100 && K < 100 }, "reached");
    std::mem::forget(s);
}
// ---- every change is followed by a new order -----------------------------------------
static mut LOG: (u8, u8, u32, u32, bool) = (0, 0, 0, 0, false);
pub fn reorder(s: &mut ComplexSound) { unsafe { LOG.1 = LOG.0; } }
pub fn update_edge<N, E, Ty: petgraph::EdgeType, Ix: graph::IndexType>(g: &mut graph::Graph<N, E, Ty, Ix>, a: NodeIndex<Ix>, b: NodeIndex<Ix>, w: E) -> EdgeIndex<Ix> {
    unsafe { LOG = (LOG.0 + 1, 0, a.index() as u32, b.index() as u32, true); }
    EdgeIndex::new(0)
}
pub fn find_edge<N, E, Ty: petgraph::EdgeType, Ix: graph::IndexType>(g: &graph::Graph<N, E, Ty, Ix>, a: NodeIndex<Ix>, b: NodeIndex<Ix>) -> Option<EdgeIndex<Ix>> {
    unsafe { LOG.2 = a.index() as u32; LOG.3 = b.index() as u32; if LOG.4 { Some(EdgeIndex::new(77)) } else { None } }
}
pub fn remove_edge<N, E, Ty: petgraph::EdgeType, Ix: graph::IndexType>(g: &mut graph::Graph<N, E, Ty, Ix>, e: EdgeIndex<Ix>) -> Option<E> {
    unsafe { LOG.0 += if e.index() == 77 { 1 } else { 100 }; LOG.1 = 0; }
    None
}
//# C24
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(ComplexSound::process_order, reorder)]
#[kani::stub(petgraph::graph::Graph::update_edge, update_edge)]
#[kani::stub(petgraph::graph::Graph::find_edge, find_edge)]
#[kani::stub(petgraph::graph::Graph::remove_edge, remove_edge)]
pub fn complex_changes() {
    let mut s = any();
    let (a, b): (u32, u32) = kani::any();
    let (f, t) = (NodeIndex::new(a as usize), NodeIndex::new(b as usize));
    if kani::any() {
        s.add_connection(f, t);
        unsafe { assert!(LOG == (1, 1, a, b, true), "order: not made anew, or not of the blocks connected"); }
    } else {
        let there: bool = kani::any();
        unsafe { LOG.4 = there; }
        s.remove_connection(f, t);
        unsafe { assert!(LOG == (there as u8, there as u8, a, b, there), "order: not made anew, or another connection removed"); }
    }
    kani::cover!(true, "reached");
    std::mem::forget(s);
}
//# C24 C25
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(ComplexSound::process_order, reorder)]
pub fn complex_add() {
    let mut s = any();
    let n = s.add_block(Arc::new(B));
    unsafe { LOG.0 = 1; }
    let m = s.add_block(Arc::new(B));
    assert!(unsafe { LOG.1 == 1 }, "order: not made anew with a block");
    assert!(n != m && n.index() == 1 && m.index() == 2 && s.graph.node_count() == 3 && s.graph.edge_count() == 0, "complex sound: not a block of its own");
    kani::cover!(true, "reached");
    std::mem::forget(s);
}
static mut GAINS: (u8, f32, f32) = (0, 0.0, 0.0);
/// A gain of the number of gains made before.
pub fn gain(a: f32) -> modifiers::Gain {
    unsafe {
        GAINS.0 += 1;
        if GAINS.0 == 1 { GAINS.1 = a; } else { GAINS.2 = a; }
        modifiers::Gain { a: GAINS.0 as f32 }
    }
}
//# C25 C24
#[kani::proof]
#[kani::solver(minisat)]
#[kani::unwind(4)]
#[kani::stub(ComplexSound::process_order, reorder)]
#[kani::stub(modifiers::Gain::new, gain)]
pub fn complex_new() {
    let (a, b): (f64, f64) = kani::any();
    unsafe { LOG.0 = 1; }
    let mut s = ComplexSound::new(a, b);
    let (i, o) = (s.get_input_gain(), s.get_output_gain());
    assert!(i != o && s.graph.node_count() == 2 && s.graph.edge_count() == 0, "new complex sound: not just its gains");
    assert!(unsafe { LOG.1 == 1 }, "order: not made when the sound is");
    assert!(!s.is_paused() && !s.is_muted() && s.get_id().is_none(), "new complex sound: paused, muted or registered");
    assert!(unsafe { GAINS.0 == 2 }, "new complex sound: not two gains");
    let mut k = 0;
    while k < 2 {
        let g = BlockSP::get_mut(s.graph.node_weight_mut(if k == 0 { i } else { o }).unwrap()).unwrap();
        g.prime_input(1.0);
        let y = g.process();
        assert!(y == 1.0 || y == 2.0, "new complex sound: not its gains");
        assert!(same32(if y == 1.0 { unsafe { GAINS.1 } } else { unsafe { GAINS.2 } }, if k == 0 { a as f32 } else { b as f32 }), "new complex sound: not the gains given");
        k += 1;
    }
    kani::cover!(true, "reached");
    std::mem::forget(s);
}
