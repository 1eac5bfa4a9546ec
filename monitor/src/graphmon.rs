//! Monitors for the planar graph (C01-C08): operation histories on the real graph, each operation
//! judged against a model computed from the state the graph showed before it.
use crate::cx::{CaseResult, Cx, Stop};
use crate::geom::*;
use crate::rng::Rng;
use crate::Prop;
use kami::graph::planar_graph::PlanarGraph;

/// Node data; recognisable in a node's Debug output, the only way to see it from outside.
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct NTag(pub u64);
impl std::fmt::Debug for NTag {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "<<n{}>>", self.0)
    }
}
/// Edge data.
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct ETag(pub u64);

pub type G = PlanarGraph<NTag, ETag>;

/// Within COIN rounding units two features coincide; beyond SEP units they are apart; between the
/// two no answer is right and the input is skipped. One unit is f32 epsilon times the largest
/// coordinate involved.
const COIN: f64 = 8.0;
const NODE_COIN: f64 = 4.0;
const SEP_PRE: f64 = 500.0;
const SEP_POST: f64 = 300.0;
const MID: f64 = 150.0;
const MIN_SIN: f64 = 0.03;
const SMALL: f64 = 0.006;

#[derive(Clone, PartialEq, Debug)]
pub struct Snap {
    pub pos: Vec<P>,
    pub ntag: Vec<Option<u64>>,
    pub edges: Vec<(usize, usize, u64)>,
}

fn parse_ntag(s: &str) -> Option<u64> {
    let i = s.find("<<n")? + 3;
    let j = i + s[i..].find(">>")?;
    s[i..j].parse().ok()
}

pub fn snap(g: &G) -> Snap {
    Snap {
        pos: g.get_nodes().iter().map(|n| pt(n.get_position())).collect(),
        ntag: g.get_nodes().iter().map(|n| parse_ntag(&format!("{:?}", n))).collect(),
        edges: g
            .get_edges()
            .iter()
            .map(|e| {
                let (a, b) = e.get_node_indices();
                (a, b, e.get_data().0)
            })
            .collect(),
    }
}

impl Snap {
    pub fn text(&self) -> String {
        let mut s = String::from("nodes:");
        for (i, p) in self.pos.iter().enumerate() {
            s.push_str(&format!(" {}=({:?},{:?})", i, p.x as f32, p.y as f32));
        }
        s.push_str(" edges:");
        for (i, e) in self.edges.iter().enumerate() {
            s.push_str(&format!(" {}={}-{}#{}", i, e.0, e.1, e.2));
        }
        s
    }
    fn indices_ok(&self) -> bool {
        self.edges.iter().all(|e| e.0 < self.pos.len() && e.1 < self.pos.len())
    }
    fn degree(&self, n: usize) -> usize {
        self.edges.iter().filter(|e| e.0 == n || e.1 == n).count()
    }
    fn has(&self, a: usize, b: usize) -> bool {
        self.edges.iter().any(|e| (e.0, e.1) == (a, b) || (e.1, e.0) == (a, b))
    }
    /// Edge as unordered pair of positions (bit patterns) and tag.
    fn geo(&self, e: usize) -> ((u64, u64), (u64, u64), u64) {
        let (a, b, t) = self.edges[e];
        let (p, q) = (key(self.pos[a]), key(self.pos[b]));
        if p <= q {
            (p, q, t)
        } else {
            (q, p, t)
        }
    }
}

fn key(p: P) -> (u64, u64) {
    (p.x.to_bits(), p.y.to_bits())
}

enum State {
    Fine,
    Ambiguous,
    Broken(String),
}

fn unit(ps: &[P]) -> f64 {
    // (the library's epsilon is absolute where coordinates are below 1/64)
    EPS * mag(ps).max(SMALL)
}

/// Is the point apart from both ends of the segment? (The rounding unit of a short segment may be much
/// smaller than the one of a long segment that starts at the same node.)
fn ends_apart(a: P, b: P, p: P, band: f64) -> bool {
    p.dist(a) >= band && p.dist(b) >= band
}

/// Is the drawing a plane straight-line drawing without duplicates? Pairs of features that an earlier
/// drawing, found to be fine, already showed are not compared again.
fn planarity(before: &Snap, s: &Snap) -> State {
    if !s.indices_ok() {
        return State::Broken("an edge refers to a node that does not exist".into());
    }
    let mut ambiguous = false;
    let n = s.pos.len();
    let mut seen = std::collections::HashMap::new();
    for p in &before.pos {
        *seen.entry(key(*p)).or_insert(0) += 1;
    }
    let mut take = |k| match seen.get_mut(&k) {
        Some(c) if *c > 0 => {
            *c -= 1;
            false
        }
        _ => true,
    };
    let new_node: Vec<bool> = s.pos.iter().map(|p| take(key(*p))).collect();
    let mut seen = std::collections::HashMap::new();
    for i in 0..before.edges.len() {
        let g = before.geo(i);
        *seen.entry((g.0, g.1)).or_insert(0) += 1;
    }
    let mut take = |k| match seen.get_mut(&k) {
        Some(c) if *c > 0 => {
            *c -= 1;
            false
        }
        _ => true,
    };
    let new_edge: Vec<bool> = (0..s.edges.len())
        .map(|i| {
            let g = s.geo(i);
            take((g.0, g.1))
        })
        .collect();
    // what is compared with a new thing is everything, with an old thing the new ones
    let fresh = |new: &[bool]| (0..new.len()).filter(|i| new[*i]).collect::<Vec<_>>();
    let (fresh_nodes, fresh_edges) = (fresh(&new_node), fresh(&new_edge));
    let (all_nodes, all_edges): (Vec<usize>, Vec<usize>) = ((0..n).collect(), (0..s.edges.len()).collect());
    for i in 0..n {
        for &j in (if new_node[i] { &all_nodes } else { &fresh_nodes }).iter().take_while(|j| **j < i) {
            let u = unit(&[s.pos[i], s.pos[j]]);
            let d = s.pos[i].dist(s.pos[j]);
            if d <= COIN * u {
                return State::Broken(format!("nodes {} and {} coincide (distance {:e})", j, i, d));
            }
            if d < SEP_POST * u {
                ambiguous = true;
            }
        }
    }
    for (i, e) in s.edges.iter().enumerate() {
        if e.0 == e.1 {
            return State::Broken(format!("edge {} joins node {} to itself", i, e.0));
        }
        for &j in (if new_edge[i] { &all_edges } else { &fresh_edges }).iter().take_while(|j| **j < i) {
            let f = s.edges[j];
            if (e.0, e.1) == (f.0, f.1) || (e.1, e.0) == (f.0, f.1) {
                return State::Broken(format!("edges {} and {} join the same nodes {} and {}", j, i, e.0, e.1));
            }
        }
        let (a, b) = (s.pos[e.0], s.pos[e.1]);
        for &k in if new_edge[i] { &all_nodes } else { &fresh_nodes } {
            if k == e.0 || k == e.1 {
                continue;
            }
            let (d, t) = seg_dist(a, b, s.pos[k]);
            let u = unit(&[a, b, s.pos[k]]);
            if d <= COIN * u && t > 0.0 && t < 1.0 && ends_apart(a, b, s.pos[k], SEP_POST * u) {
                return State::Broken(format!("node {} lies in the interior of edge {} ({}-{})", k, i, e.0, e.1));
            }
            if d < SEP_POST * u {
                ambiguous = true;
            }
        }
    }
    for (i, e) in s.edges.iter().enumerate() {
        let (a, b) = (s.pos[e.0], s.pos[e.1]);
        for &j in (if new_edge[i] { &all_edges } else { &fresh_edges }).iter().take_while(|j| **j < i) {
            let f = s.edges[j];
            if e.0 == f.0 || e.0 == f.1 || e.1 == f.0 || e.1 == f.1 {
                continue;
            }
            let (c, d) = (s.pos[f.0], s.pos[f.1]);
            if crosses(a, b, c, d) {
                let u = unit(&[a, b, c, d]);
                let near = [seg_dist(c, d, a).0, seg_dist(c, d, b).0, seg_dist(a, b, c).0, seg_dist(a, b, d).0]
                    .iter()
                    .cloned()
                    .fold(f64::MAX, f64::min);
                if near >= MID * u {
                    return State::Broken(format!("edges {} ({}-{}) and {} ({}-{}) cross", j, f.0, f.1, i, e.0, e.1));
                }
                ambiguous = true;
            }
        }
    }
    if ambiguous {
        State::Ambiguous
    } else {
        State::Fine
    }
}

// ---------------------------------------------------------------- expected effects

struct EdgePlan {
    /// (point, tolerance, index of the crossed edge)
    cross: Vec<(P, f64, usize)>,
    /// Existing nodes in the interior of the new segment.
    on: Vec<usize>,
}

/// What adding the segment s-d has to do; None if some configuration is ambiguous.
fn plan_edge(g: &Snap, s: usize, d: usize) -> Option<EdgePlan> {
    let (a, b) = (g.pos[s], g.pos[d]);
    let mut on = vec![];
    for k in 0..g.pos.len() {
        if k == s || k == d {
            continue;
        }
        let (dist, t) = seg_dist(a, b, g.pos[k]);
        let u = unit(&[a, b, g.pos[k]]);
        if dist <= COIN * u {
            if t <= 0.0 || t >= 1.0 || !ends_apart(a, b, g.pos[k], SEP_PRE * u) {
                return None;
            }
            on.push(k);
        } else if dist < SEP_PRE * u {
            return None;
        }
    }
    let touched = |n: usize| n == s || n == d || on.contains(&n);
    let mut cross: Vec<(P, f64, usize)> = vec![];
    let mut units = vec![];
    for (i, e) in g.edges.iter().enumerate() {
        if touched(e.0) || touched(e.1) {
            continue;
        }
        let (p, q) = (g.pos[e.0], g.pos[e.1]);
        let u = unit(&[a, b, p, q]);
        if seg_dist(p, q, a).0 < SEP_PRE * u || seg_dist(p, q, b).0 < SEP_PRE * u {
            return None;
        }
        if crosses(a, b, p, q) {
            let (x, sin) = line_cross(a, b, p, q);
            if sin < MIN_SIN {
                return None;
            }
            cross.push((x, 8.0 * u / sin + 8.0 * u, i));
            units.push(u);
        }
    }
    for (k, c) in cross.iter().enumerate() {
        let (x, u) = (c.0, units[k]);
        for p in g.pos.iter() {
            if p.dist(x) < SEP_PRE * u.max(unit(&[*p])) {
                return None;
            }
        }
        for (i, e) in g.edges.iter().enumerate() {
            if i != c.2 && seg_dist(g.pos[e.0], g.pos[e.1], x).0 < SEP_PRE * u.max(unit(&[g.pos[e.0], g.pos[e.1]])) {
                return None;
            }
        }
        for (c2, v) in cross[..k].iter().zip(&units) {
            if c2.0.dist(x) < SEP_PRE * u.max(*v) {
                return None;
            }
        }
    }
    Some(EdgePlan { cross, on })
}

enum NodePlan {
    Reuse(usize),
    New(Option<usize>),
}

fn plan_node(g: &Snap, p: P) -> Option<NodePlan> {
    let mut reuse = None;
    for (i, q) in g.pos.iter().enumerate() {
        let u = unit(&[p, *q]);
        let d = p.dist(*q);
        if d <= NODE_COIN * u {
            if reuse.is_some() {
                return None;
            }
            reuse = Some(i);
        } else if d < SEP_PRE * u {
            return None;
        }
    }
    if let Some(i) = reuse {
        return Some(NodePlan::Reuse(i));
    }
    let mut hit = None;
    for (i, e) in g.edges.iter().enumerate() {
        let (a, b) = (g.pos[e.0], g.pos[e.1]);
        let u = unit(&[a, b, p]);
        let (d, t) = seg_dist(a, b, p);
        if d <= COIN * u {
            if hit.is_some() || t <= 0.0 || t >= 1.0 || !ends_apart(a, b, p, SEP_PRE * u) {
                return None;
            }
            hit = Some(i);
        } else if d < SEP_PRE * u {
            return None;
        }
    }
    Some(NodePlan::New(hit))
}

fn norm_edges(es: impl Iterator<Item = (usize, usize, u64)>, tags: bool) -> Vec<(usize, usize, u64)> {
    let mut v: Vec<_> = es.map(|(a, b, t)| (a.min(b), a.max(b), if tags { t } else { 0 })).collect();
    v.sort();
    v
}

/// Compares the graph after add_edge(s, d, tag) with the plan. `tags`: compare edge data too.
fn judge_add_edge(pre: &Snap, post: &Snap, s: usize, d: usize, tag: u64, plan: &EdgePlan, tags: bool) -> Result<(), String> {
    let n = pre.pos.len();
    if post.pos.len() < n || post.pos[..n] != pre.pos[..] {
        return Err("an earlier node moved or disappeared".into());
    }
    let extra = post.pos.len() - n;
    if extra != plan.cross.len() {
        return Err(format!("{} crossing nodes expected, {} new nodes found", plan.cross.len(), extra));
    }
    let mut at = vec![];
    let mut used = vec![false; extra];
    for (x, tol, e) in plan.cross.iter() {
        let mut hit = None;
        for k in 0..extra {
            if !used[k] && post.pos[n + k].dist(*x) <= *tol {
                hit = Some(k);
            }
        }
        match hit {
            Some(k) => {
                used[k] = true;
                at.push(n + k);
            }
            None => return Err(format!("no node at the crossing ({}, {}) with edge {}", x.x, x.y, e)),
        }
    }
    let mut expect: Vec<(usize, usize, u64)> = vec![];
    for (i, e) in pre.edges.iter().enumerate() {
        match plan.cross.iter().position(|c| c.2 == i) {
            Some(k) => {
                expect.push((e.0, at[k], e.2));
                expect.push((at[k], e.1, e.2));
            }
            None => expect.push(*e),
        }
    }
    let a = pre.pos[s];
    let dir = pre.pos[d].sub(a);
    let mut chain: Vec<(f64, usize)> = vec![(0.0, s), (dir.dot(dir), d)];
    for k in plan.on.iter().chain(at.iter()) {
        chain.push((post.pos[*k].sub(a).dot(dir), *k));
    }
    chain.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
    for w in chain.windows(2) {
        if !pre.has(w[0].1, w[1].1) {
            expect.push((w[0].1, w[1].1, tag));
        }
    }
    let (want, got) = (norm_edges(expect.into_iter(), tags), norm_edges(post.edges.iter().cloned(), tags));
    if want != got {
        let missing: Vec<_> = want.iter().filter(|e| !got.contains(e)).collect();
        let surplus: Vec<_> = got.iter().filter(|e| !want.contains(e)).collect();
        return Err(format!(
            "edges differ (node, node{}): missing {:?}, surplus {:?}, {} expected, {} found",
            if tags { ", data" } else { "" }, missing, surplus, want.len(), got.len()
        ));
    }
    Ok(())
}

fn judge_add_node(pre: &Snap, post: &Snap, p: P, tag: u64, ret: usize, plan: &NodePlan, tags: bool) -> Result<(), String> {
    let n = pre.pos.len();
    match plan {
        NodePlan::Reuse(i) => {
            if ret != *i {
                return Err(format!("returned index {} instead of the coincident node {}", ret, i));
            }
            if post != pre {
                return Err("the graph changed although the node existed already".into());
            }
        }
        NodePlan::New(hit) => {
            if post.pos.len() != n + 1 || post.pos[..n] != pre.pos[..] {
                return Err(format!("{} nodes before, {} after (one new node expected, the others unchanged)", n, post.pos.len()));
            }
            if post.pos[n] != p {
                return Err("the new node is not at the requested position".into());
            }
            if ret != n {
                return Err(format!("returned index {} instead of {}", ret, n));
            }
            if let Some(t) = post.ntag[n] {
                if t != tag || post.ntag[..n] != pre.ntag[..] {
                    return Err("node data changed or was not stored".into());
                }
            }
            let mut expect = vec![];
            for (i, e) in pre.edges.iter().enumerate() {
                if Some(i) == *hit {
                    expect.push((e.0, n, e.2));
                    expect.push((n, e.1, e.2));
                } else {
                    expect.push(*e);
                }
            }
            let (want, got) = (norm_edges(expect.into_iter(), tags), norm_edges(post.edges.iter().cloned(), tags));
            if want != got {
                return Err(format!("edges differ: expected {:?}, found {:?}", want, got));
            }
        }
    }
    Ok(())
}

/// `gone`: nodes that have to disappear; `dead`: edges that have to disappear.
fn judge_removal(pre: &Snap, post: &Snap, gone: &[usize], dead: &[usize], ordered_edges: bool, tags: bool) -> Result<(), String> {
    let keep: Vec<usize> = (0..pre.pos.len()).filter(|i| !gone.contains(i)).collect();
    let want: Vec<P> = keep.iter().map(|i| pre.pos[*i]).collect();
    if want != post.pos {
        return Err(format!("surviving nodes differ: nodes {:?} had to go; {} survive, {} expected", gone, post.pos.len(), want.len()));
    }
    let wt: Vec<Option<u64>> = keep.iter().map(|i| pre.ntag[*i]).collect();
    if wt != post.ntag {
        return Err("node data changed".into());
    }
    if !post.indices_ok() {
        return Err("an edge refers to a node that does not exist".into());
    }
    let strip = |g: ((u64, u64), (u64, u64), u64)| if tags { g } else { (g.0, g.1, 0) };
    let mut we: Vec<_> = (0..pre.edges.len()).filter(|i| !dead.contains(i)).map(|i| strip(pre.geo(i))).collect();
    let mut ge: Vec<_> = (0..post.edges.len()).map(|i| strip(post.geo(i))).collect();
    if !ordered_edges {
        we.sort();
        ge.sort();
    }
    if we != ge {
        return Err(format!("surviving edges differ: edges {:?} had to go; {} survive, {} expected; before {} after {}", dead, ge.len(), we.len(), pre.text(), post.text()));
    }
    Ok(())
}

/// Every slot not reported still shows what it showed before; new slots are reported.
fn judge_report(pre: &Snap, post: &Snap, nodes: &[usize], edges: &[usize], insertion: bool) -> Result<(), String> {
    if !post.indices_ok() {
        return Err("an edge refers to a node that does not exist".into());
    }
    for i in 0..pre.pos.len().max(post.pos.len()) {
        let same = i < pre.pos.len() && i < post.pos.len() && pre.pos[i] == post.pos[i] && pre.ntag[i] == post.ntag[i];
        if !same && !nodes.contains(&i) {
            return Err(format!("node index {} changed but only nodes {:?} were reported", i, nodes));
        }
    }
    for i in 0..pre.edges.len().max(post.edges.len()) {
        let same = i < pre.edges.len() && i < post.edges.len() && pre.geo(i) == post.geo(i);
        if !same && !edges.contains(&i) {
            return Err(format!("edge index {} changed but only edges {:?} were reported", i, edges));
        }
    }
    if insertion {
        if let Some(i) = nodes.iter().find(|i| **i >= post.pos.len()) {
            return Err(format!("node index {} was reported but does not exist", i));
        }
        if let Some(i) = edges.iter().find(|i| **i >= post.edges.len()) {
            return Err(format!("edge index {} was reported but does not exist", i));
        }
    }
    Ok(())
}

/// All queries against the lists (C06).
fn judge_queries(g: &G, s: &Snap, r: &mut Rng) -> Result<u64, String> {
    let (n, m) = (s.pos.len(), s.edges.len());
    let mut asked = 0;
    if !s.indices_ok() {
        return Err("an edge refers to a node that does not exist".into());
    }
    if g.node_count() != n || g.edge_count() != m {
        return Err(format!("counts {} / {} but {} nodes and {} edges are shown", g.node_count(), g.edge_count(), n, m));
    }
    let mut ids: Vec<usize> = (0..n.max(m) + 3).collect();
    ids.push(usize::MAX);
    ids.push(usize::MAX / 2);
    for &i in &ids {
        asked += 5;
        if g.has_node_at_index(i) != (i < n) {
            return Err(format!("has_node_at_index({}) is {} with {} nodes", i, g.has_node_at_index(i), n));
        }
        if g.has_edge_at_index(i) != (i < m) {
            return Err(format!("has_edge_at_index({}) is {} with {} edges", i, g.has_edge_at_index(i), m));
        }
        match g.get_vertex(i) {
            Some(v) if i < n && pt(v.get_position()) == s.pos[i] => {}
            None if i >= n => {}
            _ => return Err(format!("get_vertex({}) disagrees with the node list of {}", i, n)),
        }
        match g.get_edge(i) {
            Some(e) if i < m && e.get_node_indices() == (s.edges[i].0, s.edges[i].1) && e.get_data().0 == s.edges[i].2 => {
                let k = r.below(n + 2);
                if e.includes(k) != (s.edges[i].0 == k || s.edges[i].1 == k) || !e.includes(s.edges[i].0) || !e.includes(s.edges[i].1) {
                    return Err(format!("edge {} disagrees about including node {}", i, k));
                }
            }
            None if i >= m => {}
            _ => return Err(format!("get_edge({}) disagrees with the edge list of {}", i, m)),
        }
        let want = if i < n { Some(s.degree(i)) } else { None };
        if g.number_of_edges_incident_to(i) != want {
            return Err(format!("number_of_edges_incident_to({}) is {:?}, expected {:?}", i, g.number_of_edges_incident_to(i), want));
        }
    }
    for k in 0..80 {
        let (a, b) = if k >= 60 && m > 0 {
            // what an edge's nodes would be if their indices were cut
            let e = s.edges[if k % 2 == 0 { r.below(m) } else { m - 1 - r.below(m.min(8)) }];
            let mask = *r.pick(&[0xff, 0x3ff, 0xffff, 0xffff]);
            (e.0 & mask, e.1 & mask)
        } else if k < m.min(20) {
            let e = s.edges[r.below(m)];
            if r.chance(0.5) {
                (e.0, e.1)
            } else {
                (e.1, e.0)
            }
        } else {
            (r.below(n + 2), r.below(n + 2))
        };
        asked += 1;
        if g.has_edge_between_nodes(a, b) != s.has(a, b) {
            return Err(format!("has_edge_between_nodes({}, {}) is {}", a, b, g.has_edge_between_nodes(a, b)));
        }
    }
    Ok(asked)
}

// ---------------------------------------------------------------- workload

#[derive(Clone, Debug)]
pub enum Op {
    AddNode(P),
    AddEdge(usize, usize),
    /// Edge between the nodes nearest to two positions.
    EdgeAt(P, P),
    RemNode(usize),
    RemEdge(usize),
}

pub struct Plan {
    pub family: usize,
    pub script: Vec<Op>,
    pub steps: usize,
    size: f64,
    off: P,
    /// height of the canvas divided by its width
    flat: f64,
    lattice: i64,
    removal: f64,
    max_nodes: usize,
    max_edges: usize,
}

pub const FAMILIES: [&str; 10] = ["lattice45", "grid", "canvas", "unit", "scaled", "concurrent", "collinear", "shapes", "pattern", "large"];
const LARGE: usize = 9;

impl Plan {
    pub fn is_large(&self) -> bool {
        self.family == LARGE
    }
}

/// Graphs with hundreds of nodes, edges with dozens of crossings, hubs of high degree.
fn large_script(r: &mut Rng, p: &mut Plan, thorough: bool) {
    let top = if thorough && r.chance(0.2) { 360 } else { 150 };
    let mut n = 12 + r.below(top);
    let kind = r.below(4);
    if kind == 1 && r.chance(0.3) {
        // more neighbours than fit in a byte
        n = 256 + r.below(60);
    }
    let w = *r.pick(&[300.0, 1000.0, 2000.0]);
    p.size = w;
    p.off = *r.pick(&[P::new(0.0, 0.0), P::new(-w / 2.0, -w / 2.0), P::new(w, -3.0 * w)]);
    let o = p.off;
    let q = |x: f64, y: f64| f32p(P::new(o.x + x * w, o.y + y * w));
    p.max_nodes = 4 * n + 60;
    p.max_edges = 9 * n + 200;
    p.steps = 10 + r.below(30);
    let mut nodes = vec![];
    let mut edges = vec![];
    match kind {
        0 => {
            // many parallel lines, some long edges across
            for i in 0..n {
                let x = (i as f64 + 0.5) / n as f64;
                let j = 0.3 / n as f64;
                let (a, b) = (q(x + r.range(-j, j), r.range(0.0, 0.2)), q(x + r.range(-j, j), r.range(0.8, 1.0)));
                nodes.push(a);
                nodes.push(b);
                edges.push(if r.chance(0.5) { (a, b) } else { (b, a) });
            }
            r.shuffle(&mut edges);
            for i in 0..1 + r.below(3) {
                let y = 0.3 + 0.15 * i as f64;
                let (a, b) = (q(-0.02 - 0.01 * i as f64, y + r.range(0.0, 0.05)), q(1.02 + 0.01 * i as f64, y + r.range(0.0, 0.05)));
                nodes.push(a);
                nodes.push(b);
                edges.push(if r.chance(0.5) { (a, b) } else { (b, a) });
            }
        }
        1 => {
            // a hub with many spokes, part of the rim
            let hub = q(0.5, 0.5);
            nodes.push(hub);
            let rim: Vec<P> = (0..n)
                .map(|i| {
                    let t = std::f64::consts::TAU * i as f64 / n as f64;
                    let d = r.range(0.35, 0.5);
                    q(0.5 + d * t.cos(), 0.5 + d * t.sin())
                })
                .collect();
            nodes.extend(&rim);
            let rims = *r.pick(&[0.0, 0.1, 0.5, 1.0]);
            for i in 0..n {
                edges.push(if r.chance(0.5) { (hub, rim[i]) } else { (rim[i], hub) });
                if r.chance(rims) {
                    edges.push((rim[i], rim[(i + 1) % n]));
                }
            }
            r.shuffle(&mut edges);
            r.shuffle(&mut nodes);
        }
        2 => {
            // rows, columns and diagonals of an exact grid of nodes
            let k = 4 + r.below(if thorough { 14 } else { 9 });
            let s = w / 50.0;
            let at = |i: usize, j: usize| f32p(P::new(o.x + s * i as f64, o.y + s * j as f64));
            for i in 0..=k {
                for j in 0..=k {
                    if r.chance(0.8) {
                        nodes.push(at(i, j));
                    }
                }
            }
            r.shuffle(&mut nodes);
            for _ in 0..2 * k {
                let i = r.below(k + 1);
                let (a, b) = match r.below(4) {
                    0 => (at(0, i), at(k, i)),
                    1 => (at(i, 0), at(i, k)),
                    2 => (at(0, i), at(i, 0)),
                    _ => (at(i, 0), at(k, k - i)),
                };
                edges.push(if r.chance(0.5) { (a, b) } else { (b, a) });
            }
        }
        _ => {
            // a long winding path, closed or not
            let cols = 4 + r.below(16);
            let path: Vec<P> = (0..n)
                .map(|i| {
                    let (row, c) = (i / cols, i % cols);
                    let c = if row % 2 == 0 { c } else { cols - 1 - c };
                    q(c as f64 / cols as f64 + r.range(0.0, 0.02), row as f64 / cols as f64 + r.range(0.0, 0.02))
                })
                .collect();
            nodes.extend(&path);
            r.shuffle(&mut nodes);
            for i in 1..n {
                edges.push((path[i - 1], path[i]));
            }
            if r.chance(0.5) {
                r.shuffle(&mut edges);
            }
        }
    }
    for a in nodes {
        p.script.push(Op::AddNode(a));
    }
    for (a, b) in edges {
        p.script.push(Op::EdgeAt(a, b));
    }
}

pub fn make_plan(r: &mut Rng, thorough: bool) -> Plan {
    let family = if r.chance(if cfg!(miri) { 0.0 } else { 0.006 }) { LARGE } else { r.below(FAMILIES.len() - 1) };
    let mut p = Plan {
        family,
        script: vec![],
        steps: 10 + r.below(if thorough && r.chance(0.3) { 120 } else { 45 }),
        size: 500.0,
        off: P::new(0.0, 0.0),
        flat: 1.0,
        lattice: 0,
        removal: *r.pick(&[0.05, 0.15, 0.3, 0.45]),
        max_nodes: if thorough && r.chance(0.2) { 90 } else { 36 },
        max_edges: if thorough { 260 } else { 110 },
    };
    match family {
        0 => {
            p.lattice = r.int(2, 8);
            p.size = *r.pick(&[1.0, 2.0, 16.0, 50.0]);
            if r.chance(0.4) {
                p.off = P::new(p.size * r.int(-20, 20) as f64, p.size * r.int(-20, 20) as f64);
            }
        }
        1 => {
            p.lattice = r.int(2, 9);
            p.size = *r.pick(&[1.0, 1.0, 10.0, 100.0]);
        }
        3 => p.size = 1.0,
        4 => {
            p.size = r.signed_log(1e-2, *r.pick(&[1e4, 1e4, 1e8])).abs();
            p.off = P::new(p.size * r.range(-3.0, 3.0), p.size * r.range(-3.0, 3.0));
        }
        5 => {
            // chords through common points
            let c = P::new(r.range(100.0, 400.0), r.range(100.0, 400.0));
            let k = 3 + r.below(5);
            let a0 = r.range(0.0, 3.0);
            let mut pts = vec![];
            for i in 0..2 * k {
                let ang = a0 + std::f64::consts::PI * i as f64 / k as f64 + if i < k { 0.0 } else { 0.0 };
                let rad = r.range(50.0, 100.0);
                pts.push(P::new(c.x + rad * ang.cos(), c.y + rad * ang.sin()));
            }
            let center_first = r.chance(0.4);
            if center_first {
                p.script.push(Op::AddNode(c));
            }
            for q in &pts {
                p.script.push(Op::AddNode(*q));
            }
            let mut order: Vec<usize> = (0..k).collect();
            r.shuffle(&mut order);
            for i in order {
                p.script.push(Op::EdgeAt(pts[i], pts[i + k]));
            }
            for i in 0..2 * k {
                if r.chance(0.5) {
                    p.script.push(Op::EdgeAt(pts[i], pts[(i + 1) % (2 * k)]));
                }
            }
        }
        6 => {
            // points on common lines, overlapping segments
            let lines = 1 + r.below(3);
            for _ in 0..lines {
                let (a, b) = (P::new(r.range(0.0, 500.0), r.range(0.0, 500.0)), P::new(r.range(0.0, 500.0), r.range(0.0, 500.0)));
                let k = 3 + r.below(5);
                let pts: Vec<P> = (0..k).map(|_| a.add(b.sub(a).mul(r.int(0, 64) as f64 / 64.0))).collect();
                for q in &pts {
                    p.script.push(Op::AddNode(*q));
                }
                for _ in 0..k + 2 {
                    p.script.push(Op::EdgeAt(*r.pick(&pts), *r.pick(&pts)));
                }
            }
            r.chance(0.5);
        }
        7 => {
            // paths, cycles, stars, meshes and loose nodes, for removal
            let kind = r.below(4);
            let k = 3 + r.below(7);
            let at = |i: usize, r: &mut Rng| P::new(20.0 * (i % 8) as f64 + r.range(0.0, 6.0), 20.0 * (i / 8) as f64 + r.range(0.0, 6.0));
            let pts: Vec<P> = (0..k + 1).map(|i| at(i * 3 % 64, r)).collect();
            let mut order: Vec<usize> = (0..pts.len()).collect();
            r.shuffle(&mut order);
            for i in &order {
                p.script.push(Op::AddNode(pts[*i]));
            }
            match kind {
                0 => {
                    for i in 0..k {
                        p.script.push(Op::EdgeAt(pts[i], pts[i + 1]));
                    }
                }
                1 => {
                    for i in 1..k {
                        p.script.push(Op::EdgeAt(pts[0], pts[i]));
                    }
                }
                2 => {
                    for i in 0..=k {
                        p.script.push(Op::EdgeAt(pts[i], pts[(i + 1) % (k + 1)]));
                    }
                }
                _ => {
                    for _ in 0..2 * k {
                        p.script.push(Op::EdgeAt(*r.pick(&pts), *r.pick(&pts)));
                    }
                }
            }
            p.removal = 0.7;
            p.size = 160.0;
        }
        8 => {
            // crease patterns on a square sheet
            let w = *r.pick(&[1.0, 2.0, 100.0, 500.0]);
            p.size = w;
            let q = |x: f64, y: f64| P::new(x * w, y * w);
            let corners = [q(0.0, 0.0), q(1.0, 0.0), q(1.0, 1.0), q(0.0, 1.0)];
            for c in corners.iter() {
                p.script.push(Op::AddNode(*c));
            }
            for i in 0..4 {
                p.script.push(Op::EdgeAt(corners[i], corners[(i + 1) % 4]));
            }
            let mut lines: Vec<(P, P)> = vec![];
            match r.below(4) {
                0 => {
                    // preliminary / waterbomb base
                    lines.push((corners[0], corners[2]));
                    lines.push((corners[1], corners[3]));
                    lines.push((q(0.5, 0.0), q(0.5, 1.0)));
                    lines.push((q(0.0, 0.5), q(1.0, 0.5)));
                }
                1 => {
                    // box pleating
                    let n = 2 + r.below(3);
                    for i in 1..n {
                        let t = i as f64 / n as f64;
                        lines.push((q(t, 0.0), q(t, 1.0)));
                        lines.push((q(0.0, t), q(1.0, t)));
                        if r.chance(0.5) {
                            lines.push((q(t, 0.0), q(0.0, t)));
                        }
                    }
                }
                2 => {
                    // 22.5 degrees
                    let t = (std::f64::consts::PI / 8.0).tan();
                    lines.push((corners[0], q(1.0, t)));
                    lines.push((corners[0], q(t, 1.0)));
                    lines.push((corners[2], q(0.0, 1.0 - t)));
                    lines.push((corners[2], q(1.0 - t, 0.0)));
                    lines.push((corners[0], corners[2]));
                    lines.push((corners[1], corners[3]));
                }
                _ => {
                    // slanted pleats
                    let n = 2 + r.below(4);
                    for i in 1..n {
                        let t = i as f64 / n as f64;
                        let s = r.range(-0.05, 0.05);
                        lines.push((q(t, 0.0), q(t + s, 1.0)));
                        lines.push((q(0.0, t), q(1.0, t + s)));
                    }
                }
            }
            r.shuffle(&mut lines);
            for (a, b) in lines {
                p.script.push(Op::AddNode(a));
                p.script.push(Op::AddNode(b));
                p.script.push(if r.chance(0.5) { Op::EdgeAt(a, b) } else { Op::EdgeAt(b, a) });
            }
        }
        LARGE => large_script(r, &mut p, thorough),
        _ => {}
    }
    if !matches!(family, 0 | 1 | LARGE) && r.chance(0.1) {
        // a canvas much wider than high, or the other way round
        p.flat = *r.pick(&[0.02, 0.1, 0.3, 4.0]);
        for op in p.script.iter_mut() {
            match op {
                Op::AddNode(a) => a.y *= p.flat,
                Op::EdgeAt(a, b) => {
                    a.y *= p.flat;
                    b.y *= p.flat;
                }
                _ => {}
            }
        }
    }
    if !matches!(family, 0 | 1 | LARGE) && r.chance(0.35) {
        // around the origin, or somewhere else
        let half = if family == 7 { 80.0 } else if family == 5 || family == 6 { 250.0 } else { p.size / 2.0 };
        let t = *r.pick(&[
            P::new(-half, -half),
            P::new(-half, -half),
            P::new(-2.0 * half, 0.0),
            P::new(6.0 * half, -8.0 * half),
            // one large negative coordinate, the other one small
            P::new(-10.0 * half, -half),
            P::new(-half, -10.0 * half),
        ]);
        let t = P::new(t.x, t.y * p.flat);
        p.off = p.off.add(t);
        for op in p.script.iter_mut() {
            match op {
                Op::AddNode(a) => *a = a.add(t),
                Op::EdgeAt(a, b) => {
                    *a = a.add(t);
                    *b = b.add(t);
                }
                _ => {}
            }
        }
    }
    p.script.reverse();
    if cfg!(miri) {
        // the interpreter is about 10^4 times slower
        p.steps = 6;
        let n = p.script.len();
        p.script.drain(..n.saturating_sub(14));
    }
    p
}

fn f32p(p: P) -> P {
    pt(&p.v())
}

fn random_point(r: &mut Rng, p: &Plan) -> P {
    if p.lattice > 0 {
        let s = p.size * 2.0;
        return f32p(P::new(p.off.x + s * r.int(0, p.lattice) as f64, p.off.y + s * r.int(0, p.lattice) as f64));
    }
    f32p(P::new(p.off.x + r.range(0.0, p.size), p.off.y + r.range(0.0, p.size * p.flat)))
}

fn nearest(s: &Snap, p: P) -> Option<usize> {
    (0..s.pos.len()).min_by(|a, b| s.pos[*a].dist(p).partial_cmp(&s.pos[*b].dist(p)).unwrap())
}

pub fn next_op(r: &mut Rng, p: &mut Plan, s: &Snap) -> Op {
    if let Some(op) = p.script.pop() {
        return match op {
            Op::AddNode(q) => Op::AddNode(f32p(q)),
            Op::EdgeAt(a, b) => match (nearest(s, a), nearest(s, b)) {
                (Some(i), Some(j)) => Op::AddEdge(i, j),
                _ => Op::AddNode(f32p(a)),
            },
            o => o,
        };
    }
    let (n, m) = (s.pos.len(), s.edges.len());
    if n > p.max_nodes || (n > 3 && r.chance(p.removal)) {
        if m > 0 && r.chance(0.5) {
            let i = match r.below(4) {
                0 => m - 1,
                1 => 0,
                _ => r.below(m),
            };
            return Op::RemEdge(i);
        }
        let i = match r.below(7) {
            0 => n - 1,
            1 => 0,
            6 => (0..n).max_by_key(|i| s.degree(*i)).unwrap_or(0),
            2 => (0..n).find(|i| s.degree(*i) == 0).unwrap_or(0),
            3 => (0..n).max_by_key(|i| s.edges.iter().filter(|e| (e.0 == *i && s.degree(e.1) == 1) || (e.1 == *i && s.degree(e.0) == 1)).count()).unwrap_or(0),
            _ => r.below(n),
        };
        return Op::RemNode(i);
    }
    if n < 2 || r.chance(0.4) {
        let k = r.below(10);
        if k == 0 && n > 0 {
            // the same position, sometimes up to rounding
            let mut q = s.pos[r.below(n)];
            if r.chance(0.4) {
                let ulps = |x: f64, d: i64| {
                    if x == 0.0 || x.abs() < 1e-30 {
                        x
                    } else {
                        f32::from_bits(((x as f32).to_bits() as i64 + d) as u32) as f64
                    }
                };
                q = P::new(ulps(q.x, r.int(-2, 2)), ulps(q.y, r.int(-2, 2)));
            }
            return Op::AddNode(q);
        }
        if k <= 2 && m > 0 {
            let e = s.edges[r.below(m)];
            let (a, b) = (s.pos[e.0], s.pos[e.1]);
            let t = match r.below(8) {
                0..=2 => r.int(1, 15) as f64 / 16.0,
                3..=5 => r.range(0.1, 0.9),
                // close to an end
                6 => 2f64.powi(-r.int(4, 10) as i32),
                _ => 1.0 - 2f64.powi(-r.int(4, 10) as i32),
            };
            // rounded to f32 along the way, as a user would compute it
            let q = P::new(
                (a.x as f32 + (b.x as f32 - a.x as f32) * t as f32) as f64,
                (a.y as f32 + (b.y as f32 - a.y as f32) * t as f32) as f64,
            );
            return Op::AddNode(q);
        }
        if k == 3 && m > 0 && p.lattice == 0 {
            // two nodes on either side of an edge, and the edge between them: the crossing may be close to
            // the ends of either, and at any angle
            let e = s.edges[r.below(m)];
            let (a, b) = if r.chance(0.5) { (s.pos[e.0], s.pos[e.1]) } else { (s.pos[e.1], s.pos[e.0]) };
            let ab = b.sub(a);
            let t = if r.chance(0.5) { r.range(0.05, 0.95) } else { r.signed_log(0.002, 0.1).abs() };
            let ang = r.range(0.15, 3.0);
            let d = P::new(ab.x * ang.cos() - ab.y * ang.sin(), ab.x * ang.sin() + ab.y * ang.cos());
            let x = a.add(ab.mul(t));
            let low = if r.chance(0.3) { (SEP_PRE * 8.0 * unit(&[a, b]) / ab.len().max(1e-30)).min(0.5) } else { 0.002 };
            let (h, l) = (r.signed_log(low, 0.7).abs(), r.signed_log(low, 0.7).abs());
            let (q1, q2) = (f32p(x.add(d.mul(h))), f32p(x.sub(d.mul(l))));
            p.script.push(if r.chance(0.5) { Op::EdgeAt(q1, q2) } else { Op::EdgeAt(q2, q1) });
            p.script.push(Op::AddNode(q2));
            return Op::AddNode(q1);
        }
        if k == 4 && n > 0 && p.lattice == 0 {
            // a near miss: clearly apart from something, but close to it
            let mut gap = |r: &mut Rng, at: P| unit(&[at]) * r.signed_log(SEP_PRE * 1.5, SEP_PRE * 100.0).abs();
            let turn = |r: &mut Rng| {
                let a = r.range(0.0, 6.3);
                P::new(a.cos(), a.sin())
            };
            if m == 0 || r.chance(0.3) {
                let c = s.pos[r.below(n)];
                let d = turn(r);
                let h = gap(r, c);
                if r.chance(0.5) {
                    return Op::AddNode(f32p(c.add(d.mul(h))));
                }
                // a segment that passes the node
                let side = P::new(-d.y, d.x).mul(h);
                let (q1, q2) = (f32p(c.add(side).add(d.mul(p.size * r.range(0.02, 0.5)))), f32p(c.add(side).sub(d.mul(p.size * r.range(0.02, 0.5)))));
                p.script.push(Op::EdgeAt(q1, q2));
                p.script.push(Op::AddNode(q2));
                return Op::AddNode(q1);
            }
            let e = s.edges[r.below(m)];
            let (a, b) = if r.chance(0.5) { (s.pos[e.0], s.pos[e.1]) } else { (s.pos[e.1], s.pos[e.0]) };
            let l = b.dist(a);
            if l > 0.0 {
                let d = b.sub(a).mul(1.0 / l);
                let side = if r.chance(0.5) { P::new(-d.y, d.x) } else { P::new(d.y, -d.x) };
                let h = gap(r, if a.mag() > b.mag() { a } else { b });
                let q = match r.below(3) {
                    // straight beyond the end
                    0 => b.add(d.mul(h)),
                    // beside the edge, anywhere or at its end
                    1 => b.add(side.mul(h)),
                    _ => a.add(d.mul(l * r.range(0.1, 0.9))).add(side.mul(h)),
                };
                let q = f32p(q);
                if r.chance(0.5) {
                    // and a segment that ends there
                    let o = f32p(q.add(side.mul(p.size * r.range(0.02, 0.5))).add(d.mul(p.size * r.range(-0.2, 0.2))));
                    p.script.push(if r.chance(0.5) { Op::EdgeAt(q, o) } else { Op::EdgeAt(o, q) });
                    p.script.push(Op::AddNode(o));
                }
                return Op::AddNode(q);
            }
        }
        return Op::AddNode(random_point(r, p));
    }
    let i = r.below(n);
    if r.chance(0.03) {
        return Op::AddEdge(i, i);
    }
    if m > 0 && r.chance(0.06) {
        let e = s.edges[r.below(m)];
        return if r.chance(0.5) { Op::AddEdge(e.0, e.1) } else { Op::AddEdge(e.1, e.0) };
    }
    if p.family == 0 && r.chance(0.9) {
        let js: Vec<usize> = (0..n)
            .filter(|j| {
                let d = s.pos[*j].sub(s.pos[i]);
                *j != i && (d.x == 0.0 || d.y == 0.0 || d.x.abs() == d.y.abs())
            })
            .collect();
        if !js.is_empty() {
            return Op::AddEdge(i, *r.pick(&js));
        }
    }
    if r.chance(0.15) {
        // the farthest node on a line through a neighbour: overlaps
        if let Some(e) = s.edges.iter().find(|e| e.0 == i || e.1 == i) {
            let j = if e.0 == i { e.1 } else { e.0 };
            let (a, b) = (s.pos[i], s.pos[j]);
            let best = (0..n).filter(|k| *k != i && *k != j && line_dist(a, b, s.pos[*k]) <= COIN * unit(&[a, b, s.pos[*k]])).max_by(|x, y| s.pos[*x].dist(a).partial_cmp(&s.pos[*y].dist(a)).unwrap());
            if let Some(k) = best {
                return Op::AddEdge(i, k);
            }
        }
    }
    Op::AddEdge(i, r.below(n))
}

/// The invalid-argument probes (C06).
fn probe_invalid(cx: &mut Cx, g: &mut G, s: &Snap, etag: &mut u64) -> Result<bool, Stop> {
    let (n, m) = (s.pos.len(), s.edges.len());
    let k = cx.rng.below(3);
    let bad_n = if k == 2 { usize::MAX } else { n + k };
    let bad_e = if k == 2 { usize::MAX } else { m + k };
    let which = cx.rng.below(5);
    *etag += 1;
    let good = if n > 0 { cx.rng.below(n) } else { bad_n };
    let (what, err) = match which {
        0 => {
            if cx.call("remove_node of a missing node", cx.prop == "C06", || g.remove_node(bad_n))?.is_none() {
                return Ok(false);
            }
            ("remove_node", true)
        }
        1 => {
            if cx.call("remove_edge of a missing edge", cx.prop == "C06", || g.remove_edge(bad_e))?.is_none() {
                return Ok(false);
            }
            ("remove_edge", true)
        }
        _ => {
            let (a, b) = match which {
                2 => (good, bad_n),
                3 => (bad_n, good),
                _ => (bad_n, bad_n),
            };
            let t = *etag;
            match cx.call("add_edge to a missing node", cx.prop == "C06", || g.add_edge(a, b, ETag(t)).is_err())? {
                None => return Ok(false),
                Some(e) => ("add_edge", e),
            }
        }
    };
    cx.count("invalid_arguments_tried");
    if cx.prop == "C06" {
        ensure!(err, "add_edge to a missing node did not report an error");
        ensure!(snap(g) == *s, "{} with an invalid index changed the graph", what);
        // the lookups must agree too (counts are cached in some implementations)
        if let Err(m) = judge_queries(g, s, &mut cx.rng) {
            fail!("after {} with an invalid index: {}", what, m);
        }
    } else if snap(g) != *s {
        return Ok(false);
    }
    Ok(true)
}

/// A very large graph to start from: `nodes` nodes on a square grid in a random order, `edges` edges between
/// neighbours on it.
struct Bulk {
    nodes: Vec<P>,
    edges: Vec<(usize, usize)>,
}

/// A hub with more than a thousand spokes, which then goes, after some of its spokes or before.
fn bulk_hub(r: &mut Rng, plan: &mut Plan) -> Bulk {
    let n = *r.pick(&[1030, 1500, 2060]) + r.below(40);
    let hub = if r.chance(0.3) { 0 } else { r.below(n) };
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let mut nodes: Vec<P> = order
        .iter()
        .map(|i| {
            let (t, d) = (std::f64::consts::TAU * *i as f64 / n as f64, r.range(900.0, 1000.0));
            f32p(P::new(d * t.cos(), d * t.sin()))
        })
        .collect();
    nodes.insert(hub, P::new(0.0, 0.0));
    let mut edges: Vec<(usize, usize)> = (0..=n).filter(|i| *i != hub).map(|i| if r.chance(0.5) { (hub, i) } else { (i, hub) }).collect();
    // something that stays, after all these
    for k in 0..r.below(12) {
        let y = 30.0 * k as f64;
        edges.push((nodes.len(), nodes.len() + 1));
        nodes.push(P::new(1200.0, y));
        nodes.push(P::new(1250.0, y + 10.0));
    }
    r.shuffle(&mut edges);
    plan.script.clear();
    plan.lattice = 0;
    plan.max_nodes = usize::MAX;
    plan.max_edges = usize::MAX;
    plan.steps = 2;
    // executed from the last to the first
    plan.script.push(if r.chance(0.5) { Op::RemNode(0) } else { Op::RemEdge(0) });
    let first = if r.chance(0.5) { 0 } else { r.below(6) };
    plan.script.push(Op::RemNode(if hub >= n - 20 { n - 20 } else { hub }));
    for _ in 0..first {
        plan.script.push(match r.below(3) {
            0 => Op::EdgeAt(nodes[r.below(n)], nodes[r.below(n)]),
            1 => Op::RemEdge(n - 30 - r.below(5)),
            // (a spoke's end after the hub, so that the hub stays where it is)
            _ if hub + 40 < n => Op::RemNode(n - 20 - r.below(10)),
            _ => Op::RemEdge(r.below(n - 40)),
        });
    }
    plan.size = 100.0;
    plan.off = P::new(0.0, 0.0);
    Bulk { nodes, edges }
}

/// More than a thousand parallel edges, then some that cross them all.
fn bulk_ladder(r: &mut Rng, plan: &mut Plan) -> Bulk {
    let n = *r.pick(&[1030, 1200]) + r.below(40);
    let mut nodes = vec![];
    let mut edges = vec![];
    for i in 0..n {
        nodes.push(P::new(2.0 * i as f64, 0.0));
        nodes.push(P::new(2.0 * i as f64 + 0.5, 40.0));
        edges.push(if r.chance(0.5) { (2 * i, 2 * i + 1) } else { (2 * i + 1, 2 * i) });
    }
    r.shuffle(&mut edges);
    plan.script.clear();
    plan.lattice = 0;
    plan.max_nodes = usize::MAX;
    plan.max_edges = usize::MAX;
    plan.steps = 2;
    plan.size = 40.0;
    plan.off = P::new(0.0, 0.0);
    let m = nodes.len();
    for _ in 0..r.below(4) {
        plan.script.push(match r.below(3) {
            0 => Op::RemNode(r.below(m)),
            1 => Op::RemEdge(r.below(n)),
            _ => Op::AddNode(P::new(2.0 * r.below(n) as f64 + 1.0, 3.0)),
        });
    }
    for k in 0..1 + r.below(2) {
        let y = 11.0 + 14.0 * k as f64;
        let (a, b) = (P::new(-3.0, y + r.range(0.0, 4.0)), P::new(2.0 * n as f64 + 3.0, y + r.range(0.0, 4.0)));
        let (a, b) = (f32p(a), f32p(b));
        plan.script.push(Op::EdgeAt(a, b));
        plan.script.push(Op::AddNode(b));
        plan.script.push(Op::AddNode(a));
    }
    Bulk { nodes, edges }
}

fn bulk(cx: &Cx, r: &mut Rng, plan: &mut Plan) -> Option<Bulk> {
    if cfg!(miri) || std::env::var("KAMI_ASAN").is_ok() {
        return None;
    }
    let (n, m) = if cx.index % 500_000 == 55_555 {
        // more than fit in two bytes
        if cx.thorough && cx.index > 500_000 && r.chance(0.5) {
            (34_000, 65_700)
        } else {
            (65_560 + r.below(300), 300)
        }
    } else if cx.index % 10_000 == 2500 {
        let n = *r.pick(&[1040, 2060, 4110, 8200]);
        (n + r.below(100), r.below(n))
    } else if cx.index % 3_000 == 1500 {
        return Some(if r.chance(0.5) { bulk_hub(r, plan) } else { bulk_ladder(r, plan) });
    } else {
        return None;
    };
    let w = (n as f64 * 1.02).sqrt().ceil() as usize + 1;
    let mut cells: Vec<usize> = (0..w * w).collect();
    r.shuffle(&mut cells);
    cells.truncate(n);
    if r.chance(0.7) {
        // the newest nodes next to each other
        let (x, y) = (r.below(w - 8), r.below(w - 8));
        let near = |c: usize| c % w >= x && c % w < x + 8 && c / w >= y && c / w < y + 8;
        cells.sort_by_key(|c| near(*c));
    }
    let at = |c: usize| P::new((c % w) as f64 * 2.0, (c / w) as f64 * 2.0);
    let mut index = vec![usize::MAX; w * w];
    for (i, c) in cells.iter().enumerate() {
        index[*c] = i;
    }
    let mut all = vec![];
    for c in 0..w * w {
        if index[c] != usize::MAX {
            if c % w + 1 < w && index[c + 1] != usize::MAX {
                all.push((index[c], index[c + 1]));
            }
            if c + w < w * w && index[c + w] != usize::MAX {
                all.push((index[c], index[c + w]));
            }
        }
    }
    r.shuffle(&mut all);
    // (half of those between the newest nodes in any case)
    all.sort_by_key(|e: &(usize, usize)| e.0.min(e.1) < n - 64 || (e.0 + e.1) % 2 == 0);
    all.truncate(m);
    r.shuffle(&mut all);
    // then: something of everything, near the newest and elsewhere
    plan.script.clear();
    plan.lattice = w as i64;
    plan.size = 1.0;
    plan.off = P::new(0.0, 0.0);
    plan.max_nodes = usize::MAX;
    plan.max_edges = usize::MAX;
    plan.steps = 4;
    let m = all.len();
    for k in 0..24 {
        let op = match r.below(6) {
            0 => {
                // in the middle of a square
                let c = r.below(w * w);
                Op::AddNode(at(c).add(P::new(1.0, 1.0)))
            }
            1 => {
                let (a, b) = all[if r.chance(0.5) { m - 1 - r.below(m.min(20)) } else { r.below(m) }];
                Op::AddNode(at(cells[a]).add(at(cells[b])).mul(0.5))
            }
            // a knight's move or a diagonal, from one of the newest nodes
            2 | 3 => {
                let a = if r.chance(0.6) { n - 1 - r.below(60) } else { r.below(n) };
                let (dx, dy) = *r.pick(&[(2.0, 2.0), (4.0, 2.0), (-2.0, 4.0), (2.0, -2.0), (6.0, 0.0), (0.0, -6.0), (2.0, 0.0)]);
                let p = at(cells[a]);
                Op::EdgeAt(p, p.add(P::new(dx, dy)))
            }
            4 => Op::RemNode(if r.chance(0.6) { n - 50 - k - r.below(60) } else { r.below(n - 60) }),
            _ => Op::RemEdge(if r.chance(0.6) { m - m.min(200) + r.below(m.min(200) / 2 + 1) } else { r.below(m - m.min(200) + 1) }),
        };
        plan.script.push(op);
    }
    Some(Bulk { nodes: cells.iter().map(|c| at(*c)).collect(), edges: all })
}

pub fn history(cx: &mut Cx) -> CaseResult {
    let prop = cx.prop;
    let mut r = cx.rng.clone();
    let mut plan = make_plan(&mut r, cx.thorough);
    let start = bulk(cx, &mut r, &mut plan);
    let family = if start.is_some() { "bulk" } else { FAMILIES[plan.family] };
    cx.count(&format!("family_{}", family));
    cx.note(&format!("family {}", family));
    let mut g = G::new();
    let mut pre = snap(&g);
    let (mut etag, mut ntag) = (0u64, 0u64);
    if let Some(b) = start {
        cx.note(&format!("{} nodes and {} edges between them, none of which meet", b.nodes.len(), b.edges.len()));
        for p in &b.nodes {
            ntag += 1;
            if ntag % 500 == 0 {
                crate::breathe();
            }
            if cx.call("add_node", prop == "C03", || g.add_node(&p.v(), NTag(ntag)))?.is_none() {
                return Ok(());
            }
        }
        for e in &b.edges {
            etag += 1;
            if etag % 500 == 0 {
                crate::breathe();
            }
            if cx.call("add_edge", prop == "C02", || g.add_edge(e.0, e.1, ETag(etag)).is_ok())?.is_none() {
                return Ok(());
            }
        }
        crate::breathe();
        pre = snap(&g);
        let nodes = pre.pos == b.nodes;
        let edges = nodes && pre.edges.len() == b.edges.len() && norm_edges(pre.edges.iter().map(|e| (e.0, e.1, 0)), false) == norm_edges(b.edges.iter().map(|e| (e.0, e.1, 0)), false);
        let data = edges && pre.edges.iter().all(|e| e.2 > 0 && b.edges.get(e.2 as usize - 1).map_or(false, |f| (f.0.min(f.1), f.0.max(f.1)) == (e.0.min(e.1), e.0.max(e.1))));
        match prop {
            "C03" => ensure!(nodes, "{} nodes drawn at different places are not the nodes of the graph ({} are)", b.nodes.len(), pre.pos.len()),
            "C02" if nodes => ensure!(edges, "{} edges between {} nodes, none of which meet, are not the edges of the graph", b.edges.len(), b.nodes.len()),
            "C08" if edges => ensure!(data, "after {} edges were drawn, none of which meet, the data of one of them is not its own", b.edges.len()),
            _ => {}
        }
        if !edges || !data {
            cx.count("cases_ended_by_a_failure_owned_by_another_property");
            return Ok(());
        }
        cx.count("large_graphs_built");
    }
    let steps = plan.script.len() + plan.steps;
    let mut checked = 0u64;
    for step in 0..steps {
        if pre.pos.len() > 1000 {
            crate::breathe();
        }
        cx.rng = Rng::new(r.u64());
        if step % 7 == 3 && !probe_invalid(cx, &mut g, &pre, &mut etag)? {
            break;
        }
        let op = next_op(&mut r, &mut plan, &pre);
        // The reports, as (nodes, edges).
        let post;
        match op {
            Op::AddNode(p) => {
                let np = match plan_node(&pre, p) {
                    Some(np) => np,
                    None => {
                        cx.count("skipped_ambiguous_inputs");
                        continue;
                    }
                };
                ntag += 1;
                cx.note(&format!("add_node ({:?}, {:?}) data {}", p.x as f32, p.y as f32, ntag));
                let (i, edges) = match cx.call("add_node", prop == "C03", || g.add_node(&p.v(), NTag(ntag)))? {
                    Some(x) => x,
                    None => break,
                };
                post = snap(&g);
                match np {
                    NodePlan::Reuse(_) => cx.count("add_node_reused"),
                    NodePlan::New(None) => cx.count("add_node_free"),
                    NodePlan::New(Some(_)) => cx.count("add_node_split_an_edge"),
                }
                match prop {
                    "C03" | "C08" => {
                        if let Err(m) = judge_add_node(&pre, &post, p, ntag, i, &np, prop == "C08") {
                            if prop == "C08" && judge_add_node(&pre, &post, p, ntag, i, &np, false).is_err() && !m.contains("node data") {
                                cx.count("cases_ended_by_a_failure_owned_by_another_property");
                                break;
                            }
                            fail!("add_node at ({}, {}): {}", p.x, p.y, m);
                        }
                    }
                    "C07" => {
                        let rep: Vec<usize> = if post.pos.len() > pre.pos.len() { vec![i] } else { vec![] };
                        if let Err(m) = judge_report(&pre, &post, &rep, &edges, true) {
                            fail!("add_node at ({}, {}): {}", p.x, p.y, m);
                        }
                    }
                    _ => {}
                }
            }
            Op::AddEdge(a, b) => {
                etag += 1;
                let t = etag;
                let degenerate = a == b;
                let existing = pre.has(a, b);
                let ep = if degenerate || existing {
                    None
                } else {
                    match plan_edge(&pre, a, b) {
                        Some(x) => Some(x),
                        None => {
                            cx.count("skipped_ambiguous_inputs");
                            continue;
                        }
                    }
                };
                cx.note(&format!("add_edge {} {} data {}", a, b, t));
                let ret = match cx.call("add_edge", prop == "C02", || g.add_edge(a, b, ETag(t)).ok())? {
                    Some(x) => x,
                    None => break,
                };
                post = snap(&g);
                let (mut covered, mut complete) = (false, false);
                if let Some(ep) = &ep {
                    cx.count("add_edge_drawn");
                    cx.add("crossings_resolved", ep.cross.len() as u64);
                    cx.max("most_crossings_of_one_edge", ep.cross.len() as u64);
                    cx.max("most_nodes_on_one_edge", ep.on.len() as u64);
                    cx.add("existing_nodes_on_new_edges", ep.on.len() as u64);
                    let mut ch: Vec<usize> = ep.on.clone();
                    let (pa, dir) = (pre.pos[a], pre.pos[b].sub(pre.pos[a]));
                    ch.sort_by(|x, y| pre.pos[*x].sub(pa).dot(dir).partial_cmp(&pre.pos[*y].sub(pa).dot(dir)).unwrap());
                    ch.insert(0, a);
                    ch.push(b);
                    covered = ch.windows(2).any(|w| pre.has(w[0], w[1]));
                    complete = ch.windows(2).all(|w| pre.has(w[0], w[1]));
                    if covered {
                        cx.count("overlaps_with_drawn_edges");
                    }
                    if complete {
                        cx.count("already_completely_drawn");
                    }
                } else if degenerate {
                    cx.count("self_joining_edges_tried");
                } else {
                    cx.count("duplicate_edges_tried");
                }
                let _ = covered;
                match prop {
                    "C02" | "C08" => {
                        let tags = prop == "C08";
                        if let Some(ep) = &ep {
                            if let Err(m) = judge_add_edge(&pre, &post, a, b, t, ep, tags) {
                                if tags && judge_add_edge(&pre, &post, a, b, t, ep, false).is_err() {
                                    cx.count("cases_ended_by_a_failure_owned_by_another_property");
                                    break;
                                }
                                fail!("add_edge {}-{}: {}; before: {}; after: {}", a, b, m, pre.text(), post.text());
                            }
                            if !tags {
                                ensure!(ret.is_some(), "add_edge between existing nodes {} and {} reported an error", a, b);
                            }
                            if tags {
                                ensure!(post.ntag[..pre.ntag.len()] == pre.ntag[..], "add_edge {}-{} changed node data", a, b);
                                for k in pre.ntag.len()..post.ntag.len() {
                                    ensure!(matches!(post.ntag[k], None | Some(0)), "the node at a crossing, {}, made by add_edge {}-{}, has the data {:?} instead of the default", k, a, b, post.ntag[k]);
                                    cx.count("default_data_at_crossings");
                                }
                            }
                        } else if tags && !existing && ret.is_some() {
                            // where the geometry is not judged: no data comes from nowhere or gets lost
                            let lost = pre.edges.iter().find(|e| !post.edges.iter().any(|f| f.2 == e.2));
                            let odd = post.edges.iter().find(|e| e.2 != t && !pre.edges.iter().any(|f| f.2 == e.2));
                            ensure!(lost.is_none() && odd.is_none(), "add_edge {}-{}: the data of {:?} was lost, that of {:?} comes from nowhere; before: {}; after: {}", a, b, lost, odd, pre.text(), post.text());
                            cx.count("data_of_unjudged_insertions");
                        } else if existing {
                            let (x, y) = (norm_edges(pre.edges.iter().cloned(), true), norm_edges(post.edges.iter().cloned(), true));
                            ensure!(x == y && pre.pos == post.pos, "adding the existing edge {}-{} changed the graph", a, b);
                        }
                    }
                    "C07" => {
                        if let Some((nodes, edges)) = &ret {
                            if let Err(m) = judge_report(&pre, &post, nodes, edges, true) {
                                fail!("add_edge {}-{}: {}; before: {}; after: {}", a, b, m, pre.text(), post.text());
                            }
                            if ep.is_some() && !complete {
                                ensure!(!edges.is_empty(), "add_edge {}-{} reported no edge although it was not drawn before", a, b);
                            }
                        } else if post != pre {
                            fail!("add_edge {}-{} reported an error but changed the graph", a, b);
                        }
                    }
                    _ => {}
                }
            }
            // a script may have been overtaken by what it did before
            Op::RemNode(i) if i >= pre.pos.len() => continue,
            Op::RemEdge(i) if i >= pre.edges.len() => continue,
            Op::RemNode(i) => {
                cx.note(&format!("remove_node {}", i));
                let (nodes, edges) = match cx.call("remove_node", prop == "C04", || g.remove_node(i))? {
                    Some(x) => x,
                    None => break,
                };
                post = snap(&g);
                let dead: Vec<usize> = (0..pre.edges.len()).filter(|e| pre.edges[*e].0 == i || pre.edges[*e].1 == i).collect();
                let mut gone = vec![i];
                for e in &dead {
                    let o = pre.edges[*e].0 + pre.edges[*e].1 - i;
                    if pre.degree(o) == 1 {
                        gone.push(o);
                        cx.count("stray_neighbours_removed");
                    }
                }
                cx.max("most_edges_removed_at_once", dead.len() as u64);
                cx.count(if dead.is_empty() { "isolated_nodes_removed" } else { "connected_nodes_removed" });
                match prop {
                    "C04" | "C08" => {
                        if let Err(m) = judge_removal(&pre, &post, &gone, &dead, prop == "C04", prop == "C04" || prop == "C08") {
                            if prop == "C08" && judge_removal(&pre, &post, &gone, &dead, false, false).is_err() && !m.contains("node data") {
                                cx.count("cases_ended_by_a_failure_owned_by_another_property");
                                break;
                            }
                            if prop == "C08" && judge_removal(&pre, &post, &gone, &dead, false, true).is_ok() {
                                // only the order differs
                            } else {
                                fail!("remove_node {}: {}", i, m);
                            }
                        }
                    }
                    "C07" => {
                        if let Err(m) = judge_report(&pre, &post, &nodes, &edges, false) {
                            fail!("remove_node {}: {}; before: {}; after: {}", i, m, pre.text(), post.text());
                        }
                    }
                    _ => {}
                }
            }
            Op::RemEdge(i) => {
                cx.note(&format!("remove_edge {}", i));
                let (nodes, edges) = match cx.call("remove_edge", prop == "C05", || g.remove_edge(i))? {
                    Some(x) => x,
                    None => break,
                };
                post = snap(&g);
                let (a, b, _) = pre.edges[i];
                let mut gone = vec![];
                for e in [a, b] {
                    if pre.degree(e) == 1 {
                        gone.push(e);
                        cx.count("stray_endpoints_removed");
                    }
                }
                cx.count(if i + 1 == pre.edges.len() { "last_edge_index_removed" } else { "other_edge_index_removed" });
                match prop {
                    "C05" | "C08" => {
                        if let Err(m) = judge_removal(&pre, &post, &gone, &[i], false, true) {
                            if prop == "C08" && judge_removal(&pre, &post, &gone, &[i], false, false).is_err() && !m.contains("node data") {
                                cx.count("cases_ended_by_a_failure_owned_by_another_property");
                                break;
                            }
                            fail!("remove_edge {} ({}-{}): {}", i, a, b, m);
                        }
                    }
                    "C07" => {
                        if let Err(m) = judge_report(&pre, &post, &nodes, &edges, false) {
                            fail!("remove_edge {} ({}-{}): {}; before: {}; after: {}", i, a, b, m, pre.text(), post.text());
                        }
                    }
                    _ => {}
                }
            }
            Op::EdgeAt(..) => continue,
        }
        checked += 1;
        if prop == "C06" {
            let mut qr = Rng::new(r.u64());
            let res = cx.call("a query", true, || judge_queries(&g, &post, &mut qr))?;
            match res {
                Some(Ok(k)) => cx.add("queries_compared", k),
                Some(Err(m)) => fail!("{}; {}", m, post.text()),
                None => break,
            }
        }
        match planarity(&pre, &post) {
            State::Fine => {}
            State::Ambiguous => {
                cx.count("cases_ended_by_an_ambiguous_drawing");
                break;
            }
            State::Broken(m) => {
                if prop == "C01" {
                    fail!("{}; before: {}; after: {}", m, pre.text(), post.text());
                }
                cx.count("cases_ended_by_a_failure_owned_by_another_property");
                break;
            }
        }
        cx.add("edge_pairs_checked", (post.edges.len() * post.edges.len().saturating_sub(1) / 2) as u64);
        pre = post;
        if pre.edges.len() > plan.max_edges {
            break;
        }
    }
    cx.evaluations += checked;
    cx.add("operations_judged", checked);
    cx.max("most_nodes_in_one_graph", pre.pos.len() as u64);
    cx.max("most_edges_in_one_graph", pre.edges.len() as u64);
    if checked >= 8 && !pre.edges.is_empty() {
        let key = cx.trace.clone();
        cx.nontrivial(key.as_bytes());
        cx.sample(|| key);
    }
    Ok(())
}

const RULE: &str = "A case is one history of up to ~200 operations (add_node, add_edge, remove_node, remove_edge, invalid arguments) from one of ten families: exact 45-degree lattice, integer grid, float canvas, unit square, random scale and offset, chords through common points, collinear overlaps, paths/stars/cycles, crease patterns. Non-trivial: at least 8 judged operations and a non-empty graph; distinct by the full operation list. Evaluations are judged operations.";
const ASSUME: &[&str] = &["inputs whose features are neither coincident (within 8 rounding units) nor apart (500 units) are skipped and counted; one unit is f32 epsilon times the largest coordinate involved, but at least 0.006", "node data is read from Debug output"];

pub fn props() -> Vec<Prop> {
    let p = |id, required| Prop { id, case: history, quick: 110_000, thorough: 4_000_000, floor: 300, required, rule: RULE, assumptions: ASSUME };
    vec![
        p("C01", &["edge_pairs_checked", "crossings_resolved", "existing_nodes_on_new_edges", "overlaps_with_drawn_edges", "self_joining_edges_tried"]),
        p("C02", &["crossings_resolved", "existing_nodes_on_new_edges", "overlaps_with_drawn_edges", "already_completely_drawn", "duplicate_edges_tried"]),
        p("C03", &["add_node_reused", "add_node_free", "add_node_split_an_edge"]),
        p("C04", &["isolated_nodes_removed", "connected_nodes_removed", "stray_neighbours_removed"]),
        p("C05", &["last_edge_index_removed", "other_edge_index_removed", "stray_endpoints_removed"]),
        p("C06", &["queries_compared", "invalid_arguments_tried"]),
        p("C07", &["crossings_resolved", "connected_nodes_removed", "last_edge_index_removed", "add_node_split_an_edge"]),
        p("C08", &["crossings_resolved", "add_node_split_an_edge", "connected_nodes_removed", "other_edge_index_removed", "overlaps_with_drawn_edges"]),
    ]
}
