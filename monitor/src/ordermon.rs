//! Monitor for whole drawings (C30): the same points and segments drawn in different orders, partly
//! deleted in different orders, and drawn again, each result compared with the arrangement of the
//! segments computed from scratch.
use crate::cx::{CaseResult, Cx, Stop};
use crate::geom::*;
use crate::graphmon::{snap, ETag, NTag, Snap, G};
use crate::rng::Rng;
use crate::Prop;
use std::collections::{BTreeSet, HashMap};

/// Rounding units (f32 epsilon times the largest coordinate) within which a node has to be where the
/// arrangement has it, and beyond which two features have to be apart.
const MATCH: f64 = 120.0;
const APART: f64 = 600.0;
/// Smallest sine of an angle between crossing segments, in general and where a third thing (a point or a
/// segment) meets the crossing.
const MIN_SIN: f64 = 0.03;
const MIN_SIN_BUSY: f64 = 0.2;

const KINDS: [&str; 8] = ["lattice45", "grid", "float", "mesh", "points_on_segments", "hub", "overlaps", "near_misses"];

struct Scene {
    points: Vec<P>,
    segs: Vec<(usize, usize)>,
    /// Every crossing is exactly representable, and computed without rounding.
    exact: bool,
    kind: usize,
}

fn f32p(p: P) -> P {
    P::new(p.x as f32 as f64, p.y as f32 as f64)
}

fn scene(r: &mut Rng) -> Scene {
    let kind = match r.below(23) {
        20..=22 => 7,
        0..=4 => 0,
        5..=8 => 1,
        9..=11 => 2,
        12 | 13 => 3,
        14 | 15 => 4,
        16 | 17 => 5,
        _ => 6,
    };
    let mut pts: Vec<P> = vec![];
    let mut segs: Vec<(usize, usize)> = vec![];
    let mut at = |pts: &mut Vec<P>, p: P| -> usize {
        match pts.iter().position(|q| q.x == p.x && q.y == p.y) {
            Some(i) => i,
            None => {
                pts.push(p);
                pts.len() - 1
            }
        }
    };
    let big = r.chance(0.04) && !cfg!(miri);
    match kind {
        0 => {
            let n = if big { r.int(16, 40) } else { r.int(2, 12) };
            for _ in 0..if big { 20 + r.below(25) } else { 2 + r.below(11) } {
                let (x, y) = (r.int(0, n), r.int(0, n));
                let (dx, dy) = *r.pick(&[(1, 0), (0, 1), (1, 1), (1, -1)]);
                let l = r.int(1, n);
                let (u, v) = (x + dx * l, y + dy * l);
                if u > n || v > n || v < 0 {
                    continue;
                }
                let i = at(&mut pts, P::new(x as f64, y as f64));
                let j = at(&mut pts, P::new(u as f64, v as f64));
                segs.push((i, j));
            }
            for _ in 0..r.below(4) {
                at(&mut pts, P::new(r.int(0, n) as f64, r.int(0, n) as f64));
            }
        }
        1 => {
            let n = r.int(2, 14);
            let m = 2 + r.below(if big { 30 } else { 10 });
            for _ in 0..m {
                at(&mut pts, P::new(r.int(0, n) as f64, r.int(0, n) as f64));
            }
            if pts.len() > 1 {
                for _ in 0..1 + r.below(m + 2) {
                    let (i, j) = (r.below(pts.len()), r.below(pts.len()));
                    if i != j {
                        segs.push((i, j));
                    }
                }
            }
        }
        2 | 4 => {
            let size = *r.pick(&[1.0, 100.0, 1000.0, 4000.0]);
            let m = 2 + r.below(if big { 24 } else { 8 });
            for _ in 0..m {
                at(&mut pts, f32p(P::new(r.range(0.0, size), r.range(0.0, size))));
            }
            for _ in 0..1 + r.below(m) {
                let (i, j) = (r.below(pts.len()), r.below(pts.len()));
                if i != j {
                    segs.push((i, j));
                }
            }
            if kind == 4 && !segs.is_empty() {
                for _ in 0..1 + r.below(3) {
                    let (i, j) = *r.pick(&segs);
                    let t = *r.pick(&[0.5, 0.25, 0.75, 0.375]);
                    let p = f32p(pts[i].add(pts[j].sub(pts[i]).mul(t)));
                    let k = at(&mut pts, p);
                    // half of them are ends of further segments
                    if r.chance(0.6) {
                        let o = r.below(pts.len());
                        if o != k {
                            segs.push((k, o));
                        }
                    }
                }
            }
        }
        3 => {
            let (w, h) = if big { (4 + r.below(14), 4 + r.below(14)) } else { (1 + r.below(5), 1 + r.below(5)) };
            for x in 0..w as i64 {
                let (a, b) = if r.chance(0.6) { (-1, h as i64) } else { (r.int(-1, h as i64 / 2), r.int(h as i64 / 2 + 1, h as i64 + 1)) };
                let i = at(&mut pts, P::new(x as f64, a as f64));
                let j = at(&mut pts, P::new(x as f64, b as f64));
                segs.push((i, j));
            }
            for y in 0..h as i64 {
                let (a, b) = if r.chance(0.6) { (-1, w as i64) } else { (r.int(-1, w as i64 / 2), r.int(w as i64 / 2 + 1, w as i64 + 1)) };
                let i = at(&mut pts, P::new(a as f64, y as f64));
                let j = at(&mut pts, P::new(b as f64, y as f64));
                segs.push((i, j));
            }
        }
        5 => {
            let c = at(&mut pts, f32p(P::new(r.range(-50.0, 50.0), r.range(-50.0, 50.0))));
            let centre = pts[c];
            let m = 3 + r.below(if big { 30 } else { 8 });
            let turn = r.range(0.0, 6.0);
            let mut rim = vec![];
            for k in 0..m {
                let t = turn + k as f64 * 2.0 * std::f64::consts::PI / m as f64;
                let p = f32p(centre.add(P::new(t.cos(), t.sin()).mul(r.range(60.0, 100.0))));
                rim.push(at(&mut pts, p));
            }
            for k in 0..m {
                if r.chance(0.8) {
                    segs.push((c, rim[k]));
                }
                if r.chance(0.5) {
                    segs.push((rim[k], rim[(k + 1) % m]));
                }
                if r.chance(0.2) && m > 4 {
                    segs.push((rim[k], rim[(k + 2) % m]));
                }
            }
        }
        7 => {
            // a few long segments, and things that come close to them without touching, or just do
            let size = *r.pick(&[1.0, 100.0, 1000.0]);
            let u = EPS * size;
            for _ in 0..1 + r.below(3) {
                let i = at(&mut pts, f32p(P::new(r.range(0.0, size), r.range(0.0, size))));
                let j = at(&mut pts, f32p(P::new(r.range(0.0, size), r.range(0.0, size))));
                if i != j {
                    segs.push((i, j));
                }
            }
            let long = segs.clone();
            for _ in 0..if long.is_empty() { 0 } else { 1 + r.below(4) } {
                let (i, j) = *r.pick(&long);
                let (a, b) = (pts[i], pts[j]);
                let dir = b.sub(a).mul(1.0 / b.dist(a));
                let side = P::new(-dir.y, dir.x).mul(if r.chance(0.5) { 1.0 } else { -1.0 });
                let gap = APART * u * *r.pick(&[1.1, 1.5, 2.0, 4.0, 10.0, 40.0]) * r.range(1.0, 1.5);
                let t = *r.pick(&[0.2, 0.5, 0.8]) + r.range(-0.15, 0.15);
                let foot = a.add(b.sub(a).mul(t));
                let away = size * r.range(0.05, 0.4);
                let slant = r.range(-1.0, 1.0) * away;
                match r.below(5) {
                    // a point beside it
                    0 => {
                        at(&mut pts, f32p(foot.add(side.mul(gap))));
                    }
                    // a segment that stops just short of it, or just beyond it
                    1 | 2 => {
                        let to = if r.chance(0.5) { gap } else { -gap };
                        let k = at(&mut pts, f32p(foot.add(side.mul(to))));
                        let l = at(&mut pts, f32p(foot.add(side.mul(away)).add(dir.mul(slant))));
                        segs.push((k, l));
                    }
                    // a segment alongside
                    3 => {
                        let k = at(&mut pts, f32p(a.add(b.sub(a).mul(r.range(-0.2, 0.4))).add(side.mul(gap))));
                        let l = at(&mut pts, f32p(a.add(b.sub(a).mul(r.range(0.6, 1.2))).add(side.mul(gap))));
                        segs.push((k, l));
                    }
                    // a continuation after a gap, or a point beside an end
                    _ => {
                        let k = at(&mut pts, f32p(b.add(dir.mul(gap))));
                        if r.chance(0.6) {
                            let l = at(&mut pts, f32p(b.add(dir.mul(away)).add(side.mul(slant))));
                            segs.push((k, l));
                        }
                    }
                }
            }
        }
        _ => {
            for _ in 0..1 + r.below(2) {
                let (x, y) = (r.int(-8, 8), r.int(-8, 8));
                let (dx, dy) = *r.pick(&[(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 3), (-3, 2)]);
                let mut on = vec![];
                for _ in 0..3 + r.below(if big { 20 } else { 5 }) {
                    let t = r.int(-9, 9);
                    on.push(at(&mut pts, P::new((x + t * dx) as f64, (y + t * dy) as f64)));
                }
                for _ in 0..2 + r.below(on.len()) {
                    let (i, j) = (*r.pick(&on), *r.pick(&on));
                    if i != j {
                        segs.push((i, j));
                    }
                }
            }
            for _ in 0..r.below(4) {
                let i = r.below(pts.len());
                let j = at(&mut pts, P::new(r.int(-20, 20) as f64, r.int(-20, 20) as f64));
                if i != j {
                    segs.push((i, j));
                }
            }
        }
    }
    // somewhere else, at another size
    let exact = kind == 0 || kind == 3;
    if exact || kind == 1 || kind == 6 {
        let s = 2f64.powi(*r.pick(&[0, 0, 0, -6, -2, 3, 7]));
        let o = if r.chance(0.5) { P::new(0.0, 0.0) } else { P::new(r.int(-40, 40) as f64, r.int(-40, 40) as f64) };
        for p in pts.iter_mut() {
            *p = p.add(o).mul(s);
        }
    } else if r.chance(0.3) {
        let o = P::new(r.range(-2000.0, 2000.0), r.range(-2000.0, 2000.0));
        for p in pts.iter_mut() {
            *p = f32p(p.add(o));
        }
    }
    // much larger: a power of two changes nothing about the rounding
    if r.chance(0.1) {
        let s = 2f64.powi(r.int(5, 20) as i32);
        for p in pts.iter_mut() {
            *p = p.mul(s);
        }
    }
    Scene { points: pts, segs, exact, kind }
}

/// Nodes and edges (as pairs of node numbers) of the arrangement.
struct Arrangement {
    nodes: Vec<P>,
    edges: BTreeSet<(usize, usize)>,
    crossings: u64,
    overlaps: bool,
}

fn pair(a: usize, b: usize) -> (usize, usize) {
    if a < b {
        (a, b)
    } else {
        (b, a)
    }
}

/// `None` when the input leaves the outcome open.
fn arrange(s: &Scene, u: f64) -> Option<Arrangement> {
    let mut nodes = s.points.clone();
    for i in 0..nodes.len() {
        for j in 0..i {
            if nodes[i].dist(nodes[j]) < APART * u {
                return None;
            }
        }
    }
    let ends = |k: usize| (s.points[s.segs[k].0], s.points[s.segs[k].1]);
    let inputs = nodes.len();
    // at each node, the segments through it (in their interior)
    let mut through: Vec<Vec<usize>> = vec![vec![]; inputs];
    for k in 0..s.segs.len() {
        let (a, b) = ends(k);
        for i in 0..inputs {
            if i == s.segs[k].0 || i == s.segs[k].1 {
                continue;
            }
            let (d, t) = seg_dist(a, b, nodes[i]);
            if d <= 2.0 * u && t > 0.0 && t < 1.0 {
                through[i].push(k);
            } else if d < APART * u {
                return None;
            }
        }
    }
    let sine = |k: usize, l: usize| {
        let ((a, b), (c, d)) = (ends(k), ends(l));
        (b.sub(a).cross(d.sub(c)) / (b.sub(a).len() * d.sub(c).len())).abs()
    };
    let mut crossings = 0;
    for k in 0..s.segs.len() {
        for l in 0..k {
            let ((a, b), (c, d)) = (ends(k), ends(l));
            // shared nodes (ends, or points on both) are known already
            let common: Vec<usize> = (0..inputs)
                .filter(|i| {
                    let on = |m: usize| s.segs[m].0 == *i || s.segs[m].1 == *i || through[*i].contains(&m);
                    on(k) && on(l)
                })
                .collect();
            if common.len() > 1 {
                continue; // overlapping
            }
            if common.len() == 1 {
                // two segments with a common node that are not clearly at an angle (nor one straight on)
                let i = common[0];
                let away = |m: usize| -> Vec<P> {
                    let (p, q) = ends(m);
                    [p, q].iter().filter(|x| x.dist(nodes[i]) > APART * u).map(|x| x.sub(nodes[i])).collect()
                };
                for x in away(k) {
                    for y in away(l) {
                        if x.dot(y) > 0.0 && (x.cross(y) / (x.len() * y.len())).abs() < MIN_SIN {
                            return None;
                        }
                    }
                }
                continue;
            }
            if !crosses(a, b, c, d) {
                continue;
            }
            if sine(k, l) < MIN_SIN {
                return None;
            }
            let (p, _) = line_cross(a, b, c, d);
            crossings += 1;
            let mut found = None;
            for (i, q) in nodes.iter().enumerate() {
                let dist = q.dist(p);
                if dist <= 2.0 * u {
                    found = Some(i);
                } else if dist < APART * u {
                    return None;
                }
            }
            match found {
                Some(i) => {
                    for m in [k, l].iter() {
                        if !through[i].contains(m) {
                            through[i].push(*m);
                        }
                    }
                }
                None => {
                    nodes.push(p);
                    through.push(vec![k, l]);
                }
            }
        }
    }
    for i in 0..nodes.len() {
        // crossings near segments that do not run through them
        for k in 0..s.segs.len() {
            if i >= inputs && !through[i].contains(&k) {
                let (a, b) = ends(k);
                if seg_dist(a, b, nodes[i]).0 < APART * u {
                    return None;
                }
            }
        }
        let clear = through[i].iter().all(|k| through[i].iter().all(|l| sine(*k, *l) >= MIN_SIN_BUSY || sine(*k, *l) < 1e-12));
        let met = through[i].len() >= if i < inputs { 2 } else { 3 };
        if met && !s.exact {
            // whether the crossing of two is found where the point or the third one is, is a matter of rounding
            if i >= inputs || !clear || nodes[i].mag() * EPS < 0.3 * u {
                return None;
            }
        }
    }
    let mut edges = BTreeSet::new();
    let mut pieces = 0;
    for k in 0..s.segs.len() {
        let (a, b) = ends(k);
        let mut on: Vec<usize> = (0..nodes.len()).filter(|i| *i == s.segs[k].0 || *i == s.segs[k].1 || through[*i].contains(&k)).collect();
        let dir = b.sub(a);
        on.sort_by(|x, y| nodes[*x].sub(a).dot(dir).partial_cmp(&nodes[*y].sub(a).dot(dir)).unwrap());
        for w in on.windows(2) {
            edges.insert(pair(w[0], w[1]));
            pieces += 1;
        }
    }
    let overlaps = pieces > edges.len();
    Some(Arrangement { nodes, edges, crossings, overlaps })
}

/// Which graph node is which node of the arrangement; says what is wrong.
fn compare(s: &Snap, a: &Arrangement, nodes: &BTreeSet<usize>, edges: &BTreeSet<(usize, usize)>, u: f64) -> Result<(), String> {
    let mut to = HashMap::new();
    for (i, p) in s.pos.iter().enumerate() {
        let near = nodes.iter().find(|k| a.nodes[**k].dist(*p) <= MATCH * u);
        match near {
            Some(k) => {
                if let Some(j) = to.values().position(|x| x == k).map(|_| to.iter().find(|(_, x)| *x == k).map(|(j, _): (&usize, _)| *j).unwrap()) {
                    return Err(format!("nodes {} and {} are the same point ({}, {})", j, i, p.x as f32, p.y as f32));
                }
                to.insert(i, *k);
            }
            None => return Err(format!("there is a node {} at ({}, {}), where nothing was drawn", i, p.x as f32, p.y as f32)),
        }
    }
    if let Some(k) = nodes.iter().find(|k| !to.values().any(|x| x == *k)) {
        return Err(format!("there is no node at ({}, {})", a.nodes[*k].x as f32, a.nodes[*k].y as f32));
    }
    let mut seen = BTreeSet::new();
    for (i, e) in s.edges.iter().enumerate() {
        if e.0 >= s.pos.len() || e.1 >= s.pos.len() || e.0 == e.1 {
            return Err(format!("edge {} joins the nodes {} and {}", i, e.0, e.1));
        }
        let p = pair(to[&e.0], to[&e.1]);
        if !edges.contains(&p) {
            return Err(format!("there is an edge {} from ({}, {}) to ({}, {}), which is not a stretch of the drawing", i, s.pos[e.0].x as f32, s.pos[e.0].y as f32, s.pos[e.1].x as f32, s.pos[e.1].y as f32));
        }
        if !seen.insert(p) {
            return Err(format!("edge {} is there twice", i));
        }
    }
    if let Some(e) = edges.iter().find(|e| !seen.contains(e)) {
        let (p, q) = (a.nodes[e.0], a.nodes[e.1]);
        return Err(format!("the stretch from ({}, {}) to ({}, {}) is missing", p.x as f32, p.y as f32, q.x as f32, q.y as f32));
    }
    Ok(())
}

fn node_at(g: &G, p: P, u: f64) -> Option<usize> {
    g.get_nodes().iter().position(|n| pt(n.get_position()).dist(p) <= MATCH * u)
}

fn edge_at(g: &G, p: P, q: P, u: f64) -> Option<usize> {
    let (a, b) = (node_at(g, p, u)?, node_at(g, q, u)?);
    g.get_edges().iter().position(|e| {
        let (x, y) = e.get_node_indices();
        (x, y) == (a, b) || (y, x) == (a, b)
    })
}

/// Draws the scene. `together`: all points first, then the segments; otherwise a segment's points come
/// right before it.
fn draw(cx: &mut Cx, r: &mut Rng, s: &Scene, together: bool) -> Result<G, Stop> {
    let mut g = G::new();
    let mut order: Vec<usize> = (0..s.segs.len()).collect();
    r.shuffle(&mut order);
    let mut lone: Vec<usize> = (0..s.points.len()).collect();
    r.shuffle(&mut lone);
    let mut tag = 0;
    let mut put = |cx: &mut Cx, g: &mut G, i: usize| -> Result<usize, Stop> {
        tag += 1;
        let p = s.points[i];
        cx.note(&format!("add_node ({:?}, {:?})", p.x as f32, p.y as f32));
        Ok(cx.call("add_node", true, || g.add_node(&p.v(), NTag(tag)).0)?.unwrap())
    };
    let mut index = vec![usize::MAX; s.points.len()];
    if together {
        for i in lone.drain(..) {
            index[i] = put(cx, &mut g, i)?;
        }
    }
    for k in order {
        let (mut a, mut b) = s.segs[k];
        if r.chance(0.5) {
            std::mem::swap(&mut a, &mut b);
        }
        if !together {
            while !lone.is_empty() && r.chance(0.3) {
                let i = lone.pop().unwrap();
                index[i] = put(cx, &mut g, i)?;
            }
            index[a] = put(cx, &mut g, a)?;
            index[b] = put(cx, &mut g, b)?;
        }
        cx.note(&format!("add_edge {} {}", index[a], index[b]));
        if cx.call("add_edge", true, || g.add_edge(index[a], index[b], ETag(k as u64 + 1)).is_ok())? != Some(true) {
            fail!("add_edge between two existing nodes reported an error");
        }
    }
    for i in lone {
        put(cx, &mut g, i)?;
    }
    Ok(g)
}

fn orders(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    let s = scene(&mut r);
    if s.segs.is_empty() {
        return Ok(());
    }
    let u = EPS * mag(&s.points).max(0.006);
    let a = match arrange(&s, u) {
        Some(a) => a,
        None => {
            cx.count("skipped_ambiguous_inputs");
            return Ok(());
        }
    };
    cx.count(&format!("kind_{}", KINDS[s.kind]));
    let all_nodes: BTreeSet<usize> = (0..a.nodes.len()).collect();
    // what is deleted
    let mut dead_edges: Vec<(usize, usize)> = vec![];
    let mut dead_nodes: Vec<usize> = vec![];
    let p = *r.pick(&[0.0, 0.15, 0.5, 0.9, 1.0]);
    for e in &a.edges {
        if r.chance(p) {
            dead_edges.push(*e);
        }
    }
    let p = *r.pick(&[0.0, 0.0, 0.15, 0.5]);
    for k in &all_nodes {
        if r.chance(p) {
            dead_nodes.push(*k);
        }
    }
    let left_edges: BTreeSet<(usize, usize)> =
        a.edges.iter().filter(|e| !dead_edges.contains(e) && !dead_nodes.contains(&e.0) && !dead_nodes.contains(&e.1)).cloned().collect();
    let touches = |es: &BTreeSet<(usize, usize)>, k: usize| es.iter().any(|e| e.0 == k || e.1 == k);
    let left_nodes: BTreeSet<usize> =
        all_nodes.iter().filter(|k| !dead_nodes.contains(k) && (touches(&left_edges, **k) || !touches(&a.edges, **k))).cloned().collect();

    let rounds = if a.edges.len() > 80 { 2 } else { 3 };
    let mut drawings = String::new();
    for round in 0..rounds {
        cx.trace.clear();
        cx.note(&format!("{} drawing {}", KINDS[s.kind], round));
        let mut g = draw(cx, &mut r, &s, round == 0)?;
        if round == 0 {
            drawings = cx.trace.clone();
        }
        let now = snap(&g);
        if let Err(m) = compare(&now, &a, &all_nodes, &a.edges, u) {
            fail!("after everything was drawn: {}; the drawing: {}", m, cut(&now.text()));
        }
        cx.count("drawings_compared");
        cx.evaluations += 1;
        // delete
        enum What {
            Node(usize),
            Edge((usize, usize)),
        }
        let mut todo: Vec<What> = dead_edges.iter().map(|e| What::Edge(*e)).chain(dead_nodes.iter().map(|k| What::Node(*k))).collect();
        if todo.is_empty() {
            continue;
        }
        r.shuffle(&mut todo);
        // exactly where the nodes are
        let place: Vec<P> = a.nodes.iter().map(|p| node_at(&g, *p, u).map(|i| pt(g.get_nodes()[i].get_position())).unwrap_or(*p)).collect();
        for w in todo {
            match w {
                What::Edge((x, y)) => {
                    if let Some(e) = edge_at(&g, a.nodes[x], a.nodes[y], u) {
                        cx.note(&format!("remove_edge {}", e));
                        cx.call("remove_edge", true, || g.remove_edge(e))?;
                        cx.count("edges_deleted");
                    }
                }
                What::Node(k) => {
                    if let Some(i) = node_at(&g, a.nodes[k], u) {
                        cx.note(&format!("remove_node {}", i));
                        cx.call("remove_node", true, || g.remove_node(i))?;
                        cx.count("nodes_deleted");
                    }
                }
            }
        }
        let now = snap(&g);
        if let Err(m) = compare(&now, &a, &left_nodes, &left_edges, u) {
            fail!("after the deletions: {}; the drawing: {}", m, cut(&now.text()));
        }
        cx.count("deletions_compared");
        cx.evaluations += 1;
        // draw the deleted stretches again, and the points that were deleted
        let mut again: Vec<(usize, usize)> = a.edges.iter().filter(|e| !left_edges.contains(e)).cloned().collect();
        r.shuffle(&mut again);
        for (x, y) in again {
            let (x, y) = if r.chance(0.5) { (x, y) } else { (y, x) };
            cx.note(&format!("add_node ({:?}, {:?}), add_node ({:?}, {:?}), add_edge between them", place[x].x as f32, place[x].y as f32, place[y].x as f32, place[y].y as f32));
            let i = cx.call("add_node", true, || g.add_node(&place[x].v(), NTag(1)).0)?.unwrap();
            let j = cx.call("add_node", true, || g.add_node(&place[y].v(), NTag(1)).0)?.unwrap();
            cx.call("add_edge", true, || g.add_edge(i, j, ETag(7)).is_ok())?;
        }
        for k in &all_nodes {
            if !touches(&a.edges, *k) && dead_nodes.contains(k) {
                cx.call("add_node", true, || g.add_node(&place[*k].v(), NTag(1)).0)?;
            }
        }
        let now = snap(&g);
        if let Err(m) = compare(&now, &a, &all_nodes, &a.edges, u) {
            fail!("after what was deleted was drawn again: {}; the drawing: {}", m, cut(&now.text()));
        }
        cx.count("restored_drawings_compared");
        cx.evaluations += 1;
    }
    cx.add("crossings", a.crossings);
    if a.overlaps {
        cx.count("drawings_with_overlaps");
    }
    cx.max("most_edges_in_one_drawing", a.edges.len() as u64);
    if a.edges.len() > 1 {
        cx.nontrivial(drawings.as_bytes());
        cx.sample(|| drawings);
    }
    Ok(())
}

fn cut(s: &str) -> String {
    s.chars().take(1500).collect()
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        case: orders,
        quick: 360_000,
        thorough: 7_000_000,
        floor: 300,
        required: &["drawings_compared", "deletions_compared", "restored_drawings_compared", "crossings", "drawings_with_overlaps", "kind_lattice45", "kind_grid", "kind_float", "kind_mesh", "kind_points_on_segments", "kind_hub", "kind_overlaps", "kind_near_misses"],
        rule: "A case is one set of points and segments (eight kinds; up to a few hundred stretches), drawn in two or three random orders and directions (all points first, or each just before it is needed), then partly deleted in a random order, then completed again; each of the results is compared with the arrangement computed from the segments. Non-trivial: more than one edge; distinct by the first drawing's operations.",
        assumptions: &["inputs whose features are neither coincident nor apart by 600 rounding units are skipped and counted", "points in general position through which two segments cross have to be clear of rounding (or exact)"],
    }]
}
