//! Monitor for determinism and independence of copies (C27): one operation log, replayed in the same
//! process, after unrelated work, on concurrent threads, from clones, and (by the supervisor) in a
//! second process; all observations must be identical.
use crate::cx::{CaseResult, Cx};
use crate::geom::*;
use crate::graphmon::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::Prop;
use kami::geometry::polygon::Polygon;
use kami::geometry::utils;
use kami::glm::Vec2;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Log = Vec<String>;

fn vbits(v: &Vec2) -> String {
    format!("{:08x}{:08x}", v.x.to_bits(), v.y.to_bits())
}

/// Everything a graph shows.
fn dump(g: &G) -> String {
    let mut s = format!("{} {} {:?} {:?}", g.node_count(), g.edge_count(), g.get_nodes(), g.get_edges());
    for n in g.get_nodes() {
        s.push_str(&vbits(n.get_position()));
    }
    s
}

fn apply(g: &mut G, op: &Op, tag: u64) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| match op {
        Op::AddNode(p) => format!("{:?}", g.add_node(&p.v(), NTag(tag))),
        Op::AddEdge(a, b) => format!("{:?}", g.add_edge(*a, *b, ETag(tag)).ok()),
        Op::RemNode(i) => format!("{:?}", g.remove_node(*i)),
        Op::RemEdge(i) => format!("{:?}", g.remove_edge(*i)),
        Op::EdgeAt(..) => String::new(),
    }));
    let out = r.unwrap_or_else(|_| "panicked".to_string());
    format!("{:?} -> {} | {}", op, out, dump(g))
}

fn replay(g: &mut G, ops: &[(Op, u64)]) -> Log {
    ops.iter().map(|(op, t)| apply(g, op, *t)).collect()
}

fn queries(g: &G) -> String {
    let mut s = String::new();
    for i in 0..g.node_count() + 2 {
        s.push_str(&format!(
            "{}{}{:?}{}{}{:?},",
            g.has_node_at_index(i),
            g.has_edge_at_index(i),
            g.get_vertex(i).map(|v| vbits(v.get_position())),
            g.get_edge(i).map(|e| e.includes(0)).is_some(),
            g.has_edge_between_nodes(i, 0),
            g.number_of_edges_incident_to(i)
        ));
    }
    s
}

#[derive(Clone, Debug)]
enum PolyOp {
    Translate(f32, f32),
    Scale(f32),
    Ask,
}

fn pdump(p: &Polygon) -> String {
    p.get_vertices().iter().map(vbits).collect::<Vec<_>>().join(" ")
}

fn ask(p: &Polygon) -> String {
    let n = p.get_vertices().len();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut s = format!("{:08x} {}", p.area().to_bits(), vbits(&p.center()));
        for i in 0..n.min(12) {
            for j in 0..n.min(12) {
                s.push(if p.diagonal(i, j) { 'd' } else { '.' });
            }
        }
        for t in p.triangulate() {
            s.push_str(&pdump(&t));
            s.push(';');
        }
        s
    }));
    r.unwrap_or_else(|_| "panicked".to_string())
}

fn papply(p: &mut Polygon, op: &PolyOp) -> String {
    let out = match op {
        PolyOp::Translate(x, y) => {
            p.translate(&Vec2::new(*x, *y));
            String::new()
        }
        PolyOp::Scale(s) => {
            p.uniform_scale(*s);
            String::new()
        }
        PolyOp::Ask => ask(p),
    };
    format!("{:?} -> {} | {}", op, out, pdump(p))
}

fn preplay(p: &mut Polygon, ops: &[PolyOp]) -> Log {
    ops.iter().map(|o| papply(p, o)).collect()
}

/// Free functions with state-free answers.
fn functions(seed: u64) -> String {
    use kami::math::bivector::Bivector3;
    use kami::math::rotor::Rotor3;
    use kami::math::vector::Vector3;
    let r = Rng::new(seed);
    let mut f = || r.range(-9.0, 9.0) as f32;
    let v: Vec<Vec2> = (0..4).map(|_| Vec2::new(f(), f())).collect();
    let (a, b) = (Vector3::new(f(), f(), f()), Vector3::new(f(), f(), f()));
    let bi = Bivector3::new(f(), f(), f());
    let mut s = String::new();
    s.push_str(&format!("{:?}", utils::calculate_line_intersection(&v[0], &v[1], &v[2], &v[3])));
    s.push_str(&format!("{:?}", utils::calculate_line_segment_intersection(&v[0], &v[1], &v[2], &v[3])));
    s.push_str(&format!("{:?}", utils::calculate_triangle_incenter(&v[0], &v[1], &v[2])));
    s.push_str(&format!("{:?}", utils::find_closest_to(&v[0], &v)));
    s.push_str(&format!("{:?}", utils::unique_points_among(&v)));
    let rot = Rotor3::from_vectors(a, b);
    s.push_str(&format!("{:?} {:?}", rot, bi));
    s.push_str(&format!("{:?}", a.angle(b)));
    s
}

/// The same question has to have the same answer whatever was asked just before it, in particular a
/// question that shares most of its values.
fn neighbouring_questions(seed: u64) -> CaseResult {
    let r = Rng::new(seed);
    let mut f = || r.range(-9.0, 9.0) as f32;
    let target = Vec2::new(f(), f());
    let base: Vec<Vec2> = (0..5).map(|_| Vec2::new(f(), f())).collect();
    let ask = |w: &[Vec2]| {
        let v = w.to_vec();
        let mut s = String::new();
        s.push_str(&format!("{:?}", utils::find_closest_to(&target, &v)));
        s.push_str(&format!("{:?}", utils::unique_points_among(&v)));
        s.push_str(&format!("{:?}", utils::calculate_line_intersection(&w[0], &w[1], &w[2], &w[3])));
        s.push_str(&format!("{:?}", utils::calculate_line_segment_intersection(&w[0], &w[1], &w[2], &w[3])));
        s.push_str(&format!("{:?}", utils::calculate_triangle_incenter(&w[0], &w[1], &w[2])));
        s.push_str(&format!("{:?}", utils::calculate_perpendicular_point(&w[0], &w[1], &w[2])));
        s.push_str(&format!("{:?}", utils::calculate_perpendicular_bisector(&w[0], &w[1], w[2].x)));
        s.push_str(&format!("{:?}", utils::is_on_line_segment(&w[0], &w[1], &w[2], true)));
        s.push_str(&format!("{:?}", utils::parallel(&w[0], &w[1], &w[2], &w[3])));
        s.push_str(&format!("{:?}", catch_unwind(AssertUnwindSafe(|| Polygon::new(&v).map(|p| ask(&p)).ok())).ok()));
        s
    };
    let neutral: Vec<Vec2> = (0..6).map(|_| Vec2::new(f() + 100.0, f())).collect();
    let mut variants = vec![base.clone()];
    for i in 0..5 {
        let mut w = base.clone();
        let j = r.below(5);
        if i == j {
            w[i].x += 1.0;
        } else {
            w.swap(i, j);
        }
        variants.push(w);
    }
    for b in &variants {
        ask(&neutral);
        let want = ask(b);
        for a in &variants {
            ask(a);
            let got = ask(b);
            ensure!(got == want, "after questions about {:?} the questions about {:?} have other answers: {} ||| {}", a, b, want, got);
        }
    }
    Ok(())
}

fn first_difference(a: &Log, b: &Log) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} against {} steps", a.len(), b.len()));
    }
    let i = (0..a.len()).find(|i| a[*i] != b[*i])?;
    let cut = |s: &str| s.chars().take(900).collect::<String>();
    Some(format!("step {}: {} ||| {}", i, cut(&a[i]), cut(&b[i])))
}

fn determinism(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    // the first run also chooses the operations
    let mut plan = make_plan(&mut r, cx.thorough);
    plan.steps = plan.steps.min(60);
    let steps = if cfg!(miri) { 8 } else { plan.script.len() + plan.steps };
    let mut ops: Vec<(Op, u64)> = vec![];
    let mut log: Log = vec![];
    let mut g = G::new();
    for k in 0..steps {
        let s = snap(&g);
        let mut op = next_op(&mut r, &mut plan, &s);
        if r.chance(0.05) {
            let big = if r.chance(0.5) { usize::MAX } else { s.pos.len() + s.edges.len() };
            op = match r.below(3) {
                0 => Op::RemNode(big),
                1 => Op::RemEdge(big),
                _ => Op::AddEdge(0, big),
            };
        }
        let l = apply(&mut g, &op, k as u64 + 1);
        cx.note(&format!("{:?}", op));
        let stop = l.contains("-> panicked") || g.edge_count() > if plan.is_large() { 400 } else { 150 };
        log.push(l);
        ops.push((op, k as u64 + 1));
        if stop {
            break;
        }
    }
    let final_dump = dump(&g);

    // queries look, and do not touch
    let q1 = queries(&g);
    ensure!(dump(&g) == final_dump, "asking queries changed the graph");
    ensure!(queries(&g) == q1, "the same queries gave different answers");

    // once more in this process, after unrelated work
    let mut other = G::new();
    replay(&mut other, &ops[ops.len() / 2..]);
    let f1 = functions(cx.index);
    // similar work: the same operations with some of them moved, swapped or left out
    for _ in 0..if cfg!(miri) { 1 } else { 2 } {
        let mut similar = ops.clone();
        for _ in 0..1 + r.below(4) {
            let (i, j) = (r.below(similar.len()), r.below(similar.len()));
            match r.below(4) {
                0 => similar.swap(i, j),
                1 if similar.len() > 2 => {
                    similar.remove(i);
                }
                2 => {
                    let k = r.range(-1.0, 1.0);
                    if let Op::AddNode(p) = &mut similar[i].0 {
                        p.x += k;
                    }
                }
                _ => {
                    let (i, j) = (i.min(j), i.max(j));
                    similar[i..=j].reverse();
                }
            }
        }
        replay(&mut G::new(), &similar);
    }
    if !cfg!(miri) {
        neighbouring_questions(cx.index)?;
        cx.count("neighbouring_questions");
        // in lockstep with a graph that differs in the order of two nodes
        let mut similar = ops.clone();
        let nodes: Vec<usize> = (0..ops.len()).filter(|i| matches!(ops[*i].0, Op::AddNode(_))).collect();
        if nodes.len() > 1 {
            let (i, j) = (*r.pick(&nodes), *r.pick(&nodes));
            similar.swap(i, j);
        }
        let (mut a, mut b) = (G::new(), G::new());
        let mut lock = vec![];
        for k in 0..ops.len() {
            apply(&mut b, &similar[k].0, similar[k].1);
            lock.push(apply(&mut a, &ops[k].0, ops[k].1));
        }
        if let Some(d) = first_difference(&log, &lock) {
            fail!("a run in lockstep with a similar one differs at {}", d);
        }
    }
    ensure!(functions(cx.index) == f1, "a function gave another answer after similar work: {} ||| {}", f1, functions(cx.index));
    let again = replay(&mut G::new(), &ops);
    if let Some(d) = first_difference(&log, &again) {
        fail!("a second run of the same operations differs at {}", d);
    }
    cx.count("graph_replays");

    // copies
    for _ in 0..if cfg!(miri) { 1 } else { 2 } {
        let k = r.below(ops.len() + 1);
        let mut orig = G::new();
        replay(&mut orig, &ops[..k]);
        let mut copy = orig.clone();
        let at = dump(&orig);
        ensure!(dump(&copy) == at && queries(&copy) == queries(&orig), "a clone taken after {} operations differs from its original", k);
        // other operations on the copy
        for t in 0..if cfg!(miri) { 3 } else { 12u64 } {
            let s = snap(&copy);
            let op = next_op(&mut r, &mut plan, &s);
            apply(&mut copy, &op, 900_000 + t);
        }
        let changed = dump(&copy);
        ensure!(dump(&orig) == at, "changing a clone (taken after {} operations) changed the original", k);
        let mut second = orig.clone();
        let rest = replay(&mut orig, &ops[k..]);
        if let Some(d) = first_difference(&log[k..].to_vec(), &rest) {
            fail!("after a clone was taken at operation {} the original went on differently: {}", k, d);
        }
        ensure!(dump(&copy) == changed && dump(&second) == at, "changing the original changed a clone taken after {} operations", k);
        let rest = replay(&mut second, &ops[k..]);
        if let Some(d) = first_difference(&log[k..].to_vec(), &rest) {
            fail!("a clone taken after {} operations went on differently from its original: {}", k, d);
        }
        cx.count("clones_compared");
        if changed != at {
            cx.count("clones_that_diverged");
        }
    }

    // polygons
    let (pts, _) = simple_polygon(&mut r, if cfg!(miri) { 4 } else if cx.thorough { 30 } else { 14 });
    let vs: Vec<Vec2> = pts.iter().map(|p| p.v()).collect();
    let pops: Vec<PolyOp> = (0..6)
        .map(|_| match r.below(3) {
            0 => PolyOp::Translate(r.range(-50.0, 50.0) as f32, r.range(-50.0, 50.0) as f32),
            1 => PolyOp::Scale(r.range(0.2, 3.0) as f32),
            _ => PolyOp::Ask,
        })
        .chain(std::iter::once(PolyOp::Ask))
        .collect();
    let mut poly = match Polygon::new(&vs) {
        Ok(p) => p,
        Err(_) => {
            cx.count("cases_ended_by_a_failure_owned_by_another_property");
            return Ok(());
        }
    };
    let base = poly.clone();
    let b0 = pdump(&base);
    let plog = preplay(&mut poly, &pops);
    ensure!(pdump(&base) == b0, "changing a polygon changed its clone");
    let before = pdump(&poly);
    ask(&poly);
    ensure!(pdump(&poly) == before, "asking queries changed the polygon");
    let mut copy = base.clone();
    let p2 = preplay(&mut copy, &pops);
    if let Some(d) = first_difference(&plog, &p2) {
        fail!("a clone of a polygon behaves differently: {}", d);
    }
    ensure!(pdump(&base) == b0, "changing a clone changed the polygon");
    let p3 = match Polygon::new(&vs) {
        Ok(mut p) => preplay(&mut p, &pops),
        Err(_) => fail!("building the same polygon again failed"),
    };
    if let Some(d) = first_difference(&plog, &p3) {
        fail!("a second run on the same polygon differs: {}", d);
    }
    cx.count("polygon_replays");

    // concurrently
    if cx.index % 4 == 0 || cx.thorough {
        let seed = cx.index;
        let results: Vec<(Log, Log, String)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..if cfg!(miri) { 2 } else { 4 })
                .map(|k| {
                    let (ops, pops, vs) = (&ops, &pops, &vs);
                    sc.spawn(move || {
                        if k % 2 == 1 {
                            let mut x = G::new();
                            replay(&mut x, &ops[..ops.len() / 3]);
                        }
                        let l = replay(&mut G::new(), ops);
                        let pl = Polygon::new(vs).map(|mut p| preplay(&mut p, pops)).unwrap_or_default();
                        (l, pl, functions(seed))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("replay thread")).collect()
        });
        for (l, pl, f) in results {
            if let Some(d) = first_difference(&log, &l) {
                fail!("a run on another thread differs at {}", d);
            }
            if let Some(d) = first_difference(&plog, &pl) {
                fail!("a polygon run on another thread differs at {}", d);
            }
            ensure!(f == f1, "a function gave a different answer on another thread: {} ||| {}", f1, f);
            cx.count("thread_replays");
        }
    }

    let mut h = cx.digest;
    for l in log.iter().chain(plog.iter()) {
        h = mix(h ^ hash_bytes(l.as_bytes()));
    }
    cx.digest = mix(h ^ hash_bytes(f1.as_bytes())) >> 12;
    cx.evaluations += 1;
    cx.add("operations_replayed", ops.len() as u64);
    if ops.len() >= 8 {
        let key = cx.trace.clone();
        cx.nontrivial(key.as_bytes());
        cx.sample(|| key);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        case: determinism,
        quick: 10_000,
        thorough: 600_000,
        floor: 200,
        required: &["neighbouring_questions", "graph_replays", "clones_compared", "clones_that_diverged", "polygon_replays", "thread_replays", "histories_compared_across_processes"],
        rule: "A case is one graph history and one polygon history, replayed after unrelated and similar work, in lockstep with a similar run, from two clones, on four concurrent threads and in a second process; every return value and full state (Debug text, position bits) is compared. Non-trivial: at least 8 operations; distinct by operation list.",
        assumptions: &["the library has no synchronisation of its own to schedule; thread interleavings are those of the operating system"],
    }]
}
