//! Workload for the sanitizer and interpreter runs (C28): the cases of all other monitors, plus calls
//! with wild arguments and a leak monitor. The verdicts come from AddressSanitizer, Miri, the overflow
//! checks and the heap counter, not from the other properties' oracles.
use crate::cx::{CaseResult, Cx, Stop, OVERFLOW};
use crate::graphmon::{ETag, NTag, G};
use crate::rng::{mix, Rng};
use crate::Prop;
use kami::fold::fold::Fold;
use kami::geometry::polygon::{self, Polygon};
use kami::geometry::utils;
use kami::glm::Vec2;
use std::collections::HashMap;

fn wild(r: &Rng) -> f32 {
    match r.below(6) {
        0 => *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, -0.0, 0.0, 1e-45, f32::EPSILON]),
        1 => f32::from_bits(r.u64() as u32),
        2 => r.signed_log(1e-30, 1e30) as f32,
        _ => r.int(-4, 4) as f32,
    }
}

fn wild_v(r: &Rng) -> Vec2 {
    Vec2::new(wild(r), wild(r))
}

fn wild_index(r: &Rng, n: usize) -> usize {
    match r.below(8) {
        0 => usize::MAX,
        1 => n,
        2 => usize::MAX - r.below(3),
        3 => n + r.below(5),
        _ => r.below(n.max(1)),
    }
}

fn wild_graph(cx: &mut Cx, r: &Rng) -> CaseResult {
    let mut g = G::new();
    for k in 0..24u64 {
        let (n, m) = (g.node_count(), g.edge_count());
        let p = wild_v(r);
        let (a, b) = (wild_index(r, n), wild_index(r, n));
        let e = wild_index(r, m);
        let which = r.below(10);
        cx.note(&format!("graph op {} ({:?},{:?}) {} {} {}", which, p.x, p.y, a, b, e));
        cx.count("wild_graph_calls");
        cx.call("a graph operation", false, || match which {
            0..=3 => {
                g.add_node(&p, NTag(k));
            }
            4..=6 => {
                let _ = g.add_edge(a, b, ETag(k));
            }
            7 => {
                g.remove_edge(e);
            }
            8 => {
                g.remove_node(a);
            }
            _ => {
                let _ = g.get_vertex(a).map(|v| *v.get_position());
                let _ = g.get_edge(e).map(|x| x.includes(a));
                g.has_edge_between_nodes(a, b);
                g.number_of_edges_incident_to(a);
                g.has_node_at_index(a);
                g.has_edge_at_index(e);
            }
        })?;
        if g.edge_count() > 400 {
            break;
        }
    }
    Ok(())
}

fn wild_polygon(cx: &mut Cx, r: &Rng) -> CaseResult {
    let n = r.below(11);
    let vs: Vec<Vec2> = (0..n).map(|_| wild_v(r)).collect();
    cx.note(&format!("polygon {:?}", vs));
    let sides = r.below(9);
    let (rad, c) = (wild(r), wild_v(r));
    let p = cx.call("Polygon::new", false, || Polygon::new(&vs).ok())?.unwrap_or(None);
    let q = cx.call("Polygon::regular", false, || Polygon::regular(sides, rad, &c))?;
    for p in p.into_iter().chain(q) {
        let n = p.get_vertices().len();
        for _ in 0..6 {
            let (i, j) = (wild_index(r, n), wild_index(r, n));
            cx.note(&format!("diagonal {} {}", i, j));
            cx.call("diagonal", false, || p.diagonal(i, j))?;
        }
        cx.call("triangulate", false, || p.triangulate().len())?;
        cx.call("area", false, || p.area())?;
        cx.call("center", false, || p.center())?;
        let (mut p2, s, t) = (p.clone(), wild(r), wild_v(r));
        cx.call("transforms", false, || {
            p2.uniform_scale(s);
            p2.translate(&t);
            p2.triangulate().len()
        })?;
        cx.count("wild_polygons");
    }
    Ok(())
}

fn wild_utils(cx: &mut Cx, r: &Rng) -> CaseResult {
    let v: Vec<Vec2> = (0..6).map(|_| wild_v(r)).collect();
    let m = r.below(6);
    let some = v[..m].to_vec();
    cx.note(&format!("utilities on {:?}", v));
    let (a, b, c, d) = (&v[0], &v[1], &v[2], &v[3]);
    cx.call("the utilities", false, || {
        let _ = utils::calculate_line_intersection(a, b, c, d);
        let _ = utils::calculate_line_segment_intersection(a, b, c, d);
        let _ = utils::calculate_triangle_incenter(a, b, c);
        let _ = utils::is_degenerate_triangle(a, b, c);
        let _ = utils::parallel(a, b, c, d);
        let _ = utils::is_on_line_segment(a, b, c, true);
        let _ = utils::calculate_perpendicular_point(a, b, c);
        let _ = utils::calculate_perpendicular_bisector(a, b, v[4].x);
        let _ = utils::calculate_midpoint(a, b);
        let _ = utils::close_to(a, b);
        let _ = utils::unique_points_among(&some);
        let _ = utils::find_closest_to(a, &some);
        let _ = polygon::area2(a, b, c);
        let _ = polygon::left(a, b, c);
        let _ = polygon::left_on(a, b, c);
        let _ = polygon::collinear(a, b, c);
        let _ = polygon::between(a, b, c);
        let _ = polygon::intersect_prop(a, b, c, d);
        let _ = polygon::intersect(a, b, c, d);
    })?;
    cx.count("wild_utility_calls");
    Ok(())
}

/// Repeats one workload; heap that grows by every repetition is leaked.
fn leaks(cx: &mut Cx, r: &Rng) -> CaseResult {
    let seed = r.u64();
    let dir = cx.scratch.clone();
    let _ = std::fs::create_dir_all(&dir);
    let path = std::path::PathBuf::from(&dir).join("leak.fold");
    std::fs::write(&path, "{\"file_title\":\"x\",\"vertices_coords\":[[1,2],[3,4]],\"edges_vertices\":[[0,1]]}").map_err(|e| Stop::Internal(e.to_string()))?;
    let work = || {
        let r = Rng::new(seed);
        let mut g = G::new();
        for k in 0..30u64 {
            let (n, m) = (g.node_count().max(1), g.edge_count().max(1));
            match r.below(7) {
                0 => {
                    g.remove_edge(r.below(m));
                }
                1 => {
                    g.remove_node(r.below(n));
                }
                2 | 3 | 4 => {
                    let _ = g.add_edge(r.below(n), r.below(n), ETag(k));
                }
                _ => {
                    g.add_node(&Vec2::new(r.range(0.0, 100.0) as f32, r.range(0.0, 100.0) as f32), NTag(k));
                }
            }
        }
        let h = g.clone();
        drop(g);
        drop(h);
        let p = Polygon::regular(3 + r.below(6), 2.0, &Vec2::new(1.0, 1.0));
        let _ = p.triangulate().len();
        let _ = Fold::from_file(&path).is_ok();
        let _ = Fold::from_file(std::path::Path::new("/nonexistent/x")).is_ok();
        let vs: Vec<Vec2> = (0..5).map(|_| Vec2::new(r.int(0, 2) as f32, 0.0)).collect();
        let _ = utils::unique_points_among(&vs).len();
    };
    let mut levels = vec![];
    for _ in 0..5 {
        if cx.call("the repeated workload", false, || work())?.is_none() {
            return Ok(());
        }
        levels.push(crate::live_bytes());
    }
    let grow: Vec<i64> = levels.windows(2).map(|w| w[1] as i64 - w[0] as i64).collect();
    cx.note(&format!("live heap after each of five identical runs: {:?}", levels));
    cx.count("leak_measurements");
    if grow.iter().all(|g| *g > 0) {
        fail!("every repetition of the same workload leaves more heap in use: {:?} bytes", levels);
    }
    Ok(())
}

thread_local! {
    static PROPS: HashMap<usize, Prop> = others().into_iter().enumerate().collect();
}

fn others() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(crate::graphmon::props());
    v.extend(crate::polymon::props());
    v.extend(crate::utilmon::props());
    v.extend(crate::gamon::props());
    v.extend(crate::foldmon::props());
    v.extend(crate::detmon::props());
    v
}

fn sanitized(cx: &mut Cx) -> CaseResult {
    let r = cx.rng.clone();
    if let Ok(mut o) = OVERFLOW.lock() {
        *o = None;
    }
    let (n, pick) = PROPS.with(|p| (p.len() as u64, (cx.index % (p.len() as u64 + 4)) as usize));
    let res = match pick as u64 {
        k if k < n => {
            let (id, case) = PROPS.with(|p| (p[&pick].id, p[&pick].case));
            cx.prop = id;
            let saved = cx.index;
            cx.index = saved / (n + 4);
            let res = case(cx);
            cx.prop = "C28";
            cx.index = saved;
            cx.count(&format!("workload_of_{}", id));
            match res {
                Err(Stop::Violation(_)) => {
                    cx.count("cases_ended_by_a_failure_owned_by_another_property");
                    Ok(())
                }
                x => x,
            }
        }
        k if k == n => wild_graph(cx, &r),
        k if k == n + 1 => wild_polygon(cx, &r),
        k if k == n + 2 => wild_utils(cx, &r),
        _ => leaks(cx, &r),
    };
    res?;
    cx.evaluations += 1;
    let overflow = OVERFLOW.lock().ok().and_then(|mut o| o.take());
    if let Some(o) = overflow {
        fail!("an integer overflowed: {}", o);
    }
    let key = format!("{}{}", pick, cx.trace);
    cx.nontrivial(key.as_bytes());
    Ok(())
}

/// Runs shard `shard` of a few cases under the Miri interpreter, which ends the process at undefined
/// behaviour. Arguments: seed, shard, shards, cases per kind, scratch directory, seconds.
pub fn miri_main(args: &[String]) -> i32 {
    let num = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let (seed, shard, shards, rounds) = (num(0), num(1), num(2), num(3));
    crate::cx::install_panic_hook();
    let kinds = others().len() as u64 + 4;
    let scratch = args.get(4).cloned().unwrap_or_else(|| "/tmp/kami-miri".into());
    let mut c = Cx::new("C28", false, format!("{}/s{}", scratch, shard));
    let start = std::time::Instant::now();
    let mut done = 0;
    let mut i = shard;
    let seconds = num(5) as f64;
    while i < kinds * rounds && start.elapsed().as_secs_f64() < seconds {
        c.rng = Rng::new(mix(seed ^ mix(0x0c28 + i)));
        c.index = i;
        c.trace.clear();
        eprintln!("MIRI-CASE {} after {:.1} s", i, start.elapsed().as_secs_f64());
        match sanitized(&mut c) {
            Ok(()) => done += 1,
            Err(Stop::Violation(m)) => {
                eprintln!("MIRI-VIOLATION case {}: {}", i, m);
                return 1;
            }
            Err(Stop::Internal(m)) => {
                eprintln!("MIRI-INTERNAL case {}: {}", i, m);
                return 2;
            }
        }
        i += shards;
    }
    if std::path::Path::new(&c.scratch).is_dir() {
        let _ = std::fs::remove_dir_all(&c.scratch);
    }
    eprintln!("MIRI-DONE {} cases", done);
    0
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        case: sanitized,
        quick: 40_000,
        thorough: 1_500_000,
        floor: 300,
        required: &["wild_graph_calls", "wild_polygons", "wild_utility_calls", "leak_measurements", "workload_of_C01", "workload_of_C12", "workload_of_C26", "workload_of_C27"],
        rule: "A case is one case of another monitor's workload, or calls with NaN, infinite and out-of-range arguments, or a repeated workload under the heap counter, executed in an AddressSanitizer build with overflow checks; a smaller number runs under Miri. A safe panic is no violation. Distinct by arguments.",
        assumptions: &[
            "Miri runs with -Zmiri-disable-validation: the dependency nalgebra 0.21 builds every vector from uninitialised floats, which Miri rejects before any code of this repository runs",
            "integer overflow is judged where the answer fits the type",
        ],
    }]
}
