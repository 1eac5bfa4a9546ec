//! Monitors for polygons and the geometric predicates (C09-C13), judged with exact integer geometry.
use crate::cx::{CaseResult, Cx};
use crate::geom::*;
use crate::rng::Rng;
use crate::Prop;
use kami::geometry::polygon::{area2, between, collinear, intersect, intersect_prop, left, left_on, Polygon};
use kami::glm::Vec2;

fn verts(p: &[I]) -> Vec<Vec2> {
    p.iter().map(|q| q.v()).collect()
}

fn same_bits(a: &Vec2, b: &Vec2) -> bool {
    a.x.to_bits() == b.x.to_bits() && a.y.to_bits() == b.y.to_bits()
}

fn same_list(a: &[Vec2], b: &[Vec2]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_bits(x, y))
}

fn show_v(p: &[Vec2]) -> String {
    p.iter().map(|q| format!("({:?},{:?})", q.x, q.y)).collect::<Vec<_>>().join(" ")
}

/// Any list of integer points: simple, self-intersecting, repeated, collinear.
fn any_int_list(r: &mut Rng, max_n: usize) -> Vec<I> {
    match r.below(6) {
        0 => simple_polygon(r, max_n.max(4)).0,
        1 => {
            let n = 3 + r.below(max_n - 2);
            let s = *r.pick(&[2i64, 5, 30, 400]);
            (0..n).map(|_| I::new(r.int(-s, s), r.int(-s, s))).collect()
        }
        2 => {
            // collinear
            let n = 3 + r.below((max_n - 2).min(20));
            let (dx, dy) = (r.int(-3, 3), r.int(-3, 3));
            (0..n).map(|_| { let t = r.int(-20, 20); I::new(dx * t + 1, dy * t - 2) }).collect()
        }
        3 => {
            // few distinct points, many repeats
            let base: Vec<I> = (0..1 + r.below(4)).map(|_| I::new(r.int(-9, 9), r.int(-9, 9))).collect();
            let n = 3 + r.below((max_n - 2).min(20));
            (0..n).map(|_| *r.pick(&base)).collect()
        }
        4 => {
            // a simple polygon with spikes and doubled vertices
            let mut p = simple_polygon(r, (max_n / 2).max(4)).0;
            for _ in 0..1 + r.below(4) {
                let i = r.below(p.len());
                let q = p[i];
                if r.chance(0.5) {
                    p.insert(i, q);
                } else {
                    let s = I::new(q.x + r.int(-50, 50), q.y + r.int(-50, 50));
                    p.insert(i + 1, s);
                    p.insert(i + 2, q);
                }
            }
            p
        }
        _ => {
            // star polygons {n/k}, a regular list traversed several times
            let n = 5 + r.below(12);
            let k = 1 + r.below(4);
            (0..n)
                .map(|i| {
                    let a = (i * k % n) as f64 / n as f64 * std::f64::consts::TAU;
                    I::new((a.cos() * 100.0).round() as i64, (a.sin() * 100.0).round() as i64)
                })
                .collect()
        }
    }
}

/// Mostly up to `usual` vertices, now and then many more.
fn size(r: &mut Rng, usual: usize, rare: usize) -> usize {
    if !cfg!(miri) && r.chance(0.004) {
        if r.chance(0.08) { 1000 } else { rare }
    } else {
        usual
    }
}

/// Now and then, the same polygon far away from the origin (where coordinates are still exact).
fn far_away(cx: &mut Cx, r: &mut Rng, p: &mut [I]) {
    if r.chance(0.15) {
        let reach = 1i64 << r.int(11, 22);
        let (x, y) = (r.int(-reach, reach), r.int(-reach, reach));
        for q in p.iter_mut() {
            *q = I::new(q.x + x, q.y + y);
        }
        cx.count("polygons_far_from_the_origin");
    }
}

/// The polygon with vertices `p` times the returned unit, built directly or scaled and moved into
/// place afterwards; all of it exact in f32. None if another property is already violated on the way.
fn build(cx: &mut Cx, r: &mut Rng, p: &[I]) -> Result<Option<(Polygon, f64)>, crate::cx::Stop> {
    let power = |r: &mut Rng| 2f64.powi(r.int(-14, 14) as i32);
    let mode = r.below(4);
    let (unit, first, s, t) = match mode {
        0 | 1 => {
            let u = if mode == 0 { 1.0 } else { power(r) };
            (u, u, 1.0, P::new(0.0, 0.0))
        }
        _ => {
            let t = P::new(r.int(-600, 600) as f64, r.int(-600, 600) as f64);
            let s = power(r) * if r.chance(0.3) { -1.0 } else { 1.0 };
            (1.0, 1.0 / s, s, t)
        }
    };
    let v: Vec<Vec2> = p.iter().map(|q| P::new((q.x as f64 - t.x) * first, (q.y as f64 - t.y) * first).v()).collect();
    let mut poly = match cx.call("Polygon::new", false, || Polygon::new(&v).ok())? {
        Some(Some(q)) => q,
        _ => return Ok(None),
    };
    if mode >= 2 {
        let tv = t.v();
        if cx.call("uniform_scale and translate", false, || { poly.uniform_scale(s as f32); poly.translate(&tv); })?.is_none() {
            return Ok(None);
        }
        cx.count("built_by_scaling_and_moving");
    } else if mode == 1 {
        cx.count("built_at_another_scale");
    }
    let mut want: Vec<(u64, u64)> = p.iter().map(|q| ((q.x as f64 * unit + 0.0).to_bits(), (q.y as f64 * unit + 0.0).to_bits())).collect();
    let mut got: Vec<(u64, u64)> = poly.get_vertices().iter().map(|q| ((q.x as f64 + 0.0).to_bits(), (q.y as f64 + 0.0).to_bits())).collect();
    want.sort();
    got.sort();
    if want != got {
        cx.count("cases_ended_by_a_failure_owned_by_another_property");
        return Ok(None);
    }
    cx.max("most_vertices", p.len() as u64);
    Ok(Some((poly, unit)))
}

// ---------------------------------------------------------------- C09

fn construction(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    // too short lists
    let n = r.below(3);
    let short: Vec<Vec2> = (0..n).map(|_| Vec2::new(r.range(-9.0, 9.0) as f32, r.range(-9.0, 9.0) as f32)).collect();
    let bad = cx.call("Polygon::new", true, || Polygon::new(&short).is_err())?;
    ensure!(bad == Some(true), "Polygon::new accepted {} vertices", n);
    cx.count("short_lists_rejected");

    // integer lists: the sign of the area is exact
    let top = size(&mut r, if cx.thorough { 100 } else { 40 }, 400);
    let mut p = any_int_list(&mut r, top);
    far_away(cx, &mut r, &mut p);
    cx.max("most_vertices", p.len() as u64);
    cx.note(&format!("vertices {}", show(&p)));
    // a unit that is a power of two changes nothing but the exponents
    let u = if r.chance(0.5) { 1.0 } else { 2f64.powi(r.int(-30, 10) as i32) };
    cx.note(&format!("times {:?}", u));
    let v: Vec<Vec2> = p.iter().map(|q| P::new(q.x as f64 * u, q.y as f64 * u).v()).collect();
    let got = match cx.call("Polygon::new", true, || Polygon::new(&v).ok().map(|g| g.get_vertices().to_vec()))? {
        Some(Some(g)) => g,
        _ => fail!("Polygon::new rejected {} vertices: {}", v.len(), show(&p)),
    };
    let a2 = iarea2(&p);
    let mut rev = v.clone();
    rev.reverse();
    let bound: i64 = {
        let w = p.iter().map(|q| (q.x - p[0].x).abs().max((q.y - p[0].y).abs())).max().unwrap();
        w * w * 2 * p.len() as i64
    };
    // below 2^24 every partial sum is exact in f32; otherwise leave a margin
    let clear = bound < (1 << 23) || (a2.abs() as f64) > 8.0 * EPS * p.len() as f64 * 1e6 * 8.0;
    judge_order(&v, &rev, &got, if clear { a2.signum() } else { 2 }, &show_v(&v))?;
    cx.count(match a2.signum() {
        1 => "counter_clockwise_lists",
        -1 => "clockwise_lists",
        _ => "zero_area_lists",
    });

    // float lists
    let n = 3 + r.below(if r.chance(0.2) { 95 } else { 20 });
    let scale = if r.chance(0.3) { r.signed_log(1e-7, 0.05).abs() } else { r.signed_log(0.05, 2000.0).abs() };
    let (ox, oy) = match r.below(4) {
        0 | 1 => (0.0, 0.0),
        2 => (scale * r.range(-300.0, 300.0), scale * r.range(-300.0, 300.0)),
        _ => (r.signed_log(0.1, 3000.0), r.signed_log(0.1, 3000.0)),
    };
    let shape = r.below(3);
    let f: Vec<Vec2> = (0..n)
        .map(|i| {
            let a = -(i as f64) / n as f64 * std::f64::consts::TAU * if shape == 1 { -1.0 } else { 1.0 };
            let q = if shape == 2 { (r.range(-1.0, 1.0), r.range(-1.0, 1.0)) } else { let rad = r.range(0.3, 1.0); (a.cos() * rad, a.sin() * rad) };
            Vec2::new((ox + scale * q.0) as f32, (oy + scale * q.1) as f32)
        })
        .collect();
    let fp: Vec<P> = f.iter().map(pt).collect();
    // rounding errors grow with the extent of the polygon, and at most linearly with its distance
    let area: f64 = (0..n).map(|i| fp[i].sub(fp[0]).cross(fp[(i + 1) % n].sub(fp[0]))).sum();
    let extent = fp.iter().map(|q| q.dist(fp[0])).fold(0.0, f64::max);
    let got = match cx.call("Polygon::new", true, || Polygon::new(&f).ok().map(|g| g.get_vertices().to_vec()))? {
        Some(Some(g)) => g,
        _ => fail!("Polygon::new rejected {} vertices", n),
    };
    let mut rev = f.clone();
    rev.reverse();
    let sign = if area.abs() > 16.0 * EPS * n as f64 * extent * (extent + mag(&fp)) { area.signum() as i64 } else { 2 };
    judge_order(&f, &rev, &got, sign, &show_v(&f))?;
    if sign != 2 {
        cx.count("float_lists_with_clear_area");
    }

    // regular polygons
    let sides = match r.below(4) {
        0 => 3 + r.below(6),
        1 | 2 => 3 + r.below(100),
        _ if !cfg!(miri) && r.chance(0.0002) => 65_530 + r.below(40),
        _ => 3 + r.below(if cx.thorough || (!cfg!(miri) && r.chance(0.01)) { 5000 } else { 800 }),
    };
    let most = *r.pick(&[5e3, 5e3, 5e3, 1e9]);
    let rad = r.signed_log(50.0 / most, most).abs() as f32;
    let c = if r.chance(0.3) {
        Vec2::new(0.0, 0.0)
    } else {
        let m = rad as f64 * if sides > 200 { 5.0 } else { 200.0 };
        Vec2::new(r.range(-m, m) as f32, r.range(-m, m) as f32)
    };
    let q = match cx.call("Polygon::regular", true, || Polygon::regular(sides, rad, &c).get_vertices().to_vec())? {
        Some(q) => q,
        None => return Ok(()),
    };
    let what = format!("Polygon::regular({}, {:?}, ({:?}, {:?}))", sides, rad, c.x, c.y);
    ensure!(q.len() == sides, "{} has {} vertices", what, q.len());
    let cp = pt(&c);
    let tol = 1e-5 * rad as f64 + 4.0 * EPS * (cp.mag() + rad as f64);
    for (i, v) in q.iter().enumerate() {
        let a = i as f64 / sides as f64 * std::f64::consts::TAU;
        let want = cp.add(P::new(a.cos(), a.sin()).mul(rad as f64));
        let d = pt(v).dist(want);
        ensure!(d <= tol, "{}: vertex {} is at ({:?}, {:?}), {:e} away from where it has to be (tolerance {:e})", what, i, v.x, v.y, d, tol);
    }
    cx.count("regular_polygons");
    cx.evaluations += 4;
    let t = cx.trace.clone();
    cx.nontrivial(t.as_bytes());
    cx.sample(|| format!("{} -> area2 {}; {}", t, a2, what));
    Ok(())
}

/// sign: of the input's signed area; 2 when rounding decides.
fn judge_order(v: &[Vec2], rev: &[Vec2], got: &[Vec2], sign: i64, text: &str) -> CaseResult {
    let (fwd, bwd) = (same_list(v, got), same_list(rev, got));
    ensure!(fwd || bwd, "the vertices are neither the given ones nor their reversal: given {}, got {}", text, show_v(got));
    ensure!(!(sign > 0 && sign != 2 && !fwd), "a counter-clockwise list was reversed: {}", text);
    ensure!(!(sign < 0 && !bwd), "a clockwise list was not reversed: {}", text);
    Ok(())
}

// ---------------------------------------------------------------- C10

fn measures(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    let top = size(&mut r, if cx.thorough { 60 } else { 30 }, 300);
    let (p, kind) = simple_polygon(&mut r, top);
    cx.max("most_vertices", p.len() as u64);
    cx.count(&format!("kind_{}", POLY_KINDS[kind]));
    // Half of the cases keep small coordinates (sharp tolerance), others are turned and placed.
    let lo = p.iter().fold(I::new(i64::MAX, i64::MAX), |m, q| I::new(m.x.min(q.x), m.y.min(q.y)));
    let mut v: Vec<Vec2> = match r.below(3) {
        0 => p.iter().map(|q| I::new(q.x - lo.x, q.y - lo.y).v()).collect(),
        1 => verts(&p),
        _ => {
            let far = *r.pick(&[100.0, 100.0, 1e7]);
            let (a, s) = (r.range(0.0, 6.3), r.signed_log(1.0 / far, far).abs());
            p.iter()
                .map(|q| {
                    let (x, y) = ((q.x - lo.x) as f64, (q.y - lo.y) as f64);
                    P::new(s * (x * a.cos() - y * a.sin()), s * (x * a.sin() + y * a.cos())).v()
                })
                .collect()
        }
    };
    let n = v.len();
    let k = r.below(n);
    v.rotate_left(k);
    cx.note(&format!("vertices {}", show_v(&v)));
    let fp: Vec<P> = v.iter().map(pt).collect();
    let area_of = |q: &[P]| -> f64 {
        let o = q[0];
        (0..q.len()).map(|i| q[i].sub(o).cross(q[(i + 1) % q.len()].sub(o))).sum::<f64>().abs() * 0.5
    };
    let mean = |q: &[P]| -> P { q.iter().fold(P::new(0.0, 0.0), |m, x| m.add(*x)).mul(1.0 / q.len() as f64) };
    let m = mag(&fp);
    let nf = n as f64;
    // rounding errors grow with the extent of the polygon, and at most linearly with its distance
    let extent = |q: &[P]| -> f64 { q.iter().map(|x| x.dist(q[0])).fold(0.0, f64::max) };
    let w0 = 2.0 * extent(&fp);
    let area_tol = 8.0 * EPS * nf * w0 * (w0 + m);
    let area = area_of(&fp);
    let make = |cx: &mut Cx, w: &Vec<Vec2>| cx.call("Polygon::new", true, || Polygon::new(w).ok());
    let mut poly = match make(cx, &v)? {
        Some(Some(p)) => p,
        _ => fail!("Polygon::new rejected {} vertices", n),
    };
    let got = cx.call("area", true, || poly.area())?.unwrap_or(f32::NAN) as f64;
    ensure!((got - area).abs() <= area_tol, "area {} of {}; the enclosed area is {}", got, show_v(&v), area);
    // other starts and directions
    for _ in 0..2 {
        let mut w = v.clone();
        let k = r.below(n);
        w.rotate_left(k);
        if r.chance(0.5) {
            w.reverse();
        }
        if let Some(Some(q)) = make(cx, &w)? {
            let g = q.area() as f64;
            ensure!((g - area).abs() <= area_tol, "area {} for the list {}; the enclosed area is {}", g, show_v(&w), area);
            let c = pt(&q.center());
            let d = c.dist(mean(&fp));
            ensure!(d <= 2.0 * EPS * nf * m, "centre ({}, {}) of {}; the mean of the vertices is {} away", c.x, c.y, show_v(&w), d);
        }
        cx.count("starts_and_directions_compared");
    }
    // transforms
    let base: Vec<P> = poly.get_vertices().iter().map(pt).collect();
    let t = match r.below(4) {
        0 => Vec2::new(r.int(-300, 300) as f32, r.int(-300, 300) as f32),
        // far away, and exact for integer vertices
        3 => Vec2::new((r.int(-4, 4) * 8192) as f32, (r.int(-4, 4) * 8192) as f32),
        1 => Vec2::new(r.range(-m, m) as f32, r.range(-m, m) as f32),
        _ => Vec2::new(r.signed_log(0.01, 3000.0) as f32, r.signed_log(0.01, 3000.0) as f32),
    };
    let s = match r.below(4) {
        0 => *r.pick(&[2.0f32, 0.5, -1.0, -2.0, 1.0, 0.0, 4.0]),
        1 => r.signed_log(1e-6, 1e6) as f32,
        _ => r.signed_log(0.02, 30.0) as f32,
    };
    let mut moved = poly.clone();
    cx.call("translate", true, || moved.translate(&t))?;
    let mv: Vec<P> = moved.get_vertices().iter().map(pt).collect();
    ensure!(mv.len() == n, "translation changed the number of vertices");
    let tp = pt(&t);
    let mm = m + tp.mag();
    for i in 0..n {
        let d = mv[i].dist(base[i].add(tp));
        ensure!(d <= 2.0 * EPS * mm, "translate by ({:?}, {:?}): vertex {} moved from {:?} to {:?}", t.x, t.y, i, base[i], mv[i]);
    }
    let c = pt(&moved.center());
    ensure!(c.dist(mean(&base).add(tp)) <= 2.0 * EPS * nf * mm, "after translate by ({:?}, {:?}) the centre is {:?}", t.x, t.y, c);
    let at = area_tol + 8.0 * EPS * nf * w0 * (w0 + mm);
    let g = moved.area() as f64;
    ensure!((g - area).abs() <= at, "after translate by ({:?}, {:?}) the area is {} instead of {}", t.x, t.y, g, area);
    cx.count("translations");
    cx.call("uniform_scale", true, || poly.uniform_scale(s))?;
    let sv: Vec<P> = poly.get_vertices().iter().map(pt).collect();
    ensure!(sv.len() == n, "scaling changed the number of vertices");
    let sf = s as f64;
    for i in 0..n {
        let d = sv[i].dist(base[i].mul(sf));
        ensure!(d <= 2.0 * EPS * m * sf.abs(), "uniform_scale by {:?}: vertex {} went from {:?} to {:?}", s, i, base[i], sv[i]);
    }
    let c = pt(&poly.center());
    ensure!(c.dist(mean(&base).mul(sf)) <= 4.0 * EPS * nf * m * sf.abs(), "after uniform_scale by {:?} the centre is {:?}", s, c);
    let g = poly.area() as f64;
    ensure!((g - area * sf * sf).abs() <= 2.0 * area_tol * sf * sf, "after uniform_scale by {:?} the area is {} instead of {}", s, g, area * sf * sf);
    cx.count("scalings");
    // more of them, one after another; each judged against the vertices shown before it
    for _ in 0..r.below(4) {
        let base: Vec<P> = moved.get_vertices().iter().map(pt).collect();
        let (sf, t) = if r.chance(0.5) { (*r.pick(&[2.0f32, 0.5, -1.0, 3.0, 0.75]), Vec2::new(0.0, 0.0)) } else { (1.0, Vec2::new(r.range(-m, m) as f32, r.range(-m, m) as f32)) };
        cx.call("a transform", true, || if sf != 1.0 { moved.uniform_scale(sf) } else { moved.translate(&t) })?;
        let now: Vec<P> = moved.get_vertices().iter().map(pt).collect();
        let mm = mag(&base).max(mag(&now)) + pt(&t).mag();
        ensure!(now.len() == n, "a transform changed the number of vertices");
        for i in 0..n {
            let want = base[i].mul(sf as f64).add(pt(&t));
            ensure!(now[i].dist(want) <= 4.0 * EPS * mm, "after several transforms, one by factor {:?} and vector ({:?}, {:?}) took vertex {} from {:?} to {:?}", sf, t.x, t.y, i, base[i], now[i]);
        }
        let c = pt(&moved.center());
        ensure!(c.dist(mean(&now)) <= 4.0 * EPS * nf * mm, "after several transforms the centre is {:?}, the mean of the vertices {:?}", c, mean(&now));
        let (g, w) = (moved.area() as f64, area_of(&now));
        ensure!((g - w).abs() <= 8.0 * EPS * nf * 2.0 * extent(&now) * (extent(&now) + mm), "after several transforms the area is {} instead of {}", g, w);
        cx.count("chained_transforms");
    }
    if area_tol < 0.01 * area {
        cx.count("areas_known_within_one_percent");
    }
    cx.evaluations += 5;
    let key = cx.trace.clone();
    cx.nontrivial(key.as_bytes());
    cx.sample(|| format!("{} -> area {}", key, area));
    Ok(())
}

// ---------------------------------------------------------------- C11

/// Exact: the open segment between vertices i and j of the simple polygon runs through its interior.
fn true_diagonal(p: &[I], i: usize, j: usize) -> bool {
    let n = p.len();
    if i == j || (i + 1) % n == j || (j + 1) % n == i {
        return false;
    }
    let (a, b) = (p[i], p[j]);
    for k in 0..n {
        if k != i && k != j && ion_seg(a, b, p[k]) {
            return false;
        }
        let l = (k + 1) % n;
        if k != i && k != j && l != i && l != j && imeet(a, b, p[k], p[l]) {
            return false;
        }
    }
    locate(p, I::new(a.x + b.x, a.y + b.y), 2) == 1
}

fn diagonals(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    let top = size(&mut r, if cx.thorough { 40 } else { 24 }, 320);
    let (mut p, kind) = simple_polygon(&mut r, top);
    far_away(cx, &mut r, &mut p);
    cx.count(&format!("kind_{}", POLY_KINDS[kind]));
    cx.note(&format!("vertices {}", show(&p)));
    let (poly, unit) = match build(cx, &mut r, &p)? {
        Some(x) => x,
        None => return Ok(()),
    };
    // Work with the vertices the polygon actually has.
    let got = poly.get_vertices().to_vec();
    let q: Vec<I> = got.iter().map(|w| I::new((w.x as f64 / unit) as i64, (w.y as f64 / unit) as i64)).collect();
    if q.len() != p.len() || !is_simple(&q) || iarea2(&q) <= 0 {
        cx.count("cases_ended_by_a_failure_owned_by_another_property");
        return Ok(());
    }
    let n = q.len();
    let mut yes = 0u64;
    // (of the largest polygons, not every vertex is tried)
    let ends: Vec<usize> = if n > 130 { (0..n).filter(|i| *i < 2 || *i + 3 > n || r.chance(if n > 500 { 0.03 } else { 0.15 })).collect() } else { (0..n).collect() };
    for &i in &ends {
        for j in 0..n {
            let d = match cx.call("diagonal", true, || poly.diagonal(i, j))? {
                Some(d) => d,
                None => return Ok(()),
            };
            let want = true_diagonal(&q, i, j);
            ensure!(d == want, "diagonal({}, {}) is {} but has to be {} in {} times {}", i, j, d, want, show(&q), unit);
            yes += want as u64;
        }
    }
    let pairs = (ends.len() * n) as u64;
    cx.add("vertex_pairs_judged", pairs);
    cx.add("true_diagonals", yes);
    cx.evaluations += pairs;
    if n > 3 {
        let key = cx.trace.clone();
        cx.nontrivial(key.as_bytes());
        cx.sample(|| format!("{} -> {} of {} ordered pairs are diagonals", key, yes, pairs));
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

fn disjoint(a: &[I], b: &[I]) -> bool {
    // both counter-clockwise triangles: an edge line of one separates the other
    let sep = |s: &[I], t: &[I]| (0..3).any(|i| t.iter().all(|q| iorient(s[i], s[(i + 1) % 3], *q) <= 0));
    sep(a, b) || sep(b, a)
}

fn strictly_in(t: &[I], p: I) -> bool {
    (0..3).all(|i| iorient(t[i], t[(i + 1) % 3], p) > 0)
}

fn triangulation(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    if cx.index % 4 == 3 {
        return triangulation_returns(cx, &mut r);
    }
    let top = size(&mut r, if cx.thorough { 90 } else { 45 }, 300);
    let (mut p, kind) = simple_polygon(&mut r, top);
    far_away(cx, &mut r, &mut p);
    cx.count(&format!("kind_{}", POLY_KINDS[kind]));
    cx.note(&format!("vertices {}", show(&p)));
    let (poly, unit) = match build(cx, &mut r, &p)? {
        Some(x) => x,
        None => return Ok(()),
    };
    if unit != 1.0 {
        cx.note(&format!("times {}", unit));
    }
    let before = poly.get_vertices().to_vec();
    let ts = match cx.call("triangulate", true, || poly.triangulate())? {
        Some(t) => t,
        None => return Ok(()),
    };
    ensure!(same_list(&before, poly.get_vertices()), "triangulate changed the polygon");
    let n = p.len();
    ensure!(ts.len() == n - 2, "{} triangles for {} vertices: {}", ts.len(), n, show(&p));
    let mut tris: Vec<Vec<I>> = vec![];
    let mut total = 0;
    for (k, t) in ts.iter().enumerate() {
        let w = t.get_vertices();
        ensure!(w.len() == 3, "part {} has {} corners in {}", k, w.len(), show(&p));
        let mut tri = vec![];
        for q in w {
            let (x, y) = (q.x as f64 / unit, q.y as f64 / unit);
            let i = I::new(x as i64, y as i64);
            ensure!(i.x as f64 == x && i.y as f64 == y && p.contains(&i), "corner ({:?}, {:?}) of triangle {} is no vertex of {}", q.x, q.y, k, show(&p));
            tri.push(i);
        }
        let a = iarea2(&tri);
        ensure!(a > 0, "triangle {} {} is not counter-clockwise with positive area, in {}", k, show(&tri), show(&p));
        total += a;
        tris.push(tri);
    }
    ensure!(total == iarea2(&p).abs(), "the triangles' areas add up to {}/2 instead of {}/2 in {}", total, iarea2(&p).abs(), show(&p));
    for i in 0..tris.len() {
        for j in 0..i {
            ensure!(disjoint(&tris[i], &tris[j]), "triangles {} and {} overlap in {}", show(&tris[i]), show(&tris[j]), show(&p));
        }
    }
    for t in &tris {
        let c = I::new(t[0].x + t[1].x + t[2].x, t[0].y + t[1].y + t[2].y);
        ensure!(locate(&p, c, 3) == 1, "triangle {} is not inside {}", show(t), show(&p));
        for i in 0..n {
            let (a, b) = (p[i], p[(i + 1) % n]);
            let t2: Vec<I> = t.iter().map(|q| I::new(2 * q.x, 2 * q.y)).collect();
            let pierced = strictly_in(t, a)
                || strictly_in(&t2, I::new(a.x + b.x, a.y + b.y))
                || (0..3).any(|k| icross_proper(t[k], t[(k + 1) % 3], a, b));
            ensure!(!pierced, "the boundary runs through triangle {} of {}", show(t), show(&p));
        }
    }
    cx.add("triangles_judged", tris.len() as u64);
    cx.evaluations += 1;
    if n > 3 {
        let key = cx.trace.clone();
        cx.nontrivial(key.as_bytes());
        cx.sample(|| format!("{} -> {} triangles", key, tris.len()));
    }
    Ok(())
}

fn triangulation_returns(cx: &mut Cx, r: &mut Rng) -> CaseResult {
    let p = any_int_list(r, 24);
    let mut v = verts(&p);
    match r.below(6) {
        0 => {
            let i = r.below(v.len());
            v[i] = Vec2::new(*r.pick(&[f32::NAN, f32::INFINITY, -f32::INFINITY, 0.0]), v[i].y);
        }
        1 => {
            let s = *r.pick(&[1e-30f32, 1e30, 1e38, 1e-45, 0.1]);
            for q in v.iter_mut() {
                *q = *q * s;
            }
        }
        2 => {
            // rounding noise
            for q in v.iter_mut() {
                *q = Vec2::new(q.x * 0.1 + 0.3, q.y * 0.7 - 0.1);
            }
        }
        _ => {}
    }
    cx.note(&format!("any list {}", show_v(&v)));
    let poly = match cx.call("Polygon::new", false, || Polygon::new(&v).ok())? {
        Some(Some(q)) => q,
        _ => return Ok(()),
    };
    let before = poly.get_vertices().to_vec();
    cx.call("triangulate", true, || poly.triangulate())?;
    ensure!(same_list(&before, poly.get_vertices()), "triangulate changed the polygon");
    cx.count("arbitrary_lists_returned");
    cx.evaluations += 1;
    let key = cx.trace.clone();
    cx.nontrivial(key.as_bytes());
    Ok(())
}

// ---------------------------------------------------------------- C13

struct Quad {
    p: [I; 4],
    v: [Vec2; 4],
    unit: f64,
}

fn judge_quad(q: &Quad) -> Result<(), String> {
    let [a, b, c, d] = q.p;
    let [va, vb, vc, vd] = q.v;
    let o = iorient(a, b, c);
    let s = |what: &str, got: bool, want: bool, n: usize| -> Result<(), String> {
        if got == want {
            return Ok(());
        }
        Err(format!("{} is {} but has to be {} for {} times {}", what, got, want, show(&q.p[..n]), q.unit))
    };
    let got = area2(&va, &vb, &vc) as f64;
    let want = o as f64 * q.unit * q.unit;
    if got != want {
        return Err(format!("area2 is {} but has to be {} for {} times {}", got, want, show(&q.p[..3]), q.unit));
    }
    s("left", left(&va, &vb, &vc), o > 0, 3)?;
    s("left_on", left_on(&va, &vb, &vc), o >= 0, 3)?;
    s("collinear", collinear(&va, &vb, &vc), o == 0, 3)?;
    s("between", between(&va, &vb, &vc), ion_seg(a, b, c), 3)?;
    s("intersect_prop", intersect_prop(&va, &vb, &vc, &vd), icross_proper(a, b, c, d), 4)?;
    s("intersect", intersect(&va, &vb, &vc, &vd), imeet(a, b, c, d), 4)?;
    Ok(())
}

fn predicates(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    let mut quads = 0u64;
    if cx.index < 256 {
        // every quadruple of the 4x4 grid
        let g = |k: usize| I::new((k % 4) as i64, (k / 4) as i64);
        let (a, b) = (g(cx.index as usize / 16), g(cx.index as usize % 16));
        for k in 0..256 {
            let (c, d) = (g(k / 16), g(k % 16));
            let p = [a, b, c, d];
            let q = Quad { p, v: [a.v(), b.v(), c.v(), d.v()], unit: 1.0 };
            match cx.call("a predicate", true, || judge_quad(&q))? {
                Some(Err(m)) => fail!("{}", m),
                _ => quads += 1,
            }
        }
        cx.count("grid_4x4_segments_enumerated");
        cx.note(&format!("all segments against {}", show(&[a, b])));
    }
    for _ in 0..24 {
        let e = r.int(-12, 12) as i32;
        let unit = if r.chance(0.5) { 1.0 } else { 2f64.powi(e) };
        let size = *r.pick(&[3i64, 8, 60, 700, 1000]);
        let pick = |r: &mut Rng| I::new(r.int(-size, size), r.int(-size, size));
        let mut p = [pick(&mut r), pick(&mut r), pick(&mut r), pick(&mut r)];
        // special positions
        match r.below(8) {
            0 => p[1].x = p[0].x,
            1 => p[1].y = p[0].y,
            2 => p[r.below(4)] = p[r.below(4)],
            3 | 4 => {
                // c on the line through ab
                let (dx, dy) = (r.int(-9, 9), r.int(-9, 9));
                let (s, t, u) = (r.int(-9, 9), r.int(-9, 9), r.int(-9, 9));
                p[1] = I::new(p[0].x + s * dx, p[0].y + s * dy);
                p[2] = I::new(p[0].x + t * dx, p[0].y + t * dy);
                if r.chance(0.4) {
                    p[3] = I::new(p[0].x + u * dx, p[0].y + u * dy);
                }
                if r.chance(0.3) {
                    p.swap(1, 2);
                }
            }
            5 => {
                // nearly collinear: one unit off
                let (dx, dy) = (r.int(-40, 40), r.int(-40, 40));
                p[1] = I::new(p[0].x + 3 * dx, p[0].y + 3 * dy);
                p[2] = I::new(p[0].x + dx + r.int(-1, 1), p[0].y + dy + r.int(-1, 1));
            }
            _ => {}
        }
        r.shuffle(&mut p);
        if p.iter().any(|q| q.x.abs() > 1023 || q.y.abs() > 1023) {
            continue;
        }
        if r.chance(0.25) {
            // far away from the origin, where differences of coordinates are still exact
            let reach = 1i64 << r.int(10, 23);
            let (x, y) = (r.int(-reach, reach), r.int(-reach, reach));
            for q in p.iter_mut() {
                *q = I::new(q.x + x, q.y + y);
            }
            cx.count("quadruples_far_from_the_origin");
        }
        let f = |q: I| Vec2::new((q.x as f64 * unit) as f32, (q.y as f64 * unit) as f32);
        let q = Quad { p, v: [f(p[0]), f(p[1]), f(p[2]), f(p[3])], unit };
        cx.note(&format!("{} times {}", show(&p), unit));
        match cx.call("a predicate", true, || judge_quad(&q))? {
            Some(Err(m)) => fail!("{}", m),
            _ => quads += 1,
        }
        if ion_seg(p[0], p[1], p[2]) {
            cx.count("points_on_segments");
        }
        if imeet(p[0], p[1], p[2], p[3]) && !icross_proper(p[0], p[1], p[2], p[3]) {
            cx.count("touching_segments");
        }
        // symmetries, on the same exact coordinates
        let [a, b, c, d] = q.v;
        let base = intersect(&a, &b, &c, &d);
        for (x, what) in [
            (intersect(&c, &d, &a, &b), "the segments"),
            (intersect(&b, &a, &c, &d), "the ends of the first segment"),
            (intersect(&a, &b, &d, &c), "the ends of the second segment"),
        ] {
            ensure!(x == base, "intersect changes when {} are swapped: {} times {}", what, show(&p), unit);
        }
        ensure!(area2(&a, &b, &c) == -area2(&b, &a, &c) && area2(&a, &b, &c) == -area2(&a, &c, &b), "swapping two points does not negate area2: {} times {}", show(&p), unit);
    }
    // arbitrary coordinates with a clear margin
    for _ in 0..16 {
        let s = r.signed_log(0.01, 1e4).abs();
        let o = if r.chance(0.5) { 0.0 } else { r.signed_log(0.01, 1e4) };
        let v: Vec<Vec2> = (0..4).map(|_| Vec2::new((o + r.range(-s, s)) as f32, (o + r.range(-s, s)) as f32)).collect();
        let f: Vec<P> = v.iter().map(pt).collect();
        let m = mag(&f);
        let tol = 16.0 * EPS * m * m;
        let clear = |i: usize, j: usize, k: usize| orient(f[i], f[j], f[k]).abs() > tol;
        let w = orient(f[0], f[1], f[2]);
        let text = show_v(&v);
        let got = area2(&v[0], &v[1], &v[2]) as f64;
        ensure!((got - w).abs() <= tol, "area2 is {} instead of {} for {}", got, w, text);
        if clear(0, 1, 2) {
            ensure!(left(&v[0], &v[1], &v[2]) == (w > 0.0), "left is wrong for {}", text);
            ensure!(left_on(&v[0], &v[1], &v[2]) == (w > 0.0), "left_on is wrong for {}", text);
            ensure!(!collinear(&v[0], &v[1], &v[2]), "collinear is wrong for {}", text);
            ensure!(!between(&v[0], &v[1], &v[2]), "between is wrong for {}", text);
            cx.count("float_triples_with_clear_area");
            if clear(0, 1, 3) && clear(2, 3, 0) && clear(2, 3, 1) {
                let x = crosses(f[0], f[1], f[2], f[3]);
                ensure!(intersect_prop(&v[0], &v[1], &v[2], &v[3]) == x, "intersect_prop is wrong for {}", text);
                ensure!(intersect(&v[0], &v[1], &v[2], &v[3]) == x, "intersect is wrong for {}", text);
                cx.count("float_segment_pairs_with_clear_answer");
            }
        }
    }
    cx.evaluations += quads + 16;
    cx.add("configurations_judged_exactly", quads);
    let key = cx.trace.clone();
    cx.nontrivial(key.as_bytes());
    cx.sample(|| key);
    Ok(())
}

const EXACT: &[&str] = &["integer coordinates are small enough that f32 arithmetic on them is exact"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09", case: construction, quick: 1_200_000, thorough: 28_800_000, floor: 500,
            required: &["short_lists_rejected", "counter_clockwise_lists", "clockwise_lists", "zero_area_lists", "float_lists_with_clear_area", "regular_polygons"],
            rule: "A case is one integer vertex list (simple, self-intersecting, collinear, repeated points, stars), one float list, one list that is too short, and one regular polygon; distinct by the integer list.",
            assumptions: &["the sign of the area decides only where it is clear of f32 rounding"],
        },
        Prop {
            id: "C10", case: measures, quick: 1_200_000, thorough: 28_800_000, floor: 500,
            required: &["starts_and_directions_compared", "translations", "scalings", "areas_known_within_one_percent"],
            rule: "A case is one simple polygon (eleven kinds, integer or turned and scaled), listed from three start vertices in both directions, translated once and scaled once; distinct by its vertex list.",
            assumptions: &["tolerances are proportional to f32 epsilon, the number of vertices and the squared size of the coordinates"],
        },
        Prop {
            id: "C11", case: diagonals, quick: 420_000, thorough: 12_600_000, floor: 500, required: &["vertex_pairs_judged", "true_diagonals"],
            rule: "A case is one simple integer polygon (eleven kinds) with all ordered vertex pairs judged; non-trivial when it has more than three vertices; distinct by vertex list. Evaluations are vertex pairs.",
            assumptions: EXACT,
        },
        Prop {
            id: "C12", case: triangulation, quick: 420_000, thorough: 12_600_000, floor: 500, required: &["triangles_judged", "arbitrary_lists_returned"],
            rule: "Three of four cases triangulate a simple integer polygon (eleven kinds) and check the partition exactly; every fourth triangulates an arbitrary list (self-intersecting, repeated, collinear, huge, non-finite) and checks that the call returns. Distinct by vertex list.",
            assumptions: EXACT,
        },
        Prop {
            id: "C13", case: predicates, quick: 600_000, thorough: 14_400_000, floor: 500,
            required: &["grid_4x4_segments_enumerated", "points_on_segments", "touching_segments", "float_triples_with_clear_area", "float_segment_pairs_with_clear_answer"],
            rule: "The first 256 cases enumerate all 65536 point quadruples of the 4x4 grid; every case judges 24 random integer (or power-of-two scaled) quadruples, biased to special positions, and 16 float quadruples with a clear margin. Distinct by coordinates.",
            assumptions: EXACT,
        },
    ]
}
