//! Monitors for the point, segment and triangle utilities (C14-C17).
use crate::cx::{CaseResult, Cx};
use crate::geom::*;
use crate::rng::Rng;
use crate::Prop;
use kami::geometry::utils::*;
use kami::glm::Vec2;

fn sv(v: &[Vec2]) -> String {
    v.iter().map(|q| format!("({:?},{:?})", q.x, q.y)).collect::<Vec<_>>().join(" ")
}

fn finite(v: &Vec2) -> bool {
    v.x.is_finite() && v.y.is_finite()
}

/// A point of a drawing: random scale, sometimes an offset.
struct Frame {
    s: f64,
    ox: f64,
    oy: f64,
}

impl Frame {
    fn new(r: &mut Rng) -> Frame {
        let s = r.signed_log(0.05, 3000.0).abs();
        let k = if r.chance(0.4) { 0.0 } else { s * 4.0 };
        Frame { s, ox: r.range(-k, k), oy: r.range(-k, k) }
    }
    fn point(&self, r: &mut Rng) -> Vec2 {
        Vec2::new((self.ox + self.s * r.range(-1.0, 1.0)) as f32, (self.oy + self.s * r.range(-1.0, 1.0)) as f32)
    }
    /// Another point at a decent distance, sometimes exactly horizontal or vertical.
    fn other(&self, r: &mut Rng, a: &Vec2) -> Vec2 {
        loop {
            let mut b = self.point(r);
            match r.below(6) {
                0 => b.x = a.x,
                1 => b.y = a.y,
                _ => {}
            }
            if pt(a).dist(pt(&b)) > 0.05 * self.s {
                return b;
            }
        }
    }
}

fn grid4(r: &mut Rng, size: i64) -> [I; 4] {
    let pick = |r: &mut Rng| I::new(r.int(-size, size), r.int(-size, size));
    let mut p = [pick(r), pick(r), pick(r), pick(r)];
    match r.below(8) {
        0 => p[1].x = p[0].x,
        1 => p[1].y = p[0].y,
        2 => p[2] = *r.pick(&[p[0], p[1]]),
        3 => {
            // c on ab
            let (dx, dy, m) = (r.int(-9, 9), r.int(-9, 9), r.int(1, 9));
            p[1] = I::new(p[0].x + m * dx, p[0].y + m * dy);
            let t = r.int(0, m);
            p[2] = I::new(p[0].x + t * dx, p[0].y + t * dy);
        }
        4 => {
            // parallel
            let (dx, dy) = (r.int(-9, 9), r.int(-9, 9));
            let (m, k) = (r.int(1, 9), r.int(-9, 9));
            p[1] = I::new(p[0].x + m * dx, p[0].y + m * dy);
            p[3] = I::new(p[2].x + k * dx, p[2].y + k * dy);
        }
        5 => {
            // c just off the end of ab
            let (dx, dy, m) = (r.int(-9, 9), r.int(-9, 9), r.int(1, 9));
            p[1] = I::new(p[0].x + m * dx, p[0].y + m * dy);
            let t = *r.pick(&[-1, m + 1]);
            p[2] = I::new(p[0].x + t * dx, p[0].y + t * dy);
        }
        _ => {}
    }
    if r.chance(0.5) {
        p.swap(2, 3);
    }
    if r.chance(0.5) {
        p.swap(0, 1);
    }
    if r.chance(0.5) {
        p.swap(0, 2);
        p.swap(1, 3);
    }
    p
}

// ---------------------------------------------------------------- C14

fn judge_point(v: &[Vec2; 4], got: Option<Vec2>, want: Option<bool>, segments: bool, extra: f64, name: &str) -> CaseResult {
    let f: Vec<P> = v.iter().map(pt).collect();
    let text = sv(v);
    match (got, want) {
        (None, Some(true)) => fail!("{} found nothing for {}", name, text),
        (Some(q), Some(false)) => fail!("{} found ({:?}, {:?}) for {}", name, q.x, q.y, text),
        (Some(q), _) => {
            ensure!(finite(&q), "{} gave a non-finite point for {}", name, text);
            let q = pt(&q);
            let (x, sin) = line_cross(f[0], f[1], f[2], f[3]);
            let m = mag(&f);
            let len = f[0].dist(f[1]).min(f[2].dist(f[3]));
            let tol = 32.0 * EPS * (m + x.mag()) * (1.0 + extra * m / len) / sin;
            let d = q.dist(x);
            ensure!(d <= tol, "{} gave ({}, {}) for {}; the lines meet in ({}, {}), {:e} away (tolerance {:e})", name, q.x, q.y, text, x.x, x.y, d, tol);
            if segments {
                let o = seg_dist(f[0], f[1], q).0.max(seg_dist(f[2], f[3], q).0);
                ensure!(o <= tol, "{} gave a point {:e} off a segment for {}", name, o, text);
            }
        }
        _ => {}
    }
    Ok(())
}

fn intersections(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    for _ in 0..24 {
        let size = *r.pick(&[3i64, 10, 100, 900]);
        let p = grid4(&mut r, size);
        if p.iter().any(|q| q.x.abs() > 1000 || q.y.abs() > 1000) || p[0] == p[1] || p[2] == p[3] {
            continue;
        }
        let unit = if r.chance(0.4) { 1.0 } else if r.chance(0.6) { 2f64.powi(r.int(-5, 3) as i32) } else { 2f64.powi(r.int(-30, 24) as i32) };
        let f = |q: I| Vec2::new((q.x as f64 * unit) as f32, (q.y as f64 * unit) as f32);
        let v = [f(p[0]), f(p[1]), f(p[2]), f(p[3])];
        cx.note(&sv(&v));
        let det = (p[1].x - p[0].x) * (p[3].y - p[2].y) - (p[1].y - p[0].y) * (p[3].x - p[2].x);
        let meet = imeet(p[0], p[1], p[2], p[3]);
        let seg = cx.call("calculate_line_segment_intersection", true, || calculate_line_segment_intersection(&v[0], &v[1], &v[2], &v[3]))?;
        let line = cx.call("calculate_line_intersection", true, || calculate_line_intersection(&v[0], &v[1], &v[2], &v[3]))?;
        let (seg, line) = match (seg, line) {
            (Some(s), Some(l)) => (s, l),
            _ => return Ok(()),
        };
        if det == 0 {
            if !meet {
                ensure!(seg.is_none(), "calculate_line_segment_intersection found a point for the disjoint parallel segments {}", sv(&v));
            }
            ensure!(line.is_none(), "calculate_line_intersection found a point for the parallel lines {}", sv(&v));
            cx.count("parallel_pairs");
        } else {
            judge_point(&v, seg, Some(meet), true, 1.0, "calculate_line_segment_intersection")?;
            judge_point(&v, line, Some(true), false, 1.0, "calculate_line_intersection")?;
            cx.count(if !meet {
                "disjoint_pairs"
            } else if icross_proper(p[0], p[1], p[2], p[3]) {
                "crossing_pairs"
            } else {
                "touching_pairs"
            });
        }
        cx.evaluations += 1;
    }
    // segments along one line (up to rounding) that are apart, and parallel ones side by side
    for _ in 0..8 {
        let mut fr = Frame::new(&mut r);
        if r.chance(0.2) {
            fr.s *= r.signed_log(1e-4, 1e4).abs();
        }
        let (a, g) = (fr.point(&mut r), fr.point(&mut r));
        let (o, e) = (pt(&a), pt(&g).sub(pt(&a)));
        if e.len() < 0.1 * fr.s {
            continue;
        }
        let gap = r.signed_log(if r.chance(0.3) { 1e-5 } else { 0.01 }, 1.0).abs();
        let mut ts = [0.0, r.range(0.05, 1.0), 0.0, 0.0];
        ts[2] = ts[1] + gap;
        ts[3] = ts[2] + r.range(0.05, 1.0);
        let side = if r.chance(0.7) { 0.0 } else { r.signed_log(if r.chance(0.3) { 1e-5 } else { 0.01 }, 1.0) };
        let n = P::new(-e.y, e.x).mul(side);
        let at = |t: f64| o.add(e.mul(t)).v();
        let off = |t: f64| o.add(e.mul(t)).add(n).v();
        let (mut p, mut q) = ([at(ts[0]), at(ts[1])], [off(ts[2]), off(ts[3])]);
        if side != 0.0 && r.chance(0.5) {
            // overlapping along the line, but beside it
            q = [off(r.range(-1.0, 0.5)), off(r.range(0.6, 2.0))];
        }
        if r.chance(0.5) {
            p.swap(0, 1);
        }
        if r.chance(0.5) {
            q.swap(0, 1);
        }
        if r.chance(0.5) {
            std::mem::swap(&mut p, &mut q);
        }
        let v = [p[0], p[1], q[0], q[1]];
        let f: Vec<P> = v.iter().map(pt).collect();
        let apart = [seg_dist(f[2], f[3], f[0]).0, seg_dist(f[2], f[3], f[1]).0, seg_dist(f[0], f[1], f[2]).0, seg_dist(f[0], f[1], f[3]).0]
            .iter()
            .cloned()
            .fold(f64::MAX, f64::min);
        // (they do not cross either: they run in parallel, and their ends are apart)
        if apart < 60.0 * EPS * mag(&f) || crosses(f[0], f[1], f[2], f[3]) {
            continue;
        }
        cx.note(&sv(&v));
        let seg = cx.call("calculate_line_segment_intersection", true, || calculate_line_segment_intersection(&v[0], &v[1], &v[2], &v[3]))?;
        ensure!(!matches!(seg, Some(Some(_))), "calculate_line_segment_intersection found {:?} for the disjoint parallel segments {}", seg, sv(&v));
        cx.count(if side == 0.0 { "float_pairs_along_a_line" } else { "float_pairs_side_by_side" });
        cx.evaluations += 1;
    }
    for _ in 0..16 {
        let mut fr = Frame::new(&mut r);
        if r.chance(0.2) {
            let k = r.signed_log(1e-5, 1e4).abs();
            fr = Frame { s: fr.s * k, ox: fr.ox * k, oy: fr.oy * k };
        }
        let a = fr.point(&mut r);
        let b = fr.other(&mut r, &a);
        let mut c = fr.point(&mut r);
        let mut d = fr.other(&mut r, &c);
        let (fa, ab) = (pt(&a), pt(&b).sub(pt(&a)));
        match r.below(8) {
            0 => {
                // at a small angle
                let t = r.signed_log(0.002, 0.1);
                let e = P::new(ab.x * t.cos() - ab.y * t.sin(), ab.x * t.sin() + ab.y * t.cos()).mul(r.signed_log(0.3, 3.0));
                if r.chance(0.6) {
                    let m = fa.add(ab.mul(r.range(0.0, 1.0)));
                    c = m.sub(e.mul(r.range(0.0, 1.0))).v();
                }
                d = pt(&c).add(e).v();
            }
            1 | 2 => {
                // it only just reaches the other segment, or only just fails to
                let m = fa.add(ab.mul(if r.chance(0.5) { r.range(0.0, 1.0) } else { *r.pick(&[0.0, 1.0]) + r.signed_log(1e-6, 0.1) }));
                let e = pt(&d).sub(pt(&c));
                c = m.sub(e.mul(if r.chance(0.3) { r.range(0.0, 1.0) } else { r.signed_log(1e-6, 0.1) })).v();
                d = pt(&c).add(e).v();
                if r.chance(0.5) {
                    std::mem::swap(&mut c, &mut d);
                }
            }
            _ => {}
        }
        let v = [a, b, c, d];
        let f: Vec<P> = v.iter().map(pt).collect();
        let (u, w) = (f[1].sub(f[0]), f[3].sub(f[2]));
        let sin = (u.cross(w) / (u.len() * w.len())).abs();
        if sin < 0.001 {
            continue;
        }
        cx.note(&sv(&v));
        let near = [seg_dist(f[2], f[3], f[0]).0, seg_dist(f[2], f[3], f[1]).0, seg_dist(f[0], f[1], f[2]).0, seg_dist(f[0], f[1], f[3]).0]
            .iter()
            .cloned()
            .fold(f64::MAX, f64::min);
        let seg = cx.call("calculate_line_segment_intersection", true, || calculate_line_segment_intersection(&a, &b, &c, &d))?;
        let line = cx.call("calculate_line_intersection", true, || calculate_line_intersection(&a, &b, &c, &d))?;
        let (seg, line) = match (seg, line) {
            (Some(s), Some(l)) => (s, l),
            _ => return Ok(()),
        };
        if near > 60.0 * EPS * mag(&f) / sin {
            let meet = crosses(f[0], f[1], f[2], f[3]);
            judge_point(&v, seg, Some(meet), true, 1.0, "calculate_line_segment_intersection")?;
            cx.count(if meet { "float_crossing_pairs" } else { "float_disjoint_pairs" });
            if near < 2000.0 * EPS * mag(&f) {
                cx.count(if meet { "float_pairs_that_just_cross" } else { "float_pairs_that_just_miss" });
            }
        }
        judge_point(&v, line, Some(true), false, 1.0, "calculate_line_intersection")?;
        cx.count("float_lines");
        cx.evaluations += 1;
    }
    let key = cx.trace.clone();
    cx.nontrivial(key.as_bytes());
    cx.sample(|| key);
    Ok(())
}

// ---------------------------------------------------------------- C15

fn point_sets(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    // closest, exact
    let mut size = *r.pick(&[2i64, 5, 30, 200]);
    let mut n = 1 + r.below(if r.chance(0.1) { 200 } else if r.chance(0.003) { 5000 } else { 20 });
    if r.chance(0.0002) && !cfg!(miri) {
        n += 66_000;
        size = 1400;
    }
    cx.max("most_points", n as u64);
    let ps: Vec<I> = (0..n).map(|_| I::new(r.int(-size, size), r.int(-size, size))).collect();
    let t = if r.chance(0.3) { *r.pick(&ps) } else { I::new(r.int(-size, size), r.int(-size, size)) };
    let d2 = |p: &I| (p.x - t.x).pow(2) + (p.y - t.y).pow(2);
    let best = ps.iter().map(d2).min().unwrap();
    let want = ps.iter().position(|p| d2(p) == best).unwrap();
    // scaling by a power of two changes nothing about the rounding
    let unit = if r.chance(0.25) { 2f64.powi(r.int(-50, 50) as i32) } else { 1.0 };
    let put = |p: &I| Vec2::new((p.x as f64 * unit) as f32, (p.y as f64 * unit) as f32);
    let vs: Vec<Vec2> = ps.iter().map(put).collect();
    cx.note(&format!("target {:?} points {} times {:e}", (t.x, t.y), show(&ps), unit));
    if let Some((i, d)) = cx.call("find_closest_to", true, || find_closest_to(&put(&t), &vs))? {
        ensure!(i == want, "find_closest_to gave index {} instead of {} for target {:?} among {}", i, want, (t.x, t.y), show(&ps));
        let w = (best as f64).sqrt() * unit;
        ensure!((d as f64 - w).abs() <= 4.0 * EPS * w, "find_closest_to gave distance {} instead of {} for target {:?} among {}", d, w, (t.x, t.y), show(&ps));
    }
    // the same question about the same points in another order, or with one of them elsewhere
    for _ in 0..2 {
        let mut qs = ps.clone();
        let (i, j) = (r.below(n), r.below(n));
        if r.chance(0.5) {
            qs.swap(i, j);
        } else {
            qs[i] = I::new(r.int(-size, size), r.int(-size, size));
        }
        let best = qs.iter().map(d2).min().unwrap();
        let want = qs.iter().position(|p| d2(p) == best).unwrap();
        let vs: Vec<Vec2> = qs.iter().map(put).collect();
        if let Some((i, _)) = cx.call("find_closest_to", true, || find_closest_to(&put(&t), &vs))? {
            ensure!(i == want, "find_closest_to gave index {} instead of {} for target {:?} among {}, after it was asked about {}", i, want, (t.x, t.y), show(&qs), show(&ps));
        }
        cx.count("closest_asked_again");
        cx.evaluations += 1;
    }
    if ps.iter().filter(|p| d2(p) == best).count() > 1 {
        cx.count("closest_with_ties");
    } else {
        cx.count("closest_without_ties");
    }
    // closest, floats
    let fr = Frame::new(&mut r);
    let n = 1 + r.below(30);
    let vs: Vec<Vec2> = (0..n).map(|_| fr.point(&mut r)).collect();
    let t = fr.point(&mut r);
    if let Some((i, d)) = cx.call("find_closest_to", true, || find_closest_to(&t, &vs))? {
        ensure!(i < n, "find_closest_to gave index {} of {}", i, n);
        let tp = pt(&t);
        let w = pt(&vs[i]).dist(tp);
        for q in &vs {
            ensure!(pt(q).dist(tp) * (1.0 + 8.0 * EPS) >= w, "find_closest_to chose index {} but ({:?}, {:?}) is closer to ({:?}, {:?}), among {}", i, q.x, q.y, t.x, t.y, sv(&vs));
        }
        ensure!((d as f64 - w).abs() <= 8.0 * EPS * w, "find_closest_to gave distance {} instead of {}", d, w);
    }
    // closest, among points that are the same within epsilon
    let e = std::f32::EPSILON / 8.0;
    let n = 2 + r.below(8);
    let vs: Vec<I> = (0..n).map(|_| I::new(r.int(-9, 9), r.int(-9, 9))).collect();
    let t = I::new(r.int(-3, 3), r.int(-3, 3));
    let d2 = |p: &I| (p.x - t.x).pow(2) + (p.y - t.y).pow(2);
    let best = vs.iter().map(d2).min().unwrap();
    let want = vs.iter().position(|p| d2(p) == best).unwrap();
    let fs: Vec<Vec2> = vs.iter().map(|p| Vec2::new(p.x as f32 * e, p.y as f32 * e)).collect();
    let tf = Vec2::new(t.x as f32 * e, t.y as f32 * e);
    if let Some((i, d)) = cx.call("find_closest_to", true, || find_closest_to(&tf, &fs))? {
        ensure!(i == want, "find_closest_to gave index {} instead of {} for target {:?} among {} (in units of epsilon / 8)", i, want, (t.x, t.y), show(&vs));
        let w = (best as f64).sqrt() * e as f64;
        ensure!((d as f64 - w).abs() <= 4.0 * EPS * w, "find_closest_to gave distance {} instead of {}", d, w);
    }
    cx.count("closest_within_epsilon");
    cx.evaluations += 3;

    // unique points: groups far apart, members equal or a quarter epsilon apart
    let groups = 1 + r.below(if r.chance(0.01) { 150 } else { 8 });
    let mut list: Vec<(usize, Vec2)> = vec![];
    let tiny = r.chance(0.3);
    // groups that are just a few epsilon apart
    let micro = r.chance(0.2);
    let mut centres: Vec<I> = vec![];
    while centres.len() < groups {
        let c = I::new(r.int(-40, 40), r.int(-40, 40));
        if !centres.contains(&c) {
            centres.push(c);
        }
    }
    let scale = if micro { 4.0 * EPS } else if tiny { 1.0 / 1024.0 } else { *r.pick(&[1.0f64, 0.37, 111.1, 0.01, 3.3e7]) };
    for (g, c) in centres.iter().enumerate() {
        let base = Vec2::new((c.x as f64 * scale) as f32, (c.y as f64 * scale) as f32);
        for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3, 4, 5]) {
            let mut q = base;
            if micro {
                q.x += r.int(0, 1) as f32 * std::f32::EPSILON * 0.5;
                q.y += r.int(-1, 1) as f32 * std::f32::EPSILON * 0.25;
            } else if tiny && c.x == 0 {
                q.x = r.int(-1, 1) as f32 * std::f32::EPSILON * 0.25;
            } else if c.x == 0 && r.chance(0.3) {
                q.x = -0.0;
            }
            list.push((g, q));
        }
    }
    r.shuffle(&mut list);
    let vs: Vec<Vec2> = list.iter().map(|x| x.1).collect();
    let mut order: Vec<usize> = vec![];
    for (g, _) in &list {
        if !order.contains(g) {
            order.push(*g);
        }
    }
    cx.note(&format!("unique among {}", sv(&vs)));
    if let Some(u) = cx.call("unique_points_among", true, || unique_points_among(&vs))? {
        let ids: Vec<Option<usize>> = u
            .iter()
            .map(|q| list.iter().find(|x| x.1 == *q).map(|x| x.0))
            .collect();
        let want: Vec<Option<usize>> = order.iter().map(|g| Some(*g)).collect();
        ensure!(ids == want, "unique_points_among gave {} for {}", sv(&u), sv(&vs));
    }
    if vs.len() > groups {
        cx.count("lists_with_duplicates");
    } else {
        cx.count("lists_without_duplicates");
    }
    cx.evaluations += 1;

    // close_to at its boundary
    for _ in 0..6 {
        let e = std::f32::EPSILON;
        let k = r.int(0, 8);
        let (dx, dy, dist) = match r.below(4) {
            0 => (k as f32 * e / 4.0, 0.0, k as f64 / 4.0),
            1 => (0.0, -(k as f32) * e / 4.0, k as f64 / 4.0),
            2 => (3.0 * k as f32 * e / 16.0, 4.0 * k as f32 * e / 16.0, 5.0 * k as f64 / 16.0),
            _ => (-8.0 * k as f32 * e / 32.0, 15.0 * k as f32 * e / 32.0, 17.0 * k as f64 / 32.0),
        };
        let (a, b) = (Vec2::new(0.0, 0.0), Vec2::new(dx, dy));
        let want = dist <= 1.0;
        for (x, y) in [(&a, &b), (&b, &a)] {
            if let Some(got) = cx.call("close_to", true, || close_to(x, y))? {
                ensure!(got == want, "close_to is {} at a distance of {} epsilon ({} and {})", got, dist, sv(&[*x]), sv(&[*y]));
            }
        }
        cx.count(if want { "close_pairs" } else { "distinct_pairs" });
        let p = fr.point(&mut r);
        let q = fr.other(&mut r, &p);
        ensure!(close_to(&p, &p), "a point is not close to itself: {}", sv(&[p]));
        ensure!(!close_to(&p, &q), "close_to is true for {}", sv(&[p, q]));
        cx.evaluations += 1;
    }
    let key = cx.trace.clone();
    cx.nontrivial(key.as_bytes());
    cx.sample(|| key);
    Ok(())
}

// ---------------------------------------------------------------- C16

const PERMS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];

fn triangles(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    for round in 0..10 {
        let mut fr = Frame::new(&mut r);
        if r.chance(0.2) {
            let k = r.signed_log(1e-5, 1e4).abs();
            fr = Frame { s: fr.s * k, ox: fr.ox * k, oy: fr.oy * k };
        }
        // a clear triangle
        let a = fr.point(&mut r);
        let b = fr.other(&mut r, &a);
        let c = fr.other(&mut r, &b);
        let t = if round >= 7 {
            // a thin one: a flat corner anywhere along (or a bit beyond) the other side, or a short side
            let (pa, pb) = (pt(&a), pt(&b));
            let ab = pb.sub(pa);
            let h = r.signed_log(1e-3, 0.3);
            let foot = if r.chance(0.3) { r.signed_log(1e-5, 0.1) } else { r.range(-0.3, 1.3) };
            let c = pa.add(ab.mul(foot)).add(P::new(-ab.y, ab.x).mul(h));
            let mut t = [a, b, c.v()];
            r.shuffle(&mut t);
            t
        } else if round == 0 {
            let (k, m) = (r.int(1, 40), *r.pick(&[(3, 4), (5, 12), (8, 15), (20, 21)]));
            let o = I::new(r.int(-50, 50), r.int(-50, 50));
            [o.v(), I::new(o.x + m.0 * k, o.y).v(), I::new(o.x, o.y + m.1 * k).v()]
        } else {
            [a, b, c]
        };
        let f: Vec<P> = t.iter().map(pt).collect();
        let (sa, sb, sc) = (f[1].dist(f[2]), f[0].dist(f[2]), f[0].dist(f[1]));
        let area2 = orient(f[0], f[1], f[2]).abs();
        let longest = sa.max(sb).max(sc);
        let per = sa + sb + sc;
        let m = mag(&f);
        // the triangle inequality holds far beyond the rounding errors of the sides
        if (per / 2.0 - longest) > 5e-6 * per {
            let inc = f[0].mul(sa / per).add(f[1].mul(sb / per)).add(f[2].mul(sc / per));
            let rad = area2 / per;
            let p = per / 2.0;
            let gap = (p - sa).min(p - sb).min(p - sc);
            let rtol = rad * 32.0 * EPS * (1.0 + p / gap) + 16.0 * EPS * m * m / longest * EPS;
            let ptol = 16.0 * EPS * m;
            for pm in PERMS.iter() {
                let (x, y, z) = (&t[pm[0]], &t[pm[1]], &t[pm[2]]);
                let text = sv(&[*x, *y, *z]);
                let g = cx.call("is_degenerate_triangle", true, || is_degenerate_triangle(x, y, z))?;
                ensure!(g == Some(false), "the triangle {} is reported as degenerate", text);
                let g = cx.call("calculate_triangle_incenter", true, || calculate_triangle_incenter(x, y, z))?;
                let (q, rr) = match g {
                    Some(Some(g)) => g,
                    _ => fail!("no incentre for the triangle {}", text),
                };
                ensure!(finite(&q) && rr.is_finite() && rr > 0.0, "incentre {} and inradius {:?} of {}", sv(&[q]), rr, text);
                let d = pt(&q).dist(inc);
                ensure!(d <= ptol, "incentre {} of {} is {:e} off", sv(&[q]), text, d);
                ensure!((rr as f64 - rad).abs() <= rtol + 1e-3 * rad * 0.0, "inradius {} instead of {} for {}", rr, rad, text);
                // as stated: inside, and at the distance of the inradius from all three sides
                let qp = pt(&q);
                let s = orient(f[0], f[1], f[2]).signum();
                for k in 0..3 {
                    let (u, v) = (f[k], f[(k + 1) % 3]);
                    let h = s * orient(u, v, qp) / u.dist(v);
                    ensure!((h - rr as f64).abs() <= ptol + rtol && (h > 0.0 || rad < ptol), "incentre {} of {} is {} from a side, the inradius is {}", sv(&[q]), text, h, rr);
                }
            }
            cx.count(if area2 > 0.02 * longest * longest { "clear_triangles" } else { "thin_triangles" });
        }
        // exactly degenerate with exact side lengths
        let dirs = [(1i64, 0i64, 1i64), (0, 1, 1), (3, 4, 5), (-4, 3, 5), (5, -12, 13), (8, 15, 17)];
        let (dx, dy, _) = *r.pick(&dirs);
        let o = I::new(r.int(-20, 20), r.int(-20, 20));
        let mut ks = [r.int(-20, 20), r.int(-20, 20), r.int(-20, 20)];
        match r.below(4) {
            0 => ks[1] = ks[0],
            1 => ks = [ks[0]; 3],
            _ => {}
        }
        let w = 2f64.powi(r.int(-6, 4) as i32);
        let t: Vec<Vec2> = ks.iter().map(|k| Vec2::new(((o.x + k * dx) as f64 * w) as f32, ((o.y + k * dy) as f64 * w) as f32)).collect();
        let text = sv(&t);
        cx.note(&format!("degenerate {}", text));
        let g = cx.call("is_degenerate_triangle", true, || is_degenerate_triangle(&t[0], &t[1], &t[2]))?;
        ensure!(g == Some(true), "{} are collinear but not reported as degenerate", text);
        let g = cx.call("calculate_triangle_incenter", true, || calculate_triangle_incenter(&t[0], &t[1], &t[2]))?;
        ensure!(matches!(g, Some(None)), "the collinear points {} have an incentre", text);
        cx.count("degenerate_triples");
        // collinear in any direction: the lengths of the sides are irrational, the coordinates exact
        let big = *r.pick(&[9i64, 60, 900]);
        let d = I::new(r.int(-big, big), r.int(-big, big));
        let o = I::new(r.int(-999, 999), r.int(-999, 999));
        let ks = [r.int(-40, 40), r.int(-40, 40), r.int(-40, 40)];
        let w = 2f64.powi(r.int(-20, 12) as i32);
        let t: Vec<Vec2> = ks.iter().map(|k| Vec2::new(((o.x + k * d.x) as f64 * w) as f32, ((o.y + k * d.y) as f64 * w) as f32)).collect();
        let text = sv(&t);
        cx.note(&format!("degenerate {}", text));
        let g = cx.call("is_degenerate_triangle", true, || is_degenerate_triangle(&t[0], &t[1], &t[2]))?;
        ensure!(g == Some(true), "{} are collinear but not reported as degenerate", text);
        let g = cx.call("calculate_triangle_incenter", true, || calculate_triangle_incenter(&t[0], &t[1], &t[2]))?;
        ensure!(matches!(g, Some(None)), "the collinear points {} have an incentre", text);
        cx.count("oblique_degenerate_triples");
        // needles: consistency and finiteness
        for _ in 0..4 {
            let mut t = [fr.point(&mut r), fr.point(&mut r), fr.point(&mut r)];
            let k = r.range(-0.2, 1.2);
            let (p0, p1) = (pt(&t[0]), pt(&t[1]));
            let noise = fr.s * *r.pick(&[0.0, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3]);
            t[2] = p0.add(p1.sub(p0).mul(k)).add(P::new(r.range(-noise, noise), r.range(-noise, noise))).v();
            if r.chance(0.2) {
                t[1] = P::new(p0.x + r.range(-noise, noise), p0.y + r.range(-noise, noise)).v();
            }
            r.shuffle(&mut t);
            let text = sv(&t);
            let deg = cx.call("is_degenerate_triangle", true, || is_degenerate_triangle(&t[0], &t[1], &t[2]))?;
            let inc = cx.call("calculate_triangle_incenter", true, || calculate_triangle_incenter(&t[0], &t[1], &t[2]))?;
            if let (Some(deg), Some(inc)) = (deg, inc) {
                ensure!(deg == inc.is_none(), "degenerate is {} but an incentre is {} for {}", deg, if inc.is_some() { "given" } else { "missing" }, text);
                if let Some((q, rr)) = inc {
                    ensure!(finite(&q) && rr.is_finite() && rr >= 0.0, "incentre {} and inradius {:?} of {}", sv(&[q]), rr, text);
                }
            }
            cx.count("needles");
        }
        cx.evaluations += 6;
        cx.note(&format!("triangle {}", sv(&[a, b, c])));
    }
    let key = cx.trace.clone();
    cx.nontrivial(key.as_bytes());
    cx.sample(|| key);
    Ok(())
}

// ---------------------------------------------------------------- C17

fn segments(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    for _ in 0..10 {
        let mut fr = Frame::new(&mut r);
        if r.chance(0.15) {
            let k = r.signed_log(1e-5, 1e4).abs();
            fr = Frame { s: fr.s * k, ox: fr.ox * k, oy: fr.oy * k };
            cx.count("unusual_scales");
        }
        let a = fr.point(&mut r);
        let mut b = fr.other(&mut r, &a);
        if r.chance(0.15) {
            // short, compared with where it is
            b = pt(&a).add(pt(&b).sub(pt(&a)).mul(r.signed_log(1e-3, 0.1))).v();
            cx.count("short_segments");
        }
        let (fa, fb) = (pt(&a), pt(&b));
        let ab = fb.sub(fa);
        let len = ab.len();
        let m = mag(&[fa, fb]);
        let text = sv(&[a, b]);
        cx.note(&text);
        if a.x == b.x {
            cx.count("vertical_segments");
        }
        if a.y == b.y {
            cx.count("horizontal_segments");
        }
        // midpoint
        let mid = fa.add(fb).mul(0.5);
        if let Some(q) = cx.call("calculate_midpoint", true, || calculate_midpoint(&a, &b))? {
            ensure!(pt(&q).dist(mid) <= 4.0 * EPS * m, "midpoint {} of {}", sv(&[q]), text);
        }
        // perpendicular foot
        let p = fr.point(&mut r);
        let fp = pt(&p);
        let mp = m.max(fp.mag());
        let foot = fa.add(ab.mul(fp.sub(fa).dot(ab) / (len * len)));
        let tol = 16.0 * EPS * mp * (1.0 + mp / len);
        if let Some(q) = cx.call("calculate_perpendicular_point", true, || calculate_perpendicular_point(&a, &b, &p))? {
            ensure!(finite(&q) && pt(&q).dist(foot) <= tol, "perpendicular foot {} of ({:?}, {:?}) on the line {}; it has to be ({}, {})", sv(&[q]), p.x, p.y, text, foot.x, foot.y);
        }
        // perpendicular bisector
        let off = match r.below(3) {
            0 => *r.pick(&[1.0f32, 10.0, -1.0, 0.5]),
            _ => (fr.s * r.range(0.1, 2.0)) as f32 * if r.chance(0.3) { -1.0 } else { 1.0 },
        };
        if let Some((q0, q1)) = cx.call("calculate_perpendicular_bisector", true, || calculate_perpendicular_bisector(&a, &b, off))? {
            let t = 16.0 * EPS * (m + off.abs() as f64) * (1.0 + m / len);
            ensure!(finite(&q0) && pt(&q0).dist(mid) <= 4.0 * EPS * m, "the bisector of {} starts in {} instead of the midpoint", text, sv(&[q0]));
            ensure!(finite(&q1), "the bisector of {} runs through {}", text, sv(&[q1]));
            let w = pt(&q1).sub(mid);
            let along = w.dot(ab) / len;
            let across = w.cross(ab).abs() / len;
            ensure!(along.abs() <= t, "the bisector of {} runs through {}, which is not perpendicular to the segment", text, sv(&[q1]));
            ensure!((across - off.abs() as f64).abs() <= t, "the bisector of {} with offset {:?} runs through {}, which is {} away from the segment", text, off, sv(&[q1]), across);
            cx.count("bisectors");
        }
        // on-segment
        for inc in [true, false] {
            // (below this size, clearly off is not much more than the absolute epsilon)
            if fr.s < 0.05 {
                break;
            }
            let mut ask = |q: &Vec2, want: bool, what: &str| -> CaseResult {
                if let Some(g) = cx.call("is_on_line_segment", true, || is_on_line_segment(&a, &b, q, inc))? {
                    ensure!(g == want, "is_on_line_segment({}, {}, {}, include_endpoints: {}) is {} for {}", sv(&[a]), sv(&[b]), sv(&[*q]), inc, g, what);
                }
                Ok(())
            };
            ask(&a, inc, "an endpoint")?;
            ask(&b, inc, "an endpoint")?;
            for _ in 0..3 {
                let k = if r.chance(0.3) { r.signed_log(1e-5, 0.02).abs() } else { r.range(0.02, 0.98) };
                let k = if r.chance(0.5) { k } else { 1.0 - k };
                if len * k.min(1.0 - k) > 300.0 * EPS * m.max(0.006) {
                    ask(&fa.add(ab.mul(k)).v(), true, "a point on the segment")?;
                }
            }
            if len * 0.5 > 300.0 * EPS * m.max(0.006) {
                ask(&mid.v(), true, "the midpoint")?;
            }
            let n = P::new(-ab.y / len, ab.x / len);
            for _ in 0..3 {
                let k = r.range(-0.3, 1.3);
                let low = 300.0 * EPS * m.max(0.006) / len;
                let h = r.signed_log(low, 1.0f64.max(2.0 * low)) * len;
                ask(&fa.add(ab.mul(k)).add(n.mul(h)).v(), false, "a point beside the segment")?;
            }
            for _ in 0..2 {
                let over = r.signed_log(1e-4, 2.0).abs();
                let k = if r.chance(0.5) { -over } else { 1.0 + over };
                let q = fa.add(ab.mul(k)).v();
                let e = pt(&q);
                if e.dist(fa).min(e.dist(fb)) > 300.0 * EPS * m.max(e.mag()).max(0.006) {
                    ask(&q, false, "a point beyond an end")?;
                }
            }
        }
        cx.count("segments_judged");
        // parallel
        let s = *r.pick(&[1i64, 2, 3, 7, -1, -2, -5, 100, -33]);
        let (dx, dy) = (r.int(-60, 60), r.int(-60, 60));
        if (dx, dy) != (0, 0) {
            let g = |x: i64, y: i64| I::new(x, y).v();
            let (ox, oy, px, py) = (r.int(-99, 99), r.int(-99, 99), r.int(-99, 99), r.int(-99, 99));
            let (c0, c1, d0, d1) = (g(ox, oy), g(ox + dx, oy + dy), g(px, py), g(px + s * dx, py + s * dy));
            let t = sv(&[c0, c1, d0, d1]);
            let w = cx.call("parallel", true, || parallel(&c0, &c1, &d0, &d1))?;
            ensure!(w == Some(true), "parallel is false for {} (factor {})", t, s);
            cx.count("parallel_directions");
        }
        let l2 = len * r.range(0.2, 3.0);
        // (the directions of short segments far from the origin are known up to rounding only)
        let low = (500.0 * EPS * (m + fp.mag() + l2) / len.min(l2)).max(0.001);
        let ang = if r.chance(0.5) || low > 0.05 {
            r.range(0.06, 3.08)
        } else {
            let t = r.signed_log(low, 0.1).abs();
            if r.chance(0.5) {
                t
            } else {
                std::f64::consts::PI - t
            }
        };
        let (co, si) = (ang.cos(), ang.sin());
        let e = P::new(ab.x * co - ab.y * si, ab.x * si + ab.y * co).mul(l2 / len);
        let (c, d) = (p, fp.add(e).v());
        let w = cx.call("parallel", true, || parallel(&a, &b, &c, &d))?;
        ensure!(w == Some(false), "parallel is true for {}, at an angle of {} rad", sv(&[a, b, c, d]), ang);
        // parallel up to rounding, any direction
        let k = r.signed_log(0.3, 3.0);
        let origin = Vec2::new(0.0, 0.0);
        let (u, v) = (Vec2::new(ab.x as f32, ab.y as f32), Vec2::new((ab.x * k) as f32, (ab.y * k) as f32));
        let w = cx.call("parallel", true, || parallel(&origin, &u, &origin, &v))?;
        ensure!(w == Some(true), "parallel is false for the directions {} (factor {})", sv(&[u, v]), k);
        cx.count("oblique_directions");
        cx.evaluations += 1;
    }
    let key = cx.trace.clone();
    cx.nontrivial(key.as_bytes());
    cx.sample(|| key);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14", case: intersections, quick: 400_000, thorough: 36_000_000, floor: 500,
            required: &["parallel_pairs", "disjoint_pairs", "crossing_pairs", "touching_pairs", "float_crossing_pairs", "float_disjoint_pairs", "float_lines", "float_pairs_along_a_line", "float_pairs_side_by_side"],
            rule: "A case is 24 segment pairs on an integer (or power-of-two scaled) grid, biased to touching, parallel and just-missing pairs, 8 disjoint float pairs along one line or side by side, and 16 float pairs, at scales from 2^-30 to 2^24; distinct by coordinates. Evaluations are pairs.",
            assumptions: &["float pairs at less than 0.001 rad, or meeting within 60 rounding units (over the sine) of an end, are not judged"],
        },
        Prop {
            id: "C15", case: point_sets, quick: 1_440_000, thorough: 43_200_000, floor: 500,
            required: &["closest_with_ties", "closest_without_ties", "lists_with_duplicates", "lists_without_duplicates", "close_pairs", "distinct_pairs"],
            rule: "A case is one integer closest-point query with ties, one float query, one unique-point query on groups of coinciding points in random order, and six close_to pairs around the epsilon boundary; distinct by points.",
            assumptions: &["groups of coinciding points are apart from each other"],
        },
        Prop {
            id: "C16", case: triangles, quick: 630_000, thorough: 12_600_000, floor: 500, required: &["clear_triangles", "thin_triangles", "degenerate_triples", "oblique_degenerate_triples", "needles"],
            rule: "A case is ten rounds of a clear or thin triangle in all six corner orders, two exactly degenerate triples (one in any direction) and four needles; distinct by coordinates.",
            assumptions: &["clear: twice the area is more than 2% of the longest side squared"],
        },
        Prop {
            id: "C17", case: segments, quick: 1_200_000, thorough: 24_000_000, floor: 500,
            required: &["vertical_segments", "horizontal_segments", "bisectors", "segments_judged", "parallel_directions", "oblique_directions"],
            rule: "A case is ten segments (a third of them exactly horizontal or vertical), each judged for midpoint, foot, bisector, 20 on-segment queries and three parallel queries; distinct by coordinates.",
            assumptions: &["on-segment queries are judged for drawings of size 0.05 and more; clearly off: by at least 300 rounding units; clearly apart directions: at least 0.001 rad, and 500 times the rounding error of the directions"],
        },
    ]
}
