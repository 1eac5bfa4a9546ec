//! Independent geometry: f64 helpers for f32 points, and exact integer geometry.
use crate::rng::Rng;
use kami::glm::Vec2;

pub const EPS: f64 = f32::EPSILON as f64;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct P {
    pub x: f64,
    pub y: f64,
}

pub fn pt(v: &Vec2) -> P {
    P { x: v.x as f64, y: v.y as f64 }
}

impl P {
    pub fn new(x: f64, y: f64) -> P {
        P { x, y }
    }
    pub fn v(self) -> Vec2 {
        Vec2::new(self.x as f32, self.y as f32)
    }
    pub fn sub(self, o: P) -> P {
        P::new(self.x - o.x, self.y - o.y)
    }
    pub fn add(self, o: P) -> P {
        P::new(self.x + o.x, self.y + o.y)
    }
    pub fn mul(self, s: f64) -> P {
        P::new(self.x * s, self.y * s)
    }
    pub fn dot(self, o: P) -> f64 {
        self.x * o.x + self.y * o.y
    }
    pub fn cross(self, o: P) -> f64 {
        self.x * o.y - self.y * o.x
    }
    pub fn len(self) -> f64 {
        self.x.hypot(self.y)
    }
    pub fn dist(self, o: P) -> f64 {
        self.sub(o).len()
    }
    pub fn mag(self) -> f64 {
        self.x.abs().max(self.y.abs())
    }
}

/// Largest absolute coordinate.
pub fn mag(ps: &[P]) -> f64 {
    ps.iter().fold(0.0, |m, p| m.max(p.mag()))
}

/// Distance from p to the closed segment ab, and the parameter of the nearest point.
pub fn seg_dist(a: P, b: P, p: P) -> (f64, f64) {
    let d = b.sub(a);
    let l2 = d.dot(d);
    if l2 == 0.0 {
        return (a.dist(p), 0.0);
    }
    let t = (p.sub(a).dot(d) / l2).max(0.0).min(1.0);
    (a.add(d.mul(t)).dist(p), t)
}

/// Distance from p to the line through ab.
pub fn line_dist(a: P, b: P, p: P) -> f64 {
    let d = b.sub(a);
    (d.cross(p.sub(a)) / d.len()).abs()
}

pub fn orient(a: P, b: P, c: P) -> f64 {
    b.sub(a).cross(c.sub(a))
}

/// Proper crossing of two segments (each strictly separates the other's ends).
pub fn crosses(a: P, b: P, c: P, d: P) -> bool {
    let (o1, o2) = (orient(a, b, c), orient(a, b, d));
    let (o3, o4) = (orient(c, d, a), orient(c, d, b));
    ((o1 > 0.0 && o2 < 0.0) || (o1 < 0.0 && o2 > 0.0)) && ((o3 > 0.0 && o4 < 0.0) || (o3 < 0.0 && o4 > 0.0))
}

/// Crossing point of two non-parallel lines and |sin| of the angle between them.
pub fn line_cross(a: P, b: P, c: P, d: P) -> (P, f64) {
    let u = b.sub(a);
    let v = d.sub(c);
    let den = u.cross(v);
    let t = c.sub(a).cross(v) / den;
    (a.add(u.mul(t)), (den / (u.len() * v.len())).abs())
}

// ---------------------------------------------------------------- exact integers

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct I {
    pub x: i64,
    pub y: i64,
}

impl I {
    pub fn new(x: i64, y: i64) -> I {
        I { x, y }
    }
    pub fn v(self) -> Vec2 {
        Vec2::new(self.x as f32, self.y as f32)
    }
}

pub fn iorient(a: I, b: I, c: I) -> i64 {
    (b.x - a.x) * (c.y - a.y) - (c.x - a.x) * (b.y - a.y)
}

/// c on the closed segment ab (ab may be a single point).
pub fn ion_seg(a: I, b: I, c: I) -> bool {
    iorient(a, b, c) == 0
        && c.x >= a.x.min(b.x)
        && c.x <= a.x.max(b.x)
        && c.y >= a.y.min(b.y)
        && c.y <= a.y.max(b.y)
}

pub fn icross_proper(a: I, b: I, c: I, d: I) -> bool {
    iorient(a, b, c).signum() * iorient(a, b, d).signum() < 0 && iorient(c, d, a).signum() * iorient(c, d, b).signum() < 0
}

/// Closed segments share a point.
pub fn imeet(a: I, b: I, c: I, d: I) -> bool {
    icross_proper(a, b, c, d) || ion_seg(a, b, c) || ion_seg(a, b, d) || ion_seg(c, d, a) || ion_seg(c, d, b)
}

/// Twice the signed area.
pub fn iarea2(p: &[I]) -> i64 {
    let n = p.len();
    (0..n).map(|i| p[i].x * p[(i + 1) % n].y - p[(i + 1) % n].x * p[i].y).sum()
}

/// Strictly simple: distinct vertices, edges meet only where consecutive ones share a vertex.
pub fn is_simple(p: &[I]) -> bool {
    let n = p.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if a == b {
            return false;
        }
        let c = p[(i + 2) % n];
        if ion_seg(a, b, c) || ion_seg(b, c, a) {
            return false;
        }
        for j in (i + 2)..n {
            if i == 0 && j == n - 1 {
                continue;
            }
            if imeet(a, b, p[j], p[(j + 1) % n]) {
                return false;
            }
        }
    }
    true
}

/// Position of point c/den in the polygon: 1 inside, 0 on the boundary, -1 outside (exact).
pub fn locate(p: &[I], c: I, den: i64) -> i32 {
    let n = p.len();
    let mut inside = false;
    for i in 0..n {
        let a = I::new(p[i].x * den, p[i].y * den);
        let b = I::new(p[(i + 1) % n].x * den, p[(i + 1) % n].y * den);
        if ion_seg(a, b, c) {
            return 0;
        }
        if (a.y > c.y) != (b.y > c.y) {
            let o = iorient(a, b, c);
            if (b.y > a.y) == (o > 0) {
                inside = !inside;
            }
        }
    }
    if inside {
        1
    } else {
        -1
    }
}

// ---------------------------------------------------------------- simple polygon generator

fn try_insert(poly: &mut Vec<I>, i: usize, p: I) -> bool {
    // Replace the edge (i, i+1) by i -> p -> i+1 if the result stays simple.
    let n = poly.len();
    let a = poly[i];
    let b = poly[(i + 1) % n];
    if p == a || p == b {
        return false;
    }
    let flat = ion_seg(a, b, p);
    if !flat {
        for j in 0..n {
            let c = poly[j];
            let d = poly[(j + 1) % n];
            if j == i {
                continue;
            }
            if c == p || d == p || ion_seg(c, d, p) {
                return false;
            }
            if (j + 1) % n == i {
                // shares a: d == a
                if imeet(p, b, c, d) || ion_seg(a, p, c) || ion_seg(c, a, p) {
                    return false;
                }
            } else if j == (i + 1) % n {
                // shares b: c == b
                if imeet(a, p, c, d) || ion_seg(p, b, d) || ion_seg(b, d, p) {
                    return false;
                }
            } else if imeet(a, p, c, d) || imeet(p, b, c, d) {
                return false;
            }
        }
        if iorient(a, b, p) == 0 {
            return false;
        }
    } else if p == a || p == b {
        return false;
    }
    poly.insert(i + 1, p);
    true
}

fn grow(r: &mut Rng, n: usize, size: i64, local: bool) -> Vec<I> {
    let mut poly;
    loop {
        poly = vec![];
        for _ in 0..3 {
            poly.push(I::new(r.int(0, size), r.int(0, size)));
        }
        if iorient(poly[0], poly[1], poly[2]) != 0 {
            break;
        }
    }
    let mut tries = 0;
    while poly.len() < n && tries < n * 40 {
        tries += 1;
        let i = r.below(poly.len());
        let a = poly[i];
        let b = poly[(i + 1) % poly.len()];
        let p = if r.chance(0.12) && (a.x + b.x) % 2 == 0 && (a.y + b.y) % 2 == 0 {
            I::new((a.x + b.x) / 2, (a.y + b.y) / 2)
        } else if local {
            let w = (size / 4).max(2);
            I::new((a.x + b.x) / 2 + r.int(-w, w), (a.y + b.y) / 2 + r.int(-w, w))
        } else {
            I::new(r.int(0, size), r.int(0, size))
        };
        if p.x < 0 || p.y < 0 || p.x > size || p.y > size {
            continue;
        }
        try_insert(&mut poly, i, p);
    }
    poly
}

fn star(r: &mut Rng, n: usize, size: i64) -> Vec<I> {
    let c = size / 2;
    let mut pts: Vec<I> = vec![];
    for _ in 0..n * 3 {
        let p = I::new(r.int(-c, c), r.int(-c, c));
        if p != I::new(0, 0) && pts.len() < n && !pts.iter().any(|q| q.x * p.y == q.y * p.x && q.x * p.x + q.y * p.y > 0) {
            pts.push(p);
        }
    }
    pts.sort_by(|p, q| (p.y as f64).atan2(p.x as f64).partial_cmp(&(q.y as f64).atan2(q.x as f64)).unwrap());
    pts
}

fn two_opt(r: &mut Rng, n: usize, size: i64) -> Vec<I> {
    let mut p: Vec<I> = (0..n).map(|_| I::new(r.int(0, size), r.int(0, size))).collect();
    for _ in 0..400 {
        let m = p.len();
        let mut found = false;
        'o: for i in 0..m {
            for j in (i + 2)..m {
                if i == 0 && j == m - 1 {
                    continue;
                }
                if icross_proper(p[i], p[i + 1], p[j], p[(j + 1) % m]) {
                    p[i + 1..=j].reverse();
                    found = true;
                    break 'o;
                }
            }
        }
        if !found {
            break;
        }
    }
    p
}

fn comb(r: &mut Rng, teeth: i64) -> Vec<I> {
    let mut p = vec![];
    let h = r.int(2, 20);
    for i in 0..teeth {
        p.push(I::new(4 * i, r.int(0, 1)));
        p.push(I::new(4 * i + 2, h + r.int(0, 4)));
    }
    p.push(I::new(4 * teeth, 0));
    p.push(I::new(4 * teeth, h + 8));
    p.push(I::new(0, h + 8 + r.int(0, 3)));
    p
}

fn spiral(r: &mut Rng, turns: i64) -> Vec<I> {
    // rectangular corridor spiral
    let w = r.int(1, 3) * 2;
    let mut outer = vec![];
    let mut inner = vec![];
    let (mut x0, mut y0, mut x1, mut y1) = (0, 0, 4 * w * (turns + 1), 4 * w * (turns + 1));
    outer.push(I::new(x0, y0));
    inner.push(I::new(x0, y0 + w));
    for k in 0..turns * 4 {
        match k % 4 {
            0 => {
                outer.push(I::new(x1, y0));
                inner.push(I::new(x1 - w, y0 + w));
                y0 += 2 * w;
            }
            1 => {
                outer.push(I::new(x1, y1));
                inner.push(I::new(x1 - w, y1 - w));
                x1 -= 2 * w;
            }
            2 => {
                outer.push(I::new(x0, y1));
                inner.push(I::new(x0 + w, y1 - w));
                y1 -= 2 * w;
            }
            _ => {
                outer.push(I::new(x0, y0));
                inner.push(I::new(x0 + w, y0 + w));
                x0 += 2 * w;
            }
        }
    }
    inner.reverse();
    outer.extend(inner);
    outer
}

fn polyomino(r: &mut Rng, cells: usize, keep_flat: bool) -> Vec<I> {
    use std::collections::{HashMap, HashSet};
    let mut set: HashSet<(i64, i64)> = HashSet::new();
    let mut order = vec![(0i64, 0i64)];
    set.insert((0, 0));
    while order.len() < cells {
        let c = *r.pick(&order);
        let d = *r.pick(&[(1, 0), (-1, 0), (0, 1), (0, -1)]);
        let n = (c.0 + d.0, c.1 + d.1);
        if set.insert(n) {
            order.push(n);
        }
    }
    let mut next: HashMap<(i64, i64), (i64, i64)> = HashMap::new();
    let mut start = None;
    for &(x, y) in &order {
        let sides = [((0, -1), (x, y), (x + 1, y)), ((1, 0), (x + 1, y), (x + 1, y + 1)), ((0, 1), (x + 1, y + 1), (x, y + 1)), ((-1, 0), (x, y + 1), (x, y))];
        for (d, a, b) in sides.iter() {
            if !set.contains(&(x + d.0, y + d.1)) {
                if next.insert(*a, *b).is_some() {
                    return vec![]; // pinch vertex
                }
                start = match start {
                    None => Some(*a),
                    Some(s) if *a < s => Some(*a),
                    s => s,
                };
            }
        }
    }
    let total = next.len();
    let s = start.unwrap();
    let mut loop_ = vec![s];
    let mut c = next[&s];
    while c != s {
        loop_.push(c);
        c = next[&c];
    }
    if loop_.len() != total {
        return vec![]; // holes
    }
    let n = loop_.len();
    (0..n)
        .filter(|&i| {
            let (a, b, c) = (loop_[(i + n - 1) % n], loop_[i], loop_[(i + 1) % n]);
            keep_flat && r.chance(0.7) || (b.0 - a.0) * (c.1 - b.1) != (b.1 - a.1) * (c.0 - b.0)
        })
        .map(|i| I::new(loop_[i].0 * 2, loop_[i].1 * 2))
        .collect()
}

fn convex(r: &mut Rng, n: usize, size: i64) -> Vec<I> {
    let mut pts: Vec<I> = (0..n * 3).map(|_| I::new(2 * r.int(0, size / 2), 2 * r.int(0, size / 2))).collect();
    pts.sort();
    pts.dedup();
    let mut hull: Vec<I> = vec![];
    for pass in 0..2 {
        let base = hull.len();
        let it: Vec<I> = if pass == 0 { pts.clone() } else { pts.iter().rev().cloned().collect() };
        for p in it {
            while hull.len() >= base + 2 && iorient(hull[hull.len() - 2], hull[hull.len() - 1], p) <= 0 {
                hull.pop();
            }
            hull.push(p);
        }
        hull.pop();
    }
    let m = hull.len();
    let mut out = vec![];
    for i in 0..m {
        out.push(hull[i]);
        if r.chance(0.3) {
            out.push(I::new((hull[i].x + hull[(i + 1) % m].x) / 2, (hull[i].y + hull[(i + 1) % m].y) / 2));
        }
    }
    out
}

/// A convex polygon from side vectors in order of direction; equal directions give flat corners.
fn convex_sides(r: &mut Rng, n: usize) -> Vec<I> {
    let w = *r.pick(&[1i64, 2, 5, 12]);
    let mut sides: Vec<I> = vec![];
    while sides.len() + 1 < n {
        let d = I::new(r.int(-w, w), r.int(-w, w));
        if d != I::new(0, 0) {
            // in pairs, so that they add up to zero
            sides.push(d);
            sides.push(I::new(-d.x, -d.y));
        }
    }
    sides.sort_by(|p, q| (p.y as f64).atan2(p.x as f64).partial_cmp(&(q.y as f64).atan2(q.x as f64)).unwrap());
    let mut at = I::new(0, 0);
    sides
        .iter()
        .map(|d| {
            at = I::new(at.x + d.x, at.y + d.y);
            at
        })
        .collect()
}

/// A band between two jagged lines.
fn zigzag(r: &mut Rng, n: usize) -> Vec<I> {
    let k = (n / 2).max(2) as i64;
    let amp = r.int(1, 20);
    let thick = r.int(1, 4);
    let line: Vec<I> = (0..k).map(|i| I::new(3 * i, if i % 2 == 0 { 0 } else { amp } + r.int(0, 1))).collect();
    let mut p = line.clone();
    p.extend(line.iter().rev().map(|q| I::new(q.x, q.y + thick + 1)));
    p
}

/// Splits sides at lattice points, so that some corners are flat.
fn subdivide(r: &mut Rng, p: &[I], max_n: usize) -> Vec<I> {
    fn gcd(a: i64, b: i64) -> i64 {
        if b == 0 {
            a.abs()
        } else {
            gcd(b, a % b)
        }
    }
    let keep = *r.pick(&[0.1, 0.5, 1.0]);
    let mut out = vec![];
    let mut room = max_n.saturating_sub(p.len());
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        out.push(a);
        let g = gcd(b.x - a.x, b.y - a.y);
        for k in 1..g {
            if room > 0 && r.chance(keep) {
                out.push(I::new(a.x + (b.x - a.x) / g * k, a.y + (b.y - a.y) / g * k));
                room -= 1;
            }
        }
    }
    out
}

pub const POLY_KINDS: [&str; 11] = ["grow", "grow_local", "grow_tiny_grid", "star", "two_opt", "comb", "spiral", "polyomino", "convex_flat", "convex_sides", "zigzag"];

/// A strictly simple polygon with integer coordinates, |coordinate| <= 1000, random kind,
/// orientation, start vertex and placement. Returns the kind's index.
pub fn simple_polygon(r: &mut Rng, max_n: usize) -> (Vec<I>, usize) {
    loop {
        // (very long ones only of the kinds that can be that long)
        let big = max_n >= 300;
        let kind = if max_n >= 900 { *r.pick(&[1, 5, 6, 7, 9, 10]) } else { r.below(POLY_KINDS.len()) };
        let n = if max_n >= 900 { max_n / 2 + r.below(max_n / 2) } else { 3 + r.below(max_n - 2) };
        let mut p = match kind {
            0 => grow(r, n, 400, false),
            1 => grow(r, n, 400, true),
            2 => {
                let s = r.int(3, 7);
                grow(r, n.min(18), s, false)
            }
            3 => star(r, n, 300),
            4 => {
                let s = *r.pick(&[6i64, 20, 300]);
                two_opt(r, n.min(20), s)
            }
            5 => comb(r, (n as i64 / 2).max(1).min(if big { 240 } else { 30 })),
            6 => spiral(r, (n as i64 / 8).max(1).min(if big { 25 } else { 6 })),
            7 => {
                let keep = r.chance(0.6);
                polyomino(r, (n / 2).max(1), keep)
            }
            8 => {
                let s = *r.pick(&[8i64, 40, 300]);
                convex(r, n.min(30), s)
            }
            9 => {
                // now and then longer than asked for
                let n = if r.chance(0.1) && max_n > 8 { n + 40 } else { n };
                convex_sides(r, n.max(4))
            }
            _ => zigzag(r, n.min(if big { 640 } else { 80 })),
        };
        if r.chance(if max_n >= 900 { 0.6 } else { 0.15 }) {
            let most = if r.chance(0.2) && max_n > 8 { max_n + 30 } else { max_n };
            p = subdivide(r, &p, most);
        }
        if p.len() < 3 {
            continue;
        }
        let k = r.below(p.len());
        p.rotate_left(k);
        if r.chance(0.5) {
            p.reverse();
        }
        let (fx, fy, sw) = (r.chance(0.5), r.chance(0.5), r.chance(0.5));
        let (tx, ty) = (r.int(-500, 500), r.int(-500, 500));
        let extent = p.iter().map(|q| q.x.abs().max(q.y.abs())).max().unwrap();
        let (tx, ty) = if extent > 480 { (tx / 30, ty / 30) } else { (tx, ty) };
        for q in p.iter_mut() {
            let mut c = *q;
            if fx {
                c.x = -c.x;
            }
            if fy {
                c.y = -c.y;
            }
            if sw {
                c = I::new(c.y, c.x);
            }
            *q = I::new(c.x + tx, c.y + ty);
        }
        if p.iter().all(|q| q.x.abs() <= 1000 && q.y.abs() <= 1000) && is_simple(&p) {
            return (p, kind);
        }
    }
}

pub fn show(p: &[I]) -> String {
    p.iter().map(|q| format!("({},{})", q.x, q.y)).collect::<Vec<_>>().join(" ")
}
