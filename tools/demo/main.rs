// Random valid inputs, checked through the public API and an observer.
// usage: demo MODE COUNT KIND   exit status 1 and a message when something is wrong
use poly2tri_rs::*;
use std::collections::*;

struct R(u64);
impl R {
    fn u(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    fn f(&mut self) -> f64 { (self.u() >> 11) as f64 / (1u64 << 53) as f64 }
    fn r(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.f() }
    fn n(&mut self, a: usize, b: usize) -> usize { a + (self.u() % (b - a) as u64) as usize }
}

struct Input { poly: Vec<Point>, holes: Vec<Vec<Point>>, steiner: Vec<Point> }

fn star(r: &mut R, rmin: f64, rmax: f64, n: usize) -> Vec<Point> {
    (0..n).map(|i| { let a = (i as f64 + r.r(0.1, 0.9)) * std::f64::consts::TAU / n as f64; let d = r.r(rmin, rmax); Point::new(d * a.cos(), d * a.sin()) }).collect()
}

fn inside(p: &Point, poly: &[Point]) -> bool {
    let mut c = false; let n = poly.len(); let mut j = n - 1;
    for i in 0..n { let (a, b) = (poly[i], poly[j]); if (a.y > p.y) != (b.y > p.y) && p.x < (b.x - a.x) * (p.y - a.y) / (b.y - a.y) + a.x { c = !c } j = i; }
    c
}
fn cr(a: &Point, b: &Point, c: &Point) -> f64 { (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x) }
fn area(p: &[Point]) -> f64 { let n = p.len(); (0..n).map(|i| { let (a, b) = (p[i], p[(i + 1) % n]); a.x * b.y - b.x * a.y }).sum::<f64>() / 2. }

fn gen(kind: &str, seed: u64) -> Input {
    let mut r = R(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for _ in 0..5 { r.u(); }
    let n = r.n(9, 40);
    let spiky = kind.contains("spiky");
    let poly = star(&mut r, if spiky { 20. } else { 60. }, 100., n);
    let mut holes = vec![];
    if kind.contains("hole") { let n = r.n(3, 12); holes.push(star(&mut r, 2., 10., n)); }
    let mut steiner = vec![];
    if kind.contains("steiner") {
        for _ in 0..r.n(0, 60) { let p = Point::new(r.r(-100., 100.), r.r(-100., 100.)); if inside(&p, &poly) && !holes.iter().any(|h| inside(&p, h)) { steiner.push(p) } }
    }
    if kind.contains("ties") {
        // rows of points with equal y
        for k in 0..6 { let y = -15. + k as f64 * 2.; for m in 0..6 { steiner.push(Point::new(-9. + 3. * m as f64 + (k % 2) as f64, y)); } }
        steiner.retain(|p| inside(p, &poly) && !holes.iter().any(|h| inside(p, h)));
    }
    if kind.contains("hair") {
        // heights that differ by less than any tolerance
        for m in 0..12 { steiner.push(Point::new(-16. + 3. * m as f64 + r.f(), r.r(-1., 1.) * 1e-16)); }
        steiner.retain(|p| inside(p, &poly) && !holes.iter().any(|h| inside(p, h)));
    }
    if kind.contains("near") {
        // points a few units in the last place away from a segment
        for i in 0..poly.len() {
            let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
            let t = r.r(0.2, 0.8);
            let (x, y) = (a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t);
            let l = ((b.x - a.x).powi(2) + (b.y - a.y).powi(2)).sqrt();
            let d = 10f64.powf(r.r(-13.5, -11.));
            steiner.push(Point::new(x - (b.y - a.y) / l * d, y + (b.x - a.x) / l * d));
        }
    }
    if kind.contains("lattice") {
        // a convex outline with long sides over points of a lattice, some of them on its sides
        let w = r.n(3, 7) as i64 * 2; let h = r.n(3, 7) as i64 * 2;
        let mut out: Vec<(i64, i64)> = vec![(0, 0), (w, h / 2), (w + 2, 2 * h), (-2, h)];
        if r.n(0, 2) == 1 { out[1] = (w, 2); }
        let g = |a: i64, b: i64| { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a };
        let poly: Vec<Point> = out.iter().map(|p| Point::new(p.0 as f64, p.1 as f64)).collect();
        let mut st: Vec<(i64, i64)> = vec![];
        for i in 0..4 { let (a, b) = (out[i], out[(i + 1) % 4]); let k = g(b.0 - a.0, b.1 - a.1); for j in 1..k { if r.n(0, 3) > 0 { st.push((a.0 + (b.0 - a.0) / k * j, a.1 + (b.1 - a.1) / k * j)) } } }
        for _ in 0..r.n(0, 20) { let c = (r.n(0, 40) as i64 - 20, r.n(0, 60) as i64); if !st.contains(&c) && inside(&Point::new(c.0 as f64, c.1 as f64), &poly) { st.push(c) } }
        let mut seen = HashSet::new();
        st.retain(|p| !out.contains(p) && seen.insert(*p));
        return Input { poly, holes: vec![], steiner: st.iter().map(|p| Point::new(p.0 as f64, p.1 as f64)).collect() };
    }
    let s = if kind.contains("tiny") { 2f64.powi(-60) } else { 1. };
    let sc = |v: Vec<Point>| v.into_iter().map(|p| Point::new(p.x * s, p.y * s)).collect::<Vec<_>>();
    Input { poly: sc(poly), holes: holes.into_iter().map(sc).collect(), steiner: sc(steiner) }
}

#[derive(Default)]
#[allow(dead_code)]
struct Obs { mode: String, nresult: Option<usize>, bad: Vec<String>, last: Option<(f64, f64)>, log: Vec<String>, rotated: Vec<TriangleId>, segs: Vec<(usize, usize)>, ntri: usize, swept: usize, cons: HashSet<(u32, u32)>, visible: usize, old: Vec<Box<dyn std::any::Any>>, touched: Vec<TriangleId>, fresh: HashSet<(u32, u32)>, legal: HashSet<(u32, u32)>, in_leg: bool, before: Option<Vec<Point>> }
/// identifiers kept from earlier events (their type has no public name)
fn like<T: Clone + 'static>(_: &[T], b: &dyn std::any::Any) -> T { b.downcast_ref::<T>().unwrap().clone() }
impl Obs { fn fail(&mut self, s: String) { if self.bad.len() < 3 { self.bad.push(s) } } }

fn sorted(a: u32, b: u32) -> (u32, u32) { (a.min(b), a.max(b)) }

impl Obs {
    fn constraints(&self, c: &Sweeper) -> HashSet<(u32, u32)> {
        let mut s = HashSet::new();
        for (_, t) in c.triangles.iter() { for i in 0..3 { if t.is_constrained(i) { s.insert(sorted(t.points[(i + 1) % 3].as_u32(), t.points[(i + 2) % 3].as_u32())); } } }
        s
    }
    /// (edge, seen from both sides alike) of everything marked already legal
    fn legal_marks(&mut self, c: &Sweeper) -> HashSet<(u32, u32)> {
        let mut s = HashSet::new();
        for (_, t) in c.triangles.iter() { for i in 0..3 { if t.is_delaunay(i) {
            let e = sorted(t.points[(i + 1) % 3].as_u32(), t.points[(i + 2) % 3].as_u32());
            s.insert(e);
            if let Some(n) = t.neighbors[i].into_option().and_then(|n| c.triangles.get(n)) {
                if let Some(k) = n.edge_index(t.points[(i + 1) % 3], t.points[(i + 2) % 3]) { if !n.is_delaunay(k) { self.fail(format!("edge {e:?} is marked already legal on one side only")) } }
            }
        } } }
        s
    }
    fn det(&self, c: &Sweeper, t: TriangleId, i: usize) -> Option<f64> {
        let t = c.triangles.get(t).unwrap();
        let n = t.neighbors[i].into_option().and_then(|n| c.triangles.get(n))?;
        let g = |p: PointId| c.points.get_point(p).unwrap();
        let op = n.opposite_point(&t, t.points[i]);
        let (a, b, d, e) = (g(t.points[0]), g(t.points[1]), g(t.points[2]), g(op));
        let m = |p: &Point| (p.x - e.x, p.y - e.y, (p.x - e.x).powi(2) + (p.y - e.y).powi(2));
        let (a, b, d) = (m(&a), m(&b), m(&d));
        Some(a.0 * (b.1 * d.2 - b.2 * d.1) - a.1 * (b.0 * d.2 - b.2 * d.0) + a.2 * (b.0 * d.1 - b.1 * d.0))
    }
    fn marks(&mut self, c: &Sweeper, when: &str) {
        // a mark is on both sides of an edge
        for (id, t) in c.triangles.iter() { for i in 0..3 {
            let n = t.neighbors[i];
            if let Some(nt) = n.into_option().and_then(|n| c.triangles.get(n)) {
                match nt.edge_index(t.points[(i + 1) % 3], t.points[(i + 2) % 3]) {
                    None => self.fail(format!("{when}: {id:?} names {n:?} as neighbor but they share no such edge")),
                    Some(k) => {
                        if nt.neighbors[k] != id { self.fail(format!("{when}: neighbor link of {id:?} and {n:?} is one-sided")) }
                        if nt.is_constrained(k) != t.is_constrained(i) { self.fail(format!("{when}: constraint mark between {id:?} and {n:?} is one-sided")) }
                    }
                }
            }
        } }
    }
    /// every marked edge is part of a segment
    fn only(&mut self, c: &Sweeper, when: &str) {
        let pts: HashMap<usize, Point> = c.points.iter().map(|(i, p, _)| (i.as_usize(), *p)).collect();
        for (a, b) in self.constraints(c) {
            let (pa, pb) = (pts[&(a as usize)], pts[&(b as usize)]);
            let on = |x: &Point, p: &Point, q: &Point| cr(p, q, x).abs() < 1e-9 && x.x >= p.x.min(q.x) && x.x <= p.x.max(q.x) && x.y >= p.y.min(q.y) && x.y <= p.y.max(q.y);
            if !self.segs.iter().any(|(p, q)| sorted(*p as u32, *q as u32) == (a, b) || (on(&pa, &pts[p], &pts[q]) && on(&pb, &pts[p], &pts[q]))) { self.fail(format!("{when}: edge {a} {b} is marked but no part of a segment")) }
        }
    }
    /// the pieces of a segment that passes through points are marked
    fn through(&mut self, c: &Sweeper, e: &Edge) {
        let pts: HashMap<usize, Point> = c.points.iter().map(|(i, p, _)| (i.as_usize(), *p)).collect();
        let (p, q) = (pts[&e.p.as_usize()], pts[&e.q.as_usize()]);
        let in_mesh: HashSet<usize> = c.triangles.iter().flat_map(|(_, t)| t.points.map(|x| x.as_usize())).collect();
        let mut on: Vec<(f64, usize)> = pts.iter().filter(|(i, x)| in_mesh.contains(i) && cr(&p, &q, x) == 0. && x.x >= p.x.min(q.x) && x.x <= p.x.max(q.x) && x.y >= p.y.min(q.y) && x.y <= p.y.max(q.y)).map(|(i, x)| ((x.x - p.x).abs() + (x.y - p.y).abs(), *i)).collect();
        on.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let cons = self.constraints(c);
        if cons.contains(&sorted(e.p.as_u32(), e.q.as_u32())) { return }
        for w in on.windows(2) { if !cons.contains(&sorted(w[0].1 as u32, w[1].1 as u32)) { self.fail(format!("piece {} {} of segment {} {} is not marked", w[0].1, w[1].1, e.p.as_usize(), e.q.as_usize())) } }
    }
    /// every lookup has to agree with the list of nodes
    fn lookup(&mut self, c: &Sweeper, when: &str) {
        let af = &c.advancing_front;
        let ns: Vec<_> = af.iter().map(|n| n.get_node_id()).collect();
        let old: Vec<_> = self.old.iter().map(|b| like(&ns, &**b)).collect();
        let less = |a: Point, b: Point| a.x < b.x || (a.x == b.x && a.y < b.y);
        for w in ns.windows(2) { if !less(w[0].point(), w[1].point()) { self.fail(format!("{when}: front is not sorted")) } }
        let mut qs: Vec<Point> = ns.iter().map(|n| n.point()).collect();
        for w in ns.windows(2) { qs.push(Point::new((w[0].point().x + w[1].point().x) / 2., w[0].point().y)); }
        qs.extend(old.iter().map(|n| n.point()));
        for q in qs {
            let at = ns.iter().find(|n| n.point().x == q.x && n.point().y == q.y).map(|n| n.point_id());
            if af.get_node(q).map(|n| n.point_id()) != at { self.fail(format!("{when}: get_node finds another node")) }
            let below = ns.iter().filter(|n| !less(q, n.point())).last().map(|n| n.point_id());
            if af.locate_node(q).map(|n| n.point_id()) != below { self.fail(format!("{when}: locate_node finds another node")) }
        }
        let ids: Vec<_> = ns.iter().chain(old.iter()).cloned().collect();
        for n in &ids {
            let q = n.point();
            let at = ns.iter().find(|m| m.point_id() == n.point_id()).map(|m| m.point_id());
            if af.get_node_with_id(*n).map(|m| m.point_id()) != at { self.fail(format!("{when}: a stale identifier finds another node")) }
            let nx = ns.iter().find(|m| less(q, m.point())).map(|m| m.point_id());
            if af.locate_next_node(*n).map(|m| m.point_id()) != nx { self.fail(format!("{when}: another next node")) }
            let pv = ns.iter().filter(|m| less(m.point(), q)).last().map(|m| m.point_id());
            if af.locate_prev_node(*n).map(|m| m.point_id()) != pv { self.fail(format!("{when}: another previous node")) }
        }
        for (k, n) in ns.iter().enumerate() {
            let r = af.nth(k).unwrap();
            if r.point_id() != n.point_id() { self.fail(format!("{when}: nth is another node")) }
            if r.next().map(|m| m.point_id()) != ns.get(k + 1).map(|m| m.point_id()) { self.fail(format!("{when}: next is another node")) }
            if r.prev().map(|m| m.point_id()) != k.checked_sub(1).map(|j| ns[j].point_id()) { self.fail(format!("{when}: prev is another node")) }
        }
        if self.old.len() < 40 { for n in ns { self.old.push(Box::new(n)); } }
    }
    fn front(&mut self, c: &Sweeper, when: &str) {
        let nodes: Vec<_> = c.advancing_front.iter().map(|n| (n.point_id(), n.point(), n.triangle)).collect();
        for w in nodes.windows(2) {
            let (a, b) = (&w[0], &w[1]);
            if !(a.1.x < b.1.x || (a.1.x == b.1.x && a.1.y < b.1.y)) { self.fail(format!("{when}: front is not sorted")) }
            match a.2.and_then(|t| c.triangles.get(t)) {
                None => self.fail(format!("{when}: front node without triangle")),
                Some(t) => match t.edge_index(a.0, b.0) {
                    None => self.fail(format!("{when}: triangle of front node {:?} does not have the front edge", a.0)),
                    Some(k) => if !t.neighbors[k].invalid() { self.fail(format!("{when}: front edge has a triangle above it")) },
                },
            }
        }
    }
}

fn ang(o: &Point, a: &Point, b: &Point) -> (f64, f64) {
    let (ax, ay, bx, by) = (a.x - o.x, a.y - o.y, b.x - o.x, b.y - o.y);
    (ax * by - ay * bx, ax * bx + ay * by)
}
fn acute(o: &Point, a: &Point, b: &Point) -> bool { let (c, d) = ang(o, a, b); c > 0. && d > 0. }
// is the corner f[i] a hole?  None: too close to call
fn hole(f: &[Point], i: usize) -> Option<bool> {
    let (c, d) = ang(&f[i], &f[i + 1], &f[i - 1]);
    if c.abs() < 1e-9 { return None }
    if c < 0. { return Some(false) }
    if d >= 0. { return Some(true) }
    Some(i + 2 < f.len() && acute(&f[i], &f[i + 2], &f[i - 1]) || i >= 2 && acute(&f[i], &f[i + 1], &f[i - 2]))
}
// the front after a point, by the rules; None: too close to call
fn closing(mut f: Vec<Point>, p: Point) -> Option<Vec<Point>> {
    let i = f.iter().rposition(|q| q.x <= p.x)?;
    let direct = p.x <= f[i].x + f64::EPSILON;
    f.insert(i + 1, p);
    let mut at = i + 1;
    if direct && i > 0 { f.remove(i); at -= 1; }
    // right
    let mut k = at + 1;
    while k + 1 < f.len() { if !hole(&f, k)? { break } f.remove(k); k += 1; }
    // left
    while at >= 2 { if !hole(&f, at - 1)? { break } f.remove(at - 1); at -= 1; }
    // basin
    if at + 2 >= f.len() { return Some(f) }
    let (ax, ay) = (f[at].x - f[at + 2].x, f[at].y - f[at + 2].y);
    if (ax + ay).abs() < 1e-9 { return None }
    if !(if ax > 0. { ay < -ax } else { ay > -ax }) { return Some(f) }
    let t = cr(&f[at], &f[at + 1], &f[at + 2]);
    if t != 0. && t.abs() < 1e-9 { return None }
    let l = if t > 0. { at + 2 } else { at + 1 };
    let mut b = l;
    while b + 1 < f.len() && f[b].y >= f[b + 1].y { b += 1 }
    let mut r = b;
    while r + 1 < f.len() && f[r].y < f[r + 1].y { r += 1 }
    if b == l || r == b { return Some(f) }
    let (left, right) = (f[l], f[r]);
    let shallow = |q: &Point| right.x - left.x > (if left.y > right.y { left.y } else { right.y }) - q.y;
    loop {
        let n = f[b];
        if n.x >= right.x || n.x <= left.x || shallow(&n) { return Some(f) }
        f.remove(b);
        let (pv, nx) = (f[b - 1], f[b]);
        let (al, ar) = (pv.x == left.x && pv.y == left.y, nx.x == right.x && nx.y == right.y);
        if al && ar { return Some(f) }
        if al {
            let c = cr(&n, &nx, &f[b + 1]);
            if c != 0. && c.abs() < 1e-9 { return None }
            if c < 0. { return Some(f) }
        } else if ar {
            if b < 2 { return Some(f) }
            let c = cr(&n, &pv, &f[b - 2]);
            if c != 0. && c.abs() < 1e-9 { return None }
            if c > 0. { return Some(f) }
            b -= 1;
        } else if pv.y < nx.y { b -= 1 }
    }
}

impl Observer for Obs {
    fn enter_point_event(&mut self, id: PointId, c: &Sweeper) {
        let p = c.points.get_point(id).unwrap();
        if self.mode == "order" {
            if let Some((y, x)) = self.last { if !(p.y > y || (p.y == y && p.x > x)) { self.fail(format!("point {id:?} swept out of order")) } }
            self.last = Some((p.y, p.x));
        }
        if self.mode == "front" { self.front(c, "before a point") }
        if self.mode == "closing" { self.before = closing(c.advancing_front.iter().map(|n| n.point()).collect(), p) }
        if self.mode == "lookup" { self.lookup(c, "before a point") }
        if self.mode == "linear" { self.visible = c.advancing_front.iter().count(); self.ntri = c.triangles.len(); }
        self.swept += 1;
        if self.mode == "log" { self.log.push(format!("enter {}", id.as_u32())) }
    }
    fn exit_point_event(&mut self, id: PointId, c: &Sweeper) {
        if self.mode == "front" { self.front(c, "after a point") }
        if let Some(want) = self.before.take() {
            let got: Vec<Point> = c.advancing_front.iter().map(|n| n.point()).collect();
            if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a.x != b.x || a.y != b.y) { self.fail(format!("front after point {id:?} has {} nodes instead of {}, or others", got.len(), want.len())) }
        }
        if self.mode == "linear" {
            let (n, t) = (c.advancing_front.iter().count(), c.triangles.len());
            let fills = t - self.ntri - 1;
            if n + fills != self.visible + 1 { self.fail(format!("{} triangles and {} front nodes for a point", t - self.ntri, n as i64 - self.visible as i64)) }
        }
        if self.mode == "marks" { self.marks(c, "after a point") }
        if self.mode == "log" { self.log.push(format!("exit {}", id.as_u32())) }
    }
    fn edge_event(&mut self, e: Edge, c: &Sweeper) {
        if self.mode == "front" { self.front(c, "after a segment") }
        if self.mode == "lookup" { self.lookup(c, "after a segment") }
        if self.mode == "marks" || self.mode == "keep" {
            if self.mode == "marks" { self.marks(c, "after a segment"); }
            let now = self.constraints(c);
            let lost: Vec<_> = self.cons.difference(&now).cloned().collect();
            for x in lost { self.fail(format!("constraint {x:?} was lost")) }
            self.cons = now;
        }
        if self.mode == "through" { self.through(c, &e) }
        if self.mode == "only" { self.segs.push((e.p.as_usize(), e.q.as_usize())); self.only(c, "after a segment") }
        if self.mode == "segs" {
            let k = sorted(e.p.as_u32(), e.q.as_u32());
            if !self.constraints(c).contains(&k) { self.fail(format!("segment {k:?} is no constrained edge after its edge event")) }
        }
        if self.mode == "log" { self.log.push(format!("edge {} {}", e.p.as_u32(), e.q.as_u32())) }
    }
    fn sweep_done(&mut self, c: &Sweeper) {
        if self.mode == "log" { self.log.push("done".into()) }
        if self.mode == "linear" && c.triangles.len() > 2 * c.points.len() { self.fail("too many triangles".into()) }
    }
    fn will_legalize(&mut self, t: TriangleId, c: &Sweeper) {
        if self.mode == "log" { self.log.push(format!("will {}", t.as_usize())) }
        if self.mode == "work" { self.touched = vec![t]; self.fresh.clear(); self.legal = self.legal_marks(c); self.in_leg = true; self.bad.clear() }
        if self.mode == "ccw" {
            let t = c.triangles.get(t).unwrap();
            let q: Vec<Point> = t.points.iter().map(|p| c.points.get_point(*p).unwrap()).collect();
            if cr(&q[0], &q[1], &q[2]) < -1e-6 { self.fail("triangle is clockwise".into()) }
        }
    }
    fn legalize_step(&mut self, t: TriangleId, c: &Sweeper) {
        if self.mode == "log" { self.log.push(format!("step {}", t.as_usize())) }
        if self.mode == "flags" {
            let pair = std::mem::take(&mut self.rotated);
            for t in &pair { let tr = c.triangles.get(*t).unwrap(); for i in 0..3 {
                let n = tr.neighbors[i];
                if pair.contains(&n) { continue; }
                if let Some(nt) = n.into_option().and_then(|n| c.triangles.get(n)) {
                    let k = nt.edge_index(tr.points[(i + 1) % 3], tr.points[(i + 2) % 3]).unwrap();
                    if tr.is_delaunay(i) || nt.is_delaunay(k) { self.fail("an outer edge of a rotated pair is still marked as legal".into()) }
                }
            } }
        }
    }
    fn triangle_rotated(&mut self, t: TriangleId, ot: TriangleId, c: &Sweeper) {
        self.rotated = vec![t, ot];
        if self.mode == "log" { self.log.push(format!("rotate {} {}", t.as_usize(), ot.as_usize())) }
        if self.mode == "work" && self.in_leg {
            let a = c.triangles.get(t).unwrap(); let b = c.triangles.get(ot).unwrap();
            if let Some((i, j)) = a.common_edge_index(b) { self.fresh.insert(sorted(a.points[i].as_u32(), b.points[j].as_u32())); }
            self.touched.push(t); self.touched.push(ot);
        }
        if self.mode == "rotations" {
            let a = c.triangles.get(t).unwrap(); let b = c.triangles.get(ot).unwrap();
            match a.common_edge_index(b) { None => self.fail("rotated triangles share no edge".into()), Some((i, j)) => if a.is_constrained(i) || b.is_constrained(j) { self.fail("a constrained edge is rotated".into()) } }
        }
    }
    fn legalized(&mut self, t: TriangleId, c: &Sweeper) {
        if self.mode == "log" { self.log.push(format!("legal {}", t.as_usize())) }
        if self.mode == "front-l" { self.front(c, "after a legalization") }
        if self.mode == "work" {
            self.in_leg = false;
            let now = self.legal_marks(c);
            let news: Vec<_> = now.difference(&self.legal).filter(|e| !self.fresh.contains(e)).cloned().collect();
            for e in news { self.fail(format!("edge {e:?} is marked already legal though no rotation made it")) }
            for t in self.touched.clone() { for i in 0..3 {
                let tr = c.triangles.get(t).unwrap();
                if tr.is_constrained(i) || tr.is_delaunay(i) { continue }
                if let Some(d) = self.det(c, t, i) { if d > 1e-3 { self.fail(format!("an edge of {t:?} is left illegal: {d}")) } }
            } }
            if !self.bad.is_empty() { self.log.extend(std::mem::take(&mut self.bad)) }
        }
    }
    fn finalized(&mut self, c: &Sweeper) {
        if self.mode == "log" { self.log.push("final".into()) }
        if self.mode == "adj" || self.mode == "marks" { self.marks(c, "at the end") }
        if self.mode == "local" {
            // every unconstrained edge is locally Delaunay
            for (_, t) in c.triangles.iter() { for i in 0..3 {
                if t.is_constrained(i) { continue }
                if let Some(nt) = t.neighbors[i].into_option().and_then(|n| c.triangles.get(n)) {
                    let g = |p: PointId| c.points.get_point(p).unwrap();
                    let op = nt.opposite_point(&t, t.points[i]);
                    let (a, b, d, e) = (g(t.points[0]), g(t.points[1]), g(t.points[2]), g(op));
                    let m = |p: &Point| (p.x - e.x, p.y - e.y, (p.x - e.x).powi(2) + (p.y - e.y).powi(2));
                    let (a, b, d) = (m(&a), m(&b), m(&d));
                    let det = a.0 * (b.1 * d.2 - b.2 * d.1) - a.1 * (b.0 * d.2 - b.2 * d.0) + a.2 * (b.0 * d.1 - b.1 * d.0);
                    if det > 1e-3 { self.fail(format!("edge is not legal: {det}")) }
                }
            } }
        }
        if self.mode == "region" {
            // the result is closed under unconstrained edges and lists each triangle once
            let set: HashSet<_> = c.result.iter().cloned().collect();
            if set.len() != c.result.len() { self.fail("a triangle is reported twice".into()) }
            if let Some(t0) = c.result.first() {
                let (mut seen, mut todo) = (HashSet::from([*t0]), vec![*t0]);
                while let Some(t) = todo.pop() { let tr = c.triangles.get(t).unwrap(); for i in 0..3 {
                    let n = tr.neighbors[i];
                    if !tr.is_constrained(i) && !n.invalid() && seen.insert(n) { todo.push(n) }
                } }
                if set.iter().any(|t| !seen.contains(t)) { self.fail("a result triangle is not reached across unconstrained edges".into()) }
            }
            self.nresult = Some(c.result.len());
            for t in &c.result { let tr = c.triangles.get(*t).unwrap(); for i in 0..3 {
                if !tr.is_constrained(i) && !tr.neighbors[i].invalid() && !set.contains(&tr.neighbors[i]) { self.fail("an unconstrained edge of a result triangle is not crossed".into()) }
            } }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, count, kind) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].as_str());
    std::panic::set_hook(Box::new(|_| {}));
    let mut bad = 0;
    for seed in 0..count {
        let inp = gen(kind, seed + 1);
        let res = std::panic::catch_unwind(|| {
            let mut o = Obs { mode: mode.into(), ..Default::default() };
            let b = Builder::new(inp.poly.clone()).add_holes(inp.holes.clone()).add_steiner_points(inp.steiner.clone());
            let t = b.build().triangulate_with_observer(&mut o);
            let mut f = o.bad.clone();
            if mode == "work" { f = std::mem::take(&mut o.log) }
            let all: Vec<Point> = inp.poly.iter().chain(inp.holes.iter().flatten()).chain(inp.steiner.iter()).cloned().collect();
            let idx: Vec<usize> = t.triangle_list_indices().into_iter().map(|x| x as usize).collect();
            let pts: Vec<Point> = t.points().iter().cloned().collect();
            let tri: Vec<Triangle> = t.collect();
            if mode == "output" {
                if pts.len() != all.len() || pts.iter().zip(&all).any(|(a, b)| a.x != b.x || a.y != b.y) { f.push("output points differ from the input".into()) }
                if idx.len() != 3 * tri.len() { f.push("index list and iterator differ in length".into()) }
                for (k, t) in tri.iter().enumerate() { for j in 0..3 { let p = all[idx[3 * k + j]]; if p.x != t.points[j].x || p.y != t.points[j].y { f.push(format!("triangle {k} differs between index list and iterator")); } } }
            }
            if mode == "region" && o.nresult != Some(tri.len()) { f.push(format!("{:?} triangles collected, {} handed out", o.nresult, tri.len())) }
            if mode == "area" {
                let want = area(&inp.poly) - inp.holes.iter().map(|h| area(h)).sum::<f64>();
                let got: f64 = tri.iter().map(|t| area(&t.points)).sum();
                if (want - got).abs() > 1e-6 * want.abs() { f.push(format!("covers area {got} of {want}")) }
            }
            (f, o.log)
        });
        match res {
            // points exactly on a segment may be too much for the library with or without a change
            Err(_) if kind.contains("lattice") => {}
            Err(e) => { bad += 1; if bad < 4 { println!("seed {seed}: panic {:?}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()))) } }
            Ok((f, log)) => {
                if !f.is_empty() { bad += 1; if bad < 4 { println!("seed {seed}: {}", f[0]) } }
                if mode == "log" {
                    if let Some(m) = protocol(&log) { bad += 1; if bad < 4 { println!("seed {seed}: {m}") } }
                }
            }
        }
    }
    println!("{mode} {kind}: {bad} of {count} inputs bad");
    std::process::exit(if bad > 0 { 1 } else { 0 });
}

fn protocol(log: &[String]) -> Option<String> {
    let mut point: Option<String> = None;
    let mut left: Option<String> = None;
    let mut legal: Option<String> = None;
    let mut end = 0;
    for l in log {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "enter" => { if point.is_some() || legal.is_some() || end > 0 { return Some(format!("unexpected {l}")) } point = Some(v.into()); left = None }
            "exit" => { if point.as_deref() != Some(v) || legal.is_some() { return Some(format!("unexpected {l}")) } left = point.take() }
            "edge" => { if left.is_none() || legal.is_some() || !v.ends_with(&format!(" {}", left.clone().unwrap())) { return Some(format!("unexpected {l}")) } }
            "will" => { if legal.is_some() { return Some(format!("nested {l}")) } legal = Some(v.into()) }
            "step" | "rotate" => { if legal.is_none() { return Some(format!("unexpected {l}")) } }
            "legal" => { if legal.take().as_deref() != Some(v) { return Some(format!("unexpected {l}")) } }
            "done" => { if end != 0 || point.is_some() || legal.is_some() { return Some("sweep_done out of place".into()) } end = 1 }
            "final" => { if end != 1 { return Some("finalized out of place".into()) } end = 2 }
            _ => {}
        }
    }
    if end != 2 { return Some("run did not end with finalized".into()) }
    None
}
