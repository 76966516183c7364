//! after each swept point no front corner next to it may be left open that is neither convex nor wider than a right angle
use poly2tri_rs::*;

struct Obs { open: usize, right: usize, seen: usize, bad: Option<String> }
impl Observer for Obs {
    fn exit_point_event(&mut self, id: PointId, c: &Sweeper) {
        let p = c.points.get_point(id).unwrap();
        let n = c.advancing_front.get_node(p).unwrap();
        let int = |q: Point| (q.x as i128, q.y as i128);
        let whole = |q: Point| q.x.fract() == 0. && q.y.fract() == 0.;
        let mut corner = |o: Point, next: Point, prev: Point| {
            if !(whole(o) && whole(next) && whole(prev)) { return }
            let (o, a, b) = (int(o), int(next), int(prev));
            let (ax, ay, bx, by) = (a.0 - o.0, a.1 - o.1, b.0 - o.0, b.1 - o.1);
            let (cross, dot) = (ax * by - ay * bx, ax * bx + ay * by);
            self.seen += 1;
            if dot == 0 { self.right += 1 }
            let wide = dot < 0 && cross > 0;
            if cross > 0 && !wide { self.open += 1; self.bad.get_or_insert(format!("left of {p:?}: corner {o:?} between {b:?} and {a:?} is open")); }
        };
        if let Some(l) = n.prev() { if let Some(ll) = l.prev() { corner(l.point(), p, ll.point()); } }
    }
}
struct Rng(u64);
impl Rng { fn next(&mut self, n: u64) -> i64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((self.0 >> 33) % n) as i64 } }

fn main() {
    let (mut seen, mut right) = (0, 0);
    for s in 0..3000u64 {
        let mut r = Rng(s * 31 + 5);
        let w = 6 + (s % 9) as i64;
        let pt = |x: i64, y: i64| Point::new(x as Float, y as Float);
        let outline = vec![pt(-1, -2), pt(w + 1, -3), pt(w + 2, w + 1), pt(-2, w + 2)];
        let mut st: Vec<(i64, i64)> = vec![];
        for _ in 0..(10 + s % 30) { let q = (r.next(w as u64), r.next(w as u64)); if !st.contains(&q) { st.push(q) } }
        let cdt = Builder::new(outline).add_steiner_points(st.iter().map(|q| pt(q.0, q.1)).collect::<Vec<_>>()).build();
        let mut o = Obs { open: 0, right: 0, seen: 0, bad: None };
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { cdt.triangulate_with_observer(&mut o); })).is_err() { continue }
        seen += o.seen; right += o.right;
        if let Some(b) = o.bad { println!("input {s}: {b}"); std::process::exit(1) }
    }
    println!("ok {seen} corners, {right} right angles");
}
