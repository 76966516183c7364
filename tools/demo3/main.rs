//! calls the safe interface of a small run with identifiers of a larger run; they have to be refused (None or a panic)
use poly2tri_rs::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Collect<F: FnMut(&Sweeper)>(F);
impl<F: FnMut(&Sweeper)> Observer for Collect<F> {
    fn enter_point_event(&mut self, _: PointId, c: &Sweeper) { (self.0)(c) }
    fn exit_point_event(&mut self, _: PointId, c: &Sweeper) { (self.0)(c) }
    fn sweep_done(&mut self, c: &Sweeper) { (self.0)(c) }
    fn finalized(&mut self, c: &Sweeper) { (self.0)(c) }
}

fn ring(n: usize, r: f64) -> Vec<Point> {
    (0..n).map(|i| { let a = i as f64 * 6.283185307179586 / n as f64 + 0.1; Point::new((r * a.cos()) as Float, (r * a.sin()) as Float) }).collect()
}
/// no value, or a panic
fn refused<T>(what: &str, fails: &mut Vec<String>, f: impl FnOnce() -> Option<T>) {
    if let Ok(Some(_)) = catch_unwind(AssertUnwindSafe(f)) { fails.push(what.to_string()) }
}

fn main() {
    let mode = std::env::args().nth(1).unwrap();
    std::panic::set_hook(Box::new(|_| ()));
    let mut fails: Vec<String> = vec![];
    let (mut points, mut tris) = (vec![], vec![]);
    let mut nodes = vec![];
    Builder::new(ring(60, 100.)).build().triangulate_with_observer(&mut Collect(|c: &Sweeper| {
        points.extend(c.points.iter().map(|(i, _, _)| i));
        tris.extend(c.triangles.iter().map(|(i, _)| i));
        nodes.extend(c.advancing_front.iter().map(|n| n.get_node_id()));
    }));
    for n in [3, 4, 5, 9, 17] {
        Builder::new(ring(n, 1.)).build().triangulate_with_observer(&mut Collect(|c: &Sweeper| {
            if mode == "point" {
                let all = c.points.len();
                for &i in &points { if i.as_usize() >= all { refused("a point that does not exist", &mut fails, || c.points.get_point(i)); } }
                for k in all..all + 5 { if c.points.get_id_by_y(k).is_some() { fails.push("an order position that does not exist".into()) } }
            }
            if mode == "tri" {
                let all = c.triangles.len();
                let mut ids = tris.clone();
                ids.extend([TriangleId::INVALID, TriangleId::from_index(all), TriangleId::from_index(1 << 40)]);
                for i in ids {
                    if i.as_usize() < all { continue }
                    refused("a triangle that does not exist", &mut fails, || c.triangles.get(i).map(|t| t.points));
                    refused("a triangle that does not exist", &mut fails, || i.try_get(c.triangles).map(|t| t.points));
                    refused("a triangle that does not exist", &mut fails, || Some(i.get(c.triangles).points));
                }
            }
            if mode == "node" {
                let have: Vec<_> = c.advancing_front.iter().map(|n| (n.point().x, n.point().y)).collect();
                let less = |a: (Float, Float), b: (Float, Float)| a.0 < b.0 || (a.0 == b.0 && a.1 < b.1);
                let known = |p: Point| have.iter().any(|h| *h == (p.x, p.y));
                let af = &c.advancing_front;
                for i in &nodes {
                    let q = (i.point().x, i.point().y);
                    if !known(i.point()) && af.get_node_with_id(*i).is_some() { fails.push("a node that does not exist".into()) }
                    for (r, what) in [(af.locate_next_node(*i).map(|n| n.point()), "next"), (af.locate_prev_node(*i).map(|n| n.point()), "previous"), (af.locate_node(i.point()).map(|n| n.point()), "below")] {
                        if let Some(p) = r { if !known(p) { fails.push(format!("{what}: a node that does not exist")) } }
                    }
                    if have.iter().all(|h| !less(*h, q)) && af.locate_prev_node(*i).is_some() { fails.push("a node before the first".into()) }
                    if have.iter().all(|h| !less(q, *h)) && af.locate_next_node(*i).is_some() { fails.push("a node after the last".into()) }
                }
                for k in have.len()..have.len() + 3 { if af.nth(k).is_some() { fails.push("a position that does not exist".into()) } }
                let mut it = af.iter();
                let mut seen = 0;
                while it.next().is_some() { seen += 1 }
                if seen != have.len() || it.next().is_some() { fails.push("the front goes on".into()) }
                for k in 0..have.len() {
                    let n = af.nth(k).unwrap();
                    for m in [n.next(), n.prev()] { if let Some(m) = m { if !known(m.point()) { fails.push("a neighbor that does not exist".into()) } } }
                    if k + 1 == have.len() && n.next().is_some() { fails.push("a node after the last".into()) }
                    if k == 0 && n.prev().is_some() { fails.push("a node before the first".into()) }
                }
            }
        }));
    }
    if !fails.is_empty() { println!("{} failures, first: {}", fails.len(), fails[0]); std::process::exit(1) }
    println!("ok {} {} {}", points.len(), tris.len(), nodes.len());
}
