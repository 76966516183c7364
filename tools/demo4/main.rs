//! whole runs compared with each other: observed or not, repeated, after other runs, in a small stack
use poly2tri_rs::*;

struct Silent(u64);
impl Observer for Silent {
    fn enter_point_event(&mut self, _: PointId, c: &Sweeper) { self.0 += c.points.len() as u64 }
    fn triangle_rotated(&mut self, _: TriangleId, _: TriangleId, _: &Sweeper) { self.0 += 1 }
    fn legalized(&mut self, _: TriangleId, _: &Sweeper) { self.0 += 1 }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: u64) -> i64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((self.0 >> 33) % n) as i64 }
}
/// star-shaped outline with integer corners, a square hole in the middle, and steiner points
fn input(seed: u64, n: usize, steiner: usize) -> (Vec<Point>, Vec<Point>, Vec<Point>) {
    let mut r = Rng(seed * 7919 + 17);
    let pt = |x: i64, y: i64| Point::new(x as Float, y as Float);
    let outline = (0..n).map(|i| {
        let (a, d) = (i as f64 * 6.283185307179586 / n as f64, 6000. + r.next(6000) as f64);
        pt((d * a.cos()).round() as i64, (d * a.sin()).round() as i64)
    }).collect();
    let hole = vec![pt(-900, -1000), pt(950, -950), pt(1000, 900), pt(-1000, 1000)];
    let st = (0..steiner).map(|_| loop {
        let (x, y) = (r.next(8000) - 4000, r.next(8000) - 4000);
        if x.abs().max(y.abs()) > 1100 && x * x + y * y < 4000 * 4000 { break pt(x, y) }
    }).collect();
    (outline, hole, st)
}
fn problem(seed: u64, n: usize, steiner: usize) -> CDT<()> {
    let (o, h, s) = input(seed, n, steiner);
    let mut seen: Vec<Point> = vec![];
    for p in s { if !seen.iter().any(|q| q.x == p.x && q.y == p.y) { seen.push(p) } }
    Builder::new(o).add_hole(h).add_steiner_points(seen).build()
}
fn list(seed: u64, n: usize, steiner: usize) -> Vec<u32> { problem(seed, n, steiner).triangulate().triangle_list_indices() }
fn watched(seed: u64, n: usize, steiner: usize) -> Vec<u32> { problem(seed, n, steiner).triangulate_with_observer(&mut Silent(0)).triangle_list_indices() }
fn fresh(seed: u64, n: usize, steiner: usize) -> Vec<u32> { std::thread::spawn(move || list(seed, n, steiner)).join().unwrap() }
fn fail(s: String) -> ! { println!("{s}"); std::process::exit(1) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "same" => for s in 0..150 {
            let (n, k) = (8 + (s as usize % 40), (s as usize * 7) % 300);
            if list(s, n, k) != watched(s, n, k) { fail(format!("input {s}: an observer changes the result")) }
        },
        "fan" => {
            // many points seen from one late point: one long legalization
            let n = 400;
            let mut o: Vec<Point> = (0..n).map(|i| { let a = 3.3 + 2.8 * i as f64 / n as f64; Point::new((1000. * a.cos()) as Float, (1000. * a.sin()) as Float) }).collect();
            o.push(Point::new(0.5 as Float, 5000. as Float));
            let run = |obs: bool| { let c = Builder::new(o.clone()).add_steiner_point(Point::new(3.3 as Float, -100.1 as Float), ()).build();
                if obs { c.triangulate_with_observer(&mut Silent(0)) } else { c.triangulate() }.triangle_list_indices() };
            if run(true) != run(false) { fail("an observer changes the result".into()) }
        }
        "twice" => for s in 0..60 {
            let x = list(s, 20, 60);
            for _ in 0..4 { if list(s, 20, 60) != x { fail(format!("input {s}: another run gives another result")) } }
        },
        "history" => for s in 0..60 {
            let (n, k) = (10 + (s as usize % 20), 40);
            let x = fresh(s, n, k);
            for t in 0..6 { list(s + t * 11 + 1, n, k); if list(s, n, k) != x { fail(format!("input {s}: the result depends on earlier runs")) } }
        },
        "stack" => {
            let h = std::thread::Builder::new().stack_size(256 * 1024).spawn(|| { let n = 30000;
                let o = (0..n).map(|i| { let a = i as f64 * 6.283185307179586 / n as f64; Point::new((1e5 * a.cos()) as Float, (100. * a.sin()) as Float) }).collect::<Vec<_>>();
                Builder::new(o).build().triangulate().triangle_list_indices().len() }).unwrap();
            if h.join().unwrap() != 3 * 29998 { fail("wrong number of triangles".into()) }
        }
        "mem" => {
            // address space of this process is limited by the script
            let x = list(3, 60, 30000);
            if x.is_empty() { fail("no triangles".into()) }
        }
        "dump" => for s in 0..60 { println!("{s} {:?}", list(s, 12 + s as usize % 20, 30)) },
        m => fail(format!("mode {m}")),
    }
}
