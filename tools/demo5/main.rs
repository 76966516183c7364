//! a client that moves builders, problems and results between threads and clones them
use poly2tri_rs::*;
use std::thread;

fn sendable<T: Send + Sync + 'static>(t: T) -> T { t }
fn copied<T: Clone>(t: &T) -> T { t.clone() }
fn shared<T: Sync>(_: &T) {}
fn free<T: Copy + Send + Sync + 'static>(_: T) {}

fn main() {
    let square = vec![Point::new(0., 0.), Point::new(10., 0.), Point::new(10., 10.), Point::new(0., 10.)];
    let names: Vec<String> = (0..4).map(|i| format!("p{i}")).collect();
    let b = sendable(Builder::new((square, names)));
    let b2 = copied(&b).add_steiner_point(Point::new(4., 5.), "mid".to_string());
    let cdt = sendable(b.build());
    let cdt2 = copied(&b2.build());
    let again = copied(&cdt);
    let a = thread::spawn(move || sendable(cdt.triangulate())).join().unwrap();
    let c = thread::spawn(move || sendable(cdt2.triangulate())).join().unwrap();
    let d = again.triangulate();
    shared(&a);
    thread::scope(|s| {
        let h = s.spawn(|| a.triangle_list_indices());
        let k = s.spawn(|| (a.points().len(), a.data().len()));
        assert_eq!((h.join().unwrap(), k.join().unwrap()), (d.triangle_list_indices(), (4, 4)));
    });
    assert_eq!(c.triangle_list_indices().len(), 12);
    free(Point::new(1., 2.));
    free(TriangleId::INVALID);
    let pid: Option<PointId> = None;
    free(pid);
    println!("ok");
}
