use poly2tri_rs::*;
fn coords<T: AsPoint>(t: &T) -> (Float, Float) { let p = t.point(); (p.x, p.y) }
fn main() {
    let p = Point::new(1., 2.);
    assert_eq!(coords(&p), (1., 2.));
    assert_eq!(coords(&(p, "x")), (1., 2.));
    assert_eq!(coords(&([3. as Float, 4.], 7u8)), (3., 4.));
    assert_eq!(([3. as Float, 4.], 7u8).data(), 7);
    println!("ok");
}
