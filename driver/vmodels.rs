//! Loop-shaped stand-ins for std routines whose real bodies work on raw buffers.
//! The exporter substitutes them for the std routine of the same meaning; they are
//! only ever analysed, never run.
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(*x);
    }
}
pub fn vec_extend_from_slice<T: Clone>(v: &mut Vec<T>, s: &[T]) {
    let mut it = s.iter();
    while let Some(x) = it.next() {
        v.push(x.clone());
    }
}
