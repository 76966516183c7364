//! Checks what the public interface promises about supplied points, data, results and loaded files.
//! usage: demo MODE   (data list iter segs load sections)
use poly2tri_rs::{loader::{Loader, PlainFileLoader}, Builder, Point};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
    fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

fn fail(s: String) -> ! {
    println!("FAIL {}", s);
    std::process::exit(1);
}

fn square(cx: f64, cy: f64, r: f64, ccw: bool) -> Vec<(f64, f64)> {
    let mut v = vec![(cx - r, cy - r), (cx + r, cy - r * 1.01), (cx + r * 1.02, cy + r), (cx - r * 1.03, cy + r * 1.01)];
    if !ccw {
        v.reverse();
    }
    v
}

type Ps = Vec<(f64, f64)>;

/// outline, then operations on it: a hole, several holes, one steiner point, several
enum Op {
    Hole(Ps),
    Holes(Vec<Ps>),
    One((f64, f64)),
    Many(Ps),
}

fn plan(r: &mut Rng) -> (Ps, Vec<Op>) {
    // outline around cells; every cell takes one thing
    let n = 3 + r.below(4) as usize;
    let w = n as f64 * 10.0;
    let mut out = vec![(0.0, 0.0), (w, -0.5), (w + 0.3, w), (0.2, w + 0.7)];
    if r.below(2) == 0 {
        out.insert(1, (w * 0.5, -1.5));
        out.insert(3, (w + 1.1, w * 0.6));
    }
    if r.below(2) == 0 {
        out.reverse();
    }
    let mut cells: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).collect();
    for i in (1..cells.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        cells.swap(i, j);
    }
    let at = |r: &mut Rng, c: (usize, usize)| (c.0 as f64 * 10.0 + 4.0 + 2.0 * r.f(), c.1 as f64 * 10.0 + 4.0 + 2.0 * r.f());
    let mut ops = vec![];
    let mut left = cells.into_iter();
    let k = 1 + r.below(5);
    for _ in 0..k {
        match r.below(4) {
            0 => {
                if let Some(c) = left.next() {
                    let (x, y) = at(r, c);
                    ops.push(Op::Hole(square(x, y, 1.0 + 2.0 * r.f(), r.below(2) == 0)));
                }
            }
            1 => {
                let m = r.below(4) as usize;
                let mut hs = vec![];
                for c in left.by_ref().take(m) {
                    let (x, y) = at(r, c);
                    hs.push(square(x, y, 1.0 + 2.0 * r.f(), r.below(2) == 0));
                }
                ops.push(Op::Holes(hs));
            }
            2 => {
                if let Some(c) = left.next() {
                    ops.push(Op::One(at(r, c)));
                }
            }
            _ => {
                let m = r.below(4) as usize;
                let mut ps = vec![];
                for c in left.by_ref().take(m) {
                    for _ in 0..1 + r.below(20) {
                        ps.push(at(r, c));
                    }
                }
                ops.push(Op::Many(ps));
            }
        }
    }
    (out, ops)
}

fn pts(p: &Ps) -> Vec<Point> {
    p.iter().map(|a| Point::new(a.0 as _, a.1 as _)).collect()
}

/// supplies everything with labels; returns what was supplied, in order
fn supply(out: &Ps, ops: &[Op]) -> (Builder<u64>, Ps) {
    let mut all: Ps = vec![];
    let mut id = 0u64;
    let mut with = |ps: &Ps, all: &mut Ps| -> (Vec<Point>, Vec<u64>) {
        let d: Vec<u64> = ps.iter().map(|_| { id += 1; id - 1 }).collect();
        all.extend(ps.iter().cloned());
        (pts(ps), d)
    };
    let mut b = Builder::new(with(out, &mut all));
    for op in ops {
        b = match op {
            Op::Hole(h) => b.add_hole(with(h, &mut all)),
            Op::Holes(hs) => {
                let v: Vec<_> = hs.iter().map(|h| with(h, &mut all)).collect();
                b.add_holes(v)
            }
            Op::One(p) => {
                let (q, d) = with(&vec![*p], &mut all);
                b.add_steiner_point(q[0], d[0])
            }
            Op::Many(ps) => b.add_steiner_points(with(ps, &mut all)),
        };
    }
    (b, all)
}

fn area(p: &Ps) -> f64 {
    (0..p.len()).map(|i| { let (a, b) = (p[i], p[(i + 1) % p.len()]); a.0 * b.1 - a.1 * b.0 }).sum::<f64>().abs() / 2.0
}

fn data(count: u64) {
    for seed in 1..=count {
        let (out, ops) = plan(&mut Rng(seed * 7919 + 13));
        let (b, all) = supply(&out, &ops);
        let t = b.build().triangulate();
        if t.data().len() != all.len() {
            fail(format!("input {}: {} data for {} points", seed, t.data().len(), all.len()));
        }
        for (i, d) in t.data().iter().enumerate() {
            let want = Point::new(all[*d as usize].0 as _, all[*d as usize].1 as _);
            let got = t.points()[i];
            if got.x != want.x || got.y != want.y {
                fail(format!("input {}: datum {} is at the index of another point", seed, d));
            }
        }
    }
}

fn list(count: u64) {
    for seed in 1..=count {
        let (out, ops) = plan(&mut Rng(seed * 104729 + 7));
        let (b, all) = supply(&out, &ops);
        let t = b.build().triangulate();
        if t.points().len() != all.len() {
            fail(format!("input {}: {} points shown for {}", seed, t.points().len(), all.len()));
        }
        for (i, p) in t.points().iter().enumerate() {
            let want = Point::new(all[i].0 as _, all[i].1 as _);
            if p.x.to_bits() != want.x.to_bits() || p.y.to_bits() != want.y.to_bits() {
                fail(format!("input {}: point {} differs", seed, i));
            }
        }
    }
    // points that are on the left edge at zero, negative zero included
    let t = Builder::new(pts(&vec![(-0.0, -5.0), (10.0, -4.0), (9.0, 6.0), (-0.0, 7.0)])).build().triangulate();
    for (p, w) in t.points().iter().zip([-0.0, 10.0, 9.0, -0.0]) {
        let w = Point::new(w as _, 0.0);
        if p.x.to_bits() != w.x.to_bits() {
            fail("a zero coordinate lost its sign".into());
        }
    }
    // many points
    let n = 70000;
    let ps: Ps = (0..n).map(|i| (1.0 + 97.0 * (i % 300) as f64 / 300.0 + 0.01 * (i / 300) as f64 / 300.0, 1.0 + 97.0 * (i / 300) as f64 / 300.0)).collect();
    let out = vec![(0.0, 0.0), (100.0, -1.0), (100.5, 101.0), (-0.5, 100.0)];
    let t = Builder::new(pts(&out)).add_steiner_points(pts(&ps)).build().triangulate();
    if t.points().len() != n + 4 {
        fail(format!("{} points shown for {}", t.points().len(), n + 4));
    }
    for (i, p) in t.points().iter().skip(4).enumerate() {
        let w = Point::new(ps[i].0 as _, ps[i].1 as _);
        if p.x != w.x || p.y != w.y {
            fail(format!("point {} of many differs", i));
        }
    }
    let max = *t.triangle_list_indices().iter().max().unwrap_or(&0);
    if max as usize != n + 3 {
        fail(format!("largest index is {}", max));
    }
}

fn iter(count: u64) {
    for seed in 1..=count {
        let mut r = Rng(seed * 15485863 + 3);
        let (out, ops) = plan(&mut r);
        let (b, _) = supply(&out, &ops);
        let mut t = b.build().triangulate();
        let idx = t.triangle_list_indices();
        if idx.len() % 3 != 0 {
            fail(format!("input {}: {} indices", seed, idx.len()));
        }
        let points = t.points().to_vec();
        let mut k = 0;
        loop {
            if r.below(3) == 0 && t.triangle_list_indices() != idx {
                fail(format!("input {}: index list changes after {} triangles", seed, k));
            }
            match t.next() {
                Some(tr) => {
                    if 3 * k + 3 > idx.len() {
                        fail(format!("input {}: more triangles than index triples", seed));
                    }
                    for j in 0..3 {
                        let w = points[idx[3 * k + j] as usize];
                        if tr.points[j].x != w.x || tr.points[j].y != w.y {
                            fail(format!("input {}: corner {} of triangle {} differs", seed, j, k));
                        }
                    }
                    k += 1;
                }
                None => break,
            }
        }
        if 3 * k != idx.len() {
            fail(format!("input {}: {} triangles, {} indices", seed, k, idx.len()));
        }
        for _ in 0..3 {
            if t.next().is_some() {
                fail(format!("input {}: triangles after the end", seed));
            }
        }
    }
}

fn refused(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

fn segs(count: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    // a repeated consecutive point is refused, wherever it stands
    let base = vec![(0.0, 0.0), (10.0, 1.0), (12.0, 9.0), (5.0, 12.0), (-1.0, 8.0)];
    for i in 0..base.len() {
        let mut o = base.clone();
        o.insert(i, base[i]);
        if !refused(|| { Builder::new(pts(&o)); }) {
            fail(format!("outline with point {} twice in a row is accepted", i));
        }
        let big = vec![(-50.0, -50.0), (50.0, -51.0), (52.0, 50.0), (-49.0, 51.0)];
        if !refused(|| { Builder::new(pts(&big)).add_hole(pts(&o)); }) {
            fail(format!("hole with point {} twice in a row is accepted", i));
        }
        if !refused(|| { Builder::new(pts(&big)).add_holes(vec![pts(&o)]); }) {
            fail(format!("hole among holes with point {} twice in a row is accepted", i));
        }
    }
    let mut o = base.clone();
    o.push(base[0]);
    if !refused(|| { Builder::new(pts(&o)); }) {
        fail("outline closed by repeating its first point is accepted".into());
    }
    // shapes with level edges, started at every point
    let u = vec![(6.0, 5.0), (6.1, 10.2), (10.0, 10.0), (10.1, 0.0), (0.0, 0.1), (-0.1, 10.1), (4.0, 10.3), (4.1, 5.0)];
    for rot in 0..u.len() {
        for back in [false, true] {
            let mut o = u.clone();
            if back {
                o.reverse();
            }
            o.rotate_left(rot);
            let want = area(&o);
            let mut got = 0.0f64;
            let bad = refused(|| {
                for t in Builder::new(pts(&o)).build().triangulate() {
                    got += area(&t.points.iter().map(|q| (q.x as f64, q.y as f64)).collect());
                }
            });
            if bad || (got - want).abs() > 1e-6 * want {
                fail(format!("level shape {} {}: area {} instead of {}{}", rot, back, got, want, if bad { " (panic)" } else { "" }));
            }
        }
    }
    // the result fills exactly outline minus holes
    for seed in 1..=count {
        let (out, ops) = plan(&mut Rng(seed * 32452843 + 5));
        let mut want = area(&out);
        for op in &ops {
            match op {
                Op::Hole(h) => want -= area(h),
                Op::Holes(hs) => hs.iter().for_each(|h| want -= area(h)),
                _ => {}
            }
        }
        for rot in 0..out.len() {
            let mut o = out.clone();
            o.rotate_left(rot);
            let mut got = 0.0f64;
            let bad = refused(|| {
                let (b, _) = supply(&o, &ops);
                for t in b.build().triangulate() {
                    let p = t.points;
                    got += area(&p.iter().map(|q| (q.x as f64, q.y as f64)).collect());
                }
            });
            if bad || (got - want).abs() > 1e-6 * want {
                fail(format!("input {} rotated by {}: area {} instead of {}{}", seed, rot, got, want, if bad { " (panic)" } else { "" }));
            }
        }
    }
}

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn scratch() -> Scratch {
    let d = std::env::temp_dir().join(format!("p2t-load-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    Scratch(d)
}

fn load(d: &Scratch, text: &[u8]) -> Result<Result<Builder, String>, ()> {
    let p = d.0.join("f.dat");
    std::fs::write(&p, text).unwrap();
    let p = p.to_str().unwrap().to_string();
    catch_unwind(AssertUnwindSafe(|| PlainFileLoader::default().load(&p).map_err(|e| e.to_string()))).map_err(|_| ())
}

fn bad_files() {
    std::panic::set_hook(Box::new(|_| {}));
    let d = scratch();
    let gone = d.0.join("missing.dat");
    match catch_unwind(AssertUnwindSafe(|| PlainFileLoader::default().load(gone.to_str().unwrap()).is_err())) {
        Ok(true) => {}
        _ => { drop(d); fail("a missing file is not an error".into()) }
    }
    let dir = d.0.to_str().unwrap().to_string();
    match catch_unwind(AssertUnwindSafe(|| PlainFileLoader::default().load(&dir).is_err())) {
        Ok(true) => {}
        _ => { drop(d); fail("a directory is not an error".into()) }
    }
    let good = ["0 0\n10 0\n10 10\n0 10\n", "HOLE\n2 2\n3 2\n3 3\n2 3\n", "STEINER\n5 5\n6 7\n"];
    let bad: [&[u8]; 11] = [b"7\n", b"7 x\n", b"x 7\n", b"1e\n", b"1 2e\n", b"# 4 5\n", b"#4 5\n", b"4; 5\n", b"HOLES\n", b"\xff\xfe 4\n", b"3 4\xff\n"];
    let mut cases: Vec<Vec<u8>> = vec![];
    for upto in 0..=3 {
        for b in bad.iter() {
            let mut t: Vec<u8> = good[..upto].concat().into_bytes();
            t.extend_from_slice(b);
            cases.push(t.clone());
            for g in &good[upto..] {
                t.extend_from_slice(g.as_bytes());
            }
            cases.push(t);
        }
    }
    cases.push(b"0 0\n10 0\n10 10\n0 10\n\n7\n".to_vec());
    for t in cases {
        match load(&d, &t) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => { drop(d); fail(format!("accepted: {:?}", String::from_utf8_lossy(&t))) }
            Err(()) => { drop(d); fail(format!("panic: {:?}", String::from_utf8_lossy(&t))) }
        }
    }
    // a hole header in front of everything
    if !matches!(load(&d, b"HOLE\n2 2\n3 2\n3 3\n2 3\n"), Ok(Ok(_))) {
        drop(d);
        fail("a file that starts with a hole is refused".into());
    }
}

fn sections() {
    std::panic::set_hook(Box::new(|_| {}));
    let d = scratch();
    let out = [(0.0, 0.5), (100.0, 0.0), (101.0, 99.0), (-1.0, 102.0)];
    let holes = [[(10.0, 11.0), (20.0, 10.0), (21.0, 20.0), (9.0, 21.0)], [(40.0, 41.0), (50.0, 40.0), (51.0, 50.0), (39.0, 51.0)], [(70.0, 11.0), (80.0, 10.0), (81.0, 20.0), (69.0, 21.0)]];
    let st = [[(30.0, 70.0), (31.5, 75.0)], [(60.0, 80.0), (61.0, 82.5)], [(85.0, 60.0), (86.0, 63.0)]];
    // all orders of sections: 0..3 holes, 3..6 groups of steiner points
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    let mut r = Rng(99);
    for _ in 0..200 {
        let mut s: Vec<usize> = (0..6).collect();
        for i in (1..6).rev() {
            let j = r.below(i as u64 + 1) as usize;
            s.swap(i, j);
        }
        s.truncate(r.below(7) as usize);
        orders.push(s);
    }
    for s in orders {
        let line = |p: &(f64, f64)| format!("{} {}\n", p.0, p.1);
        let mut text: String = out.iter().map(line).collect();
        let mut want: Ps = out.to_vec();
        let mut stw: Ps = vec![];
        let mut a = area(&want);
        for (n, k) in s.iter().enumerate() {
            if n % 2 == 1 {
                text.push('\n');
            }
            if *k < 3 {
                text.push_str("HOLE\n");
                text.extend(holes[*k].iter().map(line));
                want.extend(holes[*k]);
                a -= area(&holes[*k].to_vec());
            } else {
                text.push_str("STEINER\n");
                text.extend(st[*k - 3].iter().map(line));
                stw.extend(st[*k - 3]);
            }
        }
        want.extend(stw);
        let b = match load(&d, text.as_bytes()) {
            Ok(Ok(b)) => b,
            _ => { drop(d); fail(format!("not loaded: sections {:?}", s)) }
        };
        let mut bad = None;
        if refused(|| {
            let t = b.build().triangulate();
            if t.points().len() != want.len() {
                bad = Some(format!("{} points for {}", t.points().len(), want.len()));
                return;
            }
            for (p, w) in t.points().iter().zip(&want) {
                let w = Point::new(w.0 as _, w.1 as _);
                if p.x != w.x || p.y != w.y {
                    bad = Some("points differ".to_string());
                    return;
                }
            }
            let got: f64 = t.map(|t| area(&t.points.iter().map(|q| (q.x as f64, q.y as f64)).collect())).sum();
            if (got - a).abs() > 1e-6 * a {
                bad = Some(format!("area {} for {}", got, a));
            }
        }) {
            bad = Some("panic".into());
        }
        if let Some(b) = bad {
            drop(d);
            fail(format!("sections {:?}: {}", s, b));
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "data" => data(300),
        "list" => list(300),
        "iter" => iter(300),
        "segs" => segs(60),
        "load" => bad_files(),
        "sections" => sections(),
        _ => std::process::exit(2),
    }
}
