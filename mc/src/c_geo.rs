//! C25: mappings, points and small matrices. C26: the discrete problem under symmetries of its description.
use crate::cases::*;
use crate::ctx::*;
use crate::explore::*;
use crate::obs::*;
use crate::refm::*;
use crate::uni::{self, Grid};
use fem_2d::fem_domain::domain::mesh::element::{Element, Materials};
use fem_2d::fem_domain::domain::mesh::h_refinement::HRefLoc;
use fem_2d::fem_domain::domain::mesh::space::{ParaDir, Point, M2D, V2D};
use fem_2d::fem_domain::basis::HierCurlBasisFnSpace;
use fem_2d::prelude::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use crate::c_lin::single;
use crate::c_num::near;
use std::collections::BTreeMap;
use std::sync::Mutex;

// ------------------------------------------------------------------------------------------------ C25

/// equal up to the rounding of terms of the given size
fn round(got: f64, want: f64, size: f64) -> bool {
    got == want || (got - want).abs() <= 1e-15 * size
}

fn vec_is(got: V2D, want: [f64; 2], size: [f64; 2], what: &dyn Fn() -> String) -> Result<(), String> {
    ensure!((0..2).all(|k| round(got[k], want[k], size[k])) && got.x() == got[0] && got.y() == got[1], "{}: ({:e}, {:e}) instead of {want:?}", what(), got[0], got[1]);
    Ok(())
}

/// every pair of vectors and matrices with entries in a set
fn arithmetic(ctx: &Ctx, vals: Vec<f64>, mats: Vec<f64>) {
    let pairs_of = |vals: &[f64]| -> Vec<[f64; 2]> { (0..vals.len() * vals.len()).map(|c| [vals[c % vals.len()], vals[c / vals.len()]]).collect() };
    let pairs = pairs_of(&vals);
    let abs = |v: [f64; 2]| [v[0].abs(), v[1].abs()];
    par_for(ctx, &pairs, |&a| {
        single(ctx, format!("vector {a:?}"), &|| {
            let va = V2D::from(a);
            vec_is(va, a, [0.0; 2], &|| "a vector".into())?;
            for &b in &pairs {
                ctx.step();
                let vb = V2D::from(b);
                let w = |n: &str| format!("{a:?} {n} {b:?}");
                let times = [a[0] * b[0], a[1] * b[1]];
                let (dot, size) = (times[0] + times[1], times[0].abs() + times[1].abs());
                ensure!(round(va.dot_with(&vb), dot, size) && round(V2D::dot(va, vb), dot, size), "{}: {:e} and {:e}", w("dot"), va.dot_with(&vb), V2D::dot(va, vb));
                let sum = [a[0] + b[0], a[1] + b[1]];
                vec_is(va + vb, sum, abs(sum), &|| w("plus"))?;
                vec_is(va * vb, times, abs(times), &|| w("times"))?;
                vec_is(va * &vb, times, abs(times), &|| w("times"))?;
                if b[0] != 0.0 && b[1] != 0.0 {
                    let over = [a[0] / b[0], a[1] / b[1]];
                    vec_is(va / vb, over, abs(over), &|| w("over"))?;
                }
            }
            for &c in &vals {
                let times = [a[0] * c, a[1] * c];
                vec_is(va * c, times, abs(times), &|| format!("{a:?} times {c:e}"))?;
                if c != 0.0 {
                    let over = [a[0] / c, a[1] / c];
                    vec_is(va / c, over, abs(over), &|| format!("{a:?} over {c:e}"))?;
                }
            }
            Ok(())
        });
    });
    let pairs = pairs_of(&mats);
    let n = pairs.len();
    let rows: Vec<(usize, usize)> = (0..n * n).map(|c| (c % n, c / n)).collect();
    let flat = |m: &M2D| [m.u[0], m.u[1], m.v[0], m.v[1]];
    par_for(ctx, &rows, |&(r0, r1)| {
        let a = [pairs[r0], pairs[r1]];
        single(ctx, format!("matrix {a:?}"), &|| {
            let m = M2D::from(a[0], a[1]);
            ensure!(flat(&m) == [a[0][0], a[0][1], a[1][0], a[1][1]], "the entries of the matrix are {:?}", flat(&m));
            let (t0, t1) = (a[0][0] * a[1][1], a[0][1] * a[1][0]);
            let (det, size) = (t0 - t1, t0.abs() + t1.abs());
            ensure!(round(m.det(), det, size), "determinant {:e} instead of {det:e}", m.det());
            ensure!(flat(&m.transpose()) == [a[0][0], a[1][0], a[0][1], a[1][1]], "transpose {:?}", flat(&m.transpose()));
            for &c in &mats {
                if c != 0.0 {
                    let q = flat(&(m / c));
                    ensure!((0..4).all(|k| { let w = a[k / 2][k % 2] / c; round(q[k], w, w.abs()) }), "over {c:e}: {q:?}");
                }
            }
            if det.abs() > 1e-3 * size {
                let i = m.inverse();
                let want = [a[1][1] / det, -a[0][1] / det, -a[1][0] / det, a[0][0] / det];
                ensure!(flat(&i).iter().zip(&want).all(|(x, y)| (x - y).abs() <= 1e-12 * y.abs()), "inverse {:?} instead of {want:?}", flat(&i));
            }
            let e2 = |r: usize, b: [f64; 2]| (a[r][0] * b[0] + a[r][1] * b[1], (a[r][0] * b[0]).abs() + (a[r][1] * b[1]).abs());
            for b in &pairs {
                let (x, y) = (e2(0, *b), e2(1, *b));
                vec_is(m * V2D::from(*b), [x.0, y.0], [x.1, y.1], &|| format!("times vector {b:?}"))?;
            }
            for &(s0, s1) in &rows {
                ctx.step();
                let b = [pairs[s0], pairs[s1]];
                let p = flat(&(m * M2D::from(b[0], b[1])));
                for k in 0..4 {
                    let (w, size) = e2(k / 2, [b[0][k % 2], b[1][k % 2]]);
                    ensure!(round(p[k], w, size), "product with {b:?}: {p:?}, entry {k} instead of {w:e}");
                }
            }
            Ok(())
        });
    });
}

const LOCS: [(HRefLoc, usize, [[i32; 2]; 2]); 8] = [
    (HRefLoc::SW, 0, [[0, 1], [0, 1]]),
    (HRefLoc::SE, 1, [[1, 2], [0, 1]]),
    (HRefLoc::NW, 2, [[0, 1], [1, 2]]),
    (HRefLoc::NE, 3, [[1, 2], [1, 2]]),
    (HRefLoc::W, 0, [[0, 1], [0, 2]]),
    (HRefLoc::E, 1, [[1, 2], [0, 2]]),
    (HRefLoc::S, 0, [[0, 2], [0, 1]]),
    (HRefLoc::N, 1, [[0, 2], [1, 2]]),
];

/// every sequence of child positions up to a depth, from every range
fn sub_ranges(ctx: &Ctx) {
    let starts: Vec<[f64; 2]> = vec![[-1.0, 1.0], [0.0, 1.0], [-0.5, -0.25], [2.0, 6.0], [-1024.0, 1024.0]];
    let mut tasks = vec![];
    for u in &starts {
        for v in &starts {
            tasks.push([*u, *v]);
        }
    }
    fn go(ctx: &Ctx, r: [[f64; 2]; 2], depth: usize) -> Result<(), String> {
        for (l, idx, at) in LOCS {
            ctx.step();
            ensure!(l.index() == idx, "child index of {l:?} is {}", l.index());
            let part = |k: usize| {
                let h = (r[k][1] - r[k][0]) / 2.0;
                [r[k][0] + h * at[k][0] as f64, r[k][0] + h * at[k][1] as f64]
            };
            let want = [part(0), part(1)];
            let got = l.sub_range(r);
            ensure!(got == want && l.sub_u_range(r[0]) == want[0] && l.sub_v_range(r[1]) == want[1], "{l:?} of {r:?} is {got:?}, {:?} and {:?} instead of {want:?}", l.sub_u_range(r[0]), l.sub_v_range(r[1]));
            if depth > 1 {
                go(ctx, got, depth - 1)?;
            }
        }
        Ok(())
    }
    par_for(ctx, &tasks, |r| single(ctx, format!("ranges from {r:?}"), &|| go(ctx, *r, ctx.pick(4, 6))));
}

fn hash(p: &Point) -> u64 {
    let mut h = DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}

/// every pair (and triple) of coordinates around the accuracy of positions
fn points(ctx: &Ctx) {
    // base values are multiples of the accuracy; offsets are well below, or well above it
    let base: Vec<f64> = ctx.pick(vec![-7.25, -1.0, -1e-6, 0.0, 0.3, 1.0, 2.5, 99.999], vec![-1000.5, -7.25, -1.0, -0.999999, -0.1, -1e-6, 0.0, 1e-9, 0.3, 0.7, 1.0, 1.9, 2.5, 99.999, 512.0]);
    let tiny = [0.0, 1e-13, -1e-13];
    let small = [1e-11, -1e-11, 1e-7, -1e-3];
    // (coordinate, class): equal classes are one position
    let mut cs: Vec<(f64, i64)> = vec![];
    for b in &base {
        for t in tiny {
            cs.push((b + t, (b * 1e12).round() as i64));
        }
        for s in small {
            cs.push((b + s, ((b + s) * 1e12).round() as i64));
        }
    }
    cs.push((-0.0, 0));
    for x in [1e6, -1e6, 123456.789, 1e12, 1e15 + 0.5, -3e9] {
        cs.push((x, if x.abs() > 1e6 { (x * 1e3) as i64 + i64::MAX.signum() * (1 << 62) } else { (x * 1e12).round() as i64 }));
    }
    let fix = cs.clone();
    // order of classes follows the values
    let less = |a: (f64, i64), b: (f64, i64)| if a.1 == b.1 { Ordering::Equal } else { a.0.partial_cmp(&b.0).unwrap() };
    par_for(ctx, &cs, |&a| {
        single(ctx, format!("coordinate {:e}", a.0), &|| {
            for &b in &fix {
                for o in [-2.0, 0.5] {
                    ctx.step();
                    let (p, q) = (Point::new(a.0, o), Point::from([b.0, o]));
                    let (pt, qt) = (Point::new(o, a.0), Point::from([o, b.0]));
                    let w = || format!("coordinates {:e} and {:e}", a.0, b.0);
                    let same = a.1 == b.1;
                    ensure!((p == q) == same && (q == p) == same && (pt == qt) == same, "{}: equality", w());
                    if same {
                        ensure!(hash(&p) == hash(&q) && hash(&pt) == hash(&qt), "{}: equal points with different hashes", w());
                    }
                    ensure!(p.x_order(&q) == less(a, b) && pt.y_order(&qt) == less(a, b), "{}: order {:?} and {:?} instead of {:?}", w(), p.x_order(&q), pt.y_order(&qt), less(a, b));
                    ensure!(p.y_order(&q) == Ordering::Equal && pt.x_order(&qt) == Ordering::Equal, "{}: order of equal coordinates", w());
                    let d = (a.0 - b.0).abs();
                    ensure!(round(p.dist(&q), d, 4.0 * d) && round(pt.dist(&qt), d, 4.0 * d), "{}: distance {}", w(), p.dist(&q));
                    let (m, mt) = (Point::between(&p, &q), Point::between(&pt, &qt));
                    let (half, big) = ((a.0 + b.0) / 2.0, a.0.abs() + b.0.abs());
                    ensure!(round(m.x, half, big) && m.y == o && round(mt.y, half, big) && mt.x == o, "{}: middle ({}, {})", w(), m.x, m.y);
                    let (s, h) = (p + q, p / 4.0);
                    ensure!(s.x == a.0 + b.0 && s.y == 2.0 * o && h.x == a.0 / 4.0 && h.y == o / 4.0, "{}: sum or quotient", w());
                    // derived points compare like new ones
                    ensure!(m == Point::new(m.x, m.y) && s == Point::new(s.x, s.y) && h == Point::new(h.x, h.y), "{}: a derived point differs from itself", w());
                    if !same {
                        ensure!(p.orientation_with(&q) == ParaDir::U && pt.orientation_with(&qt) == ParaDir::V, "{}: direction of a straight line", w());
                        let e = Element::new(0, [Point::default(); 4], Materials::default());
                        ensure!(e.order_points(&p, &q) == less(a, b) && e.order_points(&pt, &qt) == less(a, b), "{}: order along the line", w());
                    }
                }
            }
            Ok(())
        });
    });
    // slanted lines: the direction is the one of the larger difference
    let g: Vec<f64> = vec![-3.0, -1.0, -0.25, 0.0, 0.5, 1.0, 4.0, 1000.0];
    par_for(ctx, &g, |&x| {
        single(ctx, format!("lines from {x}"), &|| {
            for &y in &g {
                for &a in &g {
                    for &b in &g {
                        ctx.step();
                        let (p, q) = (Point::new(x, y), Point::new(a, b));
                        let (dx, dy) = ((x - a).abs(), (y - b).abs());
                        ensure!(near(p.dist(&q), dx.hypot(dy), 1e-14) && p.dist(&q) == q.dist(&p), "distance of ({x},{y}) and ({a},{b}) is {}", p.dist(&q));
                        ensure!((p == q) == (x == a && y == b), "equality of ({x},{y}) and ({a},{b})");
                        if p == q {
                            ensure!(guard(|| p.orientation_with(&q)).is_err(), "a direction between equal points ({x},{y})");
                        } else if dx != dy {
                            let want = if dx > dy { ParaDir::U } else { ParaDir::V };
                            ensure!(p.orientation_with(&q) == want && q.orientation_with(&p) == want, "direction of ({x},{y}) to ({a},{b})");
                        }
                    }
                }
            }
            Ok(())
        });
    });
}

/// the mapping of every element over ranges of it
fn mappings(ctx: &Ctx) {
    let ends = [-1.0, -0.5, 0.0, 0.125, 0.75, 1.0];
    let spots = [[-1.0, -1.0], [0.3, -0.9], [0.0, 0.0], [1.0, 0.5]];
    let f = |s: &St| -> Result<(), String> {
        for (id, e) in s.mesh.elems.iter().enumerate() {
            let me = s.m.refi[id];
            let root = s.r.elems[me].root;
            let (i, j) = s.r.cells[root];
            let (w, h) = (s.r.xs[i + 1] - s.r.xs[i], s.r.ys[j + 1] - s.r.ys[j]);
            let far = s.r.xs.iter().chain(&s.r.ys).fold(1.0f64, |m, x| m.max(x.abs()));
            let tol = 1e-15 * far * 16.0;
            // ids of ancestors and their positions lead to the element's range
            let path = e.loc_stack().iter().fold([[-1.0, 1.0], [-1.0, 1.0]], |r, (_, l)| l.sub_range(r));
            ensure!(path == e.parametric_range(), "element {id}: the positions on its path give {path:?}, its range is {:?}", e.parametric_range());
            for (k, (a, _)) in e.loc_stack().iter().enumerate() {
                let rel = e.loc_stack()[k..].iter().fold([[-1.0, 1.0], [-1.0, 1.0]], |r, (_, l)| l.sub_range(r));
                ensure!(rel == e.relative_parametric_range(*a), "element {id}: range relative to {a}");
            }
            let [pu, pv] = e.parametric_range();
            let q = s.r.real_rect(me);
            let mut list = vec![([pu, pv], (q[1] - q[0]) / 2.0, (q[3] - q[2]) / 2.0)];
            for a in 0..ends.len() {
                for b in a + 1..ends.len() {
                    let (u, v) = ([ends[a], ends[b]], [ends[(a * 2) % 5], 1.0]);
                    list.push(([u, v], w * (u[1] - u[0]) / 4.0, h * (v[1] - v[0]) / 4.0));
                    list.push(([v, u], w * (v[1] - v[0]) / 4.0, h * (u[1] - u[0]) / 4.0));
                }
            }
            for (r, x, y) in list {
                for p in spots {
                    ctx.step();
                    for m in [e.parametric_mapping(V2D::from(p), r), e.element.parametric_mapping(V2D::from(p), r)] {
                        ensure!((m.u[0] - x).abs() <= tol && (m.v[1] - y).abs() <= tol && m.u[1] == 0.0 && m.v[0] == 0.0, "element {id}: mapping of {r:?} is ({}, {}; {}, {}) instead of ({x}, 0; 0, {y})", m.u[0], m.u[1], m.v[0], m.v[1]);
                    }
                }
            }
        }
        Ok(())
    };
    let visit = |_: Option<&St>, s: &St| f(s);
    for g in [uni::unit(), uni::rect1(), uni::square4s(), uni::lshape(), uni::odd2(), uni::horiz2s().scaled(1e3, -4e3, 1.0), uni::vert2().scaled(0.004, 0.0, 0.0)] {
        explore(ctx, &g, &Opts { kinds: &ALL, depth: ctx.pick(2, 3), dedupe: true }, &visit, &|_| Ok(()));
        chains(ctx, &g, 0, 1, 15, &visit);
        lead_chains(ctx, &g, g.cells.len() - 1, ctx.pick(6, 15), &visit);
    }
    for g in uni::vast() {
        chains(ctx, &g, 0, 1, 35, &visit);
    }
}

pub fn c25() -> i32 {
    let ctx = Ctx::new("C25");
    // values whose products are exact, and values of no short binary form and of very different sizes
    arithmetic(&ctx, ctx.pick(vec![-2.0, 0.0, 0.5, 3.0], vec![-4.0, -1.0, 0.0, 0.25, 1.0, 3.0]), ctx.pick(vec![-2.0, 0.0, 0.5, 3.0], vec![-4.0, -1.0, 0.0, 0.25, 1.0, 3.0]));
    arithmetic(&ctx, vec![0.1, -1.0 / 3.0, 12345678.9, -7.7e-9, 0.0, 1e30 / 3.0, 2e-30 / 7.0], vec![0.1, -1.0 / 3.0, 12345678.9, -7.7e-9]);
    sub_ranges(&ctx);
    points(&ctx);
    mappings(&ctx);
    ctx.finish(
        "model_checking",
        "all pairs of small vectors and matrices over a value set with exact products; every sequence of child positions to the stated depth from 25 ranges; all pairs of coordinates around the accuracy of positions, all pairs of points of a grid; every element of every refinement tree to the stated depth and of chains to the size limit, over its own range and thirty others",
        &["coordinates whose difference lies between 0.3 and 3 times the accuracy are not judged", "lines at exactly 45 degrees may have either direction", "NaN and infinite coordinates are not explored"],
    )
}

// ------------------------------------------------------------------------------------------------ C26

/// a change of the description of one physical configuration
#[derive(Clone, Copy, Debug)]
struct Sym {
    mirror_x: bool,
    mirror_y: bool,
    swap: bool,
    /// cells listed in this rotation, reversed or not; node numbering likewise
    cells: usize,
    nodes: usize,
    scale: f64,
    shift: [f64; 2],
    /// choose refinements from the last possible one
    late: bool,
}
const SAME: Sym = Sym { mirror_x: false, mirror_y: false, swap: false, cells: 0, nodes: 0, scale: 1.0, shift: [0.0, 0.0], late: false };

impl Sym {
    fn kind(&self, k: Kind) -> Kind {
        let flip = |b: bool, c: usize| if b { 1 - c } else { c };
        // the extended child is west/east for U, south/north for V
        let (u, c) = match k {
            Kind::T => return Kind::T,
            Kind::U | Kind::U0 | Kind::U1 => (true, k.ext().map(|c| flip(self.mirror_x, c))),
            _ => (false, k.ext().map(|c| flip(self.mirror_y, c))),
        };
        match (u != self.swap, c) {
            (true, None) => Kind::U,
            (true, Some(0)) => Kind::U0,
            (true, _) => Kind::U1,
            (false, None) => Kind::V,
            (false, Some(0)) => Kind::V0,
            (false, _) => Kind::V1,
        }
    }
    fn rect(&self, r: Rect) -> Rect {
        let [mut x0, mut x1, mut y0, mut y1] = r;
        if self.mirror_x {
            (x0, x1) = (-x1, -x0);
        }
        if self.mirror_y {
            (y0, y1) = (-y1, -y0);
        }
        if self.swap {
            return [y0, y1, x0, x1];
        }
        [x0, x1, y0, y1]
    }
    /// the grid after the change, and the new index of every cell
    fn grid(&self, g: &Grid) -> (Grid, Vec<usize>) {
        let mut n = g.clone();
        n.unit = false;
        let (nx, ny) = (g.xs.len(), g.ys.len());
        if self.mirror_x {
            n.xs = g.xs.iter().rev().map(|x| -x).collect();
            n.cells.iter_mut().for_each(|c| c.0 = nx - 2 - c.0);
            n.nodes.iter_mut().for_each(|c| c.0 = nx - 1 - c.0);
        }
        if self.mirror_y {
            n.ys = g.ys.iter().rev().map(|x| -x).collect();
            n.cells.iter_mut().for_each(|c| c.1 = ny - 2 - c.1);
            n.nodes.iter_mut().for_each(|c| c.1 = ny - 1 - c.1);
        }
        if self.swap {
            std::mem::swap(&mut n.xs, &mut n.ys);
            n.cells.iter_mut().for_each(|c| *c = (c.1, c.0));
            n.nodes.iter_mut().for_each(|c| *c = (c.1, c.0));
        }
        n.xs.iter_mut().for_each(|x| *x = *x * self.scale + self.shift[0]);
        n.ys.iter_mut().for_each(|x| *x = *x * self.scale + self.shift[1]);
        // listing orders
        let list = |k: usize, len: usize| -> Vec<usize> {
            let mut v: Vec<usize> = (0..len).collect();
            v.rotate_left(k / 2 % len);
            if k % 2 == 1 {
                v.reverse();
            }
            v
        };
        let order = list(self.cells, g.cells.len());
        n.cells = order.iter().map(|k| n.cells[*k]).collect();
        n.materials = order.iter().map(|k| n.materials[*k]).collect();
        n.nodes = list(self.nodes, n.nodes.len()).iter().map(|k| n.nodes[*k]).collect();
        let new = (0..g.cells.len()).map(|k| order.iter().position(|o| *o == k).unwrap()).collect();
        n.name = format!("{}~{}{}{}{}_{}_{:e}_{:e}_{:e}", g.name, self.mirror_x as u8, self.mirror_y as u8, self.swap as u8, self.cells, self.nodes, self.scale, self.shift[0], self.shift[1]);
        (n, new)
    }
    /// the corresponding history and orders on the changed grid
    fn apply(&self, ctx: &Ctx, g: &Grid, s: &St) -> Result<St, String> {
        let (n, new) = self.grid(g);
        // positions inside a cell are relative to its lower-left corner: made symmetric by centring
        let rel = |s: &St, e: usize| -> (usize, Rect) {
            let q = &s.r.elems[e];
            let (i, j) = s.r.cells[q.root];
            let (cx, cy) = ((2 * i as i64 + 1) * UNIT, (2 * j as i64 + 1) * UNIT);
            (q.root, [2 * q.rect[0] - cx, 2 * q.rect[1] - cx, 2 * q.rect[2] - cy, 2 * q.rect[3] - cy])
        };
        let mut t = loaded(ctx, &n)?;
        let find = |t: &St, want: (usize, Rect)| -> Option<usize> { t.r.leaves().into_iter().find(|e| rel(t, *e) == want) };
        let mut left: Vec<((usize, Rect), Kind)> = s
            .hist
            .iter()
            .map(|&(e, k)| {
                let (root, r) = rel(s, e);
                ((new[root], self.rect(r)), self.kind(k))
            })
            .collect();
        while !left.is_empty() {
            let mut order: Vec<usize> = (0..left.len()).collect();
            if self.late {
                order.reverse();
            }
            let Some((k, e)) = order.into_iter().find_map(|k| find(&t, left[k].0).map(|e| (k, e))) else {
                return Err("the corresponding refinements cannot be applied".into());
            };
            let (_, kind) = left.remove(k);
            t = t.step(e, kind)?;
        }
        // corresponding orders, for every element (leaf or not)
        let mut o = vec![[0u8; 2]; t.r.elems.len()];
        ensure!(o.len() == s.r.elems.len(), "{} elements instead of {}", o.len(), s.r.elems.len());
        for e in 0..s.r.elems.len() {
            let (root, r) = rel(s, e);
            let want = (new[root], self.rect(r));
            let x = s.r.elems[e].orders;
            // an element may have the rectangle of no other
            let Some(f) = (0..o.len()).find(|f| rel(&t, *f) == want) else { return Err("an element has no counterpart".into()) };
            o[f] = if self.swap { [x[1], x[0]] } else { x };
        }
        with_orders(&t, &o)
    }
}

/// each changed grid is loaded once
fn loaded(ctx: &Ctx, g: &Grid) -> Result<St, String> {
    static CACHE: Mutex<BTreeMap<String, St>> = Mutex::new(BTreeMap::new());
    let key = format!("{} {:?}", g.name, g.materials);
    let mut c = CACHE.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(s) = c.get(&key) {
        return Ok(s.clone());
    }
    let s = guard(|| St::start(ctx, g)).map_err(|p| format!("loading panicked: {p}"))??;
    c.insert(key, s.clone());
    Ok(s)
}

/// matrices of the problem, scaled to a unit diagonal of B
pub fn assembled<S: HierCurlBasisFnSpace>(s: &St, glq: Option<[usize; 2]>) -> Result<(usize, Vec<f64>, Vec<f64>), String> {
    let d = domain(s)?;
    let n = d.dofs.len();
    if n == 0 {
        return Ok((0, vec![], vec![]));
    }
    let g = guard(|| galerkin_sample_gep_hcurl::<S, CurlCurl, L2Inner>(&d, glq)).map_err(|p| format!("assembly panicked: {p}"))?.map_err(|e| format!("assembly: {e}"))?;
    let [a, b] = g.to_nalgebra_dense_mats();
    let (a, b): (Vec<f64>, Vec<f64>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
    // unit diagonal of B: the basis is badly scaled
    let c: Vec<f64> = (0..n).map(|k| b[k * n + k].sqrt()).collect();
    let sc = |m: &[f64]| -> Vec<f64> { (0..n * n).map(|k| m[k] / (c[k / n] * c[k % n])).collect() };
    Ok((n, sc(&a), sc(&b)))
}

/// how many generalized eigenvalues lie below `at`: the negative pivots of A - at B
fn below(n: usize, a: &[f64], b: &[f64], at: f64) -> usize {
    let mut m: Vec<f64> = a.iter().zip(b).map(|(x, y)| x - at * y).collect();
    let mut count = 0;
    for k in 0..n {
        let p = m[k * n + k];
        count += (p < 0.0) as usize;
        for r in k + 1..n {
            let f = m[r * n + k] / p;
            if f != 0.0 {
                let (top, low) = m.split_at_mut(r * n);
                for c in k + 1..n {
                    low[c] -= f * top[k * n + c];
                }
            }
        }
    }
    count
}

/// number of unknowns n, and the sum of log(eigenvalue + s) over all n eigenvalues for a list of shifts s (times f, minus n log f)
pub struct Sums {
    pub n: usize,
    pub sums: Vec<f64>,
}
const SHIFTS: [f64; 5] = [0.02, 0.7, 9.0, 130.0, 4000.0];

fn sums(s: &St, f: f64) -> Result<Sums, String> {
    sums_with::<HierPoly>(s, f, None)
}

pub fn sums_with<S: HierCurlBasisFnSpace>(s: &St, f: f64, glq: Option<[usize; 2]>) -> Result<Sums, String> {
    let (n, a, b) = assembled::<S>(s, glq)?;
    let logdet = |m: &[f64]| -> Option<f64> { crate::c_lin::cholesky(n, m).map(|l| (0..n).map(|k| 2.0 * l[k * n + k].ln()).sum()) };
    let base = logdet(&b).ok_or("B is not positive definite")?;
    let mut v = vec![];
    for s in SHIFTS {
        let m: Vec<f64> = a.iter().zip(&b).map(|(x, y)| x + s * f * y).collect();
        v.push(logdet(&m).ok_or("A plus a multiple of B is not positive definite")? - base - n as f64 * f.ln());
    }
    Ok(Sums { n, sums: v })
}

pub fn agree(what: &str, got: &Sums, want: &Sums) -> Result<(), String> {
    ensure!(got.n == want.n, "{what}: {} degrees of freedom instead of {}", got.n, want.n);
    for (k, (x, y)) in got.sums.iter().zip(&want.sums).enumerate() {
        ensure!((x - y).abs() <= 1e-8 * (1.0 + got.n as f64), "{what}: the sum of log(eigenvalue + {}) is {x} instead of {y}", SHIFTS[k]);
    }
    Ok(())
}

fn syms(cells: usize) -> Vec<Sym> {
    let mut v = vec![];
    for b in 0..8 {
        v.push(Sym { mirror_x: b & 1 > 0, mirror_y: b & 2 > 0, swap: b & 4 > 0, ..SAME });
        v.push(Sym { mirror_x: b & 4 > 0, mirror_y: b & 1 > 0, swap: b & 2 > 0, cells: b, nodes: 2 * b + 1, late: true, ..SAME });
    }
    for c in 1..2 * cells {
        v.push(Sym { cells: c, ..SAME });
    }
    for n in [1, 2, 3, 5] {
        v.push(Sym { nodes: n, ..SAME });
    }
    for scale in [0.00390625, 0.125, 4.0, 1024.0] {
        for shift in [[0.0, 0.0], [-3.0, 0.5], [64.0, -128.0]] {
            v.push(Sym { scale, shift, ..SAME });
        }
    }
    v.push(Sym { shift: [1.25, -7.5], ..SAME });
    v.push(Sym { late: true, ..SAME });
    v
}

fn c26_case(ctx: &Ctx, g: &Grid, s: &St, syms: &[Sym]) -> Result<(), String> {
    let base = sums(s, 1.0)?;
    for x in syms {
        ctx.step();
        let t = x.apply(ctx, g, s).map_err(|w| format!("{x:?}: {w}"))?;
        let got = sums(&t, 1.0 / (x.scale * x.scale)).map_err(|w| format!("{x:?}: {w}"))?;
        ctx.valid();
        agree(&format!("{x:?}"), &got, &base)?;
    }
    // materials
    for (eps, mu) in [(4.0, 1.0), (1.0, 8.0), (0.5, 0.25), (1e-12, 1.0), (1.0, 1e-12), (1e12, 1e-9), (3e-9, 1e12)] {
        ctx.step();
        let mut h = g.clone();
        h.unit = false;
        h.materials.iter_mut().for_each(|m| {
            m[0] *= eps;
            m[2] *= mu;
        });
        let t = SAME.apply(ctx, &h, s).map_err(|w| format!("materials times {eps} {mu}: {w}"))?;
        agree(&format!("permittivity times {eps}, permeability times {mu}"), &sums(&t, 1.0 / (eps * mu))?, &base)?;
    }
    Ok(())
}

/// rectangular cavities: the lowest eigenvalues are known
fn cavities(ctx: &Ctx) {
    let pi2 = std::f64::consts::PI.powi(2);
    let mut plans: Vec<(Grid, usize, u8)> = vec![(uni::unit(), 1, 7), (uni::rect1(), 1, 7), (uni::horiz2s(), ctx.pick(0, 1), 6), (uni::vert2(), ctx.pick(0, 1), 6), (uni::odd2(), ctx.pick(0, 1), 6)];
    if ctx.thorough() {
        plans.push((uni::unit(), 2, 6));
        plans.push((uni::square4s(), 1, 6));
    }
    for (mut g, depth, order) in plans {
        let m = [2.0, 0.0, 0.5, 0.0];
        g.materials.iter_mut().for_each(|x| *x = m);
        g.unit = false;
        g.name = format!("cavity_{}_{}", g.name, depth);
        let (a, b) = (g.xs.last().unwrap() - g.xs[0], g.ys.last().unwrap() - g.ys[0]);
        let mut exact: Vec<f64> = (0..40).flat_map(|m| (0..40).map(move |n| (m, n))).filter(|k| *k != (0, 0)).map(|(m, n)| pi2 * ((m as f64 / a).powi(2) + (n as f64 / b).powi(2))).collect();
        exact.sort_by(|x, y| x.partial_cmp(y).unwrap());
        let mut states = collect_with(ctx, &g, &BASIC, depth, true);
        let at_top = states.len();
        if g.cells.len() == 1 {
            states.extend(deep_states(ctx, &g, 1, ctx.pick(9, 12), None, ctx.pick(9, 3)).into_iter().filter(|s| s.hist.len() > 2));
        }
        let deep = states.split_off(at_top);
        // eps mu = 1
        let judge = |s: &St, lowest: usize| -> Result<(), String> {
            ctx.step();
            ctx.valid();
            let (n, a, b) = assembled::<HierPoly>(s, None)?;
            // the curl-free fields of the space
            let zero = below(n, &a, &b, 1e-3 * exact[0]);
            for k in 0..lowest {
                // approached from above
                let fewer = exact.iter().filter(|x| **x < exact[k] * (1.0 - 1e-9)).count();
                let (lo, hi) = (below(n, &a, &b, exact[k] * (1.0 - 1e-8)) - zero, below(n, &a, &b, exact[k] * 1.01) - zero);
                ensure!(lo <= fewer, "{lo} positive eigenvalues lie below {}, the cavity has {fewer}", exact[k]);
                ensure!(hi > k, "{hi} positive eigenvalues lie below {} instead of {}", exact[k] * 1.01, k + 1);
            }
            Ok(())
        };
        for_states(ctx, &states, &[[order, order]], &[], 0, &|s| judge(s, ctx.pick(3, 4)));
        // a deep tree holds both tiny and large cells: with high orders, what rounding leaves of the zeros would come near the lowest eigenvalues
        for_states(ctx, &deep, &[[5, 5]], &[], 0, &|s| judge(s, 2));
    }
}

pub fn c26() -> i32 {
    let ctx = Ctx::new("C26");
    let few: Vec<[u8; 2]> = ctx.pick(vec![[3, 2]], vec![[2, 1], [1, 2], [3, 2]]);
    let mut plans: Vec<Plan> = vec![
        Plan { grid: uni::unit(), kinds: &BASIC, depth: 2, max_elems: 14, bases: vec![[2, 2]], alt: vec![[3, 1]], dev: ctx.pick(0, 1), dedupe: true },
        Plan { grid: uni::unit(), kinds: &ALL, depth: 1, max_elems: 14, bases: vec![[2, 3], [1, 2]], alt: few.to_vec(), dev: 1, dedupe: true },
        Plan { grid: uni::rect1(), kinds: &BASIC, depth: 1, max_elems: 14, bases: vec![[3, 2], [4, 4]], alt: few.to_vec(), dev: 1, dedupe: true },
        Plan { grid: uni::horiz2s(), kinds: &ALL, depth: 1, max_elems: 14, bases: vec![[1, 1], [2, 2]], alt: few.to_vec(), dev: 1, dedupe: true },
        Plan { grid: uni::horiz2(), kinds: &BASIC, depth: 2, max_elems: 14, bases: vec![[1, 2]], alt: few.to_vec(), dev: ctx.pick(0, 1), dedupe: true },
        Plan { grid: uni::odd2(), kinds: &BASIC, depth: 1, max_elems: 14, bases: vec![[2, 2]], alt: few.to_vec(), dev: 1, dedupe: true },
        Plan { grid: uni::square4s(), kinds: &BASIC, depth: 1, max_elems: 14, bases: vec![[1, 1], [1, 2]], alt: few.to_vec(), dev: 1, dedupe: true },
        Plan { grid: uni::lshape(), kinds: &BASIC, depth: 1, max_elems: 14, bases: vec![[2, 1]], alt: few.to_vec(), dev: 1, dedupe: true },
        Plan { grid: uni::ring8(), kinds: &BASIC, depth: ctx.pick(0, 1), max_elems: 14, bases: vec![[1, 1]], alt: few.to_vec(), dev: 1, dedupe: true },
        Plan { grid: uni::diag2(), kinds: &BASIC, depth: 1, max_elems: 14, bases: vec![[2, 2]], alt: vec![], dev: 0, dedupe: true },
    ];
    if ctx.thorough() {
        plans.push(Plan { grid: uni::unit(), kinds: &BASIC, depth: 3, max_elems: 14, bases: vec![[2, 2]], alt: vec![], dev: 0, dedupe: true });
        plans.push(Plan { grid: uni::square4s(), kinds: &BASIC, depth: 2, max_elems: 14, bases: vec![[1, 1]], alt: vec![], dev: 0, dedupe: true });
        plans.push(Plan { grid: uni::vert2(), kinds: &ALL, depth: 2, max_elems: 14, bases: vec![[1, 1]], alt: vec![], dev: 0, dedupe: true });
    }
    for mut p in plans {
        // no cells alike, none of the materials negative
        for (k, m) in p.grid.materials.iter_mut().enumerate() {
            *m = [1.0 + 0.5 * k as f64, 0.0, 3.0 / (1.0 + k as f64), 0.0];
        }
        p.grid.unit = false;
        p.grid.name = format!("{}_m", p.grid.name);
        let all = syms(p.grid.cells.len());
        for_cases(&ctx, &p, &|s: &St| c26_case(&ctx, &p.grid, s, &all));
    }
    // deep trees; descriptions that are not smaller, so that the size limit is the same
    for (mut g, len) in [(uni::rect1(), ctx.pick(9, 13)), (uni::horiz2s(), ctx.pick(8, 13)), (uni::vert2(), ctx.pick(8, 13))] {
        for (k, m) in g.materials.iter_mut().enumerate() {
            *m = [1.0 + 0.5 * k as f64, 0.0, 3.0 / (1.0 + k as f64), 0.0];
        }
        g.unit = false;
        g.name = format!("{}_m", g.name);
        let some: Vec<Sym> = syms(g.cells.len()).into_iter().filter(|s| s.scale >= 1.0 && (ctx.thorough() || s.scale == 1.0 || s.shift[0] < 0.0)).collect();
        let mut states = deep_states(&ctx, &g, 1, len, ctx.pick(None, (g.cells.len() > 1).then_some(([0, 1], 10))), ctx.pick(len, 4));
        states.retain(|s| s.hist.len() > 2);
        states.extend(lead_states(&ctx, &g, &[g.cells.len() - 1], ctx.pick(6, 10)).into_iter().step_by(ctx.pick(3, 1)));
        for_states(&ctx, &states, &[[1, 2]], &[], 0, &|s: &St| c26_case(&ctx, &g, s, &some));
    }
    cavities(&ctx);
    ctx.finish(
        "model_checking",
        "every refinement tree to the stated depth with every order assignment within the deviation bound, under every change of description of a list: the eight mirror images and exchanges of the axes (with the corresponding refinements and orders), rotated and reversed lists of cells and nodes, translations, scalings, another order of the refinements, scaled materials; number of unknowns and five symmetric functions of all generalized eigenvalues are compared. Rectangular cavities: lowest eigenvalues against the analytic ones",
        &["sums of log(eigenvalue + shift) over all eigenvalues are compared to 1e-8 per eigenvalue, for five shifts from 0.02 to 4000", "up to 14 elements"],
    )
}
