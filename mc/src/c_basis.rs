//! C27: the discrete problem does not depend on which basis functions span it.
use crate::c_field::{close, floor, general, layout, reference, shot, values};
use crate::c_geo::{agree, sums_with};
use crate::cases::*;
use crate::ctx::*;
use crate::explore::*;
use crate::obs::ensure;
use crate::poly::*;
use crate::refm::*;
use crate::uni;
use fem_2d::fem_domain::basis::{HierBasisFn, HierCurlBasisFn, HierCurlBasisFnSpace};
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_problem::integration::glq::gauss_quadrature_points;
use fem_2d::fem_problem::integration::HierCurlIntegral;
use fem_2d::prelude::*;

// ------------------------------------------------------------------------------------------------ spaces of our own

/// shape functions in closed form: value, first and second derivative
trait Formulas: Clone + Send + Sync + std::fmt::Debug + 'static {
    fn n(i: usize, x: f64) -> [f64; 3];
    fn t(i: usize, x: f64) -> [f64; 3];
}

/// the tabulated space; refuses what was not promised to it
#[derive(Clone, Debug)]
struct Own<F> {
    n: Vec<Vec<[f64; 3]>>,
    t: Vec<Vec<[f64; 3]>>,
    d2: bool,
    f: std::marker::PhantomData<F>,
}

impl<F: Formulas> HierCurlBasisFnSpace for Own<F> {
    fn with(max_order: usize, points: &[f64], compute_d2: bool) -> Self {
        let table = |f: fn(usize, f64) -> [f64; 3]| (0..=max_order).map(|k| points.iter().map(|x| f(k, *x)).collect()).collect();
        Self { n: table(F::n), t: table(F::t), d2: compute_d2, f: std::marker::PhantomData }
    }
    fn norm(&self, n: usize, p: usize) -> f64 {
        self.n[n][p][0]
    }
    fn norm_d1(&self, n: usize, p: usize) -> f64 {
        self.n[n][p][1]
    }
    fn norm_d2(&self, n: usize, p: usize) -> f64 {
        assert!(self.d2, "second derivatives were not asked for");
        self.n[n][p][2]
    }
    fn tang(&self, n: usize, p: usize) -> f64 {
        self.t[n][p][0]
    }
    fn tang_d1(&self, n: usize, p: usize) -> f64 {
        self.t[n][p][1]
    }
    fn tang_d2(&self, n: usize, p: usize) -> f64 {
        assert!(self.d2, "second derivatives were not asked for");
        self.t[n][p][2]
    }
}

fn poly_n(i: usize, x: f64) -> [f64; 3] {
    [pw(i, x), pw1(i, x), pw2(i, x)]
}
fn poly_t(i: usize, x: f64) -> [f64; 3] {
    [tg(i, x), tg1(i, x), tg2(i, x)]
}
fn lin(a: f64, x: [f64; 3], b: f64, y: [f64; 3]) -> [f64; 3] {
    [0, 1, 2].map(|k| a * x[k] + b * y[k])
}

/// the library's functions, each with a factor of its own (a power of two)
#[derive(Clone, Debug)]
struct Scaled;
const FN: [f64; 6] = [1.0, 4.0, 0.5, -2.0, 8.0, -0.25];
const FT: [f64; 6] = [2.0, 2.0, -0.5, 4.0, -1.0, 0.25];
impl Formulas for Scaled {
    fn n(i: usize, x: f64) -> [f64; 3] {
        poly_n(i, x).map(|v| v * FN[i % 6])
    }
    fn t(i: usize, x: f64) -> [f64; 3] {
        poly_t(i, x).map(|v| v * FT[i % 6])
    }
}

/// functions without parity: neighbours of the hierarchy are mixed
#[derive(Clone, Debug)]
struct Mixed;
impl Formulas for Mixed {
    fn n(i: usize, x: f64) -> [f64; 3] {
        if i == 0 {
            poly_n(0, x)
        } else {
            lin(1.0, poly_n(i, x), if i % 2 == 0 { 0.5 } else { -0.25 }, poly_n(i - 1, x))
        }
    }
    fn t(i: usize, x: f64) -> [f64; 3] {
        if i < 3 {
            poly_t(i, x)
        } else {
            lin(1.0, poly_t(i, x), 0.5, poly_t(i - 1, x))
        }
    }
}

/// Legendre polynomial with derivatives
fn legendre(n: usize, x: f64) -> [f64; 3] {
    let (mut a, mut b) = ([1.0, 0.0, 0.0], [x, 1.0, 0.0]);
    if n == 0 {
        return a;
    }
    for k in 2..=n {
        let (p, q) = ((2 * k - 1) as f64 / k as f64, (k - 1) as f64 / k as f64);
        let c = [p * x * b[0] - q * a[0], p * (b[0] + x * b[1]) - q * a[1], p * (2.0 * b[1] + x * b[2]) - q * a[2]];
        a = b;
        b = c;
    }
    b
}

/// Legendre and integrated Legendre polynomials: well conditioned to high orders
#[derive(Clone, Debug)]
struct Lobatto;
impl Formulas for Lobatto {
    fn n(i: usize, x: f64) -> [f64; 3] {
        legendre(i, x)
    }
    fn t(i: usize, x: f64) -> [f64; 3] {
        match i {
            0 | 1 => poly_t(i, x),
            _ => lin(1.0, legendre(i, x), -1.0, legendre(i - 2, x)),
        }
    }
}

// ------------------------------------------------------------------------------------------------ fields

/// the field of a general vector in another basis, against its closed form
fn fields_of<F: Formulas>(ctx: &Ctx, s: &St, what: &str) -> Result<(), String> {
    ctx.step();
    let dom = domain(s)?;
    let nd = dom.dofs.len();
    if nd == 0 {
        return Ok(());
    }
    let funs = dof_funs(&dom, &s.m.refi)?;
    let d = [4, 3];
    let mut ufs = UniformFieldSpace::new(&dom, d);
    let sol = general(nd, 1);
    let names = ufs.xy_fields::<Own<F>>("f", sol.clone()).map_err(|e| format!("{what}: {e}"))?;
    let v = shot(ctx, |p| ufs.print_all_to_vtk(p))?;
    let pts = layout(&v, &s.r, d)?;
    let n = |i: usize, x: f64| F::n(i, x)[0];
    let t = |i: usize, x: f64| {
        let t = F::t(i, x);
        [t[0], t[1]]
    };
    let want = reference(&s.r, &funs, &sol, &pts, d, &|f: &Fun, r: &[f64; 4], x: f64, y: f64| f.with(r, x, y, &n, &t));
    for c in 0..2 {
        close(&format!("{what}: component {}", ["x", "y"][c]), values(&v, &names[c])?, &want[c], &want[2], &pts, floor(&s.r, &sol))?;
    }
    ctx.valid();
    Ok(())
}

// ------------------------------------------------------------------------------------------------ matrices

/// scaling the functions scales the entries, and nothing else
fn scaled_case(ctx: &Ctx, s: &St) -> Result<(), String> {
    ctx.step();
    let dom = domain(s)?;
    let n = dom.dofs.len();
    if n == 0 {
        return Ok(());
    }
    let mut f = vec![];
    for fs in dof_funs(&dom, &s.m.refi)? {
        let mut k: Vec<f64> = fs.iter().map(|x| if x.d == D::U { FN[x.i % 6] * FT[x.j % 6] } else { FT[x.i % 6] * FN[x.j % 6] }).collect();
        k.dedup();
        ensure!(k.len() == 1, "a degree of freedom has functions of different orders along the edge: {fs:?}");
        f.push(k[0]);
    }
    for glq in [None, Some([4, 6])] {
        let p = galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&dom, glq).map_err(|e| e.to_string())?.to_nalgebra_dense_mats();
        let q = galerkin_sample_gep_hcurl::<Own<Scaled>, CurlCurl, L2Inner>(&dom, glq).map_err(|e| e.to_string())?.to_nalgebra_dense_mats();
        for m in 0..2 {
            let top = (0..n).map(|k| p[m][(k, k)].abs()).fold(0.0, f64::max);
            for r in 0..n {
                for c in 0..n {
                    let (x, y) = (p[m][(r, c)], q[m][(r, c)] / (f[r] * f[c]));
                    let sc = (p[m][(r, r)] * p[m][(c, c)]).abs().sqrt().max(1e-6 * top);
                    ensure!((x - y).abs() <= 1e-11 * sc, "entry ({r}, {c}) of {} with functions scaled by {} and {} is {y:e} times that, instead of {x:e}", ["A", "B"][m], f[r], f[c]);
                }
            }
        }
    }
    ctx.valid();
    Ok(())
}

/// the by-parts form of every pair of functions, on every ancestor-descendant pair, agrees with the direct one
fn by_parts<S: HierCurlBasisFnSpace>(ctx: &Ctx, s: &St, max: usize, what: &str) -> Result<(), String> {
    let (pu, wu) = gauss_quadrature_points(max + 2, true);
    let (pv, wv) = gauss_quadrature_points(max + 3, true);
    let (qu, xu) = gauss_quadrature_points(max + 2, false);
    let (qv, xv) = gauss_quadrature_points(max + 3, false);
    let (ce, cd, ie, id) = (CurlCurl::with_weights(&wu, &wv), CurlCurl::with_weights(&xu, &xv), L2Inner::with_weights(&wu, &wv), L2Inner::with_weights(&xu, &xv));
    for d in s.r.leaves() {
        let mut chain = s.r.ancestors(d);
        chain.push(d);
        for &a in &chain {
            let (ea, ed) = (&s.mesh.elems[s.m.real[a]], &s.mesh.elems[s.m.real[d]]);
            let at = |e, o, pts: [&[f64]; 2], d2| HierCurlBasisFn::<S>::defined_over(e, o, pts, [max, max], d2);
            let (ae, oe) = (at(ea, Some(ed), [&pu, &pv], true), at(ed, None, [&pu, &pv], true));
            let (ad, od) = (at(ea, Some(ed), [&qu, &qv], false), at(ed, None, [&qu, &qv], false));
            for k in 0..(max + 1).pow(4) * 8 {
                let n = max + 1;
                let (po, qo) = ([k % n, k / n % n], [k / n / n % n, k / n / n / n % n]);
                let bits = k / n.pow(4);
                let dir = |b: bool| if b { BasisDir::V } else { BasisDir::U };
                let (bp, bq) = (dir(bits & 1 > 0), dir(bits & 2 > 0));
                let (pe, qe, pd, qd) = if bits & 4 > 0 { (&oe, &ae, &od, &ad) } else { (&ae, &oe, &ad, &od) };
                ctx.step();
                let m = &ed.element.materials;
                for (form, x, y) in [
                    ("curl-curl", cd.integrate(bp, bq, po, qo, pd, qd, m), ce.integrate_by_parts(bp, bq, po, qo, pe, qe, m)),
                    ("inner product", id.integrate(bp, bq, po, qo, pd, qd, m), ie.integrate_by_parts(bp, bq, po, qo, pe, qe, m)),
                ] {
                    let size = 1.0 + y.get_face().abs() + y.get_edges().iter().map(|e| e.abs()).sum::<f64>();
                    let (x, y) = (x.full_solution(), y.full_solution());
                    ensure!((x - y).abs() <= 1e-10 * size.max(x.abs()), "{what}: {form} of {bp:?}{po:?} and {bq:?}{qo:?} (elements {a} over {d}, swapped {}) is {y:e} by parts, {x:e} directly", bits & 4 > 0);
                }
            }
        }
    }
    ctx.valid();
    Ok(())
}

fn case(ctx: &Ctx, s: &St) -> Result<(), String> {
    scaled_case(ctx, s)?;
    fields_of::<Scaled>(ctx, s, "fields, scaled functions")?;
    fields_of::<Mixed>(ctx, s, "fields, functions without parity")?;
    fields_of::<Lobatto>(ctx, s, "fields, integrated Legendre functions")?;
    let base = sums_with::<HierPoly>(s, 1.0, None)?;
    let one = |what: &str, got: Result<crate::c_geo::Sums, String>| -> Result<(), String> {
        ctx.step();
        agree(what, &got.map_err(|w| format!("{what}: {w}"))?, &base)
    };
    one("functions without parity", sums_with::<Own<Mixed>>(s, 1.0, None))?;
    one("integrated Legendre functions", sums_with::<Own<Lobatto>>(s, 1.0, None))?;
    one("integrated Legendre functions, 8 x 11 points", sums_with::<Own<Lobatto>>(s, 1.0, Some([8, 11])))?;
    #[cfg(feature = "maxortho")]
    one("HierMaxOrtho", sums_with::<HierMaxOrtho>(s, 1.0, None))?;
    ctx.valid();
    Ok(())
}

/// high orders: only well conditioned bases can be compared
#[cfg(feature = "maxortho")]
fn high(ctx: &Ctx) {
    let mut cases: Vec<(uni::Grid, Vec<(usize, Kind)>, Vec<[u8; 2]>)> = vec![];
    for o in 7..=20u8 {
        for x in [[o, 1], [2, o], [o, o - 4], [o, o]] {
            if x[0] + x[1] > 26 && !ctx.thorough() {
                continue;
            }
            cases.push((uni::rect1(), vec![], vec![x]));
        }
        for k in [Kind::T, Kind::U, Kind::V] {
            // the parent keeps functions of its own
            cases.push((uni::unit(), vec![(0, k)], vec![[2, 2], [o, 2], [3, 2], [2, o.min(9)], [2, 3]]));
        }
        cases.push((uni::horiz2s(), vec![], vec![[3, o], [2, o - 1]]));
        cases.push((uni::vert2(), vec![], vec![[o, 3], [o - 2, 2]]));
    }
    let starts: Vec<(St, Vec<[u8; 2]>)> = cases
        .iter()
        .filter_map(|(g, hist, orders)| match St::replay(ctx, g, hist) {
            Ok(s) => Some((s, orders.clone())),
            Err(w) => {
                ctx.violate(format!("{} {hist:?} {orders:?}", g.name), w);
                None
            }
        })
        .collect();
    par_for(ctx, &starts, |(s, orders)| {
        let r = guard(|| {
            let o: Vec<[u8; 2]> = (0..s.r.elems.len()).map(|k| orders[k.min(orders.len() - 1)]).collect();
            let s = with_orders(s, &o)?;
            crate::c_lin::single(ctx, case_name(&s), &|| {
                ctx.step();
                let pts = Some([o.iter().map(|x| x[0]).max().unwrap() as usize + 3, o.iter().map(|x| x[1]).max().unwrap() as usize + 3]);
                let want = sums_with::<Own<Lobatto>>(&s, 1.0, pts)?;
                agree("HierMaxOrtho against integrated Legendre functions", &sums_with::<HierMaxOrtho>(&s, 1.0, pts)?, &want)?;
                ctx.valid();
                Ok(())
            });
            Ok(())
        });
        if let Err(w) = r.unwrap_or_else(|p| Err(format!("panicked: {p}"))) {
            ctx.violate(format!("{} {orders:?}", s.case()), w);
        }
    });
}

// ------------------------------------------------------------------------------------------------ HierMaxOrtho itself

#[cfg(feature = "maxortho")]
mod ortho {
    use super::*;

    /// P_n(m/8) and derivatives, in integers until the last division
    fn exact(n: usize, m: i64) -> [f64; 3] {
        let c = |a: i128, b: i128| (0..b).fold(1i128, |x, k| x * (a - k) / (k + 1));
        let n_ = n as i128;
        let mut out = [0i128; 3];
        for k in 0..=n_ / 2 {
            let e = n_ - 2 * k;
            let co = c(n_, k) * c(2 * n_ - 2 * k, n_) * if k % 2 == 0 { 1 } else { -1 };
            // x^(e-d) over 8^(n-d)
            let term = |d: i128| (m as i128).pow((e - d) as u32) * 8i128.pow((2 * k) as u32);
            out[0] += co * term(0);
            if e > 0 {
                out[1] += co * e * term(1);
            }
            if e > 1 {
                out[2] += co * e * (e - 1) * term(2);
            }
        }
        let two = 2f64.powi(n as i32);
        [0, 1, 2].map(|d| if d > n { 0.0 } else { out[d] as f64 / 8f64.powi((n - d) as i32) / two })
    }

    fn lists() -> Vec<Vec<i64>> {
        let mut v = vec![(-8..=8).collect::<Vec<i64>>(), (-7..=7).collect(), (-8..=7).collect(), (-7..=8).collect(), (-8..=8).rev().collect(), vec![3, -8, 8, 0, 3, -5]];
        v.extend((-8..=8).map(|m| vec![m]));
        v
    }

    fn values_at(ctx: &Ctx, max: usize) -> Result<(), String> {
        let (gx, gw) = gauss(24);
        for d2 in [false, true] {
            // moments of the tangential functions
            let s = HierMaxOrtho::with(max, &gx, d2);
            for n in 2..=max {
                for m in 2..n {
                    ctx.step();
                    let ip = |a: usize, b: usize| -> f64 { (0..24).map(|k| gw[k] * s.tang(a, k) * s.tang(b, k)).sum() };
                    ensure!(ip(m, n).abs() <= 1e-10 * (ip(m, m) * ip(n, n)).sqrt(), "tangential functions {m} and {n} are not orthogonal: {}", ip(m, n));
                }
            }
            // expansions in Legendre polynomials
            let co: Vec<Vec<f64>> = (0..=max).map(|n| (0..24).map(|k| (2 * k + 1) as f64 / 2.0 * (0..24).map(|p| gw[p] * s.tang(n, p) * legendre(k, gx[p])[0]).sum::<f64>()).collect()).collect();
            for (n, c) in co.iter().enumerate() {
                let top = c.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                let deg = n.max(1);
                ensure!(c[deg].abs() > 1e-3 * top && c[deg + 1..].iter().all(|x| x.abs() <= 1e-11 * top), "tangential function {n} is no polynomial of degree {deg}: {c:?}");
            }
            for list in lists() {
                let pts: Vec<f64> = list.iter().map(|m| *m as f64 / 8.0).collect();
                let s = HierMaxOrtho::with(max, &pts, d2);
                for n in 0..=max {
                    for (p, m) in list.iter().enumerate() {
                        ctx.step();
                        let want = exact(n, *m);
                        let got = [s.norm(n, p), s.norm_d1(n, p), if d2 { s.norm_d2(n, p) } else { want[2] }];
                        let nn = (n * n).max(1) as f64;
                        for (k, sc) in [1.0, nn, nn * nn].iter().enumerate() {
                            ensure!((got[k] - want[k]).abs() <= 1e-12 * sc, "d2 {d2}, points {pts:?}: derivative {k} of normal function {n} at {} is {:e} instead of {:e}", pts[p], got[k], want[k]);
                        }
                        let got = [s.tang(n, p), s.tang_d1(n, p), if d2 { s.tang_d2(n, p) } else { 0.0 }];
                        let want = match n {
                            0 | 1 => poly_t(n, pts[p]),
                            _ => (0..24).fold([0.0; 3], |a, k| lin(1.0, a, co[n][k], legendre(k, pts[p]))),
                        };
                        let top = co[n].iter().fold(0.0f64, |a, b| a.max(b.abs()));
                        for (k, sc) in [1.0, nn, nn * nn].iter().enumerate() {
                            if k < 2 || d2 {
                                ensure!((got[k] - want[k]).abs() <= 1e-10 * sc * top, "d2 {d2}, points {pts:?}: derivative {k} of tangential function {n} at {} is {:e} instead of {:e}", pts[p], got[k], want[k]);
                            }
                        }
                        if n >= 2 && m.abs() == 8 {
                            ensure!(got[0].abs() <= 1e-11 * top, "tangential function {n} is {:e} at {}", got[0], pts[p]);
                        }
                    }
                }
            }
        }
        ctx.valid();
        Ok(())
    }

    pub fn functions(ctx: &Ctx) {
        let all: Vec<usize> = (1..=20).collect();
        par_for(ctx, &all, |max| {
            let r = guard(|| values_at(ctx, *max)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
            ctx.state();
            ctx.check(&|| format!("HierMaxOrtho to order {max}"), r);
        });
    }
}

pub fn c27() -> i32 {
    let ctx = Ctx::new("C27");
    #[cfg(feature = "maxortho")]
    ortho::functions(&ctx);
    #[cfg(not(feature = "maxortho"))]
    if let Ok(w) = std::env::var("FEM2D_NO_MAXORTHO") {
        ctx.violate("cargo build --features max_ortho_basis", format!("the library builds, but not with its max_ortho_basis feature: {w}"));
    }
    let few: Vec<[u8; 2]> = ctx.pick(vec![[3, 2], [1, 4]], vec![[2, 1], [1, 2], [4, 3], [5, 5]]);
    let plan = |grid: uni::Grid, kinds: &'static [Kind], depth: usize, bases: &[[u8; 2]], dev: usize| Plan { grid, kinds, depth, max_elems: 30, bases: bases.to_vec(), alt: few.clone(), dev, dedupe: true };
    let mut plans = vec![
        plan(uni::unit(), &ALL, 2, &[[2, 2]], ctx.pick(0, 1)),
        plan(uni::unit(), &BASIC, 2, &[[3, 2]], 1),
        plan(uni::rect1(), &ALL, 1, &[[1, 1], [2, 3], [3, 4]], 1),
        plan(uni::rect1(), &ALL, 0, &[[5, 5], [6, 6], [6, 1], [2, 6]], 1),
        plan(uni::horiz2s(), &ALL, 1, &[[1, 2], [3, 3]], 1),
        plan(uni::vert2(), &BASIC, ctx.pick(1, 2), &[[2, 1], [2, 3]], 1),
        plan(uni::odd2(), &BASIC, 1, &[[2, 2]], 1),
        plan(uni::square4s(), &BASIC, 1, &[[1, 1], [2, 2]], 1),
        plan(uni::lshape(), &BASIC, 1, &[[2, 1]], 1),
        plan(uni::diag2(), &BASIC, 1, &[[2, 2]], 0),
    ];
    if ctx.thorough() {
        plans.push(plan(uni::rect1(), &BASIC, 1, &[[6, 6]], 0));
        plans.push(plan(uni::unit(), &BASIC, 3, &[[2, 2]], 0));
        plans.push(plan(uni::ring8(), &BASIC, 1, &[[2, 2]], 1));
    }
    for mut p in plans {
        for (k, m) in p.grid.materials.iter_mut().enumerate() {
            *m = [1.0 + 0.5 * k as f64, 0.0, 3.0 / (1.0 + k as f64), 0.0];
        }
        p.grid.unit = false;
        p.grid.name = format!("{}_m", p.grid.name);
        for_cases(&ctx, &p, &|s: &St| case(&ctx, s));
    }
    for g in [uni::rect1(), uni::horiz2s(), uni::odd2()] {
        let states = collect_with(&ctx, &g, &ALL, ctx.pick(1, 2), true);
        for_states(&ctx, &states, &[[1, 1]], &[], 0, &|s: &St| {
            by_parts::<Own<Mixed>>(&ctx, s, 3, "functions without parity")?;
            by_parts::<Own<Scaled>>(&ctx, s, 2, "scaled functions")?;
            #[cfg(feature = "maxortho")]
            by_parts::<HierMaxOrtho>(&ctx, s, ctx.pick(3, 4), "HierMaxOrtho")?;
            by_parts::<Own<Lobatto>>(&ctx, s, ctx.pick(2, 4), "integrated Legendre functions")
        });
    }
    #[cfg(feature = "maxortho")]
    high(&ctx);
    ctx.finish(
        "model_checking",
        "every refinement tree to the stated depth with every order assignment within the deviation bound is assembled with six function spaces that span the same polynomials: the library's two, and four of our own (scaled functions, functions without parity, Legendre and integrated Legendre polynomials); entries must scale with the functions, five symmetric functions of all generalized eigenvalues must not depend on the basis, fields must be the combination of the given functions, by-parts integrals must agree with direct ones. HierMaxOrtho: every function to order 20 at every multiple of 1/8, in 23 point lists, with and without second derivatives, against integer arithmetic",
        &["sums of log(eigenvalue + shift) over all eigenvalues are compared to 1e-8 per eigenvalue", "the library's power basis is compared up to order 6 (it is ill conditioned above), HierMaxOrtho up to order 20", "the scaling of the HierMaxOrtho functions is not judged"],
    )
}
