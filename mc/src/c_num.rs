//! C15 (basis functions), C16 (quadrature), C24 (by-parts integrals).
use crate::cases::{deep_states, lead_states};
use crate::obs::ensure;
use crate::ctx::*;
use crate::explore::*;
use crate::poly::*;
use crate::refm::*;
use crate::uni::{self, Grid};
use fem_2d::fem_domain::basis::{BasisFnSampler, HierBasisFn, HierCurlBasisFn, HierCurlBasisFnSpace};
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_domain::domain::mesh::element::Materials;
use fem_2d::fem_domain::domain::mesh::space::V2D;
use fem_2d::fem_problem::integration::glq::*;
use fem_2d::fem_problem::integration::{HierCurlIntegral, IntegralResult};
use fem_2d::prelude::*;
use std::cell::RefCell;

pub fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

// ------------------------------------------------------------------------------------------------ C15

fn point_sets() -> Vec<(String, Vec<f64>)> {
    let mut v = vec![];
    for n in [1usize, 2, 3, 5, 21, 81] {
        let p: Vec<f64> = if n == 1 { vec![0.375] } else { (0..n).map(|k| -1.0 + 2.0 * k as f64 / (n - 1) as f64).collect() };
        v.push((format!("uniform{n}"), p));
    }
    v.push(("descending".into(), (0..9).map(|k| 1.0 - 0.25 * k as f64).collect()));
    v.push(("zero".into(), vec![0.0]));
    v.push(("repeated".into(), vec![-0.5, 0.7, -0.5, 1.0, 1.0, -1.0, 0.0]));
    v.push(("window".into(), (0..7).map(|k| 0.25 + 0.125 * k as f64 / 6.0).collect()));
    v.push(("gauss12".into(), gauss(12).0));
    v
}

fn c15_shapes(ctx: &Ctx) {
    let maxn = ctx.pick(20usize, 24);
    let sets = point_sets();
    let mut items = vec![];
    for s in 0..sets.len() {
        for n in 0..=maxn {
            for d2 in [false, true] {
                items.push((s, n, d2));
            }
        }
    }
    par_for(ctx, &items, |&(s, nmax, d2)| {
        let (name, pts) = &sets[s];
        let case = || format!("shapes {name} max order {nmax} second derivatives {d2}");
        if ctx.only.as_ref().map_or(false, |o| *o != case()) {
            return;
        }
        ctx.state();
        let r = guard(|| -> Result<(), String> {
            let h = HierPoly::with(nmax, pts, d2);
            for n in 0..=nmax {
                for (p, &x) in pts.iter().enumerate() {
                    ctx.step();
                    let mut vals = vec![
                        ("normal", h.norm(n, p), pw(n, x)),
                        ("normal first derivative", h.norm_d1(n, p), pw1(n, x)),
                        ("tangential", h.tang(n, p), tg(n, x)),
                        ("tangential first derivative", h.tang_d1(n, p), tg1(n, x)),
                    ];
                    if d2 {
                        vals.push(("normal second derivative", h.norm_d2(n, p), pw2(n, x)));
                        vals.push(("tangential second derivative", h.tang_d2(n, p), tg2(n, x)));
                    }
                    for (w, got, want) in vals {
                        ensure!((got - want).abs() <= 1e-12 * (1.0 + want.abs()), "{w} function of order {n} at {x}: {got:e}, closed form {want:e}");
                    }
                }
            }
            Ok(())
        });
        ctx.valid();
        ctx.check(&case, r.unwrap_or_else(|p| Err(format!("panicked: {p}"))));
    });
}

/// `size` is the magnitude of values that do not cancel
fn v2(name: &dyn Fn() -> String, got: V2D, want: [f64; 2], size: f64) -> Result<(), String> {
    for k in 0..2 {
        ensure!((got[k] - want[k]).abs() <= 1e-11 * (size.abs() + want[k].abs()), "{}, component {}: {:e}, expected {:e}", name(), ["x", "y"][k], got[k], want[k]);
    }
    Ok(())
}

/// every accessor of one basis object at every point and order
fn check_basis(b: &HierCurlBasisFn<HierPoly>, r: &RefMesh, [a, d]: [usize; 2], pts: [&[f64]; 2], max: [usize; 2], d2: bool) -> Result<(), String> {
    let ra = r.real_rect(a);
    let (hx, hy) = ((ra[1] - ra[0]) / 2.0, (ra[3] - ra[2]) / 2.0);
    // both lie in the same cell: the relative position is exact
    let (ia, id) = (r.elems[a].rect, r.elems[d].rect);
    let rel = |o: usize| {
        let w = (ia[o + 1] - ia[o]) as f64;
        ((id[o + 1] - id[o]) as f64 / w, ((id[o] + id[o + 1] - ia[o] - ia[o + 1]) as f64) / w)
    };
    let ((su, cu), (sv, cv)) = (rel(0), rel(2));
    // lengths are differences of coordinates
    let far = ra.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let rd = r.real_rect(d);
    let eps = 1e-12 + 1e-15 * far / (rd[1] - rd[0]).min(rd[3] - rd[2]);
    ensure!(near(b.u_glq_scale(), su, eps) && near(b.v_glq_scale(), sv, eps), "scales {} {} instead of the size ratios {su} {sv}", b.u_glq_scale(), b.v_glq_scale());
    ensure!(near(b.glq_scale(), su * sv, eps), "area scale {} instead of {}", b.glq_scale(), su * sv);
    for k in 0..4 {
        let w = if k < 2 { su } else { sv };
        ensure!(near(b.edge_glq_scale(k), w, eps), "scale of edge {k} is {} instead of {w}", b.edge_glq_scale(k));
    }
    ensure!(near(b.deriv_scale()[0], su, eps) && near(b.deriv_scale()[1], sv, eps), "derivative scales {:?}", b.deriv_scale());
    let scales = [[1.0, 1.0], [0.5, 0.125], [su, sv]];
    for (m, &tu) in pts[0].iter().enumerate() {
        for (n, &tv) in pts[1].iter().enumerate() {
            let (u, v) = (cu + su * tu, cv + sv * tv);
            ensure!(near(b.sample_scale([m, n]), hx * hy, eps), "Jacobian determinant {} instead of {}", b.sample_scale([m, n]), hx * hy);
            ensure!(near(b.uv_ratio([m, n]), hx / hy, eps), "u/v ratio {} instead of {}", b.uv_ratio([m, n]), hx / hy);
            ensure!(near(b.vu_ratio([m, n]), hy / hx, eps), "v/u ratio {} instead of {}", b.vu_ratio([m, n]), hy / hx);
            let mr = (hx / hy).max(hy / hx);
            ensure!(near(b.max_uv_ratio([m, n]), mr, eps), "larger ratio {} instead of {mr}", b.max_uv_ratio([m, n]));
            for i in 0..=max[0] {
                for j in 0..=max[1] {
                    let at = |what: &str| format!("{what} of orders ({i},{j}) at point ({m},{n}) = ({u},{v})");
                    v2(&|| at("f_u"), b.f_u([i, j], [m, n]), [pw(i, u) * tg(j, v) / hx, 0.0], 1.0 / hx)?;
                    v2(&|| at("f_v"), b.f_v([i, j], [m, n]), [0.0, tg(i, u) * pw(j, v) / hy], 1.0 / hy)?;
                    for s in &scales {
                        let sc = V2D::from(*s);
                        // derivatives across the direction of the function (the ones its curl is made of)
                        v2(&|| at("f_u_d1"), b.f_u_d1([i, j], [m, n], &sc), [pw(i, u) * tg1(j, v) / hx * s[0], 0.0], s[0] / hx)?;
                        v2(&|| at("f_v_d1"), b.f_v_d1([i, j], [m, n], &sc), [0.0, tg1(i, u) * pw(j, v) / hy * s[1]], s[1] / hy)?;
                        v2(&|| at("f_u_dd"), b.f_u_dd([i, j], [m, n], &sc), [pw1(i, u) * tg1(j, v) / hx * s[0] * s[1], 0.0], s[0] * s[1] / hx)?;
                        v2(&|| at("f_v_dd"), b.f_v_dd([i, j], [m, n], &sc), [0.0, tg1(i, u) * pw1(j, v) / hy * s[0] * s[1]], s[0] * s[1] / hy)?;
                        if d2 {
                            v2(&|| at("f_u_d2"), b.f_u_d2([i, j], [m, n], &sc), [pw(i, u) * tg2(j, v) / hx * s[0] * s[0], 0.0], s[0] * s[0] / hx)?;
                            v2(&|| at("f_v_d2"), b.f_v_d2([i, j], [m, n], &sc), [0.0, tg2(i, u) * pw(j, v) / hy * s[1] * s[1]], s[1] * s[1] / hy)?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn grids15(ctx: &Ctx) -> Vec<(Grid, usize)> {
    if ctx.thorough() {
        vec![(uni::unit(), 4), (uni::rect1(), 4), (uni::horiz2(), 3), (uni::odd2(), 3), (uni::vert2s(), 3), (uni::lshape(), 2), (uni::square4s(), 2)]
    } else {
        vec![(uni::unit(), 3), (uni::rect1(), 3), (uni::horiz2(), 2), (uni::odd2(), 2), (uni::vert2s(), 2), (uni::square4s(), 1)]
    }
}

fn tree_case(ctx: &Ctx, s: &St, f: &dyn Fn(&St) -> Result<(), String>) {
    if let Some(c) = &ctx.only {
        if *c != s.case() {
            return;
        }
    }
    ctx.state();
    ctx.sample(|| s.case());
    let r = guard(|| f(s)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
    ctx.valid();
    ctx.check(&|| s.case(), r);
}

fn c15_vector(ctx: &Ctx) {
    let pu: Vec<f64> = vec![-1.0, -0.6, 0.0, 0.35, 1.0];
    let pv: Vec<f64> = vec![-0.85, -0.1, 0.5];
    let pw_: Vec<f64> = vec![-1.0, 0.25, 1.0];
    let sets: Vec<([&[f64]; 2], [usize; 2])> = vec![([&pu, &pv], [4, 3]), ([&pv, &pu], [2, 6]), ([&pw_, &pw_], ctx.pick([9, 9], [20, 20]))];
    for (g, depth) in grids15(ctx) {
        // the seven kinds to one depth less than the three basic ones
        let mut states = collect_with(ctx, &g, &BASIC, depth, true);
        states.extend(collect_with(ctx, &g, &ALL, depth.min(ctx.pick(1, 2)), true));
        vector_states(ctx, &states, &sets);
    }
    // deep trees, large and far cells, high orders in one direction
    let deep: Vec<([&[f64]; 2], [usize; 2])> = vec![([&pw_, &pv], [3, 2]), ([&pv, &pw_], [1, 12]), ([&pw_, &pw_], [12, 1])];
    let high: Vec<([&[f64]; 2], [usize; 2])> = vec![([&pu, &pv], [20, 3]), ([&pv, &pu], [3, 20])];
    for g in [uni::unit(), uni::odd2(), uni::rect1().scaled(3e3, 0.0, 1.0), uni::horiz2s().scaled(1e6, 0.0, 2.5e5), uni::vert2().scaled(0.004, 0.0, 0.0)] {
        let mut states = lead_states(ctx, &g, &[0], ctx.pick(15, 20));
        states.extend(deep_states(ctx, &g, 1, 15, None, 4));
        vector_states(ctx, &states, &deep);
        vector_states(ctx, &collect_with(ctx, &g, &BASIC, ctx.pick(1, 2), true), &high);
    }
}

fn vector_states(ctx: &Ctx, states: &[St], sets: &[([&[f64]; 2], [usize; 2])]) {
    {
        par_for(ctx, states, |s| {
            tree_case(ctx, s, &|s: &St| {
                // every ancestor-descendant pair that ends in an element created by the last refinement (the others were checked on the shorter history)
                let newest: Vec<usize> = match s.hist.last() {
                    None => (0..s.r.elems.len()).collect(),
                    Some((e, _)) => s.r.descendants(*e).into_iter().filter(|x| x != e).collect(),
                };
                for d in newest {
                    let mut chain = s.r.ancestors(d);
                    chain.push(d);
                    for &a in &chain {
                        let (ea, ed) = (&s.mesh.elems[s.m.real[a]], &s.mesh.elems[s.m.real[d]]);
                        for (pts, max) in sets {
                            for d2 in [false, true] {
                                ctx.step();
                                let opts: Vec<Option<&_>> = if a == d { vec![None, Some(ed)] } else { vec![Some(ed)] };
                                for o in opts {
                                    let b = HierCurlBasisFn::<HierPoly>::defined_over(ea, o, *pts, *max, d2);
                                    check_basis(&b, &s.r, [a, d], *pts, *max, d2)
                                        .map_err(|w| format!("functions of element {} over element {} (second derivatives: {d2}): {w}", s.m.real[a], s.m.real[d]))?;
                                }
                            }
                        }
                    }
                }
                Ok(())
            });
        });
    }
}

/// the caching sampler hands out the same functions in every order of requests, through every clone
fn c15_sampler(ctx: &Ctx) {
    for (g, depth) in grids15(ctx) {
        let mut states = collect_with(ctx, &g, &BASIC, depth.min(ctx.pick(2, 3)), true);
        if g.cells.len() == 2 {
            states.extend(lead_states(ctx, &g, &[1], 12).into_iter().step_by(ctx.pick(5, 1)));
        }
        par_for(ctx, &states, |s| {
            tree_case(ctx, s, &|s: &St| {
                let n = s.r.elems.len();
                let mut pairs: Vec<(usize, Option<usize>)> = vec![];
                for d in 0..n {
                    pairs.push((d, None));
                    pairs.push((d, Some(d)));
                    for a in s.r.ancestors(d) {
                        pairs.push((a, Some(d)));
                    }
                }
                for (nu, nv, max, d2) in [(3usize, 4usize, [3usize, 2usize], false), (2, 3, [2, 3], true)] {
                    let (sampler, [wu, wv]) = BasisFnSampler::<HierCurlBasisFn<HierPoly>>::with(max[0], max[1], Some(nu), Some(nv), d2);
                    let (pu, ru) = gauss_quadrature_points(nu, d2);
                    let (pv, rv) = gauss_quadrature_points(nv, d2);
                    ensure!(wu == ru && wv == rv, "the sampler's weights are not those of its rule");
                    for pass in 0..3 {
                        let mut sampler = sampler.clone();
                        let order: Vec<_> = match pass {
                            0 => pairs.clone(),
                            1 => pairs.iter().rev().cloned().collect(),
                            _ => pairs.iter().flat_map(|p| [*p, pairs[0], *p]).collect(),
                        };
                        for (a, d) in order {
                            ctx.step();
                            let ea = &s.mesh.elems[s.m.real[a]];
                            let ed = d.map(|d| &s.mesh.elems[s.m.real[d]]);
                            let b = sampler.sample_basis_fn(ea, ed);
                            check_basis(&b, &s.r, [a, d.unwrap_or(a)], [&pu, &pv], max, d2)
                                .map_err(|w| format!("sampled functions of element {} over {:?} (pass {pass}): {w}", s.m.real[a], d.map(|d| s.m.real[d])))?;
                        }
                    }
                }
                // default rules are fine enough to integrate products of two functions of the highest order
                Ok(())
            });
        });
    }
    // many elements, each with its own scale
    for g in [uni::block(17, 16), uni::block(1, 300)] {
        let Ok(s) = St::start(ctx, &g).and_then(|s| s.step(7, Kind::T)) else { return ctx.violate(g.name.clone(), "can not be refined") };
        tree_case(ctx, &s, &|s: &St| {
            let (mut sampler, _) = BasisFnSampler::<HierCurlBasisFn<HierPoly>>::with(2, 1, Some(2), Some(3), false);
            let (pu, pv) = (gauss_quadrature_points(2, false).0, gauss_quadrature_points(3, false).0);
            let n = s.mesh.elems.len();
            for k in (0..n).chain((0..n).rev()).chain((0..n).map(|k| (k * 5 + 256) % n)) {
                ctx.step();
                let b = sampler.sample_basis_fn(&s.mesh.elems[k], None);
                check_basis(&b, &s.r, [s.m.refi[k]; 2], [&pu, &pv], [2, 1], false).map_err(|w| format!("sampled functions of element {k} of {n}: {w}"))?;
            }
            Ok(())
        });
    }
    // default number of points
    let items: Vec<[usize; 2]> = (1..=20).flat_map(|i| (1..=20).map(move |j| [i, j])).collect();
    par_for(ctx, &items, |&[i, j]| {
        for d2 in [false, true] {
            ctx.step();
            let r = guard(|| {
                let (s, [wu, wv]) = BasisFnSampler::<HierCurlBasisFn<HierPoly>>::with(i, j, None, None, d2);
                let e = if d2 { 2 } else { 0 };
                ensure!(s.i_max == i && s.j_max == j && s.compute_d2 == d2, "the sampler reports other settings than it was given");
                ensure!(wu.len() >= i + 1 + e && wv.len() >= j + 1 + e, "default rules of {} and {} points cannot integrate products of functions of orders {i} and {j}", wu.len() - e, wv.len() - e);
                Ok(())
            });
            ctx.check(&|| format!("default rule for orders {i} {j}"), r.unwrap_or_else(|p| Err(format!("panicked: {p}"))));
        }
    });
}

pub fn c15() -> i32 {
    let ctx = Ctx::new("C15");
    c15_shapes(&ctx);
    c15_vector(&ctx);
    c15_sampler(&ctx);
    ctx.finish(
        "model_checking",
        "shape functions: all orders 0..20 (24) of every maximum order, on 11 point sets, with and without second derivatives, against closed forms; vector functions: every refinement tree (all kinds) to the stated depth, every ancestor-descendant pair, three point sets and order ranges, every accessor at every point; the caching sampler in three request orders through clones",
        &["values are compared to 1e-12 (shapes) and 1e-11 (vector functions), relative", "points between the enumerated ones are not evaluated; each function is a polynomial of the enumerated degree, determined by its values on the 81-point set"],
    )
}

// ------------------------------------------------------------------------------------------------ C16

fn legendre(k: usize, x: f64) -> f64 {
    let (mut a, mut b) = (1.0, x);
    if k == 0 {
        return 1.0;
    }
    for m in 2..=k {
        let c = ((2 * m - 1) as f64 * x * b - (m - 1) as f64 * a) / m as f64;
        a = b;
        b = c;
    }
    b
}

fn rule(ctx: &Ctx, n: usize) -> Result<(), String> {
    let (p, w) = gauss_quadrature_points(n, false);
    ensure!(p.len() == n && w.len() == n, "{} points and {} weights", p.len(), w.len());
    for k in 0..n {
        ensure!(p[k] > -1.0 && p[k] < 1.0, "point {k} = {} is not inside (-1, 1)", p[k]);
        ensure!(w[k] > 0.0, "weight {k} = {} is not positive", w[k]);
        if k > 0 {
            ensure!(p[k] > p[k - 1], "points {} and {k} are not ascending: {} {}", k - 1, p[k - 1], p[k]);
        }
        ensure!((p[k] + p[n - 1 - k]).abs() < 1e-12, "points {k} and {} are not symmetric: {} {}", n - 1 - k, p[k], p[n - 1 - k]);
        ensure!((w[k] - w[n - 1 - k]).abs() < 1e-12, "weights {k} and {} are not symmetric: {} {}", n - 1 - k, w[k], w[n - 1 - k]);
    }
    let s: f64 = w.iter().sum();
    ensure!((s - 2.0).abs() < 1e-12, "weights sum to {s}");
    let (rp, rw) = gauss(n);
    for k in 0..n {
        ensure!((p[k] - rp[k]).abs() < 1e-11, "point {k} = {} but the {k}-th root of the Legendre polynomial of degree {n} is {}", p[k], rp[k]);
        ensure!((w[k] - rw[k]).abs() < 1e-11, "weight {k} = {} instead of {}", w[k], rw[k]);
    }
    for k in 0..2 * n {
        ctx.step();
        let q: f64 = p.iter().zip(&w).map(|(x, w)| w * x.powi(k as i32)).sum();
        let e = if k % 2 == 0 { 2.0 / (k as f64 + 1.0) } else { 0.0 };
        ensure!((q - e).abs() < 1e-11, "the integral of x^{k} is {q}, expected {e}");
        let q: f64 = p.iter().zip(&w).map(|(x, w)| w * legendre(k, *x)).sum();
        let e = if k == 0 { 2.0 } else { 0.0 };
        ensure!((q - e).abs() < 1e-10, "the integral of the Legendre polynomial of degree {k} is {q}, expected {e}");
    }
    let (pe, we) = gauss_quadrature_points(n, true);
    ensure!(pe.len() == n + 2 && we.len() == n + 2, "with end points: {} points and {} weights", pe.len(), we.len());
    ensure!(pe[0] == -1.0 && pe[n + 1] == 1.0, "end points {} and {}", pe[0], pe[n + 1]);
    ensure!(pe[1..n + 1] == p[..] && we[1..n + 1] == w[..], "the rule changes when end points are requested");
    Ok(())
}

fn integrators(ctx: &Ctx, nu: usize, nv: usize) -> Result<(), String> {
    // weights are free: distinct, none of them a rule's
    let uw: Vec<f64> = (0..nu).map(|k| 1.0 + 0.5 * k as f64).collect();
    let vw: Vec<f64> = (0..nv).map(|k| 3.0 + 0.25 * (k * k) as f64).collect();
    let mut runs: Vec<(String, Box<dyn Fn(&dyn Fn(usize, usize) -> f64) -> f64>, Box<dyn Fn(usize, usize) -> f64>)> = vec![];
    let (a, b) = (uw.clone(), vw.clone());
    let (c, d) = (uw.clone(), vw.clone());
    runs.push(("area".into(), Box::new(move |f| real_gauss_quad(&a, &b, |m, n| f(m, n))), Box::new(move |m, n| c[m] * d[n])));
    if nu >= 2 && nv >= 2 {
        let (a, b) = (uw.clone(), vw.clone());
        let (c, d) = (uw.clone(), vw.clone());
        runs.push((
            "inner area".into(),
            Box::new(move |f| real_gauss_quad_inner(&a, &b, |m, n| f(m, n))),
            Box::new(move |m, n| if m == 0 || m == nu - 1 || n == 0 || n == nv - 1 { 0.0 } else { c[m] * d[n] }),
        ));
        for e in 0..4 {
            let (a, b) = (uw.clone(), vw.clone());
            let (c, d) = (uw.clone(), vw.clone());
            runs.push((
                format!("edge {e}"),
                Box::new(move |f| real_gauss_quad_edge(&a, &b, e, |m, n| f(m, n))),
                Box::new(move |m, n| {
                    let im = m > 0 && m < nu - 1;
                    let inn = n > 0 && n < nv - 1;
                    match e {
                        0 if n == 0 && im => c[m],
                        1 if n == nv - 1 && im => c[m],
                        2 if m == 0 && inn => d[n],
                        3 if m == nu - 1 && inn => d[n],
                        _ => 0.0,
                    }
                }),
            ));
        }
    }
    for (name, run, want) in &runs {
        // one function per grid point, then a dense one
        for m in 0..nu {
            for n in 0..nv {
                ctx.step();
                let got = run(&|x, y| if (x, y) == (m, n) { 1.0 } else { 0.0 });
                ensure!(near(got, want(m, n), 1e-13), "{name} integral: point ({m},{n}) carries weight {got}, expected {}", want(m, n));
            }
        }
        let seen = RefCell::new(vec![]);
        let f = |m: usize, n: usize| (1 + m) as f64 * 0.7 + (n * n) as f64 * 1.3 - 2.0;
        let got = run(&|m, n| {
            seen.borrow_mut().push((m, n));
            f(m, n)
        });
        let exp: f64 = (0..nu).flat_map(|m| (0..nv).map(move |n| (m, n))).map(|(m, n)| want(m, n) * f(m, n)).sum();
        ensure!(near(got, exp, 1e-12), "{name} integral of a dense function: {got}, expected {exp}");
        ensure!(seen.borrow().iter().all(|&(m, n)| m < nu && n < nv), "{name} integral evaluates a point outside the grid");
    }
    Ok(())
}

fn scaling(ctx: &Ctx, n: usize, ends: bool, a: f64, b: f64) -> Result<(), String> {
    let (p, w) = gauss_quadrature_points(n, ends);
    let (s, q) = scale_gauss_quad_points(&p, a, b);
    let tol = 1e-12 * (1.0 + a.abs().max(b.abs()));
    ensure!((s - (b - a) / 2.0).abs() <= tol, "scale factor {s} for [{a}, {b}]");
    ensure!(q.len() == p.len(), "{} scaled points from {}", q.len(), p.len());
    for (x, y) in p.iter().zip(&q) {
        let e = a + (x + 1.0) * (b - a) / 2.0;
        ensure!((y - e).abs() <= tol, "point {x} maps to {y} instead of {e} in [{a}, {b}]");
    }
    if !ends {
        for k in 0..(2 * n).min(6) {
            ctx.step();
            let got: f64 = q.iter().zip(&w).map(|(x, w)| s * w * x.powi(k as i32)).sum();
            let e = (b.powi(k as i32 + 1) - a.powi(k as i32 + 1)) / (k as f64 + 1.0);
            let m = a.abs().max(b.abs()).powi(k as i32 + 1);
            ensure!((got - e).abs() <= 1e-11 * (1.0 + m), "the integral of x^{k} over [{a}, {b}] is {got}, expected {e}");
        }
    }
    Ok(())
}

pub fn c16() -> i32 {
    let ctx = Ctx::new("C16");
    let ns: Vec<usize> = [1025, 1024, 900].into_iter().filter(|_| ctx.thorough()).chain(ctx.pick(vec![514, 513, 512, 511, 420, 360, 300], vec![])).chain((1..=ctx.pick(260, 700)).rev()).collect();
    let run = |case: String, f: &dyn Fn() -> Result<(), String>| {
        if ctx.only.as_ref().map_or(false, |o| *o != case) {
            return;
        }
        ctx.state();
        ctx.sample(|| case.clone());
        let r = guard(f).unwrap_or_else(|p| Err(format!("panicked: {p}")));
        ctx.valid();
        ctx.check(&|| case.clone(), r);
    };
    par_for(&ctx, &ns, |&n| run(format!("rule {n}"), &|| rule(&ctx, n)));
    let m = ctx.pick(9usize, 14);
    let sizes: Vec<(usize, usize)> = (1..=m).flat_map(|a| (1..=m).map(move |b| (a, b))).chain([(1, 70), (70, 1), (20, 33), (40, 17), (130, 2), (2, 130), (260, 3), (3, 260)]).collect();
    par_for(&ctx, &sizes, |&(a, b)| run(format!("integrators {a} {b}"), &|| integrators(&ctx, a, b)));
    let ends = [-1.0, -0.75, -0.5, -0.1, 0.0, 0.25, 0.3, 0.5, 1.0, 2.5, -3.0, 1e3, -1e-3, 1e6, -2e5];
    let mut iv = vec![];
    for &a in &ends {
        for &b in &ends {
            // reversed and empty intervals too: the factor is signed
            {
                for n in 1..=ctx.pick(6, 20) {
                    for e in [false, true] {
                        iv.push((n, e, a, b));
                    }
                }
            }
        }
    }
    par_for(&ctx, &iv, |&(n, e, a, b)| run(format!("scaling {n} {e} {a} {b}"), &|| scaling(&ctx, n, e, a, b)));
    ctx.finish(
        "model_checking",
        "all n from 1 to 260 (quick, and 300, 360, 420, 511 to 514) or 700 (thorough, and 900, 1024, 1025): points, weights, symmetry, agreement with an independent Newton rule, every monomial and Legendre polynomial up to degree 2n-1, end-point variant; all weight-vector sizes up to 9 (14) per direction and eight unequal ones up to 260: the weight each integrator gives every grid point; every interval between 15 end points, in either order, for scaling",
        &["n = 0 is not a rule and is not judged", "accuracy is judged at 1e-10 to 1e-12", "the weights attached to requested end points are not judged (no integrator of the by-parts forms uses them)"],
    )
}

// ------------------------------------------------------------------------------------------------ C24

fn accessors(ctx: &Ctx) -> Result<(), String> {
    let vals = [0.0, 1.0, -2.5, 1e-3, 7.25];
    for &f in &vals {
        ensure!(IntegralResult::Full(f).full_solution() == f, "full solution of Full({f})");
        ensure!(IntegralResult::Full(f).get_face() == f && IntegralResult::Full(f).get_edges() == [0.0; 4], "parts of Full({f})");
        ensure!(guard(|| IntegralResult::Full(f).unwrap_parts()).is_err(), "Full({f}) unwraps into parts");
        for &a in &vals {
            for &b in &vals {
                for &c in &vals {
                    for &d in &vals {
                        ctx.step();
                        let e = [a, b, c, d];
                        let t = f + (a + b + c + d);
                        let g = IntegralResult::ByParts(f, e).full_solution();
                        ensure!(near(g, t, 1e-12), "total of ({f}, {e:?}) is {g}");
                        ensure!(IntegralResult::ByParts(f, e).unwrap_parts() == (f, e), "parts of ({f}, {e:?})");
                        ensure!(IntegralResult::ByParts(f, e).get_face() == f && IntegralResult::ByParts(f, e).get_edges() == e, "face or edges of ({f}, {e:?})");
                    }
                }
            }
        }
    }
    Ok(())
}

struct Part {
    total: f64,
    /// sum of the magnitudes of the parts
    size: f64,
}
fn parts(r: IntegralResult) -> Result<Part, String> {
    let (f, e) = (r.get_face(), r.get_edges());
    let s = f + e.iter().sum::<f64>();
    if let IntegralResult::Full(x) = &r {
        ensure!(f == *x, "get_face of a full result differs from it");
    }
    let total = r.full_solution();
    let size = f.abs() + e.iter().map(|x| x.abs()).sum::<f64>();
    ensure!((total - s).abs() <= 1e-13 * (1.0 + size), "full solution {total} differs from face plus edges {s}");
    Ok(Part { total, size })
}

fn by_parts(ctx: &Ctx, s: &St, max: usize, among: &(dyn Fn([usize; 4]) -> bool + Sync)) -> Result<(), String> {
    let newest: Vec<usize> = match s.hist.last() {
        None => (0..s.r.elems.len()).collect(),
        Some((e, _)) => s.r.descendants(*e).into_iter().filter(|x| x != e).collect(),
    };
    let (nu, nv) = (max + 2, max + 3);
    let (pu, wu) = gauss_quadrature_points(nu, true);
    let (pv, wv) = gauss_quadrature_points(nv, true);
    let (qu, xu) = gauss_quadrature_points(nu, false);
    let (qv, xv) = gauss_quadrature_points(nv, false);
    let (gx, gw) = gauss(max + 2);
    for d in newest {
        let mut chain = s.r.ancestors(d);
        chain.push(d);
        let rd = s.r.real_rect(d);
        let (gxh, gyh) = ((rd[1] - rd[0]) / 2.0, (rd[3] - rd[2]) / 2.0);
        for &a in &chain {
            let (ea, ed) = (&s.mesh.elems[s.m.real[a]], &s.mesh.elems[s.m.real[d]]);
            let mk = |e, o, pts: [&[f64]; 2], d2| HierCurlBasisFn::<HierPoly>::defined_over(e, o, pts, [max, max], d2);
            let anc_e = mk(ea, Some(ed), [&pu, &pv], true);
            let own_e = mk(ed, None, [&pu, &pv], true);
            let anc_d = mk(ea, Some(ed), [&qu, &qv], false);
            let own_d = mk(ed, None, [&qu, &qv], false);
            // terms of the size of the longer side over the shorter one cancel
            let ra = s.r.real_rect(a);
            let thin = |q: &[f64; 4]| ((q[1] - q[0]) / (q[3] - q[2])).max((q[3] - q[2]) / (q[1] - q[0]));
            let floor = 1e-3 * (1.0f64).max(0.01 * thin(&rd).max(thin(&ra)));
            let mats: Vec<Materials> = vec![ed.element.materials.clone(), Materials::from_array([2.5, 1.0, 0.4, -3.0])];
            let cc_e = CurlCurl::with_weights(&wu, &wv);
            let cc_d = CurlCurl::with_weights(&xu, &xv);
            let in_e = L2Inner::with_weights(&wu, &wv);
            let in_d = L2Inner::with_weights(&xu, &xv);
            for (mk, m) in mats.iter().enumerate() {
                for swap in [false, true] {
                    if swap && a == d {
                        continue;
                    }
                    let (pe, qe, pd, qd) = if swap { (&own_e, &anc_e, &own_d, &anc_d) } else { (&anc_e, &own_e, &anc_d, &own_d) };
                    let (rp, rq) = if swap { (d, a) } else { (a, d) };
                    for (bp, dp) in [(BasisDir::U, D::U), (BasisDir::V, D::V)] {
                        for (bq, dq) in [(BasisDir::U, D::U), (BasisDir::V, D::V)] {
                            for ip in 0..=max {
                                for jp in 0..=max {
                                    let fp = Fun { e: rp, d: dp, i: ip, j: jp };
                                    let vp: Vec<[f64; 3]> = gx.iter().flat_map(|&u| gx.iter().map(move |&v| (u, v))).map(|(u, v)| fp.at(&s.r.real_rect(rp), (rd[0] + rd[1]) / 2.0 + gxh * u, (rd[2] + rd[3]) / 2.0 + gyh * v)).collect();
                                    for iq in 0..=max {
                                        for jq in 0..=max {
                                            // with a second material only the pattern of orders 0..2 is repeated
                                            if mk == 1 && (ip > 2 || jp > 2 || iq > 2 || jq > 2) {
                                                continue;
                                            }
                                            if !among([ip, jp, iq, jq]) {
                                                continue;
                                            }
                                            ctx.step();
                                            let fq = Fun { e: rq, d: dq, i: iq, j: jq };
                                            let (mut ra, mut rb, mut sa, mut sb) = (0.0, 0.0, 0.0, 0.0);
                                            let mut k = 0;
                                            for (x, &u) in gx.iter().enumerate() {
                                                for (y, &v) in gx.iter().enumerate() {
                                                    let q = fq.at(&s.r.real_rect(rq), (rd[0] + rd[1]) / 2.0 + gxh * u, (rd[2] + rd[3]) / 2.0 + gyh * v);
                                                    let w = gw[x] * gw[y] * gxh * gyh;
                                                    let p = vp[k];
                                                    k += 1;
                                                    ra += w * p[2] * q[2];
                                                    sa += (w * p[2] * q[2]).abs();
                                                    rb += w * (p[0] * q[0] + p[1] * q[1]);
                                                    sb += (w * (p[0] * q[0] + p[1] * q[1])).abs();
                                                }
                                            }
                                            ra /= m.mu_rel.re;
                                            sa /= m.mu_rel.re.abs();
                                            rb *= m.eps_rel.re;
                                            sb *= m.eps_rel.re.abs();
                                            let o = ([ip, jp], [iq, jq]);
                                            let ca = parts(cc_d.integrate(bp, bq, o.0, o.1, pd, qd, m))?;
                                            let cb = parts(cc_e.integrate_by_parts(bp, bq, o.0, o.1, pe, qe, m))?;
                                            let ia = parts(in_d.integrate(bp, bq, o.0, o.1, pd, qd, m))?;
                                            let ib = parts(in_e.integrate_by_parts(bp, bq, o.0, o.1, pe, qe, m))?;
                                            let who = |f: &str| format!("{f} of {dp:?}{:?} of element {} and {dq:?}{:?} of element {} over element {} (material {mk})", o.0, s.m.real[rp], o.1, s.m.real[rq], s.m.real[d]);
                                            ensure!((ca.total - ra).abs() <= 1e-10 * sa.max(floor), "direct {}: {:e}, exact {ra:e}", who("curl-curl"), ca.total);
                                            ensure!((cb.total - ra).abs() <= 1e-10 * sa.max(cb.size).max(floor), "by-parts {}: {:e} (direct {:e})", who("curl-curl"), cb.total, ra);
                                            ensure!((ia.total - rb).abs() <= 1e-10 * sb.max(floor), "direct {}: {:e}, exact {rb:e}", who("inner product"), ia.total);
                                            ensure!((ib.total - rb).abs() <= 1e-10 * sb.max(ib.size).max(floor), "by-parts {}: {:e} (direct {:e})", who("inner product"), ib.total, rb);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// single rectangles of several aspect ratios
fn aspect(w: f64, h: f64) -> Grid {
    Grid::new(&format!("rect_{w}_{h}"), &[-0.5, -0.5 + w], &[1.0, 1.0 + h], &[(0, 0)])
}

pub fn c24() -> i32 {
    let ctx = Ctx::new("C24");
    if ctx.only.is_none() {
        let r = guard(|| accessors(&ctx)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
        ctx.check(&|| "accessors".into(), r);
    }
    let max = ctx.pick(4usize, 6);
    let mut plan: Vec<(Grid, usize, usize)> = vec![
        (uni::unit(), ctx.pick(2, 3), max),
        (uni::rect1(), ctx.pick(2, 3), max),
        (uni::odd2(), ctx.pick(1, 2), max),
        (uni::vert2s(), ctx.pick(1, 2), max),
        (aspect(16.0, 0.5), 1, max),
        (aspect(0.25, 3.0), 1, max),
        (aspect(1.0, 1.0), 0, ctx.pick(8, 12)),
        (aspect(2.0, 0.7), 0, ctx.pick(6, 12)),
    ];
    if ctx.thorough() {
        plan.push((uni::lshape(), 2, 4));
        plan.push((aspect(16.0, 0.5), 3, 4));
        plan.push((aspect(0.25, 3.0), 3, 4));
    }
    for (g, depth, max) in plan {
        let kinds: &[Kind] = if depth >= 3 { &BASIC } else { &ALL };
        let states = collect_with(&ctx, &g, kinds, depth, true);
        par_for(&ctx, &states, |s| tree_case(&ctx, s, &|s: &St| by_parts(&ctx, s, max, &|_| true)));
    }
    // high orders: one of the four orders alone, and combinations of some
    let top = ctx.pick(14usize, 20);
    let few = ctx.pick(vec![0, 9, 14], vec![0, 1, 5, 10, 15, 16, 20]);
    let high = |o: [usize; 4]| o.iter().filter(|k| **k > 2).count() <= 1 || o.iter().all(|k| few.contains(k));
    for (g, depth) in [(aspect(1.5, 1.0), ctx.pick(0, 1)), (uni::odd2(), ctx.pick(0, 1))] {
        let states = collect_with(&ctx, &g, &BASIC, depth, true);
        par_for(&ctx, &states, |s| tree_case(&ctx, s, &|s: &St| by_parts(&ctx, s, top, &high)));
    }
    // deep trees, large and small cells
    for g in [uni::unit(), uni::odd2(), uni::rect1().scaled(3e3, 0.0, 1.0), uni::vert2().scaled(0.004, 0.0, 0.0)] {
        let mut states = lead_states(&ctx, &g, &[0], ctx.pick(15, 20));
        states.extend(deep_states(&ctx, &g, 1, 15, None, 4));
        par_for(&ctx, &states, |s| tree_case(&ctx, s, &|s: &St| by_parts(&ctx, s, ctx.pick(1, 2), &|_| true)));
    }
    ctx.finish(
        "model_checking",
        "every refinement tree to the stated depth from rectangles of several aspect ratios, every ancestor-descendant pair in both argument orders, all direction pairs and all order pairs up to the bound, two materials; direct and by-parts forms against an exact integral of the closed-form functions",
        &["rules of max order + 2 and + 3 points, with end points for the by-parts form", "compared at 1e-10 of the magnitude of the parts", "element pairs that end in an element created by the last refinement; the others occur on the shorter history"],
    )
}
