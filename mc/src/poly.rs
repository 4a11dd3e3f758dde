//! Closed forms: shape functions, vector functions, a Gauss rule of our own, dense linear algebra helpers.
use crate::refm::RefMesh;
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::prelude::*;

/// x^i
pub fn pw(i: usize, x: f64) -> f64 {
    x.powi(i as i32)
}
pub fn pw1(i: usize, x: f64) -> f64 {
    if i == 0 {
        0.0
    } else {
        i as f64 * x.powi(i as i32 - 1)
    }
}
pub fn pw2(i: usize, x: f64) -> f64 {
    if i < 2 {
        0.0
    } else {
        (i * (i - 1)) as f64 * x.powi(i as i32 - 2)
    }
}
/// the hierarchical tangential shape functions: 1-x, 1+x, x^n - 1 (even n), x^n - x (odd n)
pub fn tg(i: usize, x: f64) -> f64 {
    match i {
        0 => 1.0 - x,
        1 => 1.0 + x,
        i if i % 2 == 0 => pw(i, x) - 1.0,
        i => pw(i, x) - x,
    }
}
pub fn tg1(i: usize, x: f64) -> f64 {
    match i {
        0 => -1.0,
        1 => 1.0,
        i if i % 2 == 0 => pw1(i, x),
        i => pw1(i, x) - 1.0,
    }
}
pub fn tg2(i: usize, x: f64) -> f64 {
    if i < 2 {
        0.0
    } else {
        pw2(i, x)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum D {
    U,
    V,
}

/// one local function: (reference element, direction, i, j)
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Fun {
    pub e: usize,
    pub d: D,
    pub i: usize,
    pub j: usize,
}

impl Fun {
    /// (fx, fy, curl) at a real point
    /// value at the point (u, v) of leaf `l`, which lies in the function's element; exact at any depth
    pub fn at_leaf(&self, r: &RefMesh, l: usize, u: f64, v: f64) -> [f64; 3] {
        let (a, b) = (r.elems[self.e].rect, r.elems[l].rect);
        let to = |k: usize, t: f64| {
            let w = (a[k + 1] - a[k]) as f64;
            (2 * (b[k] - a[k]) - (a[k + 1] - a[k])) as f64 / w + (t + 1.0) * ((b[k + 1] - b[k]) as f64 / w)
        };
        let rect = r.real_rect(self.e);
        self.local([(rect[1] - rect[0]) / 2.0, (rect[3] - rect[2]) / 2.0], to(0, u), to(2, v), &|i, u| pw(i, u), &|j, v| [tg(j, v), tg1(j, v)])
    }
    pub fn at(&self, rect: &[f64; 4], x: f64, y: f64) -> [f64; 3] {
        self.with(rect, x, y, &|i, u| pw(i, u), &|j, v| [tg(j, v), tg1(j, v)])
    }
    /// the same with other shape functions: n(order, x), t(order, x) = [value, derivative]
    pub fn with(&self, rect: &[f64; 4], x: f64, y: f64, n: &dyn Fn(usize, f64) -> f64, t: &dyn Fn(usize, f64) -> [f64; 2]) -> [f64; 3] {
        let (hx, hy) = ((rect[1] - rect[0]) / 2.0, (rect[3] - rect[2]) / 2.0);
        let u = (x - (rect[0] + rect[1]) / 2.0) / hx;
        let v = (y - (rect[2] + rect[3]) / 2.0) / hy;
        self.local([hx, hy], u, v, n, t)
    }
    fn local(&self, [hx, hy]: [f64; 2], u: f64, v: f64, n: &dyn Fn(usize, f64) -> f64, t: &dyn Fn(usize, f64) -> [f64; 2]) -> [f64; 3] {
        match self.d {
            // curl = d fy/dx - d fx/dy
            D::U => {
                let (n, t) = (n(self.i, u), t(self.j, v));
                [n * t[0] / hx, 0.0, -n * t[1] / (hx * hy)]
            }
            D::V => {
                let (t, n) = (t(self.i, u), n(self.j, v));
                [0.0, t[0] * n / hy, t[1] * n / (hx * hy)]
            }
        }
    }
}

/// the functions of each degree of freedom, as the domain reports them (elements in reference numbering)
pub fn dof_funs(dom: &Domain, refi: &[usize]) -> Result<Vec<Vec<Fun>>, String> {
    let mut out = Vec::with_capacity(dom.dofs.len());
    for d in &dom.dofs {
        let mut v = vec![];
        for a in d.get_basis_specs() {
            let s = dom.get_basis_spec(a).map_err(|e| e.to_string())?;
            let dir = match s.dir {
                BasisDir::U => D::U,
                BasisDir::V => D::V,
                BasisDir::W => return Err(format!("degree of freedom {} has a W-directed function", d.id)),
            };
            v.push(Fun { e: refi[s.elem_id], d: dir, i: s.i as usize, j: s.j as usize });
        }
        v.sort();
        out.push(v);
    }
    Ok(out)
}

/// the expected degrees of freedom, from the reference mesh alone
pub fn expected_dofs(r: &RefMesh) -> Vec<Vec<Fun>> {
    let mut out = vec![];
    for e in r.leaves() {
        let [ni, nj] = r.elems[e].orders.map(|o| o as usize);
        for i in 0..ni {
            for j in 2..=nj {
                out.push(vec![Fun { e, d: D::U, i, j }]);
            }
        }
        for i in 2..=ni {
            for j in 0..nj {
                out.push(vec![Fun { e, d: D::V, i, j }]);
            }
        }
    }
    let t = r.topology();
    for (s, [a, b]) in t.active(r) {
        // a lies below / left of the edge (its upper / right side), b above / right
        let (oa, ob) = (r.elems[a].orders, r.elems[b].orders);
        if crate::refm::is_horizontal(&s) {
            for i in 0..oa[0].min(ob[0]) as usize {
                let mut v = vec![Fun { e: a, d: D::U, i, j: 1 }, Fun { e: b, d: D::U, i, j: 0 }];
                v.sort();
                out.push(v);
            }
        } else {
            for j in 0..oa[1].min(ob[1]) as usize {
                let mut v = vec![Fun { e: a, d: D::V, i: 1, j }, Fun { e: b, d: D::V, i: 0, j }];
                v.sort();
                out.push(v);
            }
        }
    }
    out.sort();
    out
}

/// n-point Gauss-Legendre rule by Newton's method on the Legendre recurrence (independent of the library)
pub fn gauss(n: usize) -> (Vec<f64>, Vec<f64>) {
    let mut x = vec![0.0; n];
    let mut w = vec![0.0; n];
    for k in 0..n {
        let mut t = (std::f64::consts::PI * (k as f64 + 0.75) / (n as f64 + 0.5)).cos();
        let mut dp = 0.0;
        for _ in 0..100 {
            let (mut p0, mut p1) = (1.0, t);
            for m in 2..=n {
                let p2 = ((2 * m - 1) as f64 * t * p1 - (m - 1) as f64 * p0) / m as f64;
                p0 = p1;
                p1 = p2;
            }
            if n == 1 {
                p0 = 1.0;
                p1 = t;
            }
            dp = n as f64 * (t * p1 - p0) / (t * t - 1.0);
            let dt = p1 / dp;
            t -= dt;
            if dt.abs() < 1e-16 {
                break;
            }
        }
        x[n - 1 - k] = t;
        w[n - 1 - k] = 2.0 / ((1.0 - t * t) * dp * dp);
    }
    (x, w)
}

/// symmetric dense matrix, row major
pub struct Sym {
    pub n: usize,
    pub a: Vec<f64>,
}
impl Sym {
    pub fn zero(n: usize) -> Self {
        Self { n, a: vec![0.0; n * n] }
    }
    pub fn get(&self, r: usize, c: usize) -> f64 {
        self.a[r * self.n + c]
    }
    pub fn add(&mut self, r: usize, c: usize, v: f64) {
        self.a[r * self.n + c] += v;
    }
}

/// reference matrices A and B
/// upper triangle of the two matrices, as (row, column) -> value; for meshes too large for dense matrices
pub type Sparse = std::collections::HashMap<(usize, usize), f64>;
pub fn reference_sparse(r: &RefMesh, funs: &[Vec<Fun>], materials: &[[f64; 4]]) -> (Sparse, Sparse) {
    let (mut a, mut b) = (Sparse::new(), Sparse::new());
    let maxo = r.elems.iter().map(|e| e.orders[0].max(e.orders[1])).max().unwrap() as usize;
    let (gx, gw) = gauss(maxo + 2);
    let mut by_elem: Vec<Vec<(usize, &Fun)>> = vec![vec![]; r.elems.len()];
    for (d, fs) in funs.iter().enumerate() {
        for f in fs {
            by_elem[f.e].push((d, f));
        }
    }
    for l in r.leaves() {
        let rect = r.real_rect(l);
        let (hx, hy) = ((rect[1] - rect[0]) / 2.0, (rect[3] - rect[2]) / 2.0);
        let mut pts = vec![];
        for (i, &u) in gx.iter().enumerate() {
            for (j, &v) in gx.iter().enumerate() {
                pts.push((u, v, gw[i] * gw[j] * hx * hy));
            }
        }
        let mut sup: std::collections::BTreeMap<usize, Vec<[f64; 3]>> = Default::default();
        for e in r.ancestors(l).into_iter().chain([l]) {
            for (d, f) in &by_elem[e] {
                let v = sup.entry(*d).or_insert_with(|| vec![[0.0; 3]; pts.len()]);
                for (k, p) in pts.iter().enumerate() {
                    let t = f.at_leaf(r, l, p.0, p.1);
                    for c in 0..3 {
                        v[k][c] += t[c];
                    }
                }
            }
        }
        let m = materials[r.elems[l].root];
        for (p, vp) in &sup {
            for (q, vq) in sup.range(*p..) {
                let (mut ia, mut ib) = (0.0, 0.0);
                for (k, x) in pts.iter().enumerate() {
                    ia += x.2 * vp[k][2] * vq[k][2];
                    ib += x.2 * (vp[k][0] * vq[k][0] + vp[k][1] * vq[k][1]);
                }
                *a.entry((*p, *q)).or_insert(0.0) += ia / m[2];
                *b.entry((*p, *q)).or_insert(0.0) += ib * m[0];
            }
        }
    }
    (a, b)
}

pub fn reference_matrices(r: &RefMesh, funs: &[Vec<Fun>], materials: &[[f64; 4]]) -> (Sym, Sym) {
    let n = funs.len();
    let (mut a, mut b) = (Sym::zero(n), Sym::zero(n));
    let maxo = r.elems.iter().map(|e| e.orders[0].max(e.orders[1])).max().unwrap() as usize;
    let (gx, gw) = gauss(maxo + 2);
    for l in r.leaves() {
        let mut chain = r.ancestors(l);
        chain.push(l);
        let rect = r.real_rect(l);
        let (hx, hy) = ((rect[1] - rect[0]) / 2.0, (rect[3] - rect[2]) / 2.0);
        // values of each supported degree of freedom at the quadrature points
        let mut sup: Vec<(usize, Vec<[f64; 3]>)> = vec![];
        for (d, fs) in funs.iter().enumerate() {
            let act: Vec<&Fun> = fs.iter().filter(|f| chain.contains(&f.e)).collect();
            if act.is_empty() {
                continue;
            }
            let mut vals = Vec::with_capacity(gx.len() * gx.len());
            for &u in &gx {
                for &v in &gx {
                    let mut s = [0.0; 3];
                    for f in &act {
                        let t = f.at_leaf(r, l, u, v);
                        for k in 0..3 {
                            s[k] += t[k];
                        }
                    }
                    vals.push(s);
                }
            }
            sup.push((d, vals));
        }
        let m = materials[r.elems[l].root];
        let mut w2 = vec![];
        for &p in &gw {
            for &q in &gw {
                w2.push(p * q * hx * hy);
            }
        }
        for (p, (dp, vp)) in sup.iter().enumerate() {
            for (dq, vq) in sup.iter().skip(p) {
                let (mut ia, mut ib) = (0.0, 0.0);
                for k in 0..w2.len() {
                    ia += w2[k] * vp[k][2] * vq[k][2];
                    ib += w2[k] * (vp[k][0] * vq[k][0] + vp[k][1] * vq[k][1]);
                }
                ia /= m[2];
                ib *= m[0];
                a.add(*dp, *dq, ia);
                b.add(*dp, *dq, ib);
                if dp != dq {
                    a.add(*dq, *dp, ia);
                    b.add(*dq, *dp, ib);
                }
            }
        }
    }
    (a, b)
}

/// Lagrange interpolation through n uniformly spaced values on [-1, 1]
pub fn lagrange(vals: &[f64], t: f64) -> f64 {
    let n = vals.len();
    let xs: Vec<f64> = (0..n).map(|k| -1.0 + 2.0 * k as f64 / (n - 1) as f64).collect();
    let mut s = 0.0;
    for k in 0..n {
        let mut l = 1.0;
        for m in 0..n {
            if m != k {
                l *= (t - xs[m]) / (xs[k] - xs[m]);
            }
        }
        s += vals[k] * l;
    }
    s
}

/// orthonormal basis of the columns (modified Gram-Schmidt with pivoting and re-orthogonalisation); columns are normalised first.
/// Returns (basis, smallest accepted pivot).
pub fn orth(mut cols: Vec<Vec<f64>>, tol: f64) -> (Vec<Vec<f64>>, f64) {
    for c in cols.iter_mut() {
        let n = c.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n > 0.0 {
            c.iter_mut().for_each(|x| *x /= n);
        }
    }
    let mut q: Vec<Vec<f64>> = vec![];
    let mut smallest = 1.0;
    while !cols.is_empty() {
        let (k, nk) = cols
            .iter()
            .enumerate()
            .map(|(k, c)| (k, c.iter().map(|x| x * x).sum::<f64>().sqrt()))
            .max_by(|a, b| a.1.partial_cmp(&b.1).unwrap())
            .unwrap();
        if nk < tol {
            break;
        }
        if nk < smallest {
            smallest = nk;
        }
        let mut c = cols.swap_remove(k);
        for _ in 0..2 {
            for b in &q {
                let d: f64 = b.iter().zip(&c).map(|(x, y)| x * y).sum();
                for (x, y) in c.iter_mut().zip(b) {
                    *x -= d * y;
                }
            }
        }
        let n = c.iter().map(|x| x * x).sum::<f64>().sqrt();
        c.iter_mut().for_each(|x| *x /= n);
        for o in cols.iter_mut() {
            let d: f64 = c.iter().zip(o.iter()).map(|(x, y)| x * y).sum();
            for (x, y) in o.iter_mut().zip(&c) {
                *x -= d * y;
            }
        }
        q.push(c);
    }
    (q, smallest)
}

/// norm of the part of v outside span(q), relative to |v|
pub fn residual(q: &[Vec<f64>], v: &[f64]) -> f64 {
    let n0 = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    if n0 == 0.0 {
        return 0.0;
    }
    let mut v = v.to_vec();
    for _ in 0..2 {
        for b in q {
            let d: f64 = b.iter().zip(&v).map(|(x, y)| x * y).sum();
            for (x, y) in v.iter_mut().zip(b) {
                *x -= d * y;
            }
        }
    }
    v.iter().map(|x| x * x).sum::<f64>().sqrt() / n0
}
