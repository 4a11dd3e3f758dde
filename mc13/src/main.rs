//! C13: parallel assembly under every schedule (to a deviation bound). The library is built with its synchronisation routed through
//! the controlled scheduler and with a controlled work-stealing pool; see DESIGN.md.
#![allow(dead_code)]
#[path = "../../mc/src/cases.rs"]
mod cases;
#[path = "../../mc/src/ctx.rs"]
mod ctx;
#[path = "../../mc/src/explore.rs"]
mod explore;
#[path = "../../mc/src/obs.rs"]
mod obs;
#[path = "../../mc/src/poly.rs"]
mod poly;
#[path = "../../mc/src/refm.rs"]
mod refm;
#[path = "../../mc/src/uni.rs"]
mod uni;

use cases::*;
use ctx::*;
use explore::*;
use fem_2d::fem_domain::basis::{BasisFnSampler, HierCurlBasisFn};
use fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix;
use fem_2d::fem_problem::linalg::GEP;
use fem_2d::prelude::*;
use mcsched::Policy;
use obs::ensure;
use poly::*;
use rayon::prelude::*;
use refm::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
struct Job {
    scenario: String,
    workers: usize,
    policy: Policy,
    bound: usize,
    /// executions after which the exploration is cut (and reported as incomplete)
    cap: u64,
}

impl Job {
    fn name(&self) -> String {
        format!("{}|{}|{:?}|{}|{}", self.scenario, self.workers, self.policy, self.bound, self.cap)
    }
    fn parse(s: &str) -> Option<Job> {
        let p: Vec<&str> = s.split('|').collect();
        Some(Job {
            scenario: p.first()?.to_string(),
            workers: p.get(1)?.parse().ok()?,
            policy: match *p.get(2)? {
                "RunOn" => Policy::RunOn,
                "Eager" => Policy::Eager,
                "RoundRobin" => Policy::RoundRobin,
                _ => return None,
            },
            bound: p.get(3)?.parse().ok()?,
            cap: p.get(4)?.parse().ok()?,
        })
    }
}

// ------------------------------------------------------------------------------------------------ scenarios

type Body = Box<dyn Fn() -> Result<(), String>>;

fn contribution(n: usize, i: usize) -> [SparseMatrix; 2] {
    let mut a = SparseMatrix::new(n);
    let mut b = SparseMatrix::new(n);
    a.insert([0, 0], (1u64 << i) as f64);
    a.insert([i, n - 1], 3.0 + i as f64);
    b.insert_group(vec![([n - 1, 0], (1u64 << (2 * i)) as f64), ([i, i], 1.0)]);
    [a, b]
}

/// `n` pairs of small matrices (dimension 8) whose sum is known exactly
fn many(n: usize) -> Result<(), String> {
    let mut g = GEP::new(8);
    g.par_extend((0..n).into_par_iter().map(|i| {
        let mut a = SparseMatrix::new(8);
        let mut b = SparseMatrix::new(8);
        a.insert([i % 8, 7], (i + 1) as f64);
        a.insert([0, 0], 1.0);
        b.insert_group(vec![([7 - i % 8, 0], (i * i) as f64)]);
        [a, b]
    }));
    let mut wa = BTreeMap::new();
    let mut wb = BTreeMap::new();
    for i in 0..n {
        *wa.entry((i % 8, 7)).or_insert(0.0) += (i + 1) as f64;
        *wa.entry((0, 0)).or_insert(0.0) += 1.0;
        *wb.entry((0, 7 - i % 8)).or_insert(0.0) += (i * i) as f64;
    }
    ensure!(entries(&g.a) == wa, "A is {:?} instead of {wa:?}", entries(&g.a));
    ensure!(entries(&g.b) == wb, "B is {:?} instead of {wb:?}", entries(&g.b));
    Ok(())
}

fn entries(m: &SparseMatrix) -> BTreeMap<(usize, usize), f64> {
    m.iter_upper_tri().map(|([r, c], v)| ((r, c), v)).collect()
}

fn extended(g: &GEP, n: usize, base: f64) -> Result<(), String> {
    let mut wa = BTreeMap::new();
    let mut wb = BTreeMap::new();
    if base != 0.0 {
        wa.insert((0, 0), base);
    }
    for i in 0..n {
        *wa.entry((0, 0)).or_insert(0.0) += (1u64 << i) as f64;
        *wa.entry((i, n - 1)).or_insert(0.0) += 3.0 + i as f64;
        *wb.entry((0, n - 1)).or_insert(0.0) += (1u64 << (2 * i)) as f64;
        *wb.entry((i, i)).or_insert(0.0) += 1.0;
    }
    let (a, b) = (entries(&g.a), entries(&g.b));
    ensure!(a == wa, "A is {a:?} instead of {wa:?}");
    ensure!(b == wb, "B is {b:?} instead of {wb:?}");
    Ok(())
}

/// mesh scenarios: name -> (grid, history, orders)
fn mesh_of(name: &str) -> Option<(uni::Grid, Vec<(usize, Kind)>, [u8; 2])> {
    Some(match name {
        "unit1" => (uni::unit(), vec![], [2, 2]),
        "pair" => (uni::horiz2(), vec![], [2, 1]),
        "four" => (uni::square4s(), vec![], [1, 1]),
        "split" => (uni::unit(), vec![(0, Kind::U)], [2, 2]),
        "tee" => (uni::unit(), vec![(0, Kind::T)], [2, 2]),
        "hang" => (uni::horiz2(), vec![(1, Kind::V)], [1, 2]),
        "deep" => (uni::horiz2(), vec![(0, Kind::U), (2, Kind::V)], [2, 2]),
        "ring" => (uni::ring8(), vec![], [1, 1]),
        "six" => (uni::square4(), vec![(0, Kind::V)], [1, 2]),
        "wide" => (uni::square4s(), vec![], [1, 2]),
        "fine" => (uni::square4(), vec![(0, Kind::T), (3, Kind::U)], [2, 2]),
        _ => return None,
    })
}

struct Case {
    dom: Domain,
    a: Sym,
    b: Sym,
    pattern: [usize; 2],
}

fn case_of(ctx: &Ctx, name: &str) -> Result<Case, String> {
    let (mut grid, hist, o) = mesh_of(name).ok_or("no such mesh")?;
    if !grid.unit {
        for m in grid.materials.iter_mut() {
            m[1] = 0.0;
            m[3] = 0.0;
        }
    }
    let mut s = St::replay(ctx, &grid, &hist)?;
    if name.starts_with("wide") {
        s = s.global(Kind::T)?.global(Kind::V)?;
    }
    let s = with_orders(&s, &vec![o; s.r.elems.len()])?;
    let dom = domain(&s)?;
    let funs = dof_funs(&dom, &s.m.refi)?;
    let mats: Vec<[f64; 4]> = grid.materials.clone();
    let (a, b) = reference_matrices(&s.r, &funs, &mats);
    Ok(Case { dom, a, b, pattern: [0, 0] })
}

fn assembled(g: &GEP, c: &Case) -> Result<(), String> {
    let n = c.dom.dofs.len();
    let diag: Vec<f64> = {
        let mx = (0..n).map(|i| c.a.get(i, i)).fold(0.0, f64::max);
        (0..n).map(|i| c.a.get(i, i).abs().max(c.b.get(i, i).abs() * 1e-3).max(mx * 1e-6)).collect()
    };
    let db: Vec<f64> = (0..n).map(|i| c.b.get(i, i)).collect();
    for (m, want, d, name) in [(&g.a, &c.a, &diag, "A"), (&g.b, &c.b, &db, "B")] {
        ensure!(m.dimension == n, "{name} has dimension {} instead of {n}", m.dimension);
        let e = entries(m);
        for i in 0..n {
            for j in i..n {
                let got = e.get(&(i, j)).copied().unwrap_or(0.0);
                ensure!((got - want.get(i, j)).abs() <= 1e-9 * (d[i] * d[j]).sqrt(), "{name}[{i}, {j}] is {got:e} instead of {:e}", want.get(i, j));
            }
        }
    }
    Ok(())
}

type S = HierCurlBasisFn<HierPoly>;

/// the numbers of a sampled function that tell it from every other one
fn print_of(b: &S, o: [usize; 2]) -> Vec<u64> {
    let mut v = vec![];
    for i in 0..=o[0] {
        for j in 0..=o[1] {
            for p in [[0, 0], [1, 2], [3, 3]] {
                let (u, w) = (b.f_u([i, j], p), b.f_v([i, j], p));
                v.extend([u.x().to_bits(), u.y().to_bits(), w.x().to_bits(), w.y().to_bits()]);
            }
        }
    }
    v
}

fn scenario(ctx: &Ctx, name: &str) -> Result<Body, String> {
    let (kind, arg) = name.strip_prefix("fresh-").unwrap_or(name).split_once(':').ok_or("bad scenario")?;
    Ok(match kind {
        // problem extended in parallel by n pairs of matrices
        "extend" => {
            let n: usize = arg.parse().map_err(|_| "n")?;
            Box::new(move || {
                let mut g = GEP::new(n);
                g.par_extend((0..n).into_par_iter().map(|i| contribution(n, i)));
                extended(&g, n, 0.0)
            })
        }
        "many" => {
            let n: usize = arg.parse().map_err(|_| "n")?;
            Box::new(move || many(n))
        }
        // the same from a vector, into a problem that holds something already
        "again" => {
            let n: usize = arg.parse().map_err(|_| "n")?;
            Box::new(move || {
                let mut g = GEP::new(n);
                g.a.insert([0, 0], 0.5);
                let v: Vec<_> = (0..n).map(|i| contribution(n, i)).collect();
                g.par_extend(v);
                extended(&g, n, 0.5)
            })
        }
        "assemble" => {
            let c = case_of(ctx, arg)?;
            Box::new(move || {
                let g = galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&c.dom, None).map_err(|e| format!("assembly is refused: {e}"))?;
                assembled(&g, &c)
            })
        }
        // two assemblies at a time, started from inside the pool
        "both" => {
            let (x, y) = arg.split_once('+').ok_or("two meshes")?;
            let (c, d) = (case_of(ctx, x)?, case_of(ctx, y)?);
            Box::new(move || {
                let run = |c: &Case| galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&c.dom, None).map_err(|e| format!("assembly is refused: {e}"));
                let (g, h) = rayon::join(|| run(&c), || run(&d));
                assembled(&g?, &c)?;
                assembled(&h?, &d)
            })
        }
        // clones of one sampler used side by side, with colliding requests
        "sample" => {
            let c = case_of(ctx, arg)?;
            let el = &c.dom.mesh.elems;
            let mut reqs: Vec<(usize, Option<usize>)> = vec![];
            for e in el.iter() {
                reqs.push((e.id, None));
                for d in c.dom.mesh.descendant_elems(e.id, false).map_err(|x| x.to_string())? {
                    reqs.push((e.id, Some(d)));
                }
            }
            reqs.truncate(5);
            let [im, jm] = c.dom.mesh.max_expansion_orders().map(|x| x as usize);
            let fresh: Vec<Vec<u64>> = reqs
                .iter()
                .map(|(e, d)| {
                    let (mut s, _) = BasisFnSampler::<S>::with(im, jm, Some(4), Some(4), false);
                    print_of(&s.sample_basis_fn(&el[*e], d.map(|d| &el[d])), [im, jm])
                })
                .collect();
            Box::new(move || {
                let el = &c.dom.mesh.elems;
                let (s, _) = BasisFnSampler::<S>::with(im, jm, Some(4), Some(4), false);
                let n = reqs.len();
                let bad = (0..3usize).into_par_iter().map(|t| {
                    let mut s = s.clone();
                    let mut bad = 0;
                    for k in 0..n {
                        let q = (k * (t + 1) + t) % n;
                        let (e, d) = reqs[q];
                        let b = s.sample_basis_fn(&el[e], d.map(|d| &el[d]));
                        if print_of(&b, [im, jm]) != fresh[q] {
                            bad += 1;
                        }
                    }
                    bad
                });
                let bad: usize = bad.sum();
                ensure!(bad == 0, "{bad} of the functions sampled side by side differ from the ones sampled alone");
                Ok(())
            })
        }
        _ => return Err(format!("no scenario {kind}")),
    })
}

// ------------------------------------------------------------------------------------------------ one job

static NAME: Mutex<String> = Mutex::new(String::new());

fn say(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}

fn on_fatal(what: &str, trace: &[usize]) {
    say(&format!("VIOL\t{}\t{}\t{what}", NAME.lock().unwrap(), join(trace)));
    std::process::exit(0);
}

fn join(t: &[usize]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

extern "C" {
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}

fn order(d: &mcsched::Decision) -> Vec<usize> {
    let mut v = vec![d.default];
    v.extend((0..d.options).filter(|x| *x != d.default));
    v
}

/// the next sequence of decisions within the bound
fn advance(t: &[mcsched::Decision], bound: usize) -> Option<Vec<usize>> {
    let mut spent: Vec<usize> = vec![0];
    for d in t {
        spent.push(spent.last().unwrap() + if d.chosen != d.default { d.cost } else { 0 });
    }
    for i in (0..t.len()).rev() {
        let o = order(&t[i]);
        let pos = o.iter().position(|x| *x == t[i].chosen).unwrap();
        if pos + 1 < o.len() && spent[i] + t[i].cost <= bound {
            let mut p: Vec<usize> = t[..i].iter().map(|d| d.chosen).collect();
            p.push(o[pos + 1]);
            return Some(p);
        }
    }
    None
}

/// one execution of the scenario in a process of its own: everything that happens only once in a process is part of it
fn run_once(spec: &str, cpu: usize, prefix: &str) -> i32 {
    let job = Job::parse(spec).expect("job");
    *NAME.lock().unwrap() = job.name();
    prepare(&job, cpu);
    let ctx = Ctx::new("C13");
    let body = guard(|| scenario(&ctx, &job.scenario)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
    let _ = std::fs::remove_dir_all(&ctx.scratch);
    let prefix: Vec<usize> = prefix.split(',').filter_map(|x| x.parse().ok()).collect();
    mcsched::begin(job.policy, &prefix);
    let r = match &body {
        Ok(b) => guard(b).unwrap_or_else(|p| Err(format!("panicked: {p}"))),
        Err(e) => Err(format!("preparing the scenario: {e}")),
    };
    let run = mcsched::end();
    let dec: Vec<usize> = run.trace.iter().map(|d| d.chosen).collect();
    if let Err(e) = r {
        say(&format!("VIOL\t{}\t{}\t{e}", job.name(), join(&dec)));
        return 0;
    }
    let t: Vec<String> = run.trace.iter().map(|d| format!("{}:{}:{}:{}", d.options, d.chosen, d.default, d.cost)).collect();
    say(&format!("ONCE\t{}\t{}\t{}\t{}", run.points, run.diverged as u8, run.lost, t.join(",")));
    0
}

/// the exploration of a scenario, every execution in a process of its own
fn run_fresh(spec: &str, cpu: usize, replay: Option<&str>) -> i32 {
    let job = Job::parse(spec).expect("job");
    let exe = std::env::current_exe().unwrap();
    let mut prefix = replay.unwrap_or("").to_string();
    let (mut runs, mut points, mut diverged, mut lost, mut maxdec) = (0u64, 0u64, 0u64, 0u64, 0usize);
    let mut hashes = std::collections::HashSet::new();
    let mut complete = true;
    loop {
        let out = Command::new(&exe).arg("once").arg(spec).arg(cpu.to_string()).arg(&prefix).stderr(Stdio::null()).output().unwrap();
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let Some(f) = text.lines().find(|l| l.starts_with("ONCE\t")).map(|l| l.split('\t').map(|x| x.to_string()).collect::<Vec<_>>()) else {
            match text.lines().find(|l| l.starts_with("VIOL\t")) {
                Some(l) => say(l),
                None => say(&format!("VIOL\t{}\t{prefix}\tthe process ended with {}", job.name(), out.status)),
            }
            return 0;
        };
        let trace: Vec<mcsched::Decision> = f[4]
            .split(',')
            .filter(|x| !x.is_empty())
            .map(|d| {
                let n: Vec<usize> = d.split(':').map(|x| x.parse().unwrap()).collect();
                mcsched::Decision { options: n[0], chosen: n[1], default: n[2], cost: n[3] }
            })
            .collect();
        runs += 1;
        points += f[1].parse::<u64>().unwrap_or(0);
        diverged += f[2].parse::<u64>().unwrap_or(0);
        lost += f[3].parse::<u64>().unwrap_or(0);
        maxdec = maxdec.max(trace.len());
        hashes.insert(trace.iter().map(|d| d.chosen).collect::<Vec<_>>());
        if replay.is_some() {
            break;
        }
        let next = advance(&trace, job.bound);
        if runs >= job.cap {
            complete = next.is_none();
            break;
        }
        match next {
            Some(p) => prefix = join(&p),
            None => break,
        }
    }
    say(&format!("DONE\t{}\t{runs}\t{points}\t{}\t{diverged}\t{lost}\t{maxdec}\t{complete}\t0", job.name(), hashes.len()));
    0
}

fn prepare(job: &Job, cpu: usize) {
    unsafe {
        let mask = [1u64 << (cpu % 64)];
        sched_setaffinity(0, 8, mask.as_ptr());
    }
    mcsched::on_fatal(on_fatal);
    mcsched::register();
    rayon_core::mc_start(job.workers);
}

fn run_job(spec: &str, cpu: usize, replay: Option<&str>) -> i32 {
    let job = Job::parse(spec).expect("job");
    *NAME.lock().unwrap() = job.name();
    prepare(&job, cpu);
    let ctx = Ctx::new("C13");
    let body = guard(|| scenario(&ctx, &job.scenario)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
    let _ = std::fs::remove_dir_all(&ctx.scratch);
    let body = match body {
        Ok(b) => b,
        Err(e) => {
            say(&format!("VIOL\t{}\t\tpreparing the scenario: {e}", job.name()));
            return 0;
        }
    };
    let mut prefix: Vec<usize> = replay.map(|r| r.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let (mut runs, mut points, mut diverged, mut lost, mut maxdec) = (0u64, 0u64, 0u64, 0u64, 0usize);
    let mut hashes = std::collections::HashSet::new();
    let mut complete = true;
    if replay.is_none() {
        // whatever happens only once in a process (lazily made tables, thread-local state) happens here
        mcsched::begin(job.policy, &[]);
        let r = guard(&body).unwrap_or_else(|p| Err(format!("panicked: {p}")));
        let run = mcsched::end();
        if let Err(e) = r {
            let dec: Vec<usize> = run.trace.iter().map(|d| d.chosen).collect();
            say(&format!("VIOL\t{}\t{}\t{e}", job.name(), join(&dec)));
            return 0;
        }
    }
    loop {
        mcsched::begin(job.policy, &prefix);
        let r = guard(&body).unwrap_or_else(|p| Err(format!("panicked: {p}")));
        let run = mcsched::end();
        runs += 1;
        points += run.points;
        diverged += run.diverged as u64;
        lost += run.lost;
        maxdec = maxdec.max(run.trace.len());
        let dec: Vec<usize> = run.trace.iter().map(|d| d.chosen).collect();
        {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            dec.hash(&mut h);
            hashes.insert(h.finish());
        }
        if let Err(e) = r {
            say(&format!("VIOL\t{}\t{}\t{e}", job.name(), join(&dec)));
            return 0;
        }
        if replay.is_some() {
            break;
        }
        if runs % 5000 == 1 {
            // the same decisions give the same execution
            mcsched::begin(job.policy, &dec);
            let r = guard(&body).unwrap_or_else(|p| Err(format!("panicked: {p}")));
            let again = mcsched::end();
            if let Err(e) = r {
                say(&format!("VIOL\t{}\t{}\t{e}", job.name(), join(&dec)));
                return 0;
            }
            if again.diverged || again.points != run.points || again.trace.iter().map(|d| d.chosen).collect::<Vec<_>>() != dec {
                diverged += 1;
            }
        }
        if runs >= job.cap {
            complete = advance(&run.trace, job.bound).is_none();
            break;
        }
        match advance(&run.trace, job.bound) {
            Some(p) => prefix = p,
            None => break,
        }
    }
    say(&format!("DONE\t{}\t{runs}\t{points}\t{}\t{diverged}\t{lost}\t{maxdec}\t{complete}\t{}", job.name(), hashes.len(), rayon_core::STEALS.load(SeqCst)));
    0
}

// ------------------------------------------------------------------------------------------------ the driver

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("job") {
        let cpu = args[3].parse().unwrap_or(0);
        if args[2].starts_with("fresh-") {
            std::process::exit(run_fresh(&args[2], cpu, args.get(4).map(|s| s.as_str())));
        }
        std::process::exit(run_job(&args[2], cpu, args.get(4).map(|s| s.as_str())));
    }
    if args.get(1).map(|s| s.as_str()) == Some("once") {
        std::process::exit(run_once(&args[2], args[3].parse().unwrap_or(0), args.get(4).map(|s| s.as_str()).unwrap_or("")));
    }
    let ctx = Ctx::new("C13");
    let mode = std::env::var("FEM2D_C13_MODE").unwrap_or_else(|_| "controlled".into());
    let cap = ctx.pick(60_000, 3_000_000);
    let mut jobs: Vec<Job> = vec![];
    let mut add = |scenario: &str, workers: &[usize], bounds: [usize; 3]| {
        for &w in workers {
            for (p, b) in [Policy::RunOn, Policy::Eager, Policy::RoundRobin].into_iter().zip(bounds) {
                jobs.push(Job { scenario: scenario.into(), workers: w, policy: p, bound: b, cap });
            }
        }
    };
    if ctx.thorough() {
        add("extend:1", &[1, 2, 3], [4, 4, 4]);
        add("extend:2", &[1, 2, 3], [4, 4, 4]);
        add("extend:3", &[1, 2, 3], [4, 4, 4]);
        add("extend:5", &[1, 2, 3, 4], [3, 3, 3]);
        add("again:4", &[1, 2, 3], [3, 3, 3]);
        add("extend:9", &[2, 4], [3, 3, 2]);
        for m in ["unit1", "pair", "four", "split", "hang"] {
            add(&format!("assemble:{m}"), &[1, 2, 3], [3, 3, 3]);
        }
        for m in ["tee", "deep", "six", "ring", "fine"] {
            add(&format!("assemble:{m}"), &[1, 2, 4], [2, 2, 2]);
        }
        add("both:pair+split", &[1, 2, 3], [2, 2, 2]);
        for m in ["pair", "split", "hang"] {
            add(&format!("fresh-assemble:{m}"), &[1, 2, 3], [2, 2, 2]);
        }
        add("fresh-assemble:tee", &[2, 3], [1, 1, 1]);
        add("both:tee+tee", &[2], [2, 2, 1]);
        for n in [33, 65, 129, 257] {
            add(&format!("many:{n}"), &[1, 2, 3, 4, 8], [1, 1, 1]);
        }
        for n in [513, 1025, 4097] {
            add(&format!("many:{n}"), &[1, 2, 4, 8], [0, 0, 0]);
        }
        add("many:40", &[2], [2, 2, 2]);
        add("assemble:wide", &[1, 2, 4, 8], [1, 1, 1]);
        for m in ["pair", "split", "tee"] {
            add(&format!("sample:{m}"), &[2, 3], [3, 3, 3]);
        }
    } else {
        add("extend:1", &[1, 2], [4, 4, 4]);
        add("extend:2", &[1, 2], [4, 4, 4]);
        add("extend:2", &[3], [3, 3, 3]);
        add("extend:3", &[1, 2], [4, 4, 4]);
        add("extend:3", &[3], [3, 3, 3]);
        add("extend:5", &[2], [3, 3, 3]);
        add("extend:5", &[3], [2, 2, 2]);
        add("again:4", &[1, 2], [3, 3, 3]);
        add("assemble:pair", &[1, 2, 3], [3, 3, 3]);
        add("assemble:four", &[2], [3, 3, 3]);
        add("assemble:split", &[1, 2], [3, 3, 3]);
        add("assemble:split", &[3], [2, 2, 2]);
        add("assemble:hang", &[2], [3, 3, 3]);
        add("assemble:hang", &[3], [1, 2, 2]);
        add("assemble:tee", &[1, 2], [2, 2, 2]);
        add("assemble:tee", &[4], [1, 1, 1]);
        add("assemble:deep", &[2], [2, 2, 2]);
        add("assemble:ring", &[3], [1, 1, 1]);
        add("assemble:six", &[2], [1, 1, 1]);
        add("both:pair+split", &[1, 2], [2, 2, 2]);
        add("many:33", &[2, 3], [1, 1, 1]);
        add("many:129", &[1, 2], [1, 1, 1]);
        add("many:257", &[1, 2, 4], [0, 0, 0]);
        add("many:1025", &[1, 2], [0, 0, 0]);
        add("assemble:wide", &[1, 2, 4], [0, 0, 0]);
        add("sample:pair", &[2], [3, 3, 3]);
        add("sample:split", &[2], [2, 2, 2]);
        add("fresh-extend:2", &[2], [2, 2, 2]);
        add("fresh-assemble:pair", &[1, 2], [2, 2, 2]);
        add("fresh-assemble:split", &[2, 3], [1, 1, 1]);
    }
    let mut replay: Option<String> = None;
    if let Some(only) = &ctx.only {
        let (j, t) = only.split_once(" @").unwrap_or((only, ""));
        jobs = Job::parse(j).into_iter().collect();
        replay = Some(t.trim().to_string()).filter(|s| !s.is_empty());
    }
    let limit = Duration::from_secs(ctx.pick(700, 12_000));
    let start = Instant::now();
    let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let exe = std::env::current_exe().unwrap();
    let details = Mutex::new(json::JsonValue::new_array());
    let incomplete = std::sync::atomic::AtomicU64::new(0);
    let diverged = std::sync::atomic::AtomicU64::new(0);
    let lost = std::sync::atomic::AtomicU64::new(0);
    let steals = std::sync::atomic::AtomicU64::new(0);
    // long jobs first
    jobs.sort_by_key(|j| std::cmp::Reverse((j.bound, j.workers)));
    std::thread::scope(|s| {
        for cpu in 0..cpus {
            let (ctx, jobs, next, exe, replay, details) = (&ctx, &jobs, &next, &exe, &replay, &details);
            let (incomplete, diverged, lost, steals) = (&incomplete, &diverged, &lost, &steals);
            s.spawn(move || loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= jobs.len() || ctx.stopped() {
                    break;
                }
                let j = &jobs[i];
                let mut c = Command::new(exe);
                c.arg("job").arg(j.name()).arg(cpu.to_string()).stdout(Stdio::piped()).stderr(Stdio::null());
                if let Some(r) = replay {
                    c.arg(r);
                }
                let mut child = c.spawn().unwrap();
                let mut out = child.stdout.take().unwrap();
                let reader = std::thread::spawn(move || {
                    let mut t = String::new();
                    let _ = std::io::Read::read_to_string(&mut out, &mut t);
                    t
                });
                let status = loop {
                    if let Ok(Some(st)) = child.try_wait() {
                        break Some(st);
                    }
                    if start.elapsed() > limit || ctx.stopped() {
                        let _ = child.kill();
                        let _ = child.wait();
                        break None;
                    }
                    std::thread::sleep(Duration::from_millis(5));
                };
                let text = reader.join().unwrap();
                ctx.sample(|| j.name());
                let mut told = false;
                for l in text.lines() {
                    let f: Vec<&str> = l.split('\t').collect();
                    match f[0] {
                        "VIOL" => {
                            told = true;
                            ctx.violate(format!("{} @{}", f[1], f[2]), f[3..].join(" "));
                        }
                        "DONE" => {
                            told = true;
                            let n = |k: usize| f[k].parse::<u64>().unwrap_or(0);
                            ctx.states.fetch_add(n(2), SeqCst);
                            ctx.transitions.fetch_add(n(3), SeqCst);
                            ctx.validated.fetch_add(n(4), SeqCst);
                            diverged.fetch_add(n(5), SeqCst);
                            lost.fetch_add(n(6), SeqCst);
                            steals.fetch_add(n(9), SeqCst);
                            if f[8] != "true" {
                                incomplete.fetch_add(1, SeqCst);
                            }
                            ctx.outcome(&format!("{} schedules", f[1].split(':').next().unwrap_or("")));
                            let _ = details.lock().unwrap().push(json::object! {"job": f[1], "executions": n(2), "distinct_schedules": n(4), "points": n(3), "longest": n(7), "complete": f[8] == "true", "diverging": n(5)});
                        }
                        _ => {}
                    }
                }
                if !told && !ctx.stopped() {
                    match status {
                        None => {
                            incomplete.fetch_add(1, SeqCst);
                        }
                        // the job's process itself ended: the code under test brought it down (abort, stack overflow)
                        Some(st) => ctx.violate(format!("{} @", j.name()), format!("the process ended with {st}")),
                    }
                }
            });
        }
    });
    let get = |a: &std::sync::atomic::AtomicU64| a.load(SeqCst);
    ctx.extra("jobs", details.into_inner().unwrap());
    ctx.extra("mode", mode);
    ctx.extra("jobs_cut_by_a_limit", get(&incomplete));
    ctx.extra("diverging_replays", get(&diverged));
    ctx.extra("threads_lost_to_uninstrumented_blocking", get(&lost));
    ctx.extra("steals", get(&steals));
    let code = ctx.finish(
        "model_checking",
        "every schedule of the assembly (and of its parts) with at most the stated number of deviations from three default schedules (run on, hand over new work at once, round robin), for every listed scenario and number of workers; states = executions, transitions = scheduling points; each result is compared with independently computed matrices",
        &["threads change over at lock, channel, atomic, steal and task-completion points only; between them execution is sequentially consistent", "the work-stealing pool is a stand-in with rayon-core 1.9.1's deque and splitting semantics; rayon's iterators themselves are the real ones", "schedules with more deviations, more workers or larger meshes are not explored"],
    );
    std::process::exit(code);
}
