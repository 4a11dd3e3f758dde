//! C19: the protocol with the external eigensolver. The solver is a stand-in (this binary under the name `mpiexec`) that plays every
//! behaviour of a list; everything happens inside the scratch directory of the check.
use crate::c_lin::{build, gep_of, petsc_is, single};
use crate::ctx::*;
use crate::obs::ensure;
use fem_2d::fem_problem::linalg::slepc_solve::SlepcGEPError;
use fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix;
use fem_2d::fem_problem::linalg::{EigenPair, GEP};
use fem_2d::prelude::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------------------ the stand-in

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// what runs when this binary is called `mpiexec`
pub fn fake() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let ctl = PathBuf::from(std::env::var("FEM2D_FAKE").unwrap());
    let pos = args.iter().position(|a| a == "-fp");
    let prefix = match pos.and_then(|p| args.get(p + 1)) {
        Some(p) => p.clone(),
        None => {
            let _ = std::fs::write(ctl.join("argv"), args.join("\0"));
            return 2;
        }
    };
    let tmp = std::env::current_dir().unwrap().join("tmp");
    let file = |s: &str| tmp.join(format!("{prefix}_{s}"));
    let a = std::fs::read(file("a.dat")).unwrap_or_default();
    let mut script = std::fs::read_to_string(ctl.join("script")).unwrap_or_default();
    if script.starts_with("wait") {
        // concurrent runs are told apart by the last value of their first matrix
        let tag = a.len().checked_sub(8).map_or(0.0, |o| f64::from_be_bytes(a[o..].try_into().unwrap())) as i64;
        std::fs::write(ctl.join(format!("started_{tag}.part")), &prefix).unwrap();
        std::fs::rename(ctl.join(format!("started_{tag}.part")), ctl.join(format!("started_{tag}"))).unwrap();
        let t0 = Instant::now();
        let go = ctl.join(format!("go_{tag}"));
        loop {
            if let Ok(s) = std::fs::read_to_string(&go) {
                script = s;
                break;
            }
            if t0.elapsed() > Duration::from_secs(60) {
                return 98;
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    } else if !script.starts_with("quiet") {
        let mut names: Vec<String> = std::fs::read_dir(&tmp).map(|d| d.map(|f| f.unwrap().file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
        names.sort();
        std::fs::write(ctl.join("argv"), args[1..].join("\0")).unwrap();
        std::fs::write(ctl.join("cwd"), std::env::current_dir().unwrap().to_string_lossy().as_bytes()).unwrap();
        std::fs::write(ctl.join("names"), names.join("\0")).unwrap();
        std::fs::write(ctl.join("a"), &a).unwrap();
        std::fs::write(ctl.join("b"), std::fs::read(file("b.dat")).unwrap_or_default()).unwrap();
    }
    let mut code = 0;
    for l in script.lines() {
        let (cmd, arg) = l.split_once(' ').unwrap_or((l, ""));
        match cmd {
            "evec" | "eval" => std::fs::write(file(&format!("{cmd}.dat")), unhex(arg)).unwrap(),
            "more" => std::fs::write(file(arg), b"more").unwrap(),
            // names in which the prefix stands elsewhere than at the start
            "around" => {
                for n in [format!(".{prefix}_evec.dat.part"), format!("tmp_{prefix}"), format!("evec.dat.{prefix}.swp"), format!("~{prefix}~")] {
                    std::fs::write(tmp.join(n), b"around").unwrap();
                }
            }
            "drop" => std::fs::remove_file(file(arg)).unwrap(),
            "dropall" => std::fs::remove_dir_all(&tmp).unwrap(),
            "near" => {
                // files of other runs, whose names differ from this run's in one place
                let mut made = vec![];
                let digits: Vec<char> = prefix.chars().collect();
                for k in 0..digits.len() {
                    let mut o = digits.clone();
                    o[k] = if o[k] == '7' { '3' } else { '7' };
                    for s in ["a.dat", "evec.dat", "eval.dat"] {
                        made.push(format!("{}_{s}", o.iter().collect::<String>()));
                    }
                }
                made.push(format!("{}_evec.dat", &prefix[..prefix.len() - 1]));
                made.push(format!("{}_evec.dat", &prefix[1..]));
                made.push("evec.dat".into());
                made.push("q_evec.dat".into());
                for m in &made {
                    std::fs::write(tmp.join(m), m).unwrap();
                }
                std::fs::write(ctl.join("near"), made.join("\n")).unwrap();
            }
            "exit" => code = arg.parse().unwrap(),
            "signal" => die_by(arg.parse().unwrap()),
            _ => {}
        }
    }
    code
}

// ------------------------------------------------------------------------------------------------ the harness

#[derive(Clone, Debug)]
enum Want {
    Pair(f64, Vec<f64>),
    Solver(&'static str),
    /// any error
    Refused,
    /// any error, or exactly one of these
    RefusedOr(Vec<(f64, Vec<f64>)>),
}

struct World {
    dir: PathBuf,
    ctl: PathBuf,
    bin: PathBuf,
}

fn tree(dir: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn walk(base: &Path, d: &Path, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
        for f in std::fs::read_dir(d).unwrap() {
            let p = f.unwrap().path();
            let name = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
            if p.is_symlink() {
                out.insert(name, Some(std::fs::read_link(&p).unwrap().to_string_lossy().as_bytes().to_vec()));
            } else if p.is_dir() {
                out.insert(name, None);
                walk(base, &p, out);
            } else {
                out.insert(name, Some(std::fs::read(&p).unwrap()));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, dir, &mut out);
    out
}

impl World {
    fn new(ctx: &Ctx) -> Self {
        let w = World { dir: ctx.scratch.join("solver dir"), ctl: ctx.scratch.join("ctl"), bin: ctx.scratch.join("bin") };
        for d in [&w.ctl, &w.bin] {
            std::fs::create_dir_all(d).unwrap();
        }
        w.furnish();
        w.mpiexec_here();
        std::env::set_var("PATH", &w.bin);
        std::env::set_var("FEM2D_FAKE", &w.ctl);
        std::env::set_var("GEP_SOLVE_DIR", &w.dir);
        w
    }
    /// the solver's directory with files that belong to nobody's run or to other runs
    fn furnish(&self) {
        let _ = std::fs::remove_dir_all(&self.dir);
        std::fs::create_dir_all(self.dir.join("tmp/old")).unwrap();
        for n in ["solve_gep", "p_00000000_a.dat", "notes.dat", "tmp/.gitkeep", "tmp/readme.txt", "tmp/p_", "tmp/p_1_a.dat", "tmp/p_00000000_a.dat", "tmp/p_00000000_b.dat", "tmp/p_00000000_evec.dat", "tmp/p_00000000_eval.dat", "tmp/a.dat", "tmp/_evec.dat", "tmp/_eval.dat", "tmp/old/p_00000000_a.dat", "tmp/empty"] {
            std::fs::write(self.dir.join(n), if n.ends_with("empty") { vec![] } else { n.as_bytes().to_vec() }).unwrap();
        }
    }
    /// unusual but legal entries of the directory
    fn furnish_odd(&self) {
        use std::os::unix::ffi::OsStrExt;
        let tmp = self.dir.join("tmp");
        for n in [&b"\xff\xfe_a.dat"[..], b"p_\x80_evec.dat", "\u{fc}ber.dat".as_bytes(), b"two words", b"line\nbreak.dat", b"-rf", b"\xff"] {
            std::fs::write(tmp.join(std::ffi::OsStr::from_bytes(n)), n).unwrap();
        }
        std::os::unix::fs::symlink("nowhere", tmp.join("dangling")).unwrap();
        std::os::unix::fs::symlink("old", tmp.join("linked")).unwrap();
        std::fs::create_dir(tmp.join("evec.dat")).unwrap();
        for k in 0..300 {
            std::fs::write(tmp.join(format!("p_{k}_a.dat.bak")), b"").unwrap();
        }
    }
    fn mpiexec_here(&self) {
        let p = self.bin.join("mpiexec");
        let _ = std::fs::remove_file(&p);
        let _ = std::fs::remove_dir_all(&p);
        std::os::unix::fs::symlink(std::env::current_exe().unwrap(), &p).unwrap();
    }
    fn script(&self, s: &str) {
        for f in ["argv", "cwd", "names", "a", "b", "near"] {
            let _ = std::fs::remove_file(self.ctl.join(f));
        }
        std::fs::write(self.ctl.join("script"), s).unwrap();
    }
}

fn evec_bytes(v: &[f64]) -> Vec<u8> {
    let mut b = 1211214i32.to_be_bytes().to_vec();
    b.extend((v.len() as i32).to_be_bytes());
    for x in v {
        b.extend(x.to_be_bytes());
    }
    b
}

fn same_pair(p: &EigenPair, value: f64, vector: &[f64]) -> bool {
    p.value.to_bits() == value.to_bits() && p.vector.len() == vector.len() && p.vector.iter().zip(vector).all(|(a, b)| a.to_bits() == b.to_bits())
}

fn kind(e: &(dyn std::error::Error + 'static)) -> &'static str {
    match e.downcast_ref::<SlepcGEPError>() {
        None => "other",
        Some(SlepcGEPError::SolverNotFound) => "SolverNotFound",
        Some(SlepcGEPError::FailedToExecute) => "FailedToExecute",
        Some(SlepcGEPError::FailedToInitializeSlepc) => "FailedToInitializeSlepc",
        Some(SlepcGEPError::BadArguments) => "BadArguments",
        Some(SlepcGEPError::FailedToInitializeMatrices) => "FailedToInitializeMatrices",
        Some(SlepcGEPError::FailedToInitializeEPS) => "FailedToInitializeEPS",
        Some(SlepcGEPError::FailedToConverge) => "FailedToConverge",
        Some(SlepcGEPError::FailedToReturnSolution) => "FailedToReturnSolution",
        Some(SlepcGEPError::UnknownError) => "UnknownError",
    }
}

fn want_for(code: i32) -> &'static str {
    match code {
        1 => "FailedToInitializeSlepc",
        2 => "BadArguments",
        3 => "FailedToInitializeMatrices",
        4..=6 => "FailedToInitializeEPS",
        7 => "FailedToConverge",
        8 => "FailedToReturnSolution",
        _ => "UnknownError",
    }
}

type Outcome = Result<Result<EigenPair, String>, String>;

/// call the library; errors are reduced to their kind, panics to Err
fn solve(g: GEP, target: f64) -> Outcome {
    guard(|| slepc_solve_gep(g, target).map_err(|e| kind(e.as_ref()).to_string()))
}

fn judge(got: &Outcome, want: &Want) -> Result<String, String> {
    let got = match got {
        Err(p) => return Err(format!("panicked: {p}")),
        Ok(r) => r,
    };
    match (got, want) {
        (Ok(p), Want::Pair(v, x)) => {
            ensure!(same_pair(p, *v, x), "returned ({:e}, {:?}) instead of ({v:e}, {x:?})", p.value, p.vector);
            Ok("pair".into())
        }
        (Ok(p), Want::RefusedOr(c)) => {
            ensure!(c.iter().any(|(v, x)| same_pair(p, *v, x)), "returned ({:e}, {:?}), which the solver did not write", p.value, p.vector);
            Ok("pair".into())
        }
        (Ok(p), w) => Err(format!("returned ({:e}, {:?}) instead of {w:?}", p.value, p.vector)),
        (Err(e), Want::Solver(k)) => {
            ensure!(e == k, "error {e} instead of {k}");
            Ok(format!("error {e}"))
        }
        (Err(e), Want::Refused | Want::RefusedOr(_)) => Ok(format!("error {e}")),
        (Err(e), Want::Pair(..)) => Err(format!("error {e} instead of the eigenpair")),
    }
}

type Mat = (SparseMatrix, BTreeMap<(usize, usize), f64>);

fn one(ctx: &Ctx, w: &World, case: String, a: &Mat, b: &Mat, target: f64, script: &str, want: Want, runs: bool) {
    single(ctx, case, &|| {
        ctx.step();
        let before = tree(&w.dir);
        w.script(script);
        let got = solve(gep_of(a, b), target);
        // what the solver saw
        let argv = std::fs::read_to_string(w.ctl.join("argv"));
        if runs {
            let argv = argv.map_err(|_| "the solver was not called".to_string())?;
            let argv: Vec<&str> = argv.split('\0').collect();
            // one process of the solver, and its two options in any order
            let at = argv.iter().position(|x| *x == "./solve_gep").ok_or_else(|| format!("arguments {argv:?}"))?;
            let (launch, rest) = (&argv[..at], &argv[at + 1..]);
            ensure!(launch.windows(2).any(|w| ["-n", "-np"].contains(&w[0]) && w[1] == "1") && rest.len() == 4, "arguments {argv:?}");
            let option = |name: &str| (0..2).find(|k| rest[2 * k] == name).map(|k| rest[2 * k + 1]).ok_or_else(|| format!("arguments {argv:?}"));
            let (te, fp) = (option("-te")?, option("-fp")?);
            let t: f64 = te.parse().map_err(|_| format!("target {te:?}"))?;
            ensure!((t - target).abs() <= 0.51e-10 + target.abs() * 1e-15, "the solver was given the target {t:e} instead of {target:e}");
            let cwd = std::fs::read_to_string(w.ctl.join("cwd")).unwrap();
            ensure!(Path::new(&cwd) == std::fs::canonicalize(&w.dir).unwrap_or_default() || !w.dir.exists(), "the solver was started in {cwd}");
            petsc_is(&std::fs::read(w.ctl.join("a")).unwrap(), a.0.dimension, &a.1).map_err(|e| format!("matrix A for the solver: {e}"))?;
            petsc_is(&std::fs::read(w.ctl.join("b")).unwrap(), b.0.dimension, &b.1).map_err(|e| format!("matrix B for the solver: {e}"))?;
            // nothing but the inputs of this run was there
            let names = std::fs::read_to_string(w.ctl.join("names")).unwrap();
            let mut here: Vec<&str> = names.split('\0').filter(|n| !before.contains_key(&format!("tmp/{n}"))).collect();
            here.sort();
            let (na, nb) = (format!("{fp}_a.dat"), format!("{fp}_b.dat"));
            ensure!(here == [na.as_str(), nb.as_str()], "files in tmp during the run: {here:?}");
        } else {
            ensure!(argv.is_err(), "the solver was called");
        }
        let class = judge(&got, &want)?;
        ctx.outcome(&class);
        if w.dir.join("tmp").is_dir() {
            let near: Vec<String> = std::fs::read_to_string(w.ctl.join("near")).unwrap_or_default().lines().map(|s| s.to_string()).collect();
            for n in &near {
                let p = w.dir.join("tmp").join(n);
                ensure!(std::fs::read(&p).ok().as_deref() == Some(n.as_bytes()), "a file of another run, {n}, is gone or changed (this run was {:?})", std::fs::read_to_string(w.ctl.join("argv")));
                std::fs::remove_file(&p).unwrap();
            }
            let after = tree(&w.dir);
            for n in before.keys() {
                ensure!(after.get(n) == before.get(n), "the unrelated file {n} is gone or changed");
            }
            for n in after.keys() {
                ensure!(before.contains_key(n), "{n} is left behind");
            }
        }
        Ok(())
    });
    if ctx.stopped() || !w.dir.join("tmp/old").is_dir() {
        w.furnish();
    }
}

fn good(v: f64, x: &[f64]) -> String {
    format!("evec {}\neval {}\n", hex(&evec_bytes(x)), hex(&v.to_be_bytes()))
}

fn ends(ctx: &Ctx, w: &World) {
    let (a, b) = (build(3, 0b101101, 2), build(3, 0b111011, 7));
    let v = -12.75;
    let x = [0.5, -0.0, 3.25];
    let full = [("no results", String::new()), ("results", good(v, &x)), ("results and more files", format!("{}more evec.dat.info\nmore a.dat.info\nmore core\n", good(v, &x))), ("results and files named around them", format!("around\n{}", good(v, &x))), ("half of the results", format!("evec {}\n", hex(&evec_bytes(&x)))), ("others' files", format!("near\n{}", good(v, &x)))];
    for code in 0..256 {
        for (name, s) in &full {
            let want = if code != 0 {
                Want::Solver(want_for(code))
            } else if s.contains("eval ") {
                Want::Pair(v, x.to_vec())
            } else {
                Want::Refused
            };
            one(ctx, w, format!("exit {code}, {name}"), &a, &b, 1.5, &format!("{s}exit {code}\n"), want, true);
        }
    }
    // signals whose default action ends a process
    for sig in (1..=15).chain([16, 24, 26, 27, 29, 30, 31, 34, 50, 64]) {
        for (name, s) in &full {
            one(ctx, w, format!("signal {sig}, {name}"), &a, &b, 1.5, &format!("{s}signal {sig}\n"), Want::Solver("UnknownError"), true);
        }
    }
    // the solver removes inputs (or everything)
    for d in ["a.dat", "b.dat"] {
        one(ctx, w, format!("exit 0, removes {d}"), &a, &b, 1.5, &format!("{}drop {d}\n", good(v, &x)), Want::Pair(v, x.to_vec()), true);
        one(ctx, w, format!("exit 3, removes {d}"), &a, &b, 1.5, &format!("drop {d}\nexit 3\n"), Want::Solver(want_for(3)), true);
    }
    for code in [0, 3] {
        one(ctx, w, format!("exit {code}, removes tmp"), &a, &b, 1.5, &format!("dropall\nexit {code}\n"), Want::Refused, true);
        w.furnish();
    }
}

fn results(ctx: &Ctx, w: &World) {
    let maxlen = ctx.pick(4, 9);
    let vals = [1.5, -2.25e-300, f64::MAX, -0.0, 0.0, f64::MIN_POSITIVE / 8.0, -1e17, 0.1, 1.0 / 3.0];
    for n in 1..=maxlen {
        let (a, b) = (build(n, usize::MAX, n), build(n, 0x5a5a5a, 3));
        let x: Vec<f64> = (0..n).map(|k| vals[k % vals.len()]).collect();
        let v = vals[(n + 3) % vals.len()];
        let eb = evec_bytes(&x);
        let vb = v.to_be_bytes().to_vec();
        let run = |case: String, e: &[u8], l: &[u8], want: Want| {
            for code in [0, 8] {
                let want = if code == 0 { want.clone() } else { Want::Solver(want_for(code)) };
                one(ctx, w, format!("n={n} {case} exit {code}"), &a, &b, 0.25, &format!("evec {}\neval {}\nexit {code}", hex(e), hex(l)), want, true);
            }
        };
        // every truncation
        for k in 0..=eb.len() {
            run(format!("evec cut to {k}"), &eb[..k], &vb, if k == eb.len() { Want::Pair(v, x.clone()) } else { Want::Refused });
        }
        for k in 0..vb.len() {
            run(format!("eval cut to {k}"), &eb, &vb[..k], Want::Refused);
        }
        if n <= 2 {
            for k in 0..=eb.len() {
                for j in 0..=vb.len() {
                    run(format!("evec cut to {k}, eval cut to {j}"), &eb[..k], &vb[..j], if k == eb.len() && j == 8 { Want::Pair(v, x.clone()) } else { Want::Refused });
                }
            }
        }
        // too long: an error, or what the header says
        for k in 1..=ctx.pick(9, 17) {
            let mut e = eb.clone();
            e.extend((0..k).map(|q| 0x40 + q as u8));
            run(format!("evec with {k} bytes more"), &e, &vb, Want::RefusedOr(vec![(v, x.clone())]));
            let mut l = vb.clone();
            l.extend((0..k).map(|q| 0x40 + q as u8));
            run(format!("eval with {k} bytes more"), &eb, &l, Want::RefusedOr(vec![(v, x.clone())]));
        }
        // every bit of the header flipped, and whole values
        for bit in 0..64 {
            let mut e = eb.clone();
            e[bit / 8] ^= 0x80 >> (bit % 8);
            let m = i32::from_be_bytes(e[4..8].try_into().unwrap());
            let want = if bit >= 32 && m >= 0 && (m as usize) < n { Want::RefusedOr(vec![(v, x[..m as usize].to_vec())]) } else { Want::Refused };
            run(format!("bit {bit} of the header flipped"), &e, &vb, want);
        }
        for m in [i32::MIN, -2, -1, i32::MAX, i32::MAX - 1, 1 << 28, 0x00ffffff, n as i32 + 1] {
            let mut e = eb.clone();
            e[4..8].copy_from_slice(&m.to_be_bytes());
            run(format!("length {m}"), &e, &vb, Want::Refused);
        }
        for class in [0, 1, -1, 1211216, 1211213, 1211215, 1211214i32.swap_bytes(), i32::MAX] {
            let mut e = eb.clone();
            e[..4].copy_from_slice(&class.to_be_bytes());
            run(format!("class {class}"), &e, &vb, Want::Refused);
        }
        // a well-formed vector of another length
        for m in 0..=n + 2 {
            let y: Vec<f64> = (0..m).map(|k| 10.0 + k as f64).collect();
            let want = if m == n { Want::Pair(v, y.clone()) } else { Want::RefusedOr(vec![(v, y.clone())]) };
            run(format!("a vector of length {m}"), &evec_bytes(&y), &vb, want);
        }
        // one file missing
        let g = |s: String, want: &str| one(ctx, w, format!("n={n} {want}"), &a, &b, 0.25, &s, Want::Refused, true);
        g(format!("evec {}\n", hex(&eb)), "no eval");
        g(format!("eval {}\n", hex(&vb)), "no evec");
        g(String::new(), "neither result");
    }
    // every special value in every place, bit for bit
    let special = [f64::NAN, -f64::NAN, f64::from_bits(0x7ff0_dead_beef_0001), f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::from_bits(1), f64::from_bits(u64::MAX >> 1), 1e308, f64::from_bits(0x0123_4567_89ab_cdef), f64::from_bits(0xfedc_ba98_7654_3210)];
    let (a, b) = (build(2, 7, 0), build(2, 7, 4));
    for s in special {
        for (name, v, x) in [("eigenvalue", s, vec![1.0, 2.0]), ("first entry", 3.0, vec![s, 2.0]), ("last entry", 3.0, vec![1.0, s])] {
            one(ctx, w, format!("{:016x} as {name}", s.to_bits()), &a, &b, 0.25, &good(v, &x), Want::Pair(v, x), true);
        }
    }
}

fn inputs(ctx: &Ctx, w: &World) {
    let x = vec![1.0];
    for dim in 0..=ctx.pick(3, 4) {
        let nb = dim * (dim + 1) / 2;
        for bits in 0..1usize << nb {
            let (a, b) = (build(dim, bits, bits), build(dim, !bits, bits + 3));
            let target = [0.0, 1.0, -1.0, 12.345678901234, 1e-7][bits % 5];
            one(ctx, w, format!("dimension {dim} pattern {bits}"), &a, &b, target, &good(2.5, &x), if dim == 1 { Want::Pair(2.5, x.clone()) } else { Want::RefusedOr(vec![(2.5, x.clone())]) }, true);
        }
    }
    let (a, b) = (build(1, 1, 0), build(1, 1, 4));
    for t in [0.0, -0.0, 1.0, -1.0, 0.5, 1e-9, -1e-9, 3e-10, 0.1, -0.1, 1.4758065, 9.999999999, 123456.789, -98765.4321, 1e6, 1e9, 1e12, -1e15, 1e18, 123456789.987654321, f64::EPSILON, std::f64::consts::PI, 1e-11, 5e-11, 1.00000000005] {
        one(ctx, w, format!("target {t:e}"), &a, &b, t, &good(2.5, &x), Want::Pair(2.5, x.clone()), true);
    }
    // lengths around the sizes of buffers and indices
    for dim in [40, ctx.pick(90, 300), 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 70001, ctx.pick(70003, 300000)] {
        let (a, b) = (big(dim, 0), big(dim, 1));
        let y: Vec<f64> = (0..dim).map(|k| 1.0 / (k as f64 + 1.5)).collect();
        one(ctx, w, format!("dimension {dim}"), &a, &b, 3.0, &good(0.1, &y), Want::Pair(0.1, y.clone()), true);
        let whole = evec_bytes(&y);
        for cut in [1, 8, whole.len() / 2, whole.len().saturating_sub(8 + 8192).max(1)] {
            one(ctx, w, format!("dimension {dim}, evec {cut} bytes short"), &a, &b, 3.0, &format!("evec {}\neval {}\n", hex(&whole[..whole.len() - cut]), hex(&2.5f64.to_be_bytes())), Want::Refused, true);
        }
        one(ctx, w, format!("dimension {dim}, exit 7"), &a, &b, 3.0, &format!("{}exit 7\n", good(0.1, &y)), Want::Solver(want_for(7)), true);
    }
}

fn big(dim: usize, s: usize) -> Mat {
    let mut m = SparseMatrix::new(dim);
    let mut e = BTreeMap::new();
    for a in 0..dim {
        for b in [a, a + 1 + s, a + 7] {
            if b < dim {
                let v = (a * 31 + b * 17 + s) as f64 / 7.0 - 3.0;
                m.insert([a, b], v);
                e.insert((a, b), v);
            }
        }
    }
    (m, e)
}

/// the solver can not be started, or there is no place for its files
fn starts(ctx: &Ctx, w: &World) {
    let (a, b) = (build(3, 0b101101, 2), build(3, 0b111011, 7));
    let exe = w.bin.join("mpiexec");
    let clear = || {
        let _ = std::fs::remove_file(&exe);
        let _ = std::fs::remove_dir_all(&exe);
    };
    clear();
    one(ctx, w, "no mpiexec".into(), &a, &b, 1.0, "", Want::Solver("FailedToExecute"), false);
    std::fs::write(&exe, "#!/nonexistent/interpreter\n").unwrap();
    one(ctx, w, "mpiexec without execute permission".into(), &a, &b, 1.0, "", Want::Solver("FailedToExecute"), false);
    std::process::Command::new("/bin/chmod").arg("755").arg(&exe).status().unwrap();
    one(ctx, w, "mpiexec with a missing interpreter".into(), &a, &b, 1.0, "", Want::Solver("FailedToExecute"), false);
    clear();
    std::fs::create_dir(&exe).unwrap();
    one(ctx, w, "mpiexec is a directory".into(), &a, &b, 1.0, "", Want::Solver("FailedToExecute"), false);
    clear();
    std::os::unix::fs::symlink(w.bin.join("nowhere"), &exe).unwrap();
    one(ctx, w, "mpiexec is a dangling link".into(), &a, &b, 1.0, "", Want::Solver("FailedToExecute"), false);
    clear();
    std::os::unix::fs::symlink(&exe, &exe).unwrap();
    one(ctx, w, "mpiexec is a link to itself".into(), &a, &b, 1.0, "", Want::Solver("FailedToExecute"), false);
    w.mpiexec_here();
    std::env::set_var("PATH", w.ctl.join("nothing here"));
    one(ctx, w, "PATH leads nowhere".into(), &a, &b, 1.0, "", Want::Solver("FailedToExecute"), false);
    std::env::set_var("PATH", &w.bin);
    // the directory
    std::env::remove_var("GEP_SOLVE_DIR");
    one(ctx, w, "GEP_SOLVE_DIR is not set".into(), &a, &b, 1.0, "", Want::Solver("SolverNotFound"), false);
    for (name, dir) in [("missing directory", w.ctl.join("nothing here")), ("a file", w.dir.join("solve_gep")), ("no tmp in it", w.bin.clone()), ("empty name", PathBuf::new())] {
        std::env::set_var("GEP_SOLVE_DIR", &dir);
        if name == "empty name" && Path::new("/tmp").exists() {
            // "" + "/tmp/": the system's own directory; not explored
            continue;
        }
        one(ctx, w, format!("GEP_SOLVE_DIR: {name}"), &a, &b, 1.0, "", Want::Refused, false);
    }
    let odd = w.ctl.join("odd");
    std::fs::create_dir_all(&odd).unwrap();
    std::fs::write(odd.join("tmp"), "a file").unwrap();
    std::env::set_var("GEP_SOLVE_DIR", &odd);
    one(ctx, w, "GEP_SOLVE_DIR: tmp is a file".into(), &a, &b, 1.0, "", Want::Refused, false);
    std::env::set_var("GEP_SOLVE_DIR", w.dir.join(""));
    one(ctx, w, "GEP_SOLVE_DIR with a slash at its end".into(), &a, &b, 1.0, &good(1.0, &[2.0, 3.0, 4.0]), Want::Pair(1.0, vec![2.0, 3.0, 4.0]), true);
    // relative directory
    let here = std::env::current_dir().unwrap();
    std::env::set_current_dir(&w.ctl).unwrap();
    std::env::set_var("GEP_SOLVE_DIR", "../solver dir");
    one(ctx, w, "GEP_SOLVE_DIR is relative".into(), &a, &b, 1.0, &good(1.0, &[2.0, 3.0, 4.0]), Want::Pair(1.0, vec![2.0, 3.0, 4.0]), true);
    std::env::set_current_dir(here).unwrap();
    std::env::set_var("GEP_SOLVE_DIR", &w.dir);
}

/// the matrix files can not be written completely: every byte at which the writing can fail
fn full_disk(ctx: &Ctx, w: &World) {
    for (n, ab, bb) in [(1, 1, 1), (3, 0b000001, 0b111111), (3, 0b111111, 0b000001), (2, 0, 0b101)] {
        let (a, b) = (build(n, ab, 1), build(n, bb, 2));
        let size = |m: &Mat| (16 + 4 * n + m.1.keys().map(|(r, c)| if r == c { 12 } else { 24 }).sum::<usize>()) as u64;
        let most = size(&a).max(size(&b));
        let x: Vec<f64> = vec![0.5; n];
        for limit in 0..=most {
            single(ctx, format!("files of matrices {n}/{ab}/{bb} can not grow beyond {limit} bytes"), &|| {
                ctx.step();
                let before = tree(&w.dir);
                w.script(&format!("quiet\n{}", good(4.0, &x)));
                let r = with_file_size_limit(limit, || match slepc_solve_gep(gep_of(&a, &b), 1.0) {
                    Ok(p) => same_pair(&p, 4.0, &x),
                    Err(_) => false,
                })?;
                ensure!(r == (limit >= most), "{}", if r { "succeeds with inputs that could not be written" } else { "does not succeed although everything can be written" });
                ctx.outcome(if r { "pair" } else { "error other" });
                let after = tree(&w.dir);
                ensure!(after == before, "files of the run are left behind: {:?}", after.keys().filter(|k| !before.contains_key(*k)).collect::<Vec<_>>());
                Ok(())
            });
            if ctx.stopped() {
                w.furnish();
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ several runs at a time

fn orders(n: usize) -> Vec<Vec<usize>> {
    // sequences in which every run appears twice (start, end), starts in increasing order
    fn go(n: usize, seq: &mut Vec<usize>, count: &mut [u8], out: &mut Vec<Vec<usize>>) {
        if seq.len() == 2 * n {
            out.push(seq.clone());
            return;
        }
        for k in 0..n {
            if count[k] == 2 || (count[k] == 0 && k > 0 && count[k - 1] == 0) {
                continue;
            }
            count[k] += 1;
            seq.push(k);
            go(n, seq, count, out);
            seq.pop();
            count[k] -= 1;
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], &mut vec![0; n], &mut out);
    out
}

fn concurrent(ctx: &Ctx, w: &World, n: usize, outcomes: usize) {
    let scripts = |k: usize, o: usize| -> (String, Want) {
        let x = vec![k as f64 + 0.5, -(k as f64)];
        let v = 100.0 + k as f64;
        match o {
            0 => (good(v, &x), Want::Pair(v, x)),
            1 => ("exit 7\n".into(), Want::Solver("FailedToConverge")),
            2 => (format!("evec {}\neval {}\n", hex(&evec_bytes(&x)[..20]), hex(&v.to_be_bytes())), Want::Refused),
            _ => (format!("{}signal 9\n", good(v, &x)), Want::Solver("UnknownError")),
        }
    };
    for order in orders(n) {
        for code in 0..outcomes.pow(n as u32) {
            let o: Vec<usize> = (0..n).map(|k| code / outcomes.pow(k as u32) % outcomes).collect();
            single(ctx, format!("{n} runs, order {order:?}, outcomes {o:?}"), &|| {
                ctx.step();
                let before = tree(&w.dir);
                w.script("wait\n");
                for k in 0..n {
                    let _ = std::fs::remove_file(w.ctl.join(format!("started_{}", 1000 + k)));
                    let _ = std::fs::remove_file(w.ctl.join(format!("go_{}", 1000 + k)));
                }
                let mut handles: Vec<Option<std::thread::JoinHandle<Outcome>>> = (0..n).map(|_| None).collect();
                let mut prefix: Vec<Option<String>> = vec![None; n];
                let mut bad: Option<String> = None;
                for &k in &order {
                    if handles[k].is_none() && prefix[k].is_none() {
                        let mut g = GEP::new(2);
                        g.a.insert([0, 1], 3.0);
                        g.a.insert([1, 1], 1000.0 + k as f64);
                        g.b.insert([0, 0], 1.0);
                        g.b.insert([1, 1], 1.0);
                        handles[k] = Some(std::thread::spawn(move || solve(g, k as f64)));
                        let s = w.ctl.join(format!("started_{}", 1000 + k));
                        let t0 = Instant::now();
                        prefix[k] = Some(String::new());
                        while t0.elapsed() < Duration::from_secs(20) {
                            if let Ok(p) = std::fs::read_to_string(&s) {
                                prefix[k] = Some(p);
                                break;
                            }
                            if handles[k].as_ref().unwrap().is_finished() {
                                break;
                            }
                            std::thread::sleep(Duration::from_micros(200));
                        }
                        if prefix[k].as_deref() == Some("") && bad.is_none() {
                            bad = Some(format!("run {k} ended before its solver was started with its matrices"));
                        }
                    } else {
                        let (s, want) = scripts(k, o[k]);
                        let part = w.ctl.join(format!("go_{}.part", 1000 + k));
                        std::fs::write(&part, s).unwrap();
                        std::fs::rename(&part, w.ctl.join(format!("go_{}", 1000 + k))).unwrap();
                        let got = handles[k].take().unwrap().join().unwrap();
                        if let Err(e) = judge(&got, &want) {
                            bad.get_or_insert(format!("run {k}: {e}"));
                        }
                        // the files of the others are still there, and none of this run's
                        let now = tree(&w.dir);
                        for j in 0..n {
                            if let (Some(_), Some(p)) = (&handles[j], &prefix[j]) {
                                for s in ["a", "b"] {
                                    if !p.is_empty() && !now.contains_key(&format!("tmp/{p}_{s}.dat")) {
                                        bad.get_or_insert(format!("the end of run {k} removed an input of run {j}"));
                                    }
                                }
                            }
                        }
                        if let Some(p) = &prefix[k] {
                            if let Some(l) = now.keys().find(|f| !p.is_empty() && f.contains(p.as_str())) {
                                bad.get_or_insert(format!("run {k} left {l} behind"));
                            }
                        }
                    }
                }
                let after = tree(&w.dir);
                w.furnish();
                if let Some(b) = bad {
                    return Err(b);
                }
                ensure!(after == before, "files are left behind or gone");
                Ok(())
            });
        }
    }
}

/// runs one after the other never share a prefix with the ones before
fn repeated(ctx: &Ctx, w: &World) {
    let (a, b) = (build(2, 7, 2), build(2, 7, 7));
    for k in 0..ctx.pick(20, 200) {
        let (v, x) = (k as f64, [k as f64 + 0.25, -1.0]);
        // a success, a failure, and a success without results must not see what an earlier run wrote
        one(ctx, w, format!("repeated {k} success"), &a, &b, 0.0, &good(v, &x), Want::Pair(v, x.to_vec()), true);
        one(ctx, w, format!("repeated {k} failure"), &a, &b, 0.0, &format!("{}exit 8\n", good(v, &x)), Want::Solver(want_for(8)), true);
        one(ctx, w, format!("repeated {k} nothing"), &a, &b, 0.0, "", Want::Refused, true);
    }
}

/// the same with unusual entries next to the files of the run
fn odd_company(ctx: &Ctx, w: &World, n: usize) {
    w.furnish_odd();
    let (a, b) = (build(3, 0b101101, 2), build(3, 0b111011, 7));
    let x = [0.5, -0.0, 3.25];
    for k in 0..n {
        one(ctx, w, format!("unusual entries, results, {k}"), &a, &b, 1.5, &format!("{}more evec.dat.info\n", good(2.5, &x)), Want::Pair(2.5, x.to_vec()), true);
        one(ctx, w, format!("unusual entries, no results, {k}"), &a, &b, 1.5, "", Want::Refused, true);
        one(ctx, w, format!("unusual entries, exit 7, {k}"), &a, &b, 1.5, &format!("{}exit 7\n", good(2.5, &x)), Want::Solver(want_for(7)), true);
        one(ctx, w, format!("unusual entries, signal 9, {k}"), &a, &b, 1.5, &format!("{}signal 9\n", good(2.5, &x)), Want::Solver("UnknownError"), true);
        if ctx.stopped() {
            break;
        }
    }
    w.furnish();
}

pub fn c19() -> i32 {
    let ctx = Ctx::new("C19");
    let w = World::new(&ctx);
    full_disk(&ctx, &w);
    ends(&ctx, &w);
    starts(&ctx, &w);
    inputs(&ctx, &w);
    results(&ctx, &w);
    repeated(&ctx, &w);
    odd_company(&ctx, &w, ctx.pick(10, 100));
    concurrent(&ctx, &w, 2, 4);
    concurrent(&ctx, &w, 3, ctx.pick(2, 4));
    if ctx.thorough() {
        concurrent(&ctx, &w, 4, 2);
    }
    ctx.finish(
        "model_checking",
        "the real solve call against a stand-in solver: every exit code and ending signal x which results and further files of the run (its prefix at the start, in the middle or at the end of their names) exist, every truncation, header bit flip, wrong length and class, trailing bytes, special values, every way of not starting, every byte at which writing the inputs can fail, all orders of up to 3 (4) concurrent runs; the whole directory is compared before and after",
        &["a solver that never ends is not explored", "results longer than their header says may be refused or read as the header says", "a vector of another length than the problem may be refused or returned as written", "the target is judged to ten decimals", "two runs that draw the same random prefix are not explored"],
    )
}
