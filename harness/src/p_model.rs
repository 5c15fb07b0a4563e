use crate::gen::*;
use crate::{check, note, Out, Stats};
use hybridcvrp::cli::Args;
use hybridcvrp::config::Config;
use hybridcvrp::models::{CircleSector, CorrelationMatrix, Matrix};
use hybridcvrp::solver::genetic::Individual;
use hybridcvrp::solver::Context;
use std::collections::HashSet;

// ---------------------------------------------------------------- C14
fn bp_reference(a: &[Vec<usize>], b: &[Vec<usize>], n: usize) -> i64 {
    let links = |s: &[Vec<usize>]| {
        let (mut p, mut q) = (vec![0; n], vec![0; n]);
        for r in s {
            for (i, &c) in r.iter().enumerate() {
                p[c] = if i == 0 { 0 } else { r[i - 1] };
                q[c] = if i + 1 == r.len() { 0 } else { r[i + 1] };
            }
        }
        (p, q)
    };
    let ((p1, s1), (p2, s2)) = (links(a), links(b));
    let mut d = 0;
    for c in 1..n {
        if s1[c] != s2[c] && s1[c] != p2[c] {
            d += 1;
        }
        if p1[c] == 0 && p2[c] != 0 && s2[c] != 0 {
            d += 1;
        }
    }
    d
}
pub fn c14(r: &mut Rng, st: &mut Stats) -> Out {
    let i = inst(r, 1, 12);
    let ctx = i.ctx();
    let n = i.n();
    let ka = r.range(1, 5);
    let a = partition(r, n, ka);
    let mut b = a.clone();
    match r.range(0, 4) {
        0 => {
            let kb = r.range(1, 5);
            b = partition(r, n, kb)
        }
        1 => r.shuffle(&mut b),
        2 => {
            // split a route in two / move an element
            let k = r.range(0, b.len());
            let cut = r.range(0, b[k].len() + 1);
            let t = b[k].split_off(cut);
            if r.chance(0.5) {
                b.push(t);
            } else {
                b.insert(0, t);
            }
        }
        _ => {
            for x in b.iter_mut() {
                if r.chance(0.5) {
                    x.reverse();
                }
            }
        }
    }
    note(format!("{} a={:?} b={:?}", i.desc(), a, b));
    let (x, y) = (individual(&ctx, a.clone()), individual(&ctx, b.clone()));
    let d = x.calculate_broken_pairs_distance(&y);
    let e = bp_reference(&a, &b, n);
    check!(d == e, "distance {} expected {}", d, e);
    check!(d >= 0 && d <= 2 * (n as i64 - 1), "distance {} out of range", d);
    let mut c = b.clone();
    r.shuffle(&mut c);
    let z = individual(&ctx, c);
    check!(x.calculate_broken_pairs_distance(&z) == d, "depends on the order of the routes");
    let mut a2 = a.clone();
    for t in a2.iter_mut() {
        if r.chance(0.5) {
            t.reverse();
        }
    }
    r.shuffle(&mut a2);
    check!(x.calculate_broken_pairs_distance(&individual(&ctx, a2)) == 0, "same routes have a distance");
    if d > 0 {
        st.hit();
    }
    st.sample(|| format!("a={:?} b={:?} distance={}", a, b, d));
    Ok(())
}

// ---------------------------------------------------------------- C16
fn def_dist(i: &Inst, a: usize, b: usize) -> f64 {
    let mut d = match &i.matrix {
        Some(m) => {
            if a == b {
                0.0
            } else {
                m[a.max(b) - 1][a.min(b)]
            }
        }
        None => {
            let (p, q) = (i.coords[a], i.coords[b]);
            ((q.0 - p.0) * (q.0 - p.0) + (q.1 - p.1) * (q.1 - p.1)).sqrt()
        }
    };
    if i.rounded {
        d = d.round();
    }
    d
}
pub fn c16(r: &mut Rng, st: &mut Stats) -> Out {
    let mut i = inst(r, 1, 14);
    if let Some(m) = i.matrix.as_mut() {
        if r.chance(0.5) {
            m.iter_mut().flatten().for_each(|x| *x = *x * 0.37 + 0.13);
        }
    }
    let n = i.n();
    note(i.desc());
    let ctx = i.ctx();
    let m = &ctx.matrix_provider.distance;
    check!(m.size() == n, "size");
    let mut mx = 0.0f64;
    for a in 0..n {
        for b in 0..n {
            let e = def_dist(&i, a, b);
            mx = mx.max(e);
            let g = m.get(a, b);
            check!(close(g, e), "distance({},{}) = {} expected {}", a, b, g, e);
            check!(g == m.get(b, a), "not symmetric at ({},{})", a, b);
        }
        check!(m.get(a, a) == 0.0, "distance of {} to itself is {}", a, m.get(a, a));
    }
    if !i.lazy {
        check!(m.max().map_or(n < 2, |x| close(x, mx)), "max {:?} expected {}", m.max(), mx);
    } else {
        check!(m.max().map_or(true, |x| close(x, mx)), "max {:?} expected {}", m.max(), mx);
    }
    // row-wise reads
    for _ in 0..4 {
        let (row, col) = (r.range(0, n), r.range(0, n));
        let num = r.range(0, n * n - (row * n + col) + 1);
        let v = m.get_vec(row, col, num);
        check!(v.len() == num, "get_vec length");
        for (k, x) in v.iter().enumerate() {
            let c = row * n + col + k;
            check!(*x == m.get(c / n, c % n), "get_vec({},{},{})[{}] = {} expected {}", row, col, num, k, x, m.get(c / n, c % n));
        }
    }
    // restriction to a subset
    let mut map: Vec<usize> = (1..n).collect();
    r.shuffle(&mut map);
    let keep = r.range(1, n);
    map.truncate(keep);
    map.insert(0, 0);
    let s = m.from_mapping(&map);
    let mut smx = 0.0f64;
    for a in 0..map.len() {
        for b in 0..map.len() {
            check!(s.get(a, b) == m.get(map[a], map[b]), "restricted distance ({},{}) of {:?}: {} expected {}", a, b, map, s.get(a, b), m.get(map[a], map[b]));
            smx = smx.max(s.get(a, b));
        }
    }
    check!(s.size() == map.len(), "restricted size");
    check!(s.max().map_or(true, |x| close(x, smx)), "restricted max {:?} expected {}", s.max(), smx);
    let again: Vec<usize> = (0..map.len()).rev().collect();
    let t = s.from_mapping(&again);
    for a in 0..map.len() {
        check!(t.get(a, 0) == s.get(again[a], again[0]), "twice restricted");
    }
    st.hit();
    st.sample(|| format!("n={} rounded={} lazy={} matrix={} max={:?}", n, i.rounded, i.lazy, i.matrix.is_some(), m.max()));
    Ok(())
}

// ---------------------------------------------------------------- C17
fn check_lists(ctx: &Context, lists: &CorrelationMatrix, n: usize) -> Out {
    for c in 0..n {
        let l = lists.get(c);
        let others = n - 2;
        let want = others.min(200);
        check!(l.len() == want, "list of {} has {} entries, expected {}", c, l.len(), want);
        let set: HashSet<usize> = l.iter().copied().collect();
        check!(set.len() == l.len(), "duplicates in the list of {}: {:?}", c, l);
        check!(!set.contains(&0) && !set.contains(&c), "list of {} holds the depot or itself: {:?}", c, l);
        check!(l.iter().all(|&x| x < n), "list of {} holds unknown nodes: {:?}", c, l);
        let d = |x: usize| ctx.matrix_provider.distance.get(c, x);
        check!(l.windows(2).all(|w| d(w[0]) <= d(w[1])), "list of {} is not sorted: {:?}", c, l);
        if let Some(&last) = l.last() {
            for x in 1..n {
                check!(x == c || set.contains(&x) || d(x) >= d(last), "customer {} is closer to {} than {} but left out", x, c, last);
            }
        }
    }
    Ok(())
}
pub fn c17(r: &mut Rng, st: &mut Stats) -> Out {
    let big = r.k % 40 == 7;
    let i = if big { inst(r, 195, 215) } else { inst(r, 1, 20) };
    let n = i.n();
    note(if big { format!("n={} {}", n, i.desc()) } else { i.desc() });
    let ctx = i.ctx();
    check_lists(&ctx, &ctx.matrix_provider.correlation, n)?;
    for c in 0..n {
        let k = r.range(0, n + 5);
        let t = ctx.matrix_provider.correlation.top_slice(c, k);
        let l = ctx.matrix_provider.correlation.get(c);
        check!(t == &l[..k.min(l.len())], "top_slice({},{}) = {:?}", c, k, t);
        let t: Vec<usize> = ctx.matrix_provider.correlation.top_slice_mut(c, k).to_vec();
        check!(t == l[..k.min(l.len())].to_vec(), "top_slice_mut({},{}) = {:?}", c, k, t);
    }
    if n > 3 {
        let mut map: Vec<usize> = (1..n).collect();
        r.shuffle(&mut map);
        let keep = r.range(1, n);
        map.truncate(keep);
        map.insert(0, 0);
        let sub = ctx.from_mapping(&map);
        check_lists(&sub, &sub.matrix_provider.correlation, map.len())?;
        st.hit();
    }
    st.sample(|| format!("n={} list of 1: {:?}", n, &ctx.matrix_provider.correlation.get(1)));
    Ok(())
}

// ---------------------------------------------------------------- C18
pub fn c18_matrix(r: &mut Rng, st: &mut Stats) -> Out {
    let (rows, cols) = (r.range(0, 8), r.range(0, 8));
    let mut m: Matrix<u64> = if r.chance(0.5) { Matrix::new(rows, cols) } else { Matrix::init(7, rows, cols) };
    note(format!("rows={} cols={}", rows, cols));
    check!(m.rows == rows && m.cols == cols, "dimensions");
    let z = if rows * cols > 0 { m.get(0, 0) } else { 0 };
    check!(z == 0 || z == 7, "initial value {}", z);
    let mut model = vec![vec![z; cols]; rows];
    let all = |m: &Matrix<u64>, model: &Vec<Vec<u64>>| -> Out {
        for i in 0..rows {
            for j in 0..cols {
                check!(m.get(i, j) == model[i][j], "cell ({},{}) of {}x{} holds {} but {} was stored", i, j, rows, cols, m.get(i, j), model[i][j]);
            }
            let c = r_small(i, cols);
            check!(cols == 0 || m.slice(i, c, cols - c) == &model[i][c..], "slice of row {}", i);
        }
        Ok(())
    };
    all(&m, &model)?;
    let mut clones: Vec<(Matrix<u64>, Vec<Vec<u64>>)> = vec![];
    for _ in 0..40 {
        if rows * cols == 0 {
            break;
        }
        let (i, j, v) = (r.range(0, rows), r.range(0, cols), r.next());
        match r.range(0, 5) {
            0 | 1 => {
                m.set(i, j, v);
                model[i][j] = v;
            }
            2 => {
                *m.get_mut(i, j) = v;
                model[i][j] = v;
            }
            3 => {
                let k = r.range(0, cols - j + 1);
                let s = m.slice_mut(i, j, k);
                check!(s.len() == k, "slice_mut length");
                for (x, y) in s.iter_mut().enumerate() {
                    *y = v.wrapping_add(x as u64);
                    model[i][j + x] = v.wrapping_add(x as u64);
                }
            }
            _ => {
                if clones.len() < 3 {
                    clones.push((m.clone(), model.clone()));
                }
            }
        }
        all(&m, &model)?;
        for (c, cm) in &clones {
            all(c, cm)?;
        }
    }
    if rows * cols > 0 {
        let mx = *model.iter().flatten().max().unwrap();
        check!(m.get_max() == mx, "get_max {} expected {}", m.get_max(), mx);
        let k = rows.min(cols);
        let map: Vec<usize> = (0..r.range(0, 2 * k + 1)).map(|_| r.range(0, k)).collect();
        let s = m.from_mapping(&map);
        for a in 0..map.len() {
            for b in 0..map.len() {
                check!(s.get(a, b) == model[map[a]][map[b]], "from_mapping");
            }
        }
        st.hit();
    }
    Ok(())
}
fn r_small(i: usize, cols: usize) -> usize {
    if cols == 0 {
        0
    } else {
        i % cols
    }
}

// ---------------------------------------------------------------- C19
fn enclosed(s: &CircleSector, a: i32) -> bool {
    (a - s.start).rem_euclid(65536) <= (s.end - s.start).rem_euclid(65536)
}
fn angle(r: &mut Rng) -> i32 {
    match r.range(0, 4) {
        0 => r.pick(&[0, 65535, 1, 32768, 32767, 65534]),
        1 => r.int(0, 200) as i32,
        2 => r.int(65300, 65535) as i32,
        _ => r.int(0, 65535) as i32,
    }
}
pub fn c19(r: &mut Rng, st: &mut Stats) -> Out {
    let build = |r: &mut Rng| -> Result<(CircleSector, Vec<i32>), String> {
        let mut s = CircleSector::new();
        if r.chance(0.3) {
            s.extend(angle(r));
            s.extend(angle(r));
            s.reset();
        }
        let k = r.range(1, 6);
        let mut angles = vec![];
        let base = angle(r);
        let tight = r.chance(0.5);
        for _ in 0..k {
            let a = if tight { (base + r.int(-300, 300) as i32).rem_euclid(65536) } else { angle(r) };
            let before = s.clone();
            let inside = !angles.is_empty() && enclosed(&s, a);
            s.extend(a);
            if !angles.is_empty() && !inside {
                let f = |x: i32, y: i32| (y - x).rem_euclid(65536);
                check!(f(s.start, s.end) == f(before.start, before.end) + f(before.end, a).min(f(a, before.start)), "{:?} was extended by {} to {:?}, over the larger gap", before, a, s);
            }
            angles.push(a);
            note(format!("angles={:?} sector={:?}", angles, s));
            check!((0..65536).contains(&s.start) && (0..65536).contains(&s.end), "sector {:?} out of range", s);
            for &b in &angles {
                check!(s.is_enclosed(b) && enclosed(&s, b), "angle {} is not enclosed by {:?} after extending with {:?}", b, s, angles);
            }
            if inside {
                check!(s.start == before.start && s.end == before.end, "extending {:?} by the enclosed angle {} gave {:?}", before, a, s);
            }
        }
        Ok((s, angles))
    };
    let (s, sa) = build(r)?;
    let (mut t, _) = build(r)?;
    if r.chance(0.3) {
        // touching sectors
        t = CircleSector { start: s.end, end: (s.end + r.int(0, 500) as i32).rem_euclid(65536) };
        if r.chance(0.5) {
            t.start = (t.start + 1).rem_euclid(65536);
        }
    }
    note(format!("s={:?} t={:?}", s, t));
    for a in [angle(r), angle(r), s.start, s.end, (s.end + 1) % 65536, (s.start + 65535) % 65536] {
        check!(s.is_enclosed(a) == enclosed(&s, a), "is_enclosed({}) of {:?}", a, s);
    }
    // two arcs share an angle exactly when one of the four ends lies in the other arc
    let share = enclosed(&s, t.start) || enclosed(&t, s.start) || enclosed(&s, t.end) || enclosed(&t, s.end);
    if r.k % 64 == 0 {
        let brute = (0..65536).any(|a| enclosed(&s, a) && enclosed(&t, a));
        check!(brute == share, "reference");
    }
    check!(s.overlaps(&t) == share, "{:?} overlaps {:?} = {} expected {}", s, t, s.overlaps(&t), share);
    check!(t.overlaps(&s) == share, "{:?} overlaps {:?} = {} expected {}", t, s, t.overlaps(&s), share);
    st.hit();
    st.sample(|| format!("angles={:?} sector={:?} other={:?} overlap={}", sa, s, t, share));
    Ok(())
}
/// the angle of a node is its polar angle around the depot in 1/65536 of a turn
pub fn c19_angle(r: &mut Rng, st: &mut Stats) -> Out {
    let i = inst(r, 1, 10);
    let ctx = i.ctx();
    note(i.desc());
    for c in 1..i.n() {
        let a = ctx.problem.get_angle(c);
        check!((0..65536).contains(&a), "angle {}", a);
        let (x, y) = (i.coords[c].0 - i.coords[0].0, i.coords[c].1 - i.coords[0].1);
        let l = (x * x + y * y).sqrt();
        if l > 0.0 {
            let t = a as f64 / 32768.0 * std::f64::consts::PI;
            check!((t.cos() * l - x).abs() < 1e-3 * l && (t.sin() * l - y).abs() < 1e-3 * l, "angle {} of {:?}", a, (x, y));
        }
    }
    st.hit();
    Ok(())
}

// ---------------------------------------------------------------- C22
fn yaml(c: &Config) -> serde_yaml::Mapping {
    match serde_yaml::to_value(c).unwrap() {
        serde_yaml::Value::Mapping(m) => m,
        _ => unreachable!(),
    }
}
pub fn c22(r: &mut Rng, st: &mut Stats) -> Out {
    use serde_yaml::Value as V;
    let mut c = Config::default();
    // a base that differs from the defaults
    let mut expect = yaml(&c);
    for round in 0..r.range(1, 4) {
        let keys: Vec<V> = expect.iter().map(|(k, _)| k.clone()).collect();
        let mut file = serde_yaml::Mapping::new();
        let p = r.pick(&[0.0, 0.05, 0.3, 1.0]);
        for k in &keys {
            if !r.chance(p) {
                continue;
            }
            let old = expect.get(k).unwrap().clone();
            let name = k.as_str().unwrap();
            let optional = name == "solution_path" || name == "max_iterations";
            let new = match old {
                _ if optional && r.chance(0.3) => V::Null,
                V::Number(ref x) if x.is_f64() && r.chance(0.2) => V::from(r.int(1, 1000) as u64),
                V::Bool(b) => V::Bool(if r.chance(0.7) { !b } else { b }),
                V::Number(ref x) if x.is_f64() => V::from(r.int(1, 1000) as f64 + 0.5),
                V::Number(_) => V::from(r.int(0, 5000) as u64),
                V::String(_) if r.chance(0.1) => V::from(""),
                V::String(_) => V::from(format!("path{}", r.int(0, 99))),
                _ => {
                    if name == "solution_path" && r.chance(0.15) {
                        V::from("")
                    } else if name == "solution_path" {
                        V::from(format!("out{}", r.int(0, 99)))
                    } else {
                        V::from(r.int(0, 5000) as u64)
                    }
                }
            };
            file.insert(k.clone(), new.clone());
            expect.insert(k.clone(), new);
        }
        for _ in 0..r.range(0, 3) {
            file.insert(V::from(format!("unknown_key_{}", r.int(0, 9))), V::from(r.int(0, 9) as u64));
        }
        note(format!("round {} file {:?}", round, file));
        if r.chance(0.3) && !file.is_empty() {
            let path = std::env::temp_dir().join(format!("hcvrp-verif-{}-{}.yml", std::process::id(), r.next()));
            std::fs::write(&path, serde_yaml::to_string(&V::Mapping(file.clone())).unwrap()).unwrap();
            if round == 0 && r.chance(0.5) {
                c = Config::load_yaml_file(path.to_str().unwrap());
            } else {
                c.update_from_yaml_file(path.to_str().unwrap());
            }
            std::fs::remove_file(&path).ok();
        } else {
            c.update(&V::Mapping(file));
        }
        cmp_cfg(&c, &expect)?;
    }
    let args = Args {
        instance_path: format!("inst{}", r.int(0, 9)),
        solution_path: if r.chance(0.05) { Some(String::new()) } else if r.chance(0.5) { Some(format!("sol{}", r.int(0, 9))) } else { None },
        time_limit: if r.chance(0.5) { Some(r.int(0, 99) as u64) } else { None },
        max_iterations: if r.chance(0.5) { Some(r.int(0, 99) as u64) } else { None },
        rounded: if r.chance(0.5) { Some(r.chance(0.5)) } else { None },
    };
    note(format!(
        "config {:?} args {:?} {:?} {:?} {:?} {:?}",
        c, args.instance_path, args.solution_path, args.time_limit, args.max_iterations, args.rounded
    ));
    expect.insert("instance_path".into(), args.instance_path.clone().into());
    if let Some(s) = &args.solution_path {
        expect.insert("solution_path".into(), s.clone().into());
    } else if expect.get(&V::from("solution_path")).unwrap().is_null() {
        expect.insert("solution_path".into(), "output.sol".into());
    }
    if let Some(t) = args.time_limit {
        expect.insert("time_limit".into(), t.into());
    }
    if let Some(t) = args.max_iterations {
        expect.insert("max_iterations_without_improvement".into(), t.into());
    }
    if let Some(t) = args.rounded {
        expect.insert("round_distances".into(), t.into());
    }
    c.update_from_args(&args);
    cmp_cfg(&c, &expect)?;
    c.reset();
    cmp_cfg(&c, &yaml(&Config::default()))?;
    st.hit();
    Ok(())
}
fn cmp_cfg(c: &Config, expect: &serde_yaml::Mapping) -> Out {
    let m = yaml(c);
    for (k, v) in expect {
        let g = m.get(k);
        let same = match (g, v) {
            (Some(serde_yaml::Value::Number(a)), serde_yaml::Value::Number(b)) => a.as_f64() == b.as_f64(),
            (Some(a), b) => a == b,
            (None, _) => false,
        };
        check!(same, "parameter {:?} is {:?} expected {:?}", k, g, v);
    }
    Ok(())
}

// ---------------------------------------------------------------- C23
pub fn c23(r: &mut Rng, st: &mut Stats) -> Out {
    let mut i = inst(r, 1, 15);
    match r.range(0, 5) {
        4 => {
            // one unit more (or less) than a multiple of a large capacity
            let k = r.range(1, 12);
            let c = r.int(1_000_000, 2_000_000_000) as f64;
            i.demands = vec![c; k + 1];
            i.demands[0] = 0.0;
            if r.chance(0.7) {
                i.demands[k] -= r.pick(&[1.0, -1.0]);
                let m = i.demands.iter().cloned().fold(0.0, f64::max);
                if m > c && r.chance(0.5) {
                    i.demands[k] = c;
                    i.demands.push(1.0);
                }
            }
            i.coords = (0..i.demands.len()).map(|_| (r.int(0, 100) as f64, r.int(0, 100) as f64)).collect();
            i.matrix = None;
            i.cap = c * r.int(1, 3) as f64;
        }
        0 => {
            // exact multiples of the capacity
            let k = r.range(1, 30);
            let c = r.int(1, 50) as f64;
            i.demands = vec![c; k + 1];
            i.demands[0] = 0.0;
            i.coords = (0..=k).map(|_| (r.int(0, 100) as f64, r.int(0, 100) as f64)).collect();
            i.matrix = None;
            i.cap = c * r.int(1, 6) as f64;
        }
        1 => i.demands.iter_mut().skip(1).for_each(|d| *d *= 0.001),
        2 => i.coords.iter_mut().for_each(|c| *c = (c.0 * 1e6, c.1 * 1e6)),
        _ => {}
    }
    i.penalty = None;
    note(i.desc());
    let ctx = i.ctx();
    let total: f64 = i.demands.iter().sum();
    let lb = ctx.vehicle_lower_bound();
    let q = total / i.cap;
    check!((lb as f64) >= q - 1e-9 && (lb as f64) < q + 1.0 + 1e-9, "lower bound {} for total demand {} and capacity {}", lb, total, i.cap);
    if (q - q.round()).abs() > 1e-9 {
        check!(lb == q.ceil() as u64, "lower bound {} expected {}", lb, q.ceil());
    } else {
        check!(lb == q.round() as u64 || (q.fract() != 0.0 && lb == q.ceil() as u64), "lower bound {} expected {}", lb, q.round());
    }
    if i.cap.fract() == 0.0 && i.demands.iter().all(|d| d.fract() == 0.0) && total < 1e15 {
        let (t, c) = (total as u64, i.cap as u64);
        check!(lb == (t + c - 1) / c, "lower bound {} for total demand {} and capacity {}", lb, t, c);
    }
    let nv = ctx.config.borrow().num_vehicles;
    check!(nv == (6 * lb + 10 + 4) / 5, "fleet size {} for lower bound {}", nv, lb);
    check!(nv >= lb, "fleet size below the bound");
    let maxd = i.demands.iter().cloned().fold(0.0, f64::max);
    let pen = ctx.config.borrow().penalty_capacity;
    let n = i.n();
    let mut mx = 0.0f64;
    for a in 0..n {
        for b in 0..a {
            mx = mx.max(def_dist(&i, a, b));
        }
    }
    let e = if i.lazy { 100.0 } else { (mx / maxd).min(10000.0).max(0.0001) };
    check!((pen - e).abs() <= 1e-6 * e.max(1.0), "initial penalty {} expected {} (max distance {}, max demand {})", pen, e, mx, maxd);
    ctx.config.borrow_mut().penalty_capacity = 3.25;
    ctx.reset_penalty();
    check!(ctx.config.borrow().penalty_capacity == pen, "reset_penalty gives another value");
    st.hit();
    st.sample(|| format!("total={} cap={} lb={} nv={} pen={}", total, i.cap, lb, nv, pen));
    Ok(())
}

#[allow(dead_code)]
pub fn unused(_: &Individual) {}
