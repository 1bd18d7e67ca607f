//! C07-C11, C19 (search part): what searches answer.
use super::structure::{INTS, INTS_WIDE, PT, observe};
use crate::ensure;
use crate::geomx::*;
use crate::refgeom as rf;
use crate::runner::{Obs, Verdict};
use crate::tree::*;
use crate::with_float;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::Union;
use quadtree::{AsGeom, BoundsQuadTree, CalcMethod, Error, PointQuadTree, QtFloat};
use serde::{Deserialize, Serialize};
use std::f64::consts::{FRAC_PI_2, PI};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FQ {
    pub s: Spec,
    /// Repeat the geometry of a datum.
    pub like: Option<u16>,
    pub wide: bool,
    /// Radius selector and value.
    pub r: (u8, u16),
    pub k: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FCase {
    pub w: World,
    pub sph: bool,
    /// 0,1: point tree; otherwise bounds tree
    pub kind: u8,
    /// Which kinds of geometry meet
    pub mode: u8,
    pub data: Vec<Spec>,
    pub dup: Vec<(u16, u8)>,
    pub queries: Vec<FQ>,
    pub key: u64,
    /// So many data more.
    #[serde(default)]
    pub more: u32,
}
pub fn fq() -> impl Strategy<Value = FQ> + Clone {
    (
        spec(),
        proptest::option::weighted(0.25, any::<u16>()),
        proptest::bool::weighted(0.15),
        (0u8..8, any::<u16>()),
        prop_oneof![1 => Just(0u8), 6 => 1u8..=5, 3 => 6u8..=40, 1 => 252u8..=255],
    )
        .prop_map(|(s, like, wide, r, k)| FQ { s, like, wide, r, k })
}
fn fcase_of(w: BoxedStrategy<World>, sph: BoxedStrategy<bool>, sizes: (usize, usize, usize)) -> BoxedStrategy<FCase> {
    (
        w,
        sph,
        0u8..6,
        0u8..6,
        specs(sizes.0, sizes.1, sizes.2),
        proptest::collection::vec((any::<u16>(), 1u8..8), 0..3),
        proptest::collection::vec(fq(), 1..8),
        any::<u64>(),
        rarely(1000, 5000),
    )
        .prop_map(|(w, sph, kind, mode, data, dup, queries, key, more)| FCase {
            w, sph, kind, mode, data, dup, queries, key, more,
        })
        .boxed()
}
pub fn fcase() -> BoxedStrategy<FCase> {
    let deep = (super::structure::world_deep(), any::<bool>());
    let deep = fcase_of(deep.prop_map(|(mut w, s)| { w.single |= s; w }).boxed(), any::<bool>().boxed(), (5, 10, 20));
    Union::new_weighted(vec![(30, fcase_of(world(), any::<bool>().boxed(), (10, 40, 200))), (1, deep)]).boxed()
}

pub fn fcase_small() -> BoxedStrategy<FCase> {
    fcase_of(world(), any::<bool>().boxed(), (8, 24, 60))
}

/// A decoded case.
pub struct Field {
    pub bounds: Box4,
    pub cfg: Cfg,
    pub method: CalcMethod,
    pub sph: bool,
    pub single: bool,
    pub shapes: Vec<Sh>,
    pub cmps: Vec<Sh>,
    pub scale: f64,
    /// Grid arithmetic is exact, even products
    pub exact: bool,
    /// Axis-aligned distances and cell edges are exact
    pub exact_axis: bool,
}
const PR: &[u8] = &[0, 4];
pub fn kinds_of(c: &FCase) -> (&'static [u8], &'static [u8]) {
    let (mut d, q): (&[u8], &[u8]) = if c.sph {
        match c.mode % 6 {
            0 | 3 => (ALL, PT),
            1 => (PR, PR),
            2 => (PT, PR),
            4 => (PT, PT),
            _ => (PR, PT),
        }
    } else {
        match c.mode % 6 {
            0 => (PT, PT),
            1 => (PR, PR),
            4 => (PT, ALL),
            _ => (ALL, ALL),
        }
    };
    if c.kind < 2 {
        d = PT;
    }
    (d, q)
}
pub fn decode(c: &FCase) -> Field {
    let (dk, qk) = kinds_of(c);
    decode_kinds(c, dk, qk)
}
pub fn decode_kinds(c: &FCase, dk: &[u8], qk: &[u8]) -> Field {
    let w = c.w;
    let flat = super::structure::flat(w.frame);
    let (bounds, dk, qk) = match flat {
        Some(b) if !c.sph => (b, PT, PT),
        _ => (w.round_box(if c.sph { w.sphere_bounds() } else { w.planar_bounds() }), dk, qk),
    };
    let fix = |s: Sh| if c.sph { w.round(clamp_sphere(s)) } else { w.round(s) };
    let more = bulk(c.more, c.key);
    let mut shapes: Vec<Sh> = c.data.iter().chain(&more).map(|s| fix(w.shape(s, bounds, dk))).collect();
    if !shapes.is_empty() {
        for (i, n) in &c.dup {
            let s = shapes[*i as usize % shapes.len()].clone();
            shapes.extend(std::iter::repeat_n(s, *n as usize));
        }
    }
    if c.more > 0 && c.key % 3 == 1 && !shapes.is_empty() {
        // A crowd the root keeps to itself, if there is such a datum
        let mid = ((bounds.0 + bounds.2) / 2.0, (bounds.1 + bounds.3) / 2.0);
        let across = |s: &&Sh| {
            let b = s.bbox().unwrap_or(bounds);
            (b.0 < mid.0 && mid.0 < b.2) || (b.1 < mid.1 && mid.1 < b.3)
        };
        let s = shapes.iter().find(across).unwrap_or(&shapes[0]).clone();
        shapes.extend(std::iter::repeat_n(s, c.more as usize));
    }
    let cmps = c
        .queries
        .iter()
        .map(|q| match q.like {
            Some(i) if !shapes.is_empty() => {
                let s = shapes[i as usize % shapes.len()].clone();
                if qk.contains(&(s.kind() as u8)) { s } else { Sh::Pt(s.coords()[0]) }
            }
            _ => fix(w.shape(&q.s, if q.wide { widen(bounds) } else { bounds }, qk)),
        })
        .collect();
    let scale = [bounds.0, bounds.1, bounds.2, bounds.3].iter().fold(0f64, |m, v| m.max(v.abs())) * 2.0;
    let exact_axis = !c.sph && w.exact() && (w.depth <= 12 || w.defaults);
    Field {
        bounds,
        cfg: (!w.defaults).then_some((w.depth, w.capacity())),
        method: if c.sph { CalcMethod::Spherical } else { CalcMethod::Euclidean },
        sph: c.sph,
        single: w.single,
        shapes,
        cmps,
        scale,
        exact: !c.sph && w.exact() && !w.jitter,
        exact_axis,
    }
}
#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Where {
    In,
    Out,
    /// So close to touching that rounding decides.
    Either,
}
impl Field {
    pub fn tol(&self, d: f64) -> f64 {
        if self.sph { rf::tol_sph(d, self.single) } else { rf::tol_planar(self.scale, self.single) }
    }
    /// Does rounding decide the distance to some datum?
    pub fn unclear(&self, c: &Sh) -> bool {
        self.sph && self.shapes.iter().any(|s| rf::ambiguous(c, s))
    }
    /// Reference distance; None when the method defines none.
    pub fn dist(&self, c: &Sh, s: &Sh) -> Option<f64> {
        if self.sph { rf::spherical(c, s) } else { Some(rf::planar(c, s)) }
    }
    /// Does the comparator meet the box?
    pub fn place(&self, c: &Sh, b: Box4) -> Where {
        let over = |p: P, q: P| p.0 <= b.2 && b.0 <= q.0 && p.1 <= b.3 && b.1 <= q.1;
        match c {
            Sh::Pt(p) if over(*p, *p) => return Where::In,
            Sh::Rc(p, q) if over(*p, *q) => return Where::In,
            _ => {}
        }
        let d = if self.sph {
            rf::sph_bbox(c, b).unwrap_or(0.0)
        } else {
            rf::planar(c, &Sh::Rc((b.0, b.1), (b.2, b.3)))
        };
        let t = self.tol(d);
        if d > t {
            return Where::Out;
        }
        if self.sph || d > 0.0 {
            return Where::Either;
        }
        if self.exact {
            return Where::In;
        }
        let (w, h) = (b.2 - b.0, b.3 - b.1);
        if w > 2.0 * t && h > 2.0 * t && rf::planar(c, &Sh::Rc((b.0 + t, b.1 + t), (b.2 - t, b.3 - t))) == 0.0 {
            return Where::In;
        }
        Where::Either
    }
    /// The distance, where it and the whole search are computed without rounding.
    pub fn dist_exact(&self, c: &Sh, s: &Sh) -> Option<f64> {
        let (a, b, e, f) = match (c, s) {
            (Sh::Pt(p), Sh::Pt(q)) => (p, p, q, q),
            (Sh::Rc(a, b), Sh::Rc(e, f)) => (a, b, e, f),
            _ => return None,
        };
        let gap = |lo: f64, hi: f64, l: f64, h: f64| (l - hi).max(lo - h).max(0.0);
        let (x, y) = (gap(a.0, b.0, e.0, f.0), gap(a.1, b.1, e.1, f.1));
        ((x == 0.0 && y == 0.0) || (self.exact_axis && (x == 0.0 || y == 0.0))).then_some(x.max(y))
    }
}
pub fn build<T: Num, R: Tr<T>>(f: &Field, perm: &[usize]) -> Result<R, String> {
    let mut t = R::make(rect::<T>(f.bounds), f.method, f.cfg);
    for &i in perm {
        let r = t.put(Item { id: i, g: G::of(&f.shapes[i]) });
        ensure!(r.is_ok(), "insert of {:?} inside the bounds failed: {:?}", f.shapes[i], r);
    }
    Ok(t)
}
macro_rules! by_tree {
    ($c:expr, $f:ident ( $($a:expr),* )) => {
        if $c.kind < 2 {
            with_float!($c.w.single, N => $f::<N, PointQuadTree<Item<N>, N>>($($a),*))
        } else {
            with_float!($c.w.single, N => $f::<N, BoundsQuadTree<Item<N>, N>>($($a),*))
        }
    };
}

/// Everything known about one query.
pub struct Facts {
    pub dist: Vec<Option<f64>>,
    /// Distances in order.
    pub asc: Vec<f64>,
    pub at: Where,
}
pub fn facts(f: &Field, c: &Sh) -> Facts {
    let dist: Vec<Option<f64>> = f.shapes.iter().map(|s| f.dist(c, s)).collect();
    let mut asc: Vec<f64> = dist.iter().flatten().copied().collect();
    asc.sort_by(f64::total_cmp);
    let mut at = f.place(c, f.bounds);
    if f.unclear(c) {
        at = Where::Either;
    }
    Facts { dist, asc, at }
}
/// Choose a radius. The flag says the comparison with it must be exact.
pub fn radius<T: Num>(f: &Field, c: &Sh, q: &FQ, fa: &Facts) -> (T, bool) {
    let inf = (T::of(f64::INFINITY), false);
    let n = fa.asc.len();
    match q.r.0 % 8 {
        0 => inf,
        1 | 2 => {
            // exactly the distance of some datum whose distance is exact
            let exact: Vec<f64> = f.shapes.iter().filter_map(|s| f.dist_exact(c, s)).collect();
            match exact.iter().copied().min_by(f64::total_cmp) {
                Some(d) => {
                    let near = fa.asc.iter().filter(|x| (**x - d).abs() <= 2.0 * f.tol(d)).count();
                    // every datum about that far must be exactly that far
                    let same = exact.iter().filter(|e| **e == d).count();
                    (T::of(d), near == same && (T::of(d)).f() == d)
                }
                None => (T::of(0.0), false),
            }
        }
        3 if n > 0 => {
            let i = q.r.1 as usize % n;
            let d = (fa.asc[i] + fa.asc.get(i + 1).copied().unwrap_or(fa.asc[i] * 2.0)) / 2.0;
            (T::of(d), false)
        }
        4 => (T::of(0.0), false),
        5 => (T::of(f.scale * q.r.1 as f64 / 65536.0), false),
        6 if n > 0 => (T::of(fa.asc[0] / 2.0), false),
        7 => (T::of(f.scale * q.r.1 as f64 / 65536.0 / 64.0), false),
        _ => inf,
    }
}
/// The distance reported for a datum is its own.
fn own<T: Num>(f: &Field, fa: &Facts, what: &str, c: &Sh, hit: (&Item<T>, T)) -> Result<(usize, f64), String> {
    let (it, d) = (hit.0, hit.1.f());
    ensure!(it.id < f.shapes.len() && it.g == G::of(&f.shapes[it.id]), "{what} returned something not stored: {:?}", it);
    let Some(want) = fa.dist[it.id] else {
        return Err(format!("{what} returned {:?}, whose distance to {:?} is not defined", f.shapes[it.id], c));
    };
    ensure!(
        (d - want).abs() <= f.tol(want),
        "{what}({:?}) reports distance {:e} for {:?}, it is {:e}", c, d, f.shapes[it.id], want
    );
    Ok((it.id, d))
}
fn ctx(f: &Field) -> String {
    format!("[{:?} bounds {:?} {:?} data {:?}]", f.method, f.bounds, f.cfg, f.shapes)
}
pub fn divided<T: Num, R: Tr<T>>(t: &R, f: &Field) -> bool {
    let (d, c) = f.cfg.map(|c| (c.0, c.1)).unwrap_or((4, 4));
    t.count() > c && d > 0
}

// ------------------------------------------------------------------ C07

pub fn c07(c: &FCase, o: &mut Obs) -> Verdict {
    by_tree!(c, find_check(c, o))
}
fn find_check<T: Num + QtFloat, R: STr<T>>(c: &FCase, o: &mut Obs) -> Verdict {
    let f = decode(c);
    let t: R = build(&f, &shuffle(f.shapes.len(), c.key))?;
    let mut good = 0;
    for (q, cs) in c.queries.iter().zip(&f.cmps) {
        let fa = facts(&f, cs);
        if fa.at != Where::In || fa.asc.is_empty() {
            continue;
        }
        let x = Cmp(G::<T>::of(cs));
        let best = fa.asc[0];
        let tol = f.tol(best);
        let hit = t.near(&x).map_err(|e| format!("find({:?}) failed with {e:?} {}", cs, ctx(&f)))?;
        let (id, d) = own(&f, &fa, "find", cs, hit).map_err(|m| format!("{m} {}", ctx(&f)))?;
        ensure!(
            d <= best + tol,
            "find({:?}) returned {:?} at {:e}; the closest is at {:e} {}", cs, f.shapes[id], d, best, ctx(&f)
        );
        o.compared += 1;
        let (r, sharp) = radius::<T>(&f, cs, q, &fa);
        let rv = r.f();
        let got = t.near_r(&x, r);
        o.compared += 1;
        match got {
            Ok(hit) => {
                let (id, d) = own(&f, &fa, "find_r", cs, hit).map_err(|m| format!("{m} {}", ctx(&f)))?;
                ensure!(d <= rv, "find_r({:?}, {rv:e}) returned a datum at {:e} {}", cs, d, ctx(&f));
                ensure!(
                    d <= best + tol,
                    "find_r({:?}, {rv:e}) returned {:?} at {:e}; the closest is at {:e} {}",
                    cs, f.shapes[id], d, best, ctx(&f)
                );
            }
            Err(e) => {
                let must = best < rv - tol || (sharp && best <= rv + tol);
                ensure!(
                    !must,
                    "find_r({:?}, {rv:e}) failed with {e:?}, a datum is at {:e} {}", cs, best, ctx(&f)
                );
                ensure!(e == Error::NoneInRadius, "find_r({:?}, {rv:e}) failed with {e:?} {}", cs, ctx(&f));
                o.hit("none in radius");
            }
        }
        if rv > 0.0 {
            let neg = t.near_r(&x, T::zero() - r);
            ensure!(neg.is_err(), "find_r({:?}, {:e}) found something {}", cs, -rv, ctx(&f));
        }
        o.hit_if(sharp && (best - rv).abs() <= tol, "closest exactly at the radius");
        o.hit_if(cs.kind() != 0, "comparator other than a point");
        o.hit(if c.sph { "spherical query" } else { "planar query" });
        o.hit_if(best > 0.0, "closest at a positive distance");
        if divided(&t, &f) && f.shapes.len() >= 3 {
            good += 1;
        }
    }
    o.hit(T::NAME);
    o.nontrivial = good > 0;
    Ok(())
}

// ------------------------------------------------------------------ C08

pub fn c08(c: &FCase, o: &mut Obs) -> Verdict {
    by_tree!(c, knn_check(c, o))
}
fn ranked<T: Num>(f: &Field, fa: &Facts, what: &str, cs: &Sh, got: &Hits<T>) -> Verdict {
    let mut seen = std::collections::HashSet::new();
    let mut last = f64::NEG_INFINITY;
    for (i, hit) in got.iter().enumerate() {
        let (id, d) = own(f, fa, what, cs, *hit).map_err(|m| format!("{m} {}", ctx(f)))?;
        ensure!(seen.insert(id), "{what}({:?}) returned datum {id} twice {}", cs, ctx(f));
        let tol = f.tol(d);
        ensure!(d >= last - tol, "{what}({:?}) is out of order: {:e} after {:e} {}", cs, d, last, ctx(f));
        ensure!(
            (d - fa.asc[i]).abs() <= 2.0 * tol,
            "{what}({:?}): number {} is at {:e}, it should be at {:e} {}", cs, i, d, fa.asc[i], ctx(f)
        );
        last = d;
    }
    Ok(())
}
fn knn_check<T: Num + QtFloat, R: STr<T>>(c: &FCase, o: &mut Obs) -> Verdict {
    let f = decode(c);
    let t: R = build(&f, &shuffle(f.shapes.len(), c.key))?;
    let n = f.shapes.len();
    let mut good = 0;
    for (q, cs) in c.queries.iter().zip(&f.cmps) {
        let fa = facts(&f, cs);
        if fa.at != Where::In {
            continue;
        }
        let x = Cmp(G::<T>::of(cs));
        let k = match q.k {
            40 => n,
            k => many(k),
        };
        let got = t.some(&x, k).map_err(|e| format!("knn({:?}, {k}) failed with {e:?} {}", cs, ctx(&f)))?;
        ensure!(got.len() == k.min(n), "knn({:?}, {k}) over {n} data returned {} {}", cs, got.len(), ctx(&f));
        ranked(&f, &fa, "knn", cs, &got)?;
        if c.more > 0 {
            // Where the search stops is to make no difference
            for i in 0..8u64 {
                let k = if i < 2 { 1 + i as usize } else { 1 + (c.key.rotate_left(8 * i as u32) % n as u64) as usize };
                let got = t.some(&x, k).map_err(|e| format!("knn({:?}, {k}) failed with {e:?} {}", cs, ctx(&f)))?;
                ensure!(got.len() == k.min(n), "knn({:?}, {k}) over {n} data returned {} {}", cs, got.len(), ctx(&f));
                ranked(&f, &fa, "knn", cs, &got)?;
            }
            o.hit("many data, searches of many sizes");
        }
        let (r, sharp) = radius::<T>(&f, cs, q, &fa);
        let rv = r.f();
        let got = t.some_r(&x, k, r).map_err(|e| format!("knn_r({:?}, {k}, {rv:e}) failed with {e:?} {}", cs, ctx(&f)))?;
        ranked(&f, &fa, "knn_r", cs, &got)?;
        let tol = f.tol(rv.min(f.scale * 4.0));
        let (lo, hi) = if sharp {
            // all data this near are at exactly the radius
            let m = fa.asc.iter().filter(|d| **d <= rv + tol).count();
            (m, m)
        } else {
            (
                fa.asc.iter().filter(|d| **d <= rv - tol).count(),
                fa.asc.iter().filter(|d| **d <= rv + tol).count(),
            )
        };
        ensure!(
            got.len() >= lo.min(k) && got.len() <= hi.min(k),
            "knn_r({:?}, {k}, {rv:e}) returned {}, {} are within the radius {}", cs, got.len(), lo, ctx(&f)
        );
        ensure!(got.iter().all(|g| g.1.f() <= rv), "knn_r({:?}, {k}, {rv:e}) returned beyond the radius {}", cs, ctx(&f));
        if rv > 0.0 {
            let neg = t.some_r(&x, k, T::zero() - r).map(|v| v.len());
            ensure!(neg == Ok(0), "knn_r({:?}, {k}, {:e}) returned {neg:?} data {}", cs, -rv, ctx(&f));
        }
        o.compared += 2;
        o.hit_if(k == 0, "k = 0");
        o.hit_if(k > n, "k beyond the number stored");
        o.hit_if(sharp && lo > 0, "data exactly at the radius");
        o.hit_if(got.is_empty() && k > 0 && n > 0, "none in radius");
        o.hit_if(got.len() < k.min(n), "radius cuts");
        o.hit_if(cs.kind() != 0, "comparator other than a point");
        o.hit(if c.sph { "spherical query" } else { "planar query" });
        if divided(&t, &f) && k >= 2 && n > 2 {
            good += 1;
        }
    }
    o.hit(T::NAME);
    o.nontrivial = good > 0;
    Ok(())
}

// ------------------------------------------------------------------ C09

pub fn c09(c: &FCase, o: &mut Obs) -> Verdict {
    by_tree!(c, sorted_check(c, o))
}
fn sorted_check<T: Num + QtFloat, R: STr<T>>(c: &FCase, o: &mut Obs) -> Verdict {
    // here unsupported kinds may be stored
    let f = if c.sph && c.mode % 6 == 2 && c.kind >= 2 { decode_kinds(c, ALL, PR) } else { decode(c) };
    let t: R = build(&f, &shuffle(f.shapes.len(), c.key))?;
    let n = f.shapes.len();
    let mut good = 0;
    for (q, cs) in c.queries.iter().zip(&f.cmps) {
        let fa = facts(&f, cs);
        let x = Cmp(G::<T>::of(cs));
        match fa.at {
            Where::Either => continue,
            Where::Out => {
                let v = drain(t.order(&x), n + 8)?;
                ensure!(v.is_empty(), "sorted({:?}) outside the bounds yields {} {}", cs, v.len(), ctx(&f));
                o.hit("comparator outside");
                o.compared += 1;
                continue;
            }
            Where::In => {}
        }
        // drive part of the way, independently of the full run
        let k = many(q.k).min(n + 8);
        let part: Vec<f64> = t.order(&x).take(k).map(|h| h.1.f()).collect();
        let v = drain(t.order(&x), n + 8).map_err(|m| format!("sorted({:?}): {m} {}", cs, ctx(&f)))?;
        ensure!(
            v.len() == fa.asc.len(),
            "sorted({:?}) yields {} of {} measurable data {}", cs, v.len(), fa.asc.len(), ctx(&f)
        );
        ranked(&f, &fa, "sorted", cs, &v)?;
        ensure!(part.len() == k.min(v.len()), "sorted({:?}) driven {k} steps yields {} {}", cs, part.len(), ctx(&f));
        for (a, b) in part.iter().zip(&v) {
            ensure!(*a == b.1.f(), "sorted({:?}) driven {k} steps differs from a full run {}", cs, ctx(&f));
        }
        o.compared += 1 + v.len() as u64;
        o.hit_if(fa.asc.len() < n, "unmeasurable data skipped");
        o.hit_if(cs.kind() != 0, "comparator other than a point");
        o.hit(if c.sph { "spherical query" } else { "planar query" });
        if divided(&t, &f) && n > 2 {
            good += 1;
        }
    }
    o.hit(T::NAME);
    o.nontrivial = good > 0;
    Ok(())
}

// ------------------------------------------------------------------ C10

fn dists<T: Num + QtFloat, R: STr<T>>(t: &R, c: &Sh) -> Result<Vec<f64>, String> {
    let x = Cmp(G::<T>::of(c));
    Ok(drain(t.order(&x), t.count() + 8)?.iter().map(|h| h.1.f()).collect())
}
fn same(a: &[f64], b: &[f64], k: f64, tol: &dyn Fn(f64) -> f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x * k - y).abs() <= tol(*y))
}
pub fn c10(c: &FCase, o: &mut Obs) -> Verdict {
    by_tree!(c, metamorphic(c, o))
}
fn metamorphic<T: Num + QtFloat, R: STr<T>>(c: &FCase, o: &mut Obs) -> Verdict {
    let f = decode(c);
    let n = f.shapes.len();
    let ids: Vec<usize> = (0..n).collect();
    let t: R = build(&f, &ids)?;
    let tol2 = |d: f64| 2.0 * f.tol(d);
    let tol4 = |d: f64| 8.0 * f.tol(d);
    let mut good = 0;
    for (qi, (q, cs)) in c.queries.iter().zip(&f.cmps).enumerate() {
        if f.place(cs, f.bounds) != Where::In || f.unclear(cs) {
            continue;
        }
        let x = Cmp(G::<T>::of(cs));
        let base = dists::<T, R>(&t, cs)?;
        ensure!(base.len() == n, "sorted({:?}) yields {} of {n} {}", cs, base.len(), ctx(&f));
        // the three searches agree
        let k = many(q.k).min(n + 1).max(1);
        match t.near(&x) {
            Ok((_, d)) => ensure!(
                n > 0 && (d.f() - base[0]).abs() <= tol2(base[0]),
                "find({:?}) says {:e}, sorted says {:?} {}", cs, d.f(), base.first(), ctx(&f)
            ),
            Err(e) => ensure!(n == 0, "find({:?}) failed with {e:?}, sorted has {n} {}", cs, ctx(&f)),
        }
        let kn: Vec<f64> = t
            .some(&x, k)
            .map_err(|e| format!("knn({:?}) failed with {e:?}, sorted has {n} {}", cs, ctx(&f)))?
            .iter()
            .map(|h| h.1.f())
            .collect();
        ensure!(
            same(&base[..k.min(n)], &kn, 1.0, &tol2),
            "knn({:?}, {k}) {:?} is no prefix of sorted {:?} {}", cs, kn, base, ctx(&f)
        );
        if n > 0 {
            let r = base[q.r.1 as usize % n];
            let cut: Vec<f64> = t
                .some_r(&x, usize::MAX, T::of(r))
                .map_err(|e| format!("knn_r failed with {e:?}"))?
                .iter()
                .map(|h| h.1.f())
                .collect();
            ensure!(
                cut.len() <= n && same(&base[..cut.len()], &cut, 1.0, &tol2),
                "knn_r({:?}, all, {r:e}) {:?} is no prefix of sorted {:?} {}", cs, cut, base, ctx(&f)
            );
            ensure!(
                base.iter().filter(|d| **d <= r - tol2(r)).count() <= cut.len()
                    && base.iter().filter(|d| **d <= r + tol2(r)).count() >= cut.len(),
                "radius {r:e} keeps {} of {:?} {}", cut.len(), base, ctx(&f)
            );
        }
        // at exactly the radius, where nothing rounds
        let fa = facts(&f, cs);
        let (r, sharp) = radius::<T>(&f, cs, q, &fa);
        if sharp && fa.at == Where::In {
            let m = base.iter().filter(|d| **d <= r.f() + f.tol(r.f())).count();
            let cut = t.some_r(&x, usize::MAX, r).map_err(|e| format!("knn_r failed with {e:?}"))?.len();
            let found = t.near_r(&x, r).is_ok();
            ensure!(
                cut == m && found == (m > 0),
                "radius {:e} around {:?}: sorted has {m}, knn_r {cut}, find_r finds {found} {}", r.f(), cs, ctx(&f)
            );
            o.hit_if(m > 0, "data exactly at the radius");
        }
        o.compared += 3;
        // another order and another configuration
        let mut g = Field { cfg: f.cfg, shapes: f.shapes.clone(), cmps: vec![], ..f };
        let cfgs: [Cfg; 5] = [None, Some((0, 1)), Some((1, 1)), Some((7, 1)), Some((3, 0))];
        g.cfg = cfgs[(c.key >> 8) as usize % 5];
        if qi % 2 == 1 {
            g.cfg = Some(((c.key >> 16) as u8 % 14, (c.key >> 24) as usize % 9));
        }
        let u: R = build(&g, &shuffle(n, c.key | 1))?;
        let v = dists::<T, R>(&u, cs)?;
        ensure!(same(&base, &v, 1.0, &tol2), "sorted({:?}) depends on the shape: {:?} with {:?}, {:?} with {:?} {}", cs, base, f.cfg, v, g.cfg, ctx(&f));
        if let Ok((_, d)) = u.near(&x) {
            ensure!((d.f() - base[0]).abs() <= tol2(base[0]), "find({:?}) depends on the shape: {:e} vs {:e} with {:?} {}", cs, base[0], d.f(), g.cfg, ctx(&f));
        }
        // larger bounds
        let b = f.bounds;
        let wide = if c.sph {
            g.single_box((-PI, -FRAC_PI_2, PI, FRAC_PI_2))
        } else {
            let (w, h) = (b.2 - b.0, b.3 - b.1);
            let m = [0.0, 0.25, 1.0, 3.0];
            let i = |s: u32| m[(c.key >> s) as usize % 4];
            g.single_box((b.0 - w * i(32), b.1 - h * i(34), b.2 + w * i(36), b.3 + h * i(38)))
        };
        g.bounds = wide;
        if within(wide, b) {
            let u: R = build(&g, &ids)?;
            let v = dists::<T, R>(&u, cs)?;
            ensure!(same(&base, &v, 1.0, &tol4), "sorted({:?}) depends on the bounds: {:?} in {:?}, {:?} in {:?} {}", cs, base, b, v, wide, ctx(&f));
            let kn: Vec<f64> = u.some(&x, k).map_err(|e| format!("knn({:?}) in larger bounds failed: {e:?}", cs))?.iter().map(|h| h.1.f()).collect();
            ensure!(same(&base[..k.min(n)], &kn, 1.0, &tol4), "knn({:?}) depends on the bounds: {:?} vs {:?} {}", cs, base, kn, ctx(&f));
            if let Ok((_, d)) = u.near(&x) {
                ensure!((d.f() - base[0]).abs() <= tol4(base[0]), "find({:?}) depends on the bounds: {:e} vs {:e} {}", cs, base[0], d.f(), ctx(&f));
            }
            o.compared += 3;
        }
        // points in the other kind of tree
        if f.shapes.iter().all(|s| s.kind() == 0) {
            let v = if R::POINTS {
                let u: BoundsQuadTree<Item<T>, T> = build(&f, &ids)?;
                dists(&u, cs)?
            } else {
                let u: PointQuadTree<Item<T>, T> = build(&f, &ids)?;
                dists(&u, cs)?
            };
            ensure!(same(&base, &v, 1.0, &tol2), "point and bounds tree disagree on {:?}: {:?} vs {:?} {}", cs, base, v, ctx(&f));
            o.compared += 1;
            o.hit("both kinds of tree");
        }
        // symmetries
        if let Some((name, g, k, cs2)) = symmetry(c, &f, cs, qi) {
            if g.place(&cs2, g.bounds) == Where::In && !g.unclear(&cs2) {
                let u: R = build(&g, &ids)?;
                let v = dists::<T, R>(&u, &cs2)?;
                let tol = |d: f64| 4.0 * (g.tol(d) + k * f.tol(d / k));
                ensure!(
                    same(&base, &v, k, &tol),
                    "{name} changes sorted({:?}): {:?} became {:?} for {:?} in {:?} {}", cs, base, v, cs2, g.bounds, ctx(&f)
                );
                if let Ok((_, d)) = u.near(&Cmp(G::<T>::of(&cs2))) {
                    ensure!((d.f() - base[0] * k).abs() <= tol(base[0] * k), "{name} changes find({:?}): {:e} became {:e} for {:?} in {:?} {}", cs, base[0], d.f(), cs2, g.bounds, ctx(&f));
                }
                o.compared += 1;
                o.hit(name);
            }
        }
        if divided(&t, &f) && n > 2 {
            good += 1;
        }
    }
    o.hit(T::NAME);
    o.nontrivial = good > 0;
    Ok(())
}
fn within(b: Box4, d: Box4) -> bool {
    d.0 >= b.0 && d.1 >= b.1 && d.2 <= b.2 && d.3 <= b.3
}
impl Field {
    fn single_box(&self, b: Box4) -> Box4 {
        let r = |v: f64| if self.single { v as f32 as f64 } else { v };
        (r(b.0), r(b.1), r(b.2), r(b.3))
    }
}
fn symmetry(c: &FCase, f: &Field, cs: &Sh, qi: usize) -> Option<(&'static str, Field, f64, Sh)> {
    let sel = (c.key >> 40) as usize + qi;
    let rnd = |s: Sh| if f.single { s.map(&|p| (p.0 as f32 as f64, p.1 as f32 as f64)) } else { s };
    let make = |m: &dyn Fn(P) -> P, bounds: Box4| -> (Field, Sh) {
        let bounds = f.single_box(bounds);
        let shapes: Vec<Sh> = f.shapes.iter().map(|s| rnd(s.map(m))).collect();
        let scale = [bounds.0, bounds.1, bounds.2, bounds.3].iter().fold(0f64, |m, v| m.max(v.abs())) * 2.0;
        (Field { bounds, shapes, cmps: vec![], cfg: f.cfg, scale: scale.max(f.scale), ..*f }, rnd(cs.map(m)))
    };
    let b = f.bounds;
    if c.sph {
        if sel % 3 == 0 {
            let (g, q) = make(&|p| (p.0, -p.1), (b.0, -b.3, b.2, -b.1));
            return Some(("mirroring latitudes", g, 1.0, q));
        }
        if sel % 3 == 1 {
            let (g, q) = make(&|p| (-p.0, p.1), (-b.2, b.1, -b.0, b.3));
            return Some(("mirroring longitudes", g, 1.0, q));
        }
        // rotate, unless some shape would come to cross the antimeridian
        let turn = ((c.key >> 44) % 1024) as f64 / 1024.0 * 2.0 * PI - PI;
        let spin = |s: &Sh| -> Option<Sh> {
            let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
            for p in s.coords() {
                lo = lo.min(p.0 + turn);
                hi = hi.max(p.0 + turn);
            }
            let k = if lo >= -PI && hi <= PI {
                0.0
            } else if lo >= PI {
                -2.0 * PI
            } else if hi <= -PI {
                2.0 * PI
            } else {
                return None;
            };
            Some(rnd(clamp_sphere(s.map(&|p| (p.0 + turn + k, p.1)))))
        };
        let shapes: Option<Vec<Sh>> = f.shapes.iter().map(spin).collect();
        let q = spin(cs)?;
        let bounds = f.single_box((-PI, -FRAC_PI_2, PI, FRAC_PI_2));
        return Some((
            "rotating longitudes",
            Field { bounds, shapes: shapes?, cmps: vec![], cfg: f.cfg, ..*f },
            1.0,
            q,
        ));
    }
    let (w, h) = (b.2 - b.0, b.3 - b.1);
    let (name, k, g, q) = match sel % 5 {
        0 => {
            let (dx, dy) = (w * ((c.key >> 44) % 8) as f64 / 4.0 - w, h * ((c.key >> 47) % 8) as f64 / 4.0);
            let (g, q) = make(&|p| (p.0 + dx, p.1 + dy), (b.0 + dx, b.1 + dy, b.2 + dx, b.3 + dy));
            ("translating", 1.0, g, q)
        }
        1 => {
            let (g, q) = make(&|p| (-p.0, p.1), (-b.2, b.1, -b.0, b.3));
            ("mirroring x", 1.0, g, q)
        }
        2 => {
            let (g, q) = make(&|p| (p.0, -p.1), (b.0, -b.3, b.2, -b.1));
            ("mirroring y", 1.0, g, q)
        }
        3 => {
            let (g, q) = make(&|p| (p.1, p.0), (b.1, b.0, b.3, b.2));
            ("exchanging the axes", 1.0, g, q)
        }
        _ => {
            let k = [0.5, 3.0, 1024.0, 0.0078125, 0.3][(c.key >> 44) as usize % 5];
            let (g, q) = make(&|p| (p.0 * k, p.1 * k), (b.0 * k, b.1 * k, b.2 * k, b.3 * k));
            ("scaling", k, Field { scale: f.scale * k, ..g }, q)
        }
    };
    // rounding must not push data out of the bounds
    let ok = g.shapes.iter().all(|s| s.bbox().is_some_and(|d| within(g.bounds, d)));
    ok.then_some((name, g, k, q))
}

// ------------------------------------------------------------------ C11

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ECase {
    pub base: FCase,
    /// 0 planar, 1 spherical, 2 none
    pub method: u8,
    /// Which kinds are stored
    pub stored: u8,
    /// For each query: make it touch the bounds from outside at this place
    pub touch: Vec<u8>,
}
pub fn ecase() -> BoxedStrategy<ECase> {
    (
        fcase_of(world(), any::<bool>().boxed(), (3, 12, 40)),
        prop_oneof![4 => Just(0u8), 4 => Just(1u8), 2 => Just(2u8)],
        0u8..4,
        proptest::collection::vec(any::<u8>(), 8),
    )
        .prop_map(|(base, method, stored, touch)| ECase { base, method, stored, touch })
        .boxed()
}
pub fn c11(c: &ECase, o: &mut Obs) -> Verdict {
    let mut c = c.clone();
    c.base.sph = c.method == 1;
    if c.base.key % 64 == 7 {
        // errors can be told apart when printed
        let all = [
            Error::OutOfBounds,
            Error::CannotMakeBbox,
            Error::CannotFindSubNode,
            Error::NoneInRadius,
            Error::InvalidDistance,
            Error::Empty,
            Error::CalcMethodNotSet,
            Error::UnsupportedGeometry,
        ];
        for (i, a) in all.iter().enumerate() {
            for b in &all[..i] {
                let same = a.to_string() == b.to_string() || format!("{a:?}") == format!("{b:?}") || a == b;
                ensure!(!same, "the errors {a:?} and {b:?} are printed as {a} and {b}");
            }
            ensure!(!a.to_string().trim().is_empty(), "{a:?} is printed as nothing");
        }
    }
    by_tree!(c.base, errors(&c, o))
}
fn outcome<T: Num, X>(r: &Result<X, Error>) -> Option<Error> {
    r.as_ref().err().copied()
}
fn errors<T: Num + QtFloat, R: STr<T>>(c: &ECase, o: &mut Obs) -> Verdict {
    let dk: &[u8] = if R::POINTS {
        PT
    } else {
        match c.stored {
            0 => PT,
            1 => PR,
            2 => &[1, 2, 3],
            _ => ALL,
        }
    };
    let mut f = decode_kinds(&c.base, dk, ALL);
    f.method = match c.method {
        0 => CalcMethod::Euclidean,
        1 => CalcMethod::Spherical,
        _ => CalcMethod::None,
    };
    let b = f.bounds;
    for (i, q) in c.base.queries.iter().enumerate() {
        let (w, h) = (b.2 - b.0, b.3 - b.1);
        let at = |v: u16, lo: f64, e: f64| lo + (v % 9) as f64 / 8.0 * e;
        let (x, y) = (at(q.s.x, b.0, w), at(q.s.y, b.1, h));
        let t = c.touch[i % c.touch.len()];
        let s = match t % 32 {
            // outside, touching an edge or a corner
            0 => Sh::Rc((b.0 - w / 4.0, y), (b.0, y)),
            1 => Sh::Rc((b.2, b.3), (b.2 + w / 4.0, b.3 + h / 4.0)),
            2 => Sh::Rc((x, b.3), (x, b.3 + h / 4.0)),
            3 => Sh::Rc((x, b.1 - h / 4.0), (b.2 + w, b.1)),
            4 => Sh::Pt((b.0, y)),
            5 => Sh::Pt((x, b.3)),
            6 => Sh::Pt((b.2, b.1)),
            7 => Sh::Ln((b.2, y), (b.2 + w / 4.0, y)),
            8 => Sh::Ln((b.0 - w / 4.0, b.1 + h / 4.0), (b.0 + w / 4.0, b.1 - h / 4.0)),
            // surrounding
            9 => Sh::Rc((b.0 - w, b.1 - h), (b.2 + w, b.3 + h)),
            10 => Sh::Pg(vec![vec![(b.0 - w, b.1 - h), (b.2 + w, b.1 - h), (b.2 + w, b.3 + h), (b.0 - w, b.3 + h)]]),
            // clearly outside, to each side
            11 => Sh::Pt((b.0 - w / 2.0, y)),
            12 => Sh::Pt((b.2 + w / 2.0, y)),
            13 => Sh::Pt((x, b.1 - h / 2.0)),
            14 => Sh::Pt((x, b.3 + h / 2.0)),
            15 => Sh::Rc((b.0 - w / 2.0, b.1 - h), (b.0 - w / 4.0, b.3 + h)),
            16 => Sh::Rc((b.0 - w, b.3 + h / 4.0), (b.2 + w, b.3 + h / 2.0)),
            17 => Sh::Ln((b.0 - w / 2.0, b.1), (b.0 - w / 4.0, b.3)),
            // bounds in the hole
            18 => {
                let sq = |k: f64| vec![(b.0 - w * k, b.1 - h * k), (b.2 + w * k, b.1 - h * k), (b.2 + w * k, b.3 + h * k), (b.0 - w * k, b.3 + h * k)];
                Sh::Pg(vec![sq(1.0), sq(0.5)])
            }
            _ => continue,
        };
        if c.method == 1 {
            let ok = s.coords().iter().all(|p| p.0.abs() <= PI && p.1.abs() <= FRAC_PI_2);
            if !ok {
                continue;
            }
        }
        f.cmps[i] = c.base.w.round(s);
    }
    let t: R = build(&f, &shuffle(f.shapes.len(), c.base.key))?;
    let n = f.shapes.len();
    let told = match t.method() {
        CalcMethod::Euclidean => 0,
        CalcMethod::Spherical => 1,
        CalcMethod::None => 2,
    };
    ensure!(told == c.method, "a tree built with {:?} says its method is {:?}", f.method, t.method());
    let mut codes = std::collections::HashSet::new();
    let mut log: Vec<(usize, Option<Error>, Option<Error>, usize)> = vec![];
    for round in 0..2 {
        for (i, (q, cs)) in c.base.queries.iter().zip(&f.cmps).enumerate() {
            let x = Cmp(G::<T>::of(cs));
            let kind = cs.kind();
            let all: Vec<Option<f64>> = if c.method == 2 { vec![None; n] } else { f.shapes.iter().map(|s| f.dist(cs, s)).collect() };
            let fa = Facts {
                asc: {
                    let mut a: Vec<f64> = all.iter().flatten().copied().collect();
                    a.sort_by(f64::total_cmp);
                    a
                },
                dist: all,
                at: if f.unclear(cs) { Where::Either } else { f.place(cs, f.bounds) },
            };
            let (r, _) = radius::<T>(&f, cs, q, &fa);
            let k = many(q.k).max(1);
            let find = outcome::<T, _>(&t.near(&x));
            let find_r = outcome::<T, _>(&t.near_r(&x, r));
            let knn = t.some(&x, k);
            let knn_r = t.some_r(&x, k, r);
            let srt = drain(t.order(&x), n + 8)?.len();
            let ek = outcome::<T, _>(&knn);
            let ekr = outcome::<T, _>(&knn_r);
            // asking for none makes no difference to what is wrong
            let none = [t.some(&x, 0), t.some_r(&x, 0, r)];
            if round == 0 {
                log.push((i, find, ek, srt));
            } else {
                ensure!(log[i] == (i, find, ek, srt), "the outcome for {:?} changed: {:?} then {:?} {}", cs, log[i], (find, ek, srt), ctx(&f));
                continue;
            }
            o.compared += 1;
            let all4 = [("find", find), ("find_r", find_r), ("knn", ek), ("knn_r", ekr)];
            let every = |e: Error| -> Verdict {
                for (name, got) in all4 {
                    ensure!(got == Some(e), "{name}({:?}) gave {:?}, expected {:?} {}", cs, got, e, ctx(&f));
                }
                for z in &none {
                    ensure!(outcome::<T, _>(z) == Some(e), "knn({:?}, 0) gave {:?}, expected {:?} {}", cs, outcome::<T, _>(z), e, ctx(&f));
                }
                ensure!(srt == 0, "sorted({:?}) yields {srt} where searches fail with {:?} {}", cs, e, ctx(&f));
                Ok(())
            };
            if c.method == 2 {
                every(Error::CalcMethodNotSet)?;
                let calc = x.with_calc(CalcMethod::None);
                let (d, e) = (calc.dist_bbox(&rect::<T>(f.bounds)), calc.dist_geom(&x.as_geom()));
                ensure!(
                    d == Err(Error::CalcMethodNotSet) && e == d,
                    "without a method the distances of {:?} to a box and itself are {:?} and {:?}", cs, d, e
                );
                codes.insert("no method");
                o.hit("no distance method");
                continue;
            }
            if c.method == 1 && (1..=3).contains(&kind) {
                every(Error::InvalidDistance)?;
                codes.insert("invalid");
                o.hit("comparator the method cannot measure");
                continue;
            }
            match fa.at {
                Where::Either => continue,
                Where::Out => {
                    every(Error::OutOfBounds)?;
                    codes.insert("out");
                    o.hit("comparator outside");
                    o.hit_if(n == 0, "outside an empty tree");
                    continue;
                }
                Where::In => {}
            }
            o.hit("comparator inside");
            for z in &none {
                ensure!(z.as_ref().is_ok_and(|v| v.is_empty()), "knn({:?}, 0) gave {:?} {}", cs, outcome::<T, _>(z), ctx(&f));
            }
            for (name, got) in all4 {
                ensure!(got != Some(Error::OutOfBounds), "{name}({:?}) fails with OutOfBounds though it meets the bounds {}", cs, ctx(&f));
            }
            if n == 0 {
                ensure!(find == Some(Error::Empty) && find_r == Some(Error::Empty), "find({:?}) on an empty tree gave {:?}/{:?} {}", cs, find, find_r, ctx(&f));
                ensure!(
                    knn.as_ref().is_ok_and(|v| v.is_empty()) && knn_r.as_ref().is_ok_and(|v| v.is_empty()) && srt == 0,
                    "knn/sorted({:?}) on an empty tree gave {:?} {:?} {srt}", cs, ek, ekr
                );
                codes.insert("empty");
                o.hit("empty tree");
                continue;
            }
            let known = fa.dist.iter().flatten().count();
            ensure!(srt == known, "sorted({:?}) yields {srt} of {known} measurable data {}", cs, ctx(&f));
            if known == 0 {
                ensure!(find == Some(Error::InvalidDistance), "find({:?}) among unmeasurable data gave {:?} {}", cs, find, ctx(&f));
                ensure!(ek == Some(Error::InvalidDistance), "knn({:?}) among unmeasurable data gave {:?} {}", cs, ek, ctx(&f));
                codes.insert("invalid");
                o.hit("stored kinds the method cannot measure");
                continue;
            }
            if known < n {
                for (name, got) in all4 {
                    ensure!(
                        got.is_none() || got == Some(Error::InvalidDistance) || (name == "find_r" && got == Some(Error::NoneInRadius)),
                        "{name}({:?}) among partly measurable data gave {:?} {}", cs, got, ctx(&f)
                    );
                }
                continue;
            }
            ensure!(find.is_none() && ek.is_none() && ekr.is_none(), "searches for {:?} failed: find {:?} knn {:?} {:?} {}", cs, find, ek, ekr, ctx(&f));
            let rv = r.f();
            let tol = f.tol(fa.asc[0]);
            if fa.asc[0] > rv + tol {
                ensure!(find_r == Some(Error::NoneInRadius), "find_r({:?}, {rv:e}) gave {:?}, the closest is at {:e} {}", cs, find_r, fa.asc[0], ctx(&f));
                ensure!(knn_r.as_ref().is_ok_and(|v| v.is_empty()), "knn_r({:?}, {k}, {rv:e}) is not empty {}", cs, ctx(&f));
                codes.insert("none");
                o.hit("none in radius");
            } else {
                ensure!(find_r.is_none() || find_r == Some(Error::NoneInRadius), "find_r({:?}, {rv:e}) failed with {:?} {}", cs, find_r, ctx(&f));
            }
            // a negative radius reaches nothing
            let neg = t.near_r(&x, T::of(-1.0));
            ensure!(outcome::<T, _>(&neg) == Some(Error::NoneInRadius), "find_r({:?}, -1) gave {:?} {}", cs, outcome::<T, _>(&neg), ctx(&f));
            let neg = t.some_r(&x, k, T::of(-1.0));
            ensure!(neg.as_ref().is_ok_and(|v| v.is_empty()), "knn_r({:?}, {k}, -1) gave {:?} {}", cs, outcome::<T, _>(&neg), ctx(&f));
            codes.insert("ok");
        }
    }
    o.hit(T::NAME);
    o.nontrivial = codes.len() >= 2 || codes.iter().any(|c| *c != "ok");
    Ok(())
}

// ------------------------------------------------------------------ C19

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct NCase {
    pub base: FCase,
}
pub fn ncase() -> BoxedStrategy<NCase> {
    fcase_of(world(), Just(false).boxed(), (10, 40, 150)).prop_map(|base| NCase { base }).boxed()
}
pub fn c19(c: &NCase, o: &mut Obs) -> Verdict {
    let c = &c.base;
    // structure: even integral coordinates, so that every midpoint is integral
    let (all, wide) = (INTS.len() + INTS_WIDE.len(), c.w.frame as usize);
    let wide = (wide % all).checked_sub(INTS.len());
    let bounds = wide.map_or(INTS[c.w.frame as usize % all % INTS.len()], |i| INTS_WIDE[i]);
    let points = c.kind < 2;
    let (dk, qk) = kinds_of(c);
    let off = (bounds.0, bounds.1);
    let even = |s: Sh| {
        if points && !c.w.jitter {
            s.map(&|p| (p.0.round(), p.1.round()))
        } else {
            s.map(&|p| ((((p.0 - off.0) / 2.0).round() * 2.0) + off.0, (((p.1 - off.1) / 2.0).round() * 2.0) + off.1))
        }
    };
    let put: Vec<Sh> = c
        .data
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let b = if i % 9 == 8 { widen(bounds) } else { bounds };
            even(c.w.shape(s, b, if points { PT } else { dk }))
        })
        .collect();
    let qs: Vec<Sh> = c
        .queries
        .iter()
        .map(|q| even(c.w.shape(&q.s, if q.wide { widen(bounds) } else { bounds }, if points { PT } else { qk })))
        .collect();
    let side = (bounds.2 - bounds.0).min(bounds.3 - bounds.1);
    // cell sides stay even while cells hold even boxes
    let cfg = Some((c.w.depth.min(side.log2() as u8), c.w.capacity()));
    macro_rules! see {
        ($t:ident) => {
            if points {
                observe::<$t, PointQuadTree<Item<$t>, $t>>(bounds, cfg, &put, &qs)?
            } else {
                observe::<$t, BoundsQuadTree<Item<$t>, $t>>(bounds, cfg, &put, &qs)?
            }
        };
    }
    let base = see!(f64);
    let mut others = vec![
        ("i32", see!(i32)),
        ("i64", see!(i64)),
        ("i128", see!(i128)),
        ("isize", see!(isize)),
    ];
    if wide.is_none() {
        others.push(("f32", see!(f32)));
        others.push(("i16", see!(i16)));
    }
    o.hit_if(wide.is_some(), "coordinates beyond f32 and i16");
    for (name, v) in others {
        for (a, b) in base.iter().zip(&v) {
            ensure!(a == b, "f64 says {a:?}, {name} says {b:?} (bounds {:?}, {:?}, data {:?}, queries {:?})", bounds, cfg, put, qs);
        }
        o.compared += base.len() as u64;
    }
    o.hit(if points { "point tree" } else { "bounds tree" });
    // searches: f32 against f64 on a grid both represent
    let mut s = c.clone();
    s.w.single = true;
    s.w.jitter = false;
    s.w.depth = s.w.depth.min(12);
    if !s.w.exact() {
        return Ok(());
    }
    let f = decode(&s);
    if points {
        let (a, b) = (build::<f32, PointQuadTree<Item<f32>, f32>>(&f, &order(&f))?, build::<f64, PointQuadTree<Item<f64>, f64>>(&f, &order(&f))?);
        both(&s, &f, &a, &b, o)?;
    } else {
        let (a, b) = (build::<f32, BoundsQuadTree<Item<f32>, f32>>(&f, &order(&f))?, build::<f64, BoundsQuadTree<Item<f64>, f64>>(&f, &order(&f))?);
        both(&s, &f, &a, &b, o)?;
    }
    o.nontrivial = put.len() > cfg.unwrap().1 && put.len() > 2;
    Ok(())
}
fn order(f: &Field) -> Vec<usize> {
    (0..f.shapes.len()).collect()
}
fn both<A: STr<f32>, B: STr<f64>>(c: &FCase, f: &Field, a: &A, b: &B, o: &mut Obs) -> Verdict {
    for (q, cs) in c.queries.iter().zip(&f.cmps) {
        let fa = facts(f, cs);
        if fa.at == Where::Either {
            continue;
        }
        let (x, y) = (Cmp(G::<f32>::of(cs)), Cmp(G::<f64>::of(cs)));
        let tol = f.tol(0.0);
        match (a.near(&x), b.near(&y)) {
            (Ok(p), Ok(q)) => ensure!((p.1 as f64 - q.1).abs() <= tol, "find({:?}): f32 {:e}, f64 {:e} {}", cs, p.1, q.1, ctx(f)),
            (p, q) => ensure!(outcome::<f32, _>(&p) == outcome::<f64, _>(&q), "find({:?}): f32 {:?}, f64 {:?} {}", cs, p, q, ctx(f)),
        }
        let k = many(q.k);
        match (a.some(&x, k), b.some(&y, k)) {
            (Ok(p), Ok(q)) => {
                ensure!(p.len() == q.len(), "knn({:?}, {k}): f32 {}, f64 {} {}", cs, p.len(), q.len(), ctx(f));
                for (p, q) in p.iter().zip(&q) {
                    ensure!((p.1 as f64 - q.1).abs() <= tol, "knn({:?}, {k}): f32 {:e}, f64 {:e} {}", cs, p.1, q.1, ctx(f));
                }
            }
            (p, q) => ensure!(outcome::<f32, _>(&p) == outcome::<f64, _>(&q), "knn({:?}): f32 {:?}, f64 {:?} {}", cs, outcome::<f32, _>(&p), outcome::<f64, _>(&q), ctx(f)),
        }
        let (p, q): (Vec<f64>, Vec<f64>) = (a.order(&x).map(|h| h.1 as f64).collect(), b.order(&y).map(|h| h.1).collect());
        ensure!(same(&p, &q, 1.0, &|_| tol), "sorted({:?}): f32 {:?}, f64 {:?} {}", cs, p, q, ctx(f));
        o.compared += 3;
        o.hit("searches compared");
    }
    Ok(())
}
