//! C18: nothing panics, overflows the stack or runs away.
use super::search::{FCase, decode_kinds};
use super::structure::PT;
use crate::ensure;
use crate::geomx::*;
use crate::runner::{Obs, Verdict};
use crate::tree::*;
use crate::with_float;
use crate::world::*;
use proptest::prelude::*;
use quadtree::{AsGeom, BoundsQuadTree, CalcMethod, GeometryRef, PointQuadTree, QtFloat};
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct XCase {
    pub base: FCase,
    pub method: u8,
    /// Data with extreme coordinates: kind, shape and value selectors
    pub odd: Vec<(u8, [u8; 8])>,
    /// Distinct positions on a circle around a focus, and copies at each
    pub ring: u8,
    pub copies: u8,
    pub deep: Option<u8>,
    pub bulk: u16,
    pub big: bool,
}
pub fn xcase() -> BoxedStrategy<XCase> {
    prop_oneof![1 => heavy(), 19 => light()].boxed()
}
/// Depth, clusters and thousands of data.
fn heavy() -> BoxedStrategy<XCase> {
    let odd = proptest::collection::vec((0u8..14, any::<[u8; 8]>()), 0..8);
    (
        super::search::fcase(),
        0u8..5,
        odd,
        prop_oneof![3 => Just(0u8), 3 => 1u8..24, 1 => 24u8..48],
        1u8..4,
        prop_oneof![2 => Just(None), 2 => Just(Some(255u8)), 1 => (41u8..=255).prop_map(Some)],
        prop_oneof![240 => Just(0u16), 20 => 500u16..3000, 2 => 40_000u16..65_535],
        proptest::bool::weighted(0.25),
    )
        .prop_map(|(base, method, odd, ring, copies, deep, bulk, big)| XCase { base, method, odd, ring, copies, deep, bulk, big })
        .boxed()
}
/// Few data, with extreme coordinates or enormous bounds.
fn light() -> BoxedStrategy<XCase> {
    let odd = proptest::collection::vec((0u8..14, any::<[u8; 8]>()), 1..14);
    (super::search::fcase_small(), 0u8..5, odd, 0u8..8, proptest::bool::weighted(0.5))
        .prop_map(|(base, method, odd, ring, big)| XCase { base, method, odd, ring, copies: 1, deep: None, bulk: 0, big })
        .boxed()
}
fn value(b: u8, lo: f64, hi: f64, single: bool) -> f64 {
    let max = if single { f32::MAX as f64 } else { f64::MAX };
    let min = if single { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
    match b % 16 {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => max,
        4 => -max,
        5 => max / 4.0,
        6 => min,
        7 => -min / 4.0,
        8 => -0.0,
        9 => lo,
        10 => hi,
        11 => max.sqrt(),
        _ => lo + (hi - lo) * (b / 16) as f64 / 15.0,
    }
}
/// A geometry with selected extreme coordinates, built as a user could build it.
fn extreme<T: Num + QtFloat>(o: &(u8, [u8; 8]), b: Box4, single: bool) -> G<T> {
    use geo::{Coord, Line, LineString, Point, Polygon, Rect};
    // kinds from 7 up: as below 7, with only one coordinate (or none) extreme
    let pick = |i: usize| if o.0 < 7 || i == o.1[7] as usize % 8 { o.1[i] } else { (o.1[i] & 0xF0) | 12 | (o.1[i] & 3) };
    let x = |i: usize| T::of(value(pick(i), b.0, b.2, single));
    let y = |i: usize| T::of(value(pick(i), b.1, b.3, single));
    let c = |i: usize| Coord { x: x(i), y: y(i + 1) };
    match o.0 % 7 {
        0 => G::Pt(Point(c(0))),
        1 => G::Ln(Line::new(c(0), c(2))),
        2 => G::Ls(LineString::new(vec![c(0), c(2), c(4)])),
        3 => {
            let hole = (o.1[6] % 4 == 1).then(|| LineString::new(vec![c(1), c(3), c(5)]));
            G::Pg(Polygon::new(LineString::new(vec![c(0), c(2), c(4), c(6)]), hole.into_iter().collect()))
        }
        4 => G::Rc(Rect::new(c(0), c(2))),
        5 => G::Ls(LineString::new(vec![])),
        _ => G::Ls(LineString::new(vec![c(0)])),
    }
}
fn has_nan<T: Num + QtFloat>(g: &G<T>) -> bool {
    use geo::CoordsIter;
    let nan = |c: geo::Coord<T>| c.x.is_nan() || c.y.is_nan();
    match g {
        G::Pt(d) => d.coords_iter().any(nan),
        G::Ln(d) => d.coords_iter().any(nan),
        G::Ls(d) => d.coords_iter().any(nan),
        G::Pg(d) => d.coords_iter().any(nan),
        G::Rc(d) => d.coords_iter().any(nan),
    }
}
pub fn c18(c: &XCase, o: &mut Obs) -> Verdict {
    if c.base.kind < 2 {
        with_float!(c.base.w.single, N => run::<N, PointQuadTree<Item<N>, N>>(c, o))
    } else {
        with_float!(c.base.w.single, N => run::<N, BoundsQuadTree<Item<N>, N>>(c, o))
    }
}
fn run<T: Num + QtFloat, R: STr<T>>(c: &XCase, o: &mut Obs) -> Verdict {
    let mut base = c.base.clone();
    let method = match c.method {
        0 | 1 => CalcMethod::Euclidean,
        2 | 3 => CalcMethod::Spherical,
        _ => CalcMethod::None,
    };
    base.sph = matches!(method, CalcMethod::Spherical);
    // deep trees with many cells are quadratic to search: keep them small
    let deep = c.deep.is_some() && !base.w.defaults;
    if let Some(d) = c.deep {
        base.w.depth = d;
    }
    if c.bulk > 3000 {
        base.w.depth %= 5;
    }
    if deep {
        base.data.truncate(24);
        base.dup.truncate(1);
    }
    let dk: &[u8] = if R::POINTS { PT } else { ALL };
    let mut f = decode_kinds(&base, dk, ALL);
    f.method = method;
    let single = base.w.single;
    // enormous: all but overflowing, or with representable squares
    let huge = c.big && !base.sph && c.method < 4 && c.base.key % 2 == 0;
    if c.big && !base.sph {
        let m = match (huge, single) {
            (true, true) => f32::MAX as f64 / 8.0,
            (true, false) => f64::MAX / 8.0,
            (false, true) => 1e9,
            (false, false) => 1e70,
        };
        f.bounds = (-m, -m, m, m);
    }
    if !base.sph && !c.big && c.base.key % 24 == 5 {
        // no width, and sometimes no height
        let b = f.bounds;
        f.bounds = (b.0, b.1, b.0, if c.base.key % 48 == 5 { b.1 } else { b.3 });
        let b = f.bounds;
        f.shapes = f.shapes.iter().map(|s| s.map(&|p| (p.0.clamp(b.0, b.2), p.1.clamp(b.1, b.3)))).collect();
        o.hit("flat bounds");
    }
    let b = f.bounds;
    // a ring of clusters around a focus
    let ring = if deep { c.ring.min(30) } else { c.ring };
    let (cx, cy) = ((b.0 + b.2) / 2.0, (b.1 + b.3) / 2.0);
    let rad = (b.2 - b.0).min(b.3 - b.1) * 0.3;
    for i in 0..ring {
        let a = i as f64 / ring as f64 * 2.0 * PI + 0.1;
        let p = base.w.round(Sh::Pt((cx + a.cos() * rad, cy + a.sin() * rad)));
        let Sh::Pt(p) = p else { unreachable!() };
        let s = if R::POINTS || c.base.mode % 2 == 0 { Sh::Pt(p) } else { Sh::Ln(p, p) };
        for _ in 0..=c.copies {
            f.shapes.push(s.clone());
        }
    }
    if !deep {
        let n = c.bulk as u64;
        for i in 0..if n > 3000 { 3 * n } else { n } {
            let h = (i + c.base.key).wrapping_mul(0x9E3779B97F4A7C15);
            let u = |h: u64| (h % 4097) as f64 / 4096.0;
            let p = (b.0 + (b.2 / 2.0 - b.0 / 2.0) * 2.0 * u(h >> 20), b.1 + (b.3 / 2.0 - b.1 / 2.0) * 2.0 * u(h >> 40));
            f.shapes.push(base.w.round(Sh::Pt((p.0.clamp(b.0, b.2), p.1.clamp(b.1, b.3)))));
        }
    }
    let mut t = R::make(rect::<T>(b), method, f.cfg);
    let mut held = 0;
    let mut odd = c.odd.iter();
    let total = f.shapes.len();
    for (i, s) in f.shapes.iter().enumerate() {
        let d = s.bbox().unwrap();
        let inside = d.0 >= b.0 && d.1 >= b.1 && d.2 <= b.2 && d.3 <= b.3;
        let r = t.put(Item { id: i, g: G::of(s) });
        ensure!(r.is_ok() || !inside, "insert of {:?} failed: {:?}", s, r);
        held += usize::from(r.is_ok());
        if i % 5 == 2 {
            if let Some(x) = odd.next() {
                held += strange::<T, R>(&mut t, x, b, single, o)?;
            }
        }
    }
    for x in odd {
        held += strange::<T, R>(&mut t, x, b, single, o)?;
    }
    ensure!(t.count() == held, "size() is {} after {held} accepted inserts", t.count());
    ensure!(t.all_ids()?.len() == held, "iteration is incomplete");
    let text = t.show();
    let cells = text.lines().count();
    // searches
    let mut cmps: Vec<G<T>> = f.cmps.iter().map(G::of).collect();
    cmps.push(G::of(&base.w.round(Sh::Rc((cx, cy), (cx + rad / 8.0, cy + rad / 8.0)))));
    cmps.push(G::of(&base.w.round(Sh::Pt((cx, cy)))));
    if c.bulk > 3000 {
        // touches every quadrant
        cmps = vec![G::of(&base.w.round(Sh::Rc((cx - rad, cy - rad), (cx + rad, cy + rad))))];
    }
    cmps.extend(c.odd.iter().take(3).map(|x| extreme(x, b, single)));
    // searching costs up to the square of the number of cells
    let turn = base.key as usize % cmps.len();
    cmps.rotate_left(turn);
    cmps.truncate(match cells {
        0..1500 => 16,
        1500..6000 => 4,
        6000..12000 => 2,
        _ => 1,
    });
    for (i, g) in cmps.into_iter().enumerate() {
        if !R::POINTS || matches!(g, G::Pt(_)) {
            t.get_ids(&Item { id: usize::MAX, g: g.clone() })?;
        }
        let nan = has_nan(&g);
        let x = Cmp(g);
        let rs = [0.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, rad, 1e-300, f64::MAX, f64::NAN];
        let r = T::of(rs[(i + base.key as usize) % rs.len()]);
        let ks = [0, 1, 3, held, usize::MAX];
        let k = ks[(i + (base.key >> 8) as usize) % ks.len()];
        let (a, z) = (t.near(&x), t.near_r(&x, r));
        if nan {
            let (k, s) = (t.some(&x, 3).map(|v| v.len()), t.order(&x).count());
            ensure!(
                a.is_err() && z.is_err() && k.unwrap_or(0) == 0 && s == 0,
                "something was found near {:?}: {:?}, {:?}, {k:?}, {s}", x.0, a, z
            );
            o.hit("comparator with NaN");
        }
        if let Ok((_, d)) = a.as_ref().or(z.as_ref()) {
            ensure!(*d >= T::zero(), "find gave the distance {d:?} for {:?}", x.0);
        }
        if let Ok((it, _)) = a.as_ref().or(z.as_ref()) {
            ensure!(it.id < total + 1_000_000 + c.odd.len(), "find returned something not stored");
        }
        if let Ok(v) = t.some_r(&x, k, r) {
            ensure!(v.len() <= k.min(held), "knn returned {} for k = {k} over {held}", v.len());
        }
        if let Ok(v) = t.some(&x, k) {
            let ds: Vec<T> = v.iter().map(|h| h.1).collect();
            ensure!(
                ds.iter().all(|d| *d >= T::zero() && d.is_finite()),
                "knn gave the distances {ds:?} for {:?}", x.0
            );
            ensure!(v.len() <= k.min(held), "knn returned {} for k = {k} over {held}", v.len());
        }
        let all = if held > 5000 { t.order(&x).take(100).collect() } else { drain(t.order(&x), held + 8)? };
        let n = all.len();
        ensure!(n <= held, "sorted yields {n} over {held}");
        let ds: Vec<T> = all.iter().map(|h| h.1).collect();
        ensure!(
            ds.iter().all(|d| *d >= T::zero() && d.is_finite()),
            "sorted gave the distances {ds:?} for {:?}", x.0
        );
        o.compared += 5;
        // nothing was damaged
        ensure!(t.count() == held && t.show() == text, "searching changed the tree");
    }
    ensure!(t.all_ids()?.len() == held, "iteration is incomplete after searching");
    // distances between any two, and to boxes
    let odd: Vec<G<T>> = c.odd.iter().map(|x| extreme(x, b, single)).collect();
    let plain = f.shapes.iter().chain(&f.cmps).take(3).map(G::of);
    for y in plain.chain(odd.iter().cloned()) {
        for x in &odd {
            for (p, q) in [(x, &y), (&y, x)] {
                let nan = has_nan(p) || has_nan(q);
                let (p, q) = (p.gref(), q.gref());
                for m in [CalcMethod::Euclidean, CalcMethod::Spherical] {
                    let d = p.with_calc(m).dist_geom(&q);
                    let e = if let GeometryRef::Rect(q) = q { p.with_calc(m).dist_bbox(q) } else { d };
                    for d in [d, e].into_iter().flatten() {
                        ensure!(d.is_nan() || d >= T::zero(), "distance of {p:?} and {q:?} is {d:?} by {m:?}");
                        ensure!(!nan, "{p:?} and {q:?} have a distance of {d:?} by {m:?}");
                    }
                    o.compared += 1;
                }
            }
        }
    }
    o.hit_if(deep, "depth above 40");
    o.hit_if(cells > 1000, "more than 1000 cells");
    o.hit_if(cells > 10_000, "more than 10000 cells");
    o.hit_if(held > 500, "more than 500 data");
    o.hit_if(held > 100_000, "more than 100000 data");
    o.hit_if(!c.odd.is_empty(), "extreme coordinates");
    o.hit_if(c.big && !base.sph, "enormous bounds");
    o.hit(T::NAME);
    o.nontrivial = cells > 1 && held > 2;
    Ok(())
}
fn strange<T: Num + QtFloat, R: STr<T>>(t: &mut R, x: &(u8, [u8; 8]), b: Box4, single: bool, o: &mut Obs) -> Result<usize, String> {
    let mut g = extreme::<T>(x, b, single);
    if R::POINTS && !matches!(g, G::Pt(_)) {
        g = extreme::<T>(&(0, x.1), b, single);
    }
    let before = t.count();
    let r = t.put(Item { id: 1_000_000 + before, g: g.clone() });
    let ok = usize::from(r.is_ok());
    ensure!(t.count() == before + ok, "size() is {} after inserting {:?} gave {:?}", t.count(), g, r);
    let empty = matches!(&g, G::Ls(l) if l.0.is_empty());
    ensure!(!(empty && r.is_ok()), "an empty line string was accepted");
    o.hit_if(r.is_ok(), "extreme datum accepted");
    o.hit_if(r.is_err(), "extreme datum rejected");
    Ok(ok)
}
