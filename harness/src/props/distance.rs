//! C12-C15: distances.
use crate::ensure;
use crate::geomx::*;
use crate::refgeom as rf;
use crate::runner::{Obs, Verdict};
use crate::with_float;
use crate::world::*;
use geo::Point;
use proptest::prelude::*;
use quadtree::{AsGeom, CalcMethod, DistEuclidean, DistHaversine, Error, QtFloat};
use serde::{Deserialize, Serialize};
use std::f64::consts::{FRAC_PI_2, PI};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DCase {
    pub w: World,
    /// A second frame for the other operand on the sphere; 255: the same
    pub frame2: u8,
    pub pairs: Vec<(Spec, Spec)>,
    /// Per pair: 0 independent, otherwise derive the second from the first
    pub rel: Vec<u8>,
    pub mode: u8,
}
pub fn dcase() -> BoxedStrategy<DCase> {
    (
        world(),
        prop_oneof![2 => Just(255u8), 1 => any::<u8>()],
        proptest::collection::vec((spec(), spec()), 1..6),
        proptest::collection::vec(any::<u8>(), 6),
        any::<u8>(),
    )
        .prop_map(|(w, frame2, pairs, rel, mode)| DCase { w, frame2, pairs, rel, mode })
        .boxed()
}
/// Derive a related geometry: nested in, surrounding, touching or equal to the first.
fn relate(rel: u8, a: &Sh, b: Sh) -> Sh {
    let Some((x0, y0, x1, y1)) = a.bbox() else { return b };
    let Some(bb) = b.bbox() else { return b };
    let (w, h) = (x1 - x0, y1 - y0);
    let shift = |dx: f64, dy: f64, s: &Sh| s.map(&|p| (p.0 + dx, p.1 + dy));
    match rel % 16 {
        0..=5 => b,
        6 | 7 => in_hole(rel / 8, a, b),
        8 => a.clone(),
        // touching sides and corners of the boxes
        9 => shift(x1 - bb.0, y1 - bb.1, &b),
        10 => shift(x1 - bb.0, y0 - bb.1, &b),
        11 => shift(x0 - bb.0, y1 - bb.1, &b),
        // a quarter of the box further
        12 => shift(x1 + w / 4.0 - bb.0, y0 - bb.1, &b),
        13 => shift(x0 - bb.0 + w / 2.0, y0 - bb.1 + h / 2.0, &b),
        // a vertex or a middle of the first
        14 => Sh::Pt(a.coords()[rel as usize / 16 % a.coords().len()]),
        _ => {
            let s = rf::segs(a);
            let (p, q) = s[rel as usize / 16 % s.len()];
            Sh::Pt(((p.0 + q.0) / 2.0, (p.1 + q.1) / 2.0))
        }
    }
}
/// Put a geometry into a hole of the other, where it has one.
fn in_hole(rel: u8, a: &Sh, b: Sh) -> Sh {
    let (Sh::Pg(rings), Some(bb)) = (a, b.bbox()) else { return b };
    let Some(hole) = rings[1..].get(rel as usize / 8 % rings.len().max(2).saturating_sub(1)).filter(|h| h.len() > 2) else {
        return b;
    };
    // the middle of three corners of a convex ring lies within it
    let mid = |f: fn(&P) -> f64| hole[..3].iter().map(f).sum::<f64>() / 3.0;
    let (mx, my) = (mid(|p| p.0), mid(|p| p.1));
    let (w, h) = (bb.2 - bb.0, bb.3 - bb.1);
    let size = hole.iter().map(|p| (p.0 - mx).abs().min((p.1 - my).abs())).fold(f64::INFINITY, f64::min);
    let k = if w.max(h) > 0.0 { size * [0.125, 0.5, 1.0, 2.0][rel as usize % 4] / w.max(h) } else { 1.0 };
    let tiny = 1e6 * f64::EPSILON * a.scale();
    if size < tiny || [w, h].iter().any(|v| *v > 0.0 && v * k < tiny) {
        return b;
    }
    b.map(&|p| (mx + (p.0 - bb.0 - w / 2.0) * k, my + (p.1 - bb.1 - h / 2.0) * k))
}

/// Every route to the planar distance of a pair.
fn planar_routes<T: Num + QtFloat>(a: &G<T>, b: &G<T>) -> Vec<(&'static str, T)> {
    let (ra, rb) = (a.gref(), b.gref());
    let (oa, ob) = (owned(a), owned(b));
    let calc = ra.with_calc(CalcMethod::Euclidean);
    let mut v = vec![
        ("dist_geom", calc.dist_geom(&rb).unwrap()),
        ("ref-ref", ra.dist_euclidean(&rb)),
        ("ref-owned", ra.dist_euclidean(&ob)),
        ("owned-ref", oa.dist_euclidean(&rb)),
        ("owned-owned", oa.dist_euclidean(&ob)),
        (
            "raw-ref",
            match a {
                G::Pt(d) => d.dist_euclidean(&rb),
                G::Ln(d) => d.dist_euclidean(&rb),
                G::Ls(d) => d.dist_euclidean(&rb),
                G::Pg(d) => d.dist_euclidean(&rb),
                G::Rc(d) => d.dist_euclidean(&rb),
            },
        ),
        (
            "raw-owned",
            match a {
                G::Pt(d) => d.dist_euclidean(&ob),
                G::Ln(d) => d.dist_euclidean(&ob),
                G::Ls(d) => d.dist_euclidean(&ob),
                G::Pg(d) => d.dist_euclidean(&ob),
                G::Rc(d) => d.dist_euclidean(&ob),
            },
        ),
        ("owned dist_geom", oa.with_calc(CalcMethod::Euclidean).dist_geom(&ob.as_geom()).unwrap()),
    ];
    if let G::Rc(r) = b {
        v.push(("dist_bbox", calc.dist_bbox(r).unwrap()));
    }
    v
}
pub fn owned<T: Num>(g: &G<T>) -> quadtree::Geometry<T> {
    match g.clone() {
        G::Pt(d) => quadtree::Geometry::Point(d),
        G::Ln(d) => quadtree::Geometry::Line(d),
        G::Ls(d) => quadtree::Geometry::LineString(d),
        G::Pg(d) => quadtree::Geometry::Polygon(d),
        G::Rc(d) => quadtree::Geometry::Rect(d),
    }
}

// ------------------------------------------------------------------ C12

pub fn c12(c: &DCase, o: &mut Obs) -> Verdict {
    with_float!(c.w.single, T => planar::<T>(c, o))
}
fn planar<T: Num + QtFloat>(c: &DCase, o: &mut Obs) -> Verdict {
    let w = c.w;
    let bounds = w.round_box(w.planar_bounds());
    for ((sa, sb), rel) in c.pairs.iter().zip(&c.rel) {
        // (geometries put into holes are off the grid)
        let exact = w.exact() && !w.jitter && !matches!(rel % 16, 6 | 7);
        let a = w.round(w.shape(sa, bounds, ALL));
        let b = w.round(relate(*rel, &a, w.shape(sb, bounds, ALL)));
        let want = rf::planar(&a, &b);
        let scale = a.scale().max(b.scale());
        let tol = rf::tol_planar(scale, w.single);
        for (x, y) in [(&a, &b), (&b, &a)] {
            let (gx, gy) = (G::<T>::of(x), G::<T>::of(y));
            for (route, d) in planar_routes(&gx, &gy) {
                let d = d.f();
                ensure!(d >= 0.0, "{route}: distance of {:?} and {:?} is {:e}", x, y, d);
                ensure!(
                    (d - want).abs() <= tol,
                    "{route}: distance of {:?} and {:?} is {:e}, the least between their points is {:e}", x, y, d, want
                );
                ensure!(
                    !(exact && want == 0.0) || d == 0.0,
                    "{route}: {:?} and {:?} share a point but are {:e} apart", x, y, d
                );
                ensure!(want <= tol || d > 0.0, "{route}: {:?} and {:?} share no point but are {:e} apart", x, y, d);
                o.compared += 1;
            }
        }
        o.hit(["with a point", "with a segment", "with a line string", "with a polygon", "with a rectangle"][a.kind().min(b.kind())]);
        o.hit_if([&a, &b].iter().any(|s| matches!(s, Sh::Pg(r) if r.len() > 3)), "three or more holes");
        o.hit_if([&a, &b].iter().any(|s| s.coords().len() > 30), "more than thirty vertices");
        o.hit_if(
            matches!((&a, a.bbox(), b.bbox()), (Sh::Pg(r), Some(p), Some(q)) if r.len() > 1 && want > 0.0 && b.kind() > 0
                && p.0 < q.0 && q.2 < p.2 && p.1 < q.1 && q.3 < p.3),
            "within the box of a polygon with holes, apart",
        );
        o.hit_if(want == 0.0, "sharing a point");
        o.hit_if(want > 0.0, "apart");
        o.nontrivial |= a.kind() != 0 && b.kind() != 0 && want > 0.0;
    }
    o.hit(T::NAME);
    Ok(())
}

// ------------------------------------------------------------------ C13

/// A point on the sphere; the second coordinate is chosen relative to earlier ones.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SP {
    pub lng: (u8, f64),
    pub lat: (u8, f64),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TCase {
    pub single: bool,
    pub p: SP,
    pub q: SP,
    pub r: SP,
}
pub fn tcase() -> BoxedStrategy<TCase> {
    let c = || (0u8..16, prop_oneof![2 => -1.0f64..=1.0, 1 => (-16i32..=-1).prop_map(|e| 10f64.powi(e))]);
    let sp = move || (c(), c()).prop_map(|(lng, lat)| SP { lng, lat });
    (proptest::bool::weighted(0.3), sp(), sp(), sp()).prop_map(|(single, p, q, r)| TCase { single, p, q, r }).boxed()
}
fn place(s: &SP, base: P) -> P {
    let v = s.lng.1;
    let lng = match s.lng.0 {
        0 => PI,
        1 => -PI,
        2 => 0.0,
        3 => FRAC_PI_2,
        4 => base.0,
        5 => base.0 + v * 1e-3,
        6 => base.0 + PI,
        7 => base.0 + PI + v * 1e-6,
        8 => PI - v.abs() * 1e-6,
        9 => -PI + v.abs() * 1e-6,
        _ => v * PI,
    };
    let lng = if lng > PI { lng - 2.0 * PI } else if lng < -PI { lng + 2.0 * PI } else { lng };
    let v = s.lat.1;
    let lat = match s.lat.0 {
        0 => FRAC_PI_2,
        1 => -FRAC_PI_2,
        2 => 0.0,
        3 => FRAC_PI_2 - v.abs() * 1e-6,
        4 => base.1,
        5 => base.1 + v * 1e-3,
        6 => -base.1,
        7 => -base.1 + v * 1e-6,
        8 => -FRAC_PI_2 + v.abs() * 1e-6,
        _ => v * FRAC_PI_2,
    };
    (lng.clamp(-PI, PI), lat.clamp(-FRAC_PI_2, FRAC_PI_2))
}
pub fn c13(c: &TCase, o: &mut Obs) -> Verdict {
    with_float!(c.single, T => sphere::<T>(c, o))
}
fn sphere<T: Num + QtFloat>(c: &TCase, o: &mut Obs) -> Verdict {
    let r = |p: P| (T::of(p.0).f(), T::of(p.1).f());
    let p = r(place(&c.p, (0.3, 0.2)));
    let q = r(place(&c.q, p));
    let s = r(place(&c.r, q));
    let pt = |p: P| Point(co::<T>(p));
    let dist = |a: P, b: P| -> Result<f64, String> {
        let (x, y) = (pt(a), pt(b));
        let d = x.with_calc(CalcMethod::Spherical).dist_geom(&y.as_geom());
        let e = DistHaversine::<T, _>::dist_haversine(&x, &y.as_geom());
        let Ok(d) = d else { return Err(format!("distance of {:?} and {:?} gave {:?}", a, b, d)) };
        ensure!(
            e.is_ok_and(|v| v == d || (v.is_nan() && d.is_nan())),
            "distance of {:?} and {:?} is {:e} or {:?} by different routes", a, b, d, e
        );
        ensure!(d.is_finite(), "distance of {:?} and {:?} is {}", a, b, d);
        ensure!(
            d >= T::zero() && d <= T::of(PI),
            "distance of {:?} and {:?} is {:e}, outside [0, pi]", a, b, d
        );
        Ok(d.f())
    };
    let tol = |d: f64| rf::tol_sph(d, c.single);
    for (a, b) in [(p, q), (q, s), (p, s)] {
        let want = rf::angle(a, b);
        let d = dist(a, b)?;
        ensure!((d - want).abs() <= tol(want), "distance of {:?} and {:?} is {:e}, the central angle is {:e}", a, b, d, want);
        let e = dist(b, a)?;
        ensure!((d - e).abs() <= tol(want), "distance of {:?} and {:?} is not symmetric: {:e} and {:e}", a, b, d, e);
        // the same meridian on the other side of the antimeridian
        if a.0.abs() == r((PI, 0.0)).0 {
            let f = dist((-a.0, a.1), b)?;
            ensure!((d - f).abs() <= tol(want), "distance of {:?} to {:?} changes to {:e} from {:e} across the antimeridian", a, b, f, d);
            o.hit("antimeridian meridian");
        }
        o.compared += 3;
        o.hit_if(want > PI - 1e-3, "nearly antipodal");
        o.hit_if(want < 1e-3, "nearly coincident");
        o.hit_if(a.1.abs() > FRAC_PI_2 - 1e-5 || b.1.abs() > FRAC_PI_2 - 1e-5, "at a pole");
        o.hit_if((a.0 - b.0).abs() > PI, "across the antimeridian");
        o.nontrivial |= want > 1e-9 && (a.0 - b.0).abs() > 1e-9 && (a.1 - b.1).abs() > 1e-9;
    }
    ensure!(dist(p, p)? == 0.0, "distance of {:?} to itself is {:e}", p, dist(p, p)?);
    let (pq, qs, ps) = (dist(p, q)?, dist(q, s)?, dist(p, s)?);
    ensure!(
        ps <= pq + qs + tol(pq) + tol(qs) + tol(ps),
        "triangle {:?} {:?} {:?}: {:e} > {:e} + {:e}", p, q, s, ps, pq, qs
    );
    o.compared += 2;
    o.hit(T::NAME);
    Ok(())
}

// ------------------------------------------------------------------ C14

fn sphere_routes<T: Num + QtFloat>(a: &G<T>, b: &G<T>) -> Vec<(&'static str, Result<T, Error>)> {
    let (ra, rb) = (a.gref(), b.gref());
    let (oa, ob) = (owned(a), owned(b));
    let calc = ra.with_calc(CalcMethod::Spherical);
    let mut v = vec![
        ("dist_geom", calc.dist_geom(&rb)),
        ("ref-ref", ra.dist_haversine(&rb)),
        ("ref-owned", ra.dist_haversine(&ob)),
        ("owned-ref", oa.dist_haversine(&rb)),
        ("owned-owned", oa.dist_haversine(&ob)),
        (
            "raw-ref",
            match a {
                G::Pt(d) => d.dist_haversine(&rb),
                G::Ln(d) => d.dist_haversine(&rb),
                G::Ls(d) => d.dist_haversine(&rb),
                G::Pg(d) => d.dist_haversine(&rb),
                G::Rc(d) => d.dist_haversine(&rb),
            },
        ),
        (
            "raw-owned",
            match a {
                G::Pt(d) => d.dist_haversine(&ob),
                G::Ln(d) => d.dist_haversine(&ob),
                G::Ls(d) => d.dist_haversine(&ob),
                G::Pg(d) => d.dist_haversine(&ob),
                G::Rc(d) => d.dist_haversine(&ob),
            },
        ),
    ];
    if let (G::Pt(_), G::Rc(d)) = (a, b) {
        v.push(("dist_bbox", calc.dist_bbox(d)));
    }
    v
}
pub fn c14(c: &DCase, o: &mut Obs) -> Verdict {
    with_float!(c.w.single, T => shapes::<T>(c, o))
}
fn shapes<T: Num + QtFloat>(c: &DCase, o: &mut Obs) -> Verdict {
    let w = c.w;
    let f1 = w.sphere_bounds();
    let f2 = if c.frame2 == 255 { f1 } else { sphere_frame(c.frame2 as usize) };
    for ((sa, sb), rel) in c.pairs.iter().zip(&c.rel) {
        let ka: &[u8] = if c.mode % 4 == 3 { ALL } else { &[0, 0, 4] };
        let a = w.round(clamp_sphere(w.shape(sa, f1, ka)));
        let kb: &[u8] = if a.kind() == 4 && c.mode % 4 != 3 { &[0, 4] } else { ALL };
        let b = w.shape(sb, f2, kb);
        let b = w.round(clamp_sphere(if c.frame2 == 255 { relate(*rel, &a, b) } else { b }));
        let want = rf::spherical(&a, &b);
        let unclear = rf::ambiguous(&a, &b);
        for (x, y) in [(&a, &b), (&b, &a)] {
            let (gx, gy) = (G::<T>::of(x), G::<T>::of(y));
            for (route, got) in sphere_routes(&gx, &gy) {
                o.compared += 1;
                match want {
                    None => ensure!(
                        got == Err(Error::InvalidDistance),
                        "{route}: {:?} and {:?} gave {:?}, the method defines no distance", x, y, got
                    ),
                    Some(v) => {
                        let d = got.map_err(|e| format!("{route}: distance of {:?} and {:?} failed with {e:?}", x, y))?.f();
                        ensure!(d.is_finite() && d >= 0.0, "{route}: distance of {:?} and {:?} is {:e}", x, y, d);
                        ensure!(
                            unclear || (d - v).abs() <= rf::tol_sph(v, w.single),
                            "{route}: distance of {:?} and {:?} is {:e}, by definition {:e}", x, y, d, v
                        );
                        if let (Sh::Pt(p), Sh::Rc(lo, hi)) | (Sh::Rc(lo, hi), Sh::Pt(p)) = (x, y) {
                            let inside = p.0 >= lo.0 && p.0 <= hi.0 && p.1 >= lo.1 && p.1 <= hi.1;
                            ensure!(!inside || d == 0.0, "{route}: {:?} lies in {:?} but is {:e} away", x, y, d);
                        }
                        if let (Sh::Rc(p, q), Sh::Rc(r, s)) = (x, y) {
                            let over = q.0 >= r.0 && s.0 >= p.0 && q.1 >= r.1 && s.1 >= p.1;
                            ensure!(!over || d == 0.0, "{route}: {:?} and {:?} overlap but are {:e} apart", x, y, d);
                        }
                    }
                }
            }
        }
        let names = [
            ["point-point", "point-segment", "point-line string", "point-polygon", "point-rectangle"],
            ["refused"; 5], ["refused"; 5], ["refused"; 5],
            ["refused", "refused", "refused", "refused", "rectangle-rectangle"],
        ];
        o.hit(names[a.kind().min(b.kind())][a.kind().max(b.kind())]);
        o.hit_if([&a, &b].iter().any(|s| matches!(s, Sh::Pg(r) if r.len() > 3)), "three or more holes");
        o.hit_if([&a, &b].iter().any(|s| s.coords().len() > 30), "more than thirty vertices");
        if let (Some(v), Some(p), Some(q)) = (want, a.bbox(), b.bbox()) {
            o.hit_if(v > 0.0 && (q.0 - p.2).max(p.0 - q.2) > PI, "across the antimeridian");
            o.hit_if(v > 0.0 && p.1.abs().max(q.3.abs()) > 1.2, "near a pole");
            o.nontrivial |= v > 0.0 && (a.kind() != 0 || b.kind() != 0);
        }
    }
    o.hit(T::NAME);
    Ok(())
}

// ------------------------------------------------------------------ C15

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BCase {
    pub w: World,
    pub sph: bool,
    pub frame2: u8,
    pub cmp: Spec,
    pub obj: Vec<Spec>,
    /// Outer and inner margins around the object, in 1/16 of the frame per side
    pub grow: Vec<[u8; 8]>,
    pub mode: u8,
}
pub fn bcase() -> BoxedStrategy<BCase> {
    (
        world(),
        any::<bool>(),
        prop_oneof![1 => Just(255u8), 1 => any::<u8>()],
        spec(),
        proptest::collection::vec(spec(), 1..5),
        proptest::collection::vec(any::<[u8; 8]>(), 5),
        any::<u8>(),
    )
        .prop_map(|(w, sph, frame2, cmp, obj, grow, mode)| BCase { w, sph, frame2, cmp, obj, grow, mode })
        .boxed()
}
pub fn c15(c: &BCase, o: &mut Obs) -> Verdict {
    with_float!(c.w.single, T => lower::<T>(c, o))
}
fn lower<T: Num + QtFloat>(c: &BCase, o: &mut Obs) -> Verdict {
    let w = c.w;
    let (dk, qk): (&[u8], &[u8]) = match (c.sph, c.mode % 2) {
        (false, _) => (ALL, ALL),
        (true, 0) => (ALL, &[0]),
        _ => (&[0, 4], &[0, 4]),
    };
    let frame = w.round_box(if c.sph { w.sphere_bounds() } else { w.planar_bounds() });
    let other = if c.sph && c.frame2 != 255 { w.round_box(sphere_frame(c.frame2 as usize)) } else { frame };
    let fix = |s: Sh| if c.sph { w.round(clamp_sphere(s)) } else { w.round(s) };
    let cf = if c.mode & 4 != 0 && c.frame2 == 255 { widen(frame) } else { frame };
    let cs = fix(w.shape(&c.cmp, cf, qk));
    let x = G::<T>::of(&cs);
    let method = if c.sph { CalcMethod::Spherical } else { CalcMethod::Euclidean };
    let xr = x.gref();
    let calc = xr.with_calc(method);
    let scale = frame.0.abs().max(frame.1.abs()).max(frame.2.abs()).max(frame.3.abs()) * 2.0;
    let tol = |d: f64| if c.sph { rf::tol_sph(d, w.single) } else { rf::tol_planar(scale, w.single) };
    for (s, g) in c.obj.iter().zip(&c.grow) {
        let s = fix(w.shape(s, other, dk));
        let b = s.bbox().unwrap();
        let (fw, fh) = ((other.2 - other.0) / 16.0, (other.3 - other.1) / 16.0);
        let m = |v: u8| [0.0, 0.0, 0.5, 1.0, 3.0, 16.0][v as usize % 6];
        let out = |b: Box4, g: &[u8]| {
            let v = (b.0 - fw * m(g[0]), b.1 - fh * m(g[1]), b.2 + fw * m(g[2]), b.3 + fh * m(g[3]));
            w.round_box(if c.sph {
                (v.0.clamp(-PI, PI).min(b.0), v.1.clamp(-FRAC_PI_2, FRAC_PI_2).min(b.1), v.2.clamp(-PI, PI).max(b.2), v.3.clamp(-FRAC_PI_2, FRAC_PI_2).max(b.3))
            } else {
                v
            })
        };
        let inner = out(b, &g[..4]);
        let outer = out(inner, &g[4..]);
        let bb = |q: Box4| -> Result<f64, String> {
            let d = calc.dist_bbox(&rect::<T>(q)).map_err(|e| format!("distance of {:?} to box {:?} failed: {e:?}", cs, q))?;
            ensure!(d.f() >= 0.0 && d.is_finite(), "distance of {:?} to box {:?} is {:e}", cs, q, d);
            Ok(d.f())
        };
        let (d0, d1) = (bb(outer)?, bb(inner)?);
        let d = calc
            .dist_geom(&G::<T>::of(&s).gref())
            .map_err(|e| format!("distance of {:?} to {:?} failed: {e:?}", cs, s))?
            .f();
        ensure!(
            d1 <= d + tol(d),
            "{:?}: {:?} is {:e} from {:?}, but the box {:?} around it is {:e} away", method, s, d, cs, inner, d1
        );
        ensure!(
            d0 <= d1 + tol(d1),
            "{:?}: the box {:?} is {:e} from {:?}, but the box {:?} around it is {:e} away", method, inner, d1, cs, outer, d0
        );
        let f = super::search::Field {
            bounds: outer, cfg: None, method, sph: c.sph, single: w.single, shapes: vec![], cmps: vec![], scale,
            exact: !c.sph && w.exact() && !w.jitter, exact_axis: false,
        };
        for (q, v) in [(outer, d0), (inner, d1)] {
            match f.place(&cs, q) {
                super::search::Where::In => ensure!(v == 0.0, "{:?}: {:?} meets the box {:?} but is {:e} away", method, cs, q, v),
                super::search::Where::Out => ensure!(v > 0.0, "{:?}: {:?} does not meet the box {:?} but is {:e} away", method, cs, q, v),
                _ => {}
            }
        }
        o.compared += 4;
        o.hit(if c.sph { "spherical" } else { "planar" });
        o.hit_if(d0 > 0.0, "outer box apart");
        o.hit_if(d0 > 0.0 && d1 > d0 + tol(d1), "inner box further");
        o.nontrivial |= d0 > 0.0 && d > d0 + tol(d);
    }
    o.hit(T::NAME);
    Ok(())
}
