//! C16 wrappers and conversions, C17 conversion to radians.
use super::distance::owned;
use super::search::{FCase, Field, Where, decode, fcase};
use super::structure::PT;
use crate::ensure;
use crate::geomx::*;
use crate::runner::{Obs, Verdict};
use crate::with_float;
use crate::world::*;
use geo::BoundingRect;
use proptest::prelude::*;
use quadtree::{
    AsGeom, AsPoint, BoundsQuadTree, CalcMethod, DistEuclidean, DistHaversine, Error, Geometry, GeometryRef,
    PointQuadTree, QtFloat, QuadTree, QuadTreeSearch, ToRadians,
};
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct WCase {
    pub base: FCase,
    /// Restrict stored data to this kind of geometry, so that the raw type can be stored.
    pub mono: Option<u8>,
}
pub fn wcase() -> BoxedStrategy<WCase> {
    (fcase(), proptest::option::weighted(0.6, 0u8..5)).prop_map(|(base, mono)| WCase { base, mono }).boxed()
}
/// Read back a geometry seen through the library.
fn seen<T: Num>(g: GeometryRef<'_, T>) -> G<T> {
    match g {
        GeometryRef::Point(d) => G::Pt(*d),
        GeometryRef::Line(d) => G::Ln(*d),
        GeometryRef::LineString(d) => G::Ls(d.clone()),
        GeometryRef::Polygon(d) => G::Pg(d.clone()),
        GeometryRef::Rect(d) => G::Rc(*d),
    }
}
/// Observations of one arrangement of wrappers. Order within equal distances is left out.
#[derive(PartialEq, Debug, Default)]
struct Log(Vec<String>);

fn text<T: Num>(g: &G<T>) -> String {
    format!("{g:?}")
}
fn group<T: Num, D: AsGeom<T>>(v: impl Iterator<Item = D>) -> String {
    let mut v: Vec<String> = v.map(|d| text(&seen(d.as_geom()))).collect();
    v.sort();
    v.join(";")
}
struct R<'a, D>(&'a D);
impl<T: Num, D: AsGeom<T>> AsGeom<T> for R<'_, D> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        self.0.as_geom()
    }
}
fn fmt_err(e: Error) -> String {
    format!("{e:?}")
}
fn search_log<'t, T: Num + QtFloat, D, Q, X>(t: &'t Q, x: &'t X, log: &mut Log)
where
    D: AsGeom<T> + 't,
    Q: QuadTreeSearch<D, T>,
    X: AsGeom<T>,
{
    budget(1000);
    log.0.push(match t.find(x) {
        Ok((_, d)) => format!("find {d:?}"),
        Err(e) => fmt_err(e),
    });
    for k in [1, 3] {
        log.0.push(match t.knn(x, k) {
            Ok(v) => format!("knn {:?}", v.iter().map(|h| h.1).collect::<Vec<_>>()),
            Err(e) => fmt_err(e),
        });
    }
    log.0.push(format!("sorted {:?}", t.sorted(x).take(20).map(|h| h.1).collect::<Vec<_>>()));
}
/// Store `data`, retrieve with `qs`.
fn bounds_log<T: Num + QtFloat, D: AsGeom<T>>(f: &Field, data: Vec<D>, qs: &[D]) -> (BoundsQuadTree<D, T>, Log) {
    let mut log = Log::default();
    let mut t = match f.cfg {
        Some((d, c)) => BoundsQuadTree::new(rect::<T>(f.bounds), f.method, d, c),
        None => BoundsQuadTree::from_bounds(rect::<T>(f.bounds), f.method),
    };
    for d in data {
        log.0.push(format!("insert {:?}", t.insert(d)));
    }
    log.0.push(format!("size {}", t.size()));
    log.0.push(format!("iterate {}", group::<T, _>(t.into_iter().map(R))));
    log.0.push(t.to_string());
    for q in qs {
        log.0.push(format!("retrieve {}", group::<T, _>(t.retrieve(q).map(R))));
    }
    (t, log)
}
fn point_log<T: Num + QtFloat, D: AsPoint<T> + AsGeom<T>>(f: &Field, data: Vec<D>, qs: &[D]) -> (PointQuadTree<D, T>, Log) {
    let mut log = Log::default();
    let mut t = match f.cfg {
        Some((d, c)) => PointQuadTree::new(rect::<T>(f.bounds), f.method, d, c),
        None => PointQuadTree::from_bounds(rect::<T>(f.bounds), f.method),
    };
    for d in data {
        log.0.push(format!("insert {:?}", t.insert(d)));
    }
    log.0.push(format!("size {}", t.size()));
    log.0.push(format!("iterate {}", group::<T, _>(t.into_iter().map(R))));
    log.0.push(t.to_string());
    for q in qs {
        log.0.push(format!("retrieve {}", group::<T, _>(t.retrieve(q).map(R))));
    }
    (t, log)
}
/// A user's own type.
struct Mine<T: geo::GeoNum> {
    g: G<T>,
    _tag: [u64; 5],
}
impl<T: Num> AsGeom<T> for Mine<T> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        self.g.gref()
    }
}
impl<T: Num> AsPoint<T> for Mine<T> {
    fn as_point(&self) -> geo::Point<T> {
        match &self.g {
            G::Pt(p) => *p,
            _ => panic!("harness: only points go in a point tree"),
        }
    }
}
fn diff(what: &str, a: &Log, b: &Log, f: &Field) -> Verdict {
    for (x, y) in a.0.iter().zip(&b.0) {
        ensure!(x == y, "{what}: {x} became {y} [{:?} {:?} {:?} data {:?}]", f.method, f.bounds, f.cfg, f.shapes);
    }
    ensure!(a.0.len() == b.0.len(), "{what}: different numbers of answers");
    Ok(())
}

/// A user's type with a place of its own, apart from its geometry.
struct Placed<T: geo::GeoNum> {
    at: geo::Point<T>,
    g: G<T>,
}
impl<T: Num> AsGeom<T> for Placed<T> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        self.g.gref()
    }
}
impl<T: Num> AsPoint<T> for Placed<T> {
    fn as_point(&self) -> geo::Point<T> {
        self.at
    }
}
/// Data of a point tree are placed by their point and measured by their geometry. Which of them are close enough to be
/// found is only said of undivided trees, the cells of others tell nothing about the geometries.
fn placed<T: Num + QtFloat>(f: &Field, gs: &[G<T>], qs: &[G<T>], o: &mut Obs) -> Verdict {
    let pt = |g: &G<T>| if let G::Pt(p) = g { *p } else { panic!("harness: not a point") };
    let n = gs.len();
    if n < 2 {
        return Ok(());
    }
    for flat in [false, true] {
        let (d, c) = if flat { (0, 1) } else { f.cfg.unwrap_or((4, 4)) };
        let mut t = PointQuadTree::new(rect::<T>(f.bounds), f.method, d, c);
        let mut u = PointQuadTree::new(rect::<T>(f.bounds), f.method, d, c);
        for (i, g) in gs.iter().enumerate() {
            let a = t.insert(pt(g)).is_ok();
            let b = u.insert(Placed { at: pt(g), g: gs[(i * 3 + 1) % n].clone() }).is_ok();
            ensure!(a == b, "{g:?} is taken in ({a}), as the place of a user type ({b}) [{:?}]", f.bounds);
        }
        ensure!(t.to_string() == u.to_string(), "points make the tree {t} and user types with these places {u}");
        let places = |v: Vec<&Placed<T>>| v.iter().map(|d| G::Pt(d.at)).collect::<Vec<_>>();
        let a = group::<T, _>(t.into_iter().map(R));
        let b = group::<T, _>(places(u.into_iter().collect()).iter().map(|g| R(g)).map(|r| Mine { g: r.0.clone(), _tag: [0; 5] }));
        ensure!(a == b, "points iterate as {a} and user types with these places as {b}");
        for (i, g) in gs.iter().enumerate().step_by(3) {
            let q = Placed { at: pt(g), g: gs[(i + 1) % n].clone() };
            let a = group::<T, _>(t.retrieve(&q.at).map(R));
            let b = group::<T, _>(places(u.retrieve(&q).collect()).iter().map(|g| Mine { g: g.clone(), _tag: [0; 5] }));
            ensure!(a == b, "retrieving at {:?} gives {a} for points and {b} for user types with these places", q.at);
        }
        for x in qs {
            let calc = x.gref().into_calc(f.method);
            let own = |d: &Placed<T>| calc.dist_geom(&d.as_geom()).map_or(f64::NAN, |d| d.f());
            let near = |a: f64, b: f64| (a - b).abs() <= 4.0 * f.tol(b);
            let all_near = |a: &[f64], b: &[f64]| a.iter().zip(b).all(|(a, b)| near(*a, *b));
            let mut all: Vec<f64> = u.into_iter().map(own).filter(|d| d.is_finite()).collect();
            all.sort_by(f64::total_cmp);
            budget(1000);
            if let Ok((d, r)) = u.find(&x.gref()) {
                ensure!(near(r.f(), own(d)), "find gives the distance {r:?} for a datum at {:?} from {x:?}", own(d));
                ensure!(!flat || near(r.f(), all[0]), "find gives the distance {r:?} from {x:?} in an undivided tree, the closest is at {:?}", all[0]);
            }
            for k in [1, 3, n + 1] {
                let Ok(v) = u.knn(&x.gref(), k) else { continue };
                for &(d, r) in &v {
                    ensure!(near(r.f(), own(d)), "knn gives the distance {r:?} for a datum at {:?} from {x:?}", own(d));
                }
                ensure!(v.len() == k.min(u.size()), "knn of {k} gives {} of {} data", v.len(), u.size());
                let ds: Vec<f64> = v.iter().map(|h| h.1.f()).collect();
                ensure!(!flat || all_near(&ds, &all), "knn gives {ds:?} from {x:?} in an undivided tree of {all:?}");
            }
            let mut seen = vec![];
            for (d, r) in u.sorted(&x.gref()).take(n + 1) {
                ensure!(near(r.f(), own(d)), "sorted gives the distance {r:?} for a datum at {:?} from {x:?}", own(d));
                seen.push(r.f());
            }
            if !seen.is_empty() {
                ensure!(!flat || all_near(&seen, &all), "sorted gives {seen:?} from {x:?} in an undivided tree of {all:?}");
                seen.sort_by(f64::total_cmp);
                ensure!(seen.len() == all.len() && all_near(&seen, &all), "sorted gives {seen:?} from {x:?}, the distances are {all:?}");
            }
            o.compared += 3;
        }
    }
    o.hit("placed apart from the geometry");
    Ok(())
}

pub fn c16(c: &WCase, o: &mut Obs) -> Verdict {
    with_float!(c.base.w.single, T => wrappers::<T>(c, o))?;
    o.nontrivial = c.base.data.len() >= 3;
    Ok(())
}
fn wrappers<T: Num + QtFloat>(c: &WCase, o: &mut Obs) -> Verdict {
    let kinds = [[0u8], [1], [2], [3], [4]];
    let mut f = match c.mono {
        Some(k) => super::search::decode_kinds(&c.base, if c.base.kind < 2 { PT } else { &kinds[k as usize] }, if c.base.sph { PT } else { ALL }),
        None => decode(&c.base),
    };
    f.shapes.truncate(60);
    let gs: Vec<G<T>> = f.shapes.iter().map(G::of).collect();
    let qs: Vec<G<T>> = f.cmps.iter().map(G::of).collect();
    // bounding boxes and conversions of every geometry
    for (s, g) in f.shapes.iter().chain(&f.cmps).zip(gs.iter().chain(&qs)) {
        convert(s, g)?;
        o.compared += 4;
        let one = vec![s.coords()[0]];
        for s in [Sh::Ls(one.clone()), Sh::Pg(vec![one]), Sh::Ls(vec![])] {
            convert::<T>(&s, &G::of(&s))?;
        }
    }
    // distances between wrappers
    for (i, a) in gs.iter().chain(&qs).enumerate().take(6) {
        for b in qs.iter().take(3) {
            distances(a, b, i, o)?;
        }
    }
    // data wrapped in different ways
    if c.base.kind < 2 {
        let pts = |v: &[G<T>]| -> Vec<geo::Point<T>> {
            v.iter().map(|g| if let G::Pt(p) = g { *p } else { panic!("harness: not a point") }).collect()
        };
        let pq: Vec<G<T>> = qs.iter().filter(|g| matches!(g, G::Pt(_))).cloned().collect();
        let mine = |v: &[G<T>]| v.iter().map(|g| Mine { g: g.clone(), _tag: [1; 5] }).collect::<Vec<_>>();
        let (rp, mp) = (pts(&pq), mine(&pq));
        let (t, mut a) = point_log(&f, pts(&gs), &rp);
        let (u, mut b) = point_log(&f, mine(&gs), &mp);
        for q in &qs {
            search_log::<T, _, _, _>(&t, &owned(q), &mut a);
            search_log::<T, _, _, _>(&u, &q.gref(), &mut b);
        }
        diff("a user type in a point tree", &a, &b, &f)?;
        placed(&f, &gs, &qs, o)?;
        // bare coordinates cannot be searched for, but stored and retrieved
        let mut u = match f.cfg {
            Some((d, c)) => PointQuadTree::new(rect::<T>(f.bounds), f.method, d, c),
            None => PointQuadTree::from_bounds(rect::<T>(f.bounds), f.method),
        };
        let show = |v: Vec<geo::Coord<T>>| group::<T, _>(v.into_iter().map(geo::Point::from));
        let mut b = Log::default();
        for p in pts(&gs) {
            b.0.push(format!("insert {:?}", u.insert(p.0)));
        }
        b.0.push(format!("size {}", u.size()));
        b.0.push(format!("iterate {}", show(u.into_iter().copied().collect())));
        b.0.push(u.to_string());
        for q in &rp {
            b.0.push(format!("retrieve {}", show(u.retrieve(&q.0).copied().collect())));
        }
        a.0.truncate(b.0.len());
        diff("bare coordinates in a point tree", &a, &b, &f)?;
        o.hit("point tree");
        o.compared += a.0.len() as u64;
    }
    let own: Vec<Geometry<T>> = gs.iter().map(owned).collect();
    let oq: Vec<Geometry<T>> = qs.iter().map(owned).collect();
    let (t, mut base) = bounds_log(&f, own.clone(), &oq);
    let cut = base.0.len();
    for q in &oq {
        search_log::<T, _, _, _>(&t, q, &mut base);
    }
    let rq: Vec<GeometryRef<T>> = qs.iter().map(|g| g.gref()).collect();
    let (u, mut log) = bounds_log(&f, gs.iter().map(|g| g.gref()).collect(), &rq);
    for q in &rq {
        search_log::<T, _, _, _>(&u, q, &mut log);
    }
    diff("borrowed wrappers", &base, &log, &f)?;
    let mine = |v: &[G<T>]| v.iter().map(|g| Mine { g: g.clone(), _tag: [2; 5] }).collect::<Vec<_>>();
    let mq = mine(&qs);
    let (u, mut log) = bounds_log(&f, mine(&gs), &mq);
    for q in &mq {
        search_log::<T, _, _, _>(&u, q, &mut log);
    }
    diff("a user type", &base, &log, &f)?;
    o.compared += 2 * base.0.len() as u64;
    // raw comparators
    let mut raw = Log(base.0[..cut].iter().map(|s| s.to_string()).collect());
    for q in &qs {
        match q {
            G::Pt(d) => search_log::<T, _, _, _>(&t, d, &mut raw),
            G::Ln(d) => search_log::<T, _, _, _>(&t, d, &mut raw),
            G::Ls(d) => search_log::<T, _, _, _>(&t, d, &mut raw),
            G::Pg(d) => search_log::<T, _, _, _>(&t, d, &mut raw),
            G::Rc(d) => search_log::<T, _, _, _>(&t, d, &mut raw),
        }
    }
    diff("raw comparators", &base, &raw, &f)?;
    // raw data, when all of one kind
    if let (Some(k), false) = (gs.first().map(|g| std::mem::discriminant(g)), gs.is_empty()) {
        if gs.iter().all(|g| std::mem::discriminant(g) == k) {
            macro_rules! raw {
                ($v:ident) => {{
                    let d: Vec<_> = gs.iter().map(|g| if let G::$v(d) = g { d.clone() } else { unreachable!() }).collect();
                    let (u, log) = bounds_log(&f, d, &[]);
                    let mut a = Log(base.0[..gs.len() + 3].iter().map(|s| s.to_string()).collect());
                    let mut b = log;
                    for q in &oq {
                        search_log::<T, _, _, _>(&t, q, &mut a);
                        search_log::<T, _, _, _>(&u, q, &mut b);
                    }
                    for (q, o) in qs.iter().zip(&oq) {
                        if let G::$v(d) = q {
                            a.0.push(group::<T, _>(t.retrieve(o).map(R)));
                            b.0.push(group::<T, _>(u.retrieve(d).map(R)));
                        }
                    }
                    diff("raw data", &a, &b, &f)?;
                    o.compared += a.0.len() as u64;
                }};
            }
            match &gs[0] {
                G::Pt(_) => raw!(Pt),
                G::Ln(_) => raw!(Ln),
                G::Ls(_) => raw!(Ls),
                G::Pg(_) => raw!(Pg),
                G::Rc(_) => raw!(Rc),
            }
            o.hit("raw data of one kind");
        }
    }
    o.hit_if(f.cmps.iter().any(|c| f.place(c, f.bounds) == Where::In), "comparator inside");
    Ok(())
}
fn distances<T: Num + QtFloat>(a: &G<T>, b: &G<T>, i: usize, o: &mut Obs) -> Verdict {
    let (ra, rb, oa, ob) = (a.gref(), b.gref(), owned(a), owned(b));
    macro_rules! raw {
        ($m:ident, $r:expr) => {
            match a {
                G::Pt(d) => d.$m($r),
                G::Ln(d) => d.$m($r),
                G::Ls(d) => d.$m($r),
                G::Pg(d) => d.$m($r),
                G::Rc(d) => d.$m($r),
            }
        };
    }
    let base: T = ra.dist_euclidean(&rb);
    // the order of the operands may round differently; the wrapping alone may not
    let tol = base.f().abs() * 1e-4 + 1e-9 * (1.0 + base.f().abs());
    let all: [T; 6] = [
        ra.dist_euclidean(&ob), oa.dist_euclidean(&rb), oa.dist_euclidean(&ob),
        raw!(dist_euclidean, &rb), raw!(dist_euclidean, &ob),
        oa.with_calc(CalcMethod::Euclidean).dist_geom(&ob.as_geom()).map_err(fmt_err)?,
    ];
    for (n, d) in all.iter().enumerate() {
        ensure!(
            *d == base || (d.f() - base.f()).abs() <= tol || (d.is_nan() && base.is_nan()),
            "planar distance of {:?} and {:?} is {:?}, wrapped another way (route {n}) {:?}", a, b, base, d
        );
    }
    let base: Result<T, Error> = ra.dist_haversine(&rb);
    let all: [Result<T, Error>; 6] = [
        ra.dist_haversine(&ob), oa.dist_haversine(&rb), oa.dist_haversine(&ob),
        raw!(dist_haversine, &rb), raw!(dist_haversine, &ob),
        oa.with_calc(CalcMethod::Spherical).dist_geom(&ob.as_geom()),
    ];
    for (n, d) in all.iter().enumerate() {
        let ok = match (d, base) {
            (Ok(x), Ok(y)) => *x == y || (x.f() - y.f()).abs() <= 1e-3 * y.f().abs().max(1e-3) || (x.is_nan() && y.is_nan()),
            (Err(x), Err(y)) => *x == y,
            _ => false,
        };
        ensure!(ok, "spherical distance of {:?} and {:?} is {:?}, wrapped another way (route {n}) {:?}", a, b, base, d);
    }
    o.compared += 12;
    let _ = i;
    Ok(())
}
fn convert<T: Num>(s: &Sh, g: &G<T>) -> Verdict {
    use geo::Geometry as GG;
    let own: Geometry<T> = match g.clone() {
        G::Pt(d) => d.into(),
        G::Ln(d) => d.into(),
        G::Ls(d) => d.into(),
        G::Pg(d) => d.into(),
        G::Rc(d) => d.into(),
    };
    ensure!(seen(own.as_geom()) == *g, "converting {:?} gave {:?}", g, own);
    ensure!(seen(g.gref().as_geom()) == *g, "the borrowed wrapper of {:?} shows {:?}", g, g.gref());
    let raw = match g {
        G::Pt(d) => seen(d.as_geom()),
        G::Ln(d) => seen(d.as_geom()),
        G::Ls(d) => seen(d.as_geom()),
        G::Pg(d) => seen(d.as_geom()),
        G::Rc(d) => seen(d.as_geom()),
    };
    ensure!(raw == *g, "{:?} exposes {:?}", g, raw);
    let any: GG<T> = match g.clone() {
        G::Pt(d) => GG::Point(d),
        G::Ln(d) => GG::Line(d),
        G::Ls(d) => GG::LineString(d),
        G::Pg(d) => GG::Polygon(d),
        G::Rc(d) => GG::Rect(d),
    };
    match Geometry::<T>::try_from(any) {
        Ok(c) => ensure!(seen(c.as_geom()) == *g, "converting general {:?} gave {:?}", g, c),
        Err(e) => return Err(format!("converting general {:?} failed with {e:?}", g)),
    }
    let other: GG<T> = match g.clone() {
        G::Pt(d) => GG::MultiPoint(geo::MultiPoint(vec![d])),
        G::Ln(d) => GG::Triangle(geo::Triangle(d.start, d.end, d.end)),
        G::Ls(d) => GG::MultiLineString(geo::MultiLineString(vec![d])),
        G::Pg(d) => GG::MultiPolygon(geo::MultiPolygon(vec![d])),
        G::Rc(d) => GG::GeometryCollection(geo::GeometryCollection(vec![GG::Rect(d)])),
    };
    let two = match g.clone() {
        G::Pt(d) => GG::MultiPoint(geo::MultiPoint(vec![d, d])),
        G::Ln(d) => GG::Triangle(geo::Triangle(d.start, d.start, d.start)),
        G::Ls(d) => GG::MultiLineString(geo::MultiLineString(vec![d.clone(), d])),
        G::Pg(d) => GG::MultiPolygon(geo::MultiPolygon(vec![d.clone(), d])),
        G::Rc(d) => GG::GeometryCollection(geo::GeometryCollection(vec![GG::Rect(d), GG::Point(d.min().into())])),
    };
    let none: GG<T> = match g {
        G::Pt(_) => GG::MultiPoint(geo::MultiPoint(vec![])),
        G::Ls(_) => GG::MultiLineString(geo::MultiLineString(vec![])),
        G::Pg(_) => GG::MultiPolygon(geo::MultiPolygon(vec![])),
        _ => GG::GeometryCollection(geo::GeometryCollection(vec![])),
    };
    let nested = GG::GeometryCollection(geo::GeometryCollection(vec![other.clone()]));
    for other in [other, two, none, nested] {
        let r = Geometry::<T>::try_from(other);
        ensure!(
            matches!(r, Err(Error::UnsupportedGeometry)),
            "converting a general geometry made from {:?} gave {:?}", g, r
        );
    }
    let want = s.bbox().map(|b| rect::<T>(b));
    ensure!(own.bounding_rect() == want, "bounding box of {:?} is {:?}, should be {:?}", g, own.bounding_rect(), want);
    ensure!(g.gref().bounding_rect() == want, "bounding box of borrowed {:?} is {:?}", g, g.gref().bounding_rect());
    Ok(())
}

// ------------------------------------------------------------------ C17

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RCase {
    pub single: bool,
    pub kind: u8,
    pub v: Vec<(f64, f64)>,
    pub cut: Vec<u8>,
}
pub fn rcase() -> BoxedStrategy<RCase> {
    let n = prop_oneof![
        4 => -360.0f64..360.0,
        2 => (-24i32..=24).prop_map(|i| i as f64 * 15.0),
        1 => (-300i32..300, -1.0f64..1.0).prop_map(|(e, m)| m * 10f64.powi(e)),
        1 => Just(0.0),
    ];
    (
        proptest::bool::weighted(0.4),
        0u8..5,
        prop_oneof![
            12 => proptest::collection::vec((n.clone(), n.clone()), 2..24),
            1 => proptest::collection::vec((n.clone(), n), 24..400),
        ],
        prop_oneof![4 => proptest::collection::vec(any::<u8>(), 0..3), 1 => proptest::collection::vec(any::<u8>(), 3..12)],
    )
        .prop_map(|(single, kind, v, cut)| RCase { single, kind, v, cut })
        .boxed()
}
pub fn c17(c: &RCase, o: &mut Obs) -> Verdict {
    with_float!(c.single, T => radians::<T>(c, o))
}
fn radians<T: Num + QtFloat>(c: &RCase, o: &mut Obs) -> Verdict {
    let v: Vec<P> = c
        .v
        .iter()
        .map(|p| {
            let r = |v: f64| if c.single { v.clamp(-1e37, 1e37) as f32 as f64 } else { v };
            (r(p.0), r(p.1))
        })
        .collect();
    let sh = match c.kind {
        0 => Sh::Pt(v[0]),
        1 => Sh::Ln(v[0], v[1]),
        2 => Sh::Ls(v.clone()),
        3 => {
            let mut rings = vec![v.clone()];
            for k in &c.cut {
                let last = rings.last_mut().unwrap();
                let at = *k as usize % last.len();
                let rest = last.split_off(at);
                rings.push(rest);
            }
            if rings[0].is_empty() {
                rings[0] = v.clone();
            }
            Sh::Pg(rings)
        }
        _ => Sh::Rc((v[0].0.min(v[1].0), v[0].1.min(v[1].1)), (v[0].0.max(v[1].0), v[0].1.max(v[1].1))),
    };
    let g = G::<T>::of(&sh);
    let keep = g.clone();
    let conv = match &g {
        G::Pt(d) => G::Pt(d.to_radians()),
        G::Ln(d) => G::Ln(d.to_radians()),
        G::Ls(d) => G::Ls(ToRadians::to_radians(d)),
        G::Pg(d) => G::Pg(ToRadians::to_radians(d)),
        G::Rc(d) => G::Rc(ToRadians::to_radians(d)),
    };
    ensure!(g == keep, "converting changed the original {:?}", keep);
    let mut place = g.clone();
    match &mut place {
        G::Pt(d) => d.to_radians_in_place(),
        G::Ln(d) => d.to_radians_in_place(),
        G::Ls(d) => ToRadians::to_radians_in_place(d),
        G::Pg(d) => ToRadians::to_radians_in_place(d),
        G::Rc(d) => ToRadians::to_radians_in_place(d),
    }
    ensure!(place == conv, "in place {:?} became {:?}, converted {:?}", g, place, conv);
    let own = owned(&g);
    ensure!(seen(own.to_radians().as_geom()) == conv, "the wrapper of {:?} converts to {:?}, itself to {:?}", g, own.to_radians(), conv);
    ensure!(seen(own.as_geom()) == keep, "converting changed the wrapped original {:?}", keep);
    let mut own = own;
    own.to_radians_in_place();
    ensure!(seen(own.as_geom()) == conv, "the wrapper of {:?} in place converts to {:?}", g, own);
    // every coordinate, in order
    let rings = |g: &G<T>| -> Vec<Vec<(T, T)>> {
        let line = |l: &geo::LineString<T>| l.0.iter().map(|c| (c.x, c.y)).collect::<Vec<_>>();
        match g {
            G::Pt(d) => vec![vec![d.x_y()]],
            G::Ln(d) => vec![vec![d.start.x_y(), d.end.x_y()]],
            G::Ls(d) => vec![line(d)],
            G::Pg(d) => std::iter::once(line(d.exterior())).chain(d.interiors().iter().map(line)).collect(),
            G::Rc(d) => vec![vec![d.min().x_y(), d.max().x_y()]],
        }
    };
    let (a, b) = (rings(&g), rings(&conv));
    ensure!(
        std::mem::discriminant(&g) == std::mem::discriminant(&conv) && a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.len() == y.len()),
        "{:?} became {:?}", g, conv
    );
    let eps = if c.single { f32::EPSILON as f64 } else { f64::EPSILON };
    let tiny = if c.single { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
    for (x, y) in a.iter().flatten().zip(b.iter().flatten()) {
        for (d, r) in [(x.0, y.0), (x.1, y.1)] {
            let want = d.f() * (std::f64::consts::PI / 180.0);
            ensure!((r.f() - want).abs() <= 4.0 * eps * want.abs() + tiny, "{:e} degrees became {:e}, is {:e} radians", d, r, want);
            o.compared += 1;
        }
    }
    o.hit(["point", "segment", "line string", "polygon", "rectangle"][c.kind as usize]);
    o.hit_if(b.len() > 1, "polygon with holes");
    o.hit(T::NAME);
    o.nontrivial = a.iter().flatten().any(|p| p.0.f() != 0.0 && p.1.f() != 0.0);
    Ok(())
}
