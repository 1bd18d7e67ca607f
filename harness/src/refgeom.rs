//! Reference distances, written independently of the library and of the geo crate.
use crate::geomx::{P, Sh};
use std::f64::consts::PI;

// ---------------------------------------------------------------- planar

fn sub(a: P, b: P) -> P {
    (a.0 - b.0, a.1 - b.1)
}
fn cross(a: P, b: P) -> f64 {
    a.0 * b.1 - a.1 * b.0
}
fn dot(a: P, b: P) -> f64 {
    a.0 * b.0 + a.1 * b.1
}
pub fn pp(a: P, b: P) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}
/// Nearest point of segment ab to p (planar).
pub fn nearest_on(p: P, a: P, b: P) -> P {
    let d = sub(b, a);
    let l2 = dot(d, d);
    if l2 == 0.0 {
        return a;
    }
    let t = (dot(sub(p, a), d) / l2).clamp(0.0, 1.0);
    (a.0 + t * d.0, a.1 + t * d.1)
}
pub fn pt_seg(p: P, a: P, b: P) -> f64 {
    // Exact zero when p is on the segment in exact arithmetic
    let d = sub(b, a);
    let l2 = dot(d, d);
    if l2 == 0.0 {
        return pp(p, a);
    }
    let t = dot(sub(p, a), d) / l2;
    if t <= 0.0 {
        pp(p, a)
    } else if t >= 1.0 {
        pp(p, b)
    } else {
        (cross(d, sub(p, a)) / l2).abs() * d.0.hypot(d.1)
    }
}
fn seg_seg(a: P, b: P, c: P, d: P) -> f64 {
    let o1 = cross(sub(b, a), sub(c, a));
    let o2 = cross(sub(b, a), sub(d, a));
    let o3 = cross(sub(d, c), sub(a, c));
    let o4 = cross(sub(d, c), sub(b, c));
    if ((o1 > 0.0 && o2 < 0.0) || (o1 < 0.0 && o2 > 0.0))
        && ((o3 > 0.0 && o4 < 0.0) || (o3 < 0.0 && o4 > 0.0))
    {
        return 0.0;
    }
    pt_seg(a, c, d).min(pt_seg(b, c, d)).min(pt_seg(c, a, b)).min(pt_seg(d, a, b))
}
fn ring_segs(v: &[P], out: &mut Vec<(P, P)>) {
    for i in 0..v.len() {
        out.push((v[i], v[(i + 1) % v.len()]));
    }
}
pub fn segs(s: &Sh) -> Vec<(P, P)> {
    let mut o = vec![];
    match s {
        Sh::Pt(p) => o.push((*p, *p)),
        Sh::Ln(a, b) => o.push((*a, *b)),
        Sh::Ls(v) => {
            for w in v.windows(2) {
                o.push((w[0], w[1]))
            }
        }
        Sh::Pg(r) => r.iter().for_each(|v| ring_segs(v, &mut o)),
        Sh::Rc(a, b) => ring_segs(&[*a, (b.0, a.1), *b, (a.0, b.1)], &mut o),
    }
    o
}
/// Even-odd containment in a filled shape with holes (boundary undecided: segments settle it).
fn covers(s: &Sh, p: P) -> bool {
    match s {
        Sh::Rc(a, b) => p.0 >= a.0 && p.0 <= b.0 && p.1 >= a.1 && p.1 <= b.1,
        Sh::Pg(_) => {
            let mut odd = false;
            for (a, b) in segs(s) {
                if (a.1 > p.1) != (b.1 > p.1) {
                    let x = a.0 + (p.1 - a.1) / (b.1 - a.1) * (b.0 - a.0);
                    if p.0 < x {
                        odd = !odd;
                    }
                }
            }
            odd
        }
        _ => false,
    }
}
/// Minimum planar distance between two valid geometries.
pub fn planar(a: &Sh, b: &Sh) -> f64 {
    let (sa, sb) = (segs(a), segs(b));
    if sb.iter().any(|s| covers(a, s.0)) || sa.iter().any(|s| covers(b, s.0)) {
        return 0.0;
    }
    let mut m = f64::INFINITY;
    for x in &sa {
        for y in &sb {
            m = m.min(seg_seg(x.0, x.1, y.0, y.1));
            if m == 0.0 {
                return 0.0;
            }
        }
    }
    m
}

// ---------------------------------------------------------------- spherical

/// Unit vector of a longitude/latitude in radians.
pub fn vec3(p: P) -> [f64; 3] {
    let (sl, cl) = p.0.sin_cos();
    let (sp, cp) = p.1.sin_cos();
    [cp * cl, cp * sl, sp]
}
/// Central angle by the vector formula.
pub fn angle(a: P, b: P) -> f64 {
    let (u, v) = (vec3(a), vec3(b));
    let c = [
        u[1] * v[2] - u[2] * v[1],
        u[2] * v[0] - u[0] * v[2],
        u[0] * v[1] - u[1] * v[0],
    ];
    let d = u[0] * v[0] + u[1] * v[1] + u[2] * v[2];
    let n = (c[0] * c[0] + c[1] * c[1] + c[2] * c[2]).sqrt();
    if n < 1e-7 && d > 0.0 {
        // nearly coincident: the chord is more accurate than the cross product
        let e = [u[0] - v[0], u[1] - v[1], u[2] - v[2]];
        return 2.0 * ((e[0] * e[0] + e[1] * e[1] + e[2] * e[2]).sqrt() / 2.0).asin();
    }
    n.atan2(d)
}
/// Is longitude `l` within [a, b], allowing for whole turns?
fn lng_in(l: f64, a: f64, b: f64) -> bool {
    [-2.0 * PI, 0.0, 2.0 * PI].iter().any(|s| l + s >= a && l + s <= b)
}
/// Least great-circle distance from p to the part of the meridian `lng` with lat in [y0, y1].
fn pt_meridian(p: P, lng: f64, y0: f64, y1: f64) -> f64 {
    let mut m = angle(p, (lng, y0)).min(angle(p, (lng, y1)));
    // great circle of the meridian: the nearest latitude
    let phi = (p.1.sin()).atan2(p.1.cos() * (p.0 - lng).cos());
    if phi > y0 && phi < y1 {
        m = m.min(angle(p, (lng, phi)));
    }
    m
}
pub fn sph_pt_rect(p: P, a: P, b: P) -> f64 {
    if p.0 >= a.0 && p.0 <= b.0 && p.1 >= a.1 && p.1 <= b.1 {
        return 0.0;
    }
    let mut m = pt_meridian(p, a.0, a.1, b.1).min(pt_meridian(p, b.0, a.1, b.1));
    if lng_in(p.0, a.0, b.0) {
        m = m.min((a.1 - p.1).max(p.1 - b.1).max(0.0));
    }
    m
}
/// True least great-circle distance between two longitude/latitude boxes.
pub fn sph_rect_rect_min(r: (P, P), s: (P, P)) -> f64 {
    let over_y = r.1.1 >= s.0.1 && s.1.1 >= r.0.1;
    let over_x = [-2.0 * PI, 0.0, 2.0 * PI]
        .iter()
        .any(|t| r.1.0 + t >= s.0.0 && s.1.0 >= r.0.0 + t);
    if over_x && over_y {
        return 0.0;
    }
    let mut m = f64::INFINITY;
    if over_x {
        m = (s.0.1 - r.1.1).max(r.0.1 - s.1.1);
    }
    for (q, t) in [(r, s), (s, r)] {
        for c in [q.0, q.1, (q.0.0, q.1.1), (q.1.0, q.0.1)] {
            m = m.min(sph_pt_rect(c, t.0, t.1));
        }
    }
    m
}
/// Rectangle to rectangle as the library documents it.
pub fn sph_rect_rect_doc(r: (P, P), s: (P, P)) -> f64 {
    let over_y = r.1.1 >= s.0.1 && s.1.1 >= r.0.1;
    let over_x = r.1.0 >= s.0.0 && s.1.0 >= r.0.0;
    if over_x && over_y {
        return 0.0;
    }
    let ygap = (s.0.1 - r.1.1).max(r.0.1 - s.1.1);
    if over_x {
        return ygap;
    }
    let wrap = |d: f64| {
        let d = d.abs() % (2.0 * PI);
        d.min(2.0 * PI - d)
    };
    let (da, di) = (wrap(r.1.0 - s.0.0), wrap(r.0.0 - s.1.0));
    let d = da.min(di);
    if over_y {
        let lo = r.0.1.max(s.0.1);
        let hi = r.1.1.min(s.1.1);
        let lat = if lo.abs() > hi.abs() { lo } else { hi };
        angle((0.0, lat), (d, lat))
    } else if r.1.1 < s.0.1 {
        angle((0.0, r.1.1), (d, s.0.1))
    } else {
        angle((0.0, r.0.1), (d, s.1.1))
    }
}
/// For each representation of p: its planar distance to the segment and the great-circle
/// distance to the point nearest it there.
fn turns(p: P, a: P, b: P) -> Vec<(f64, f64)> {
    let f = |s: f64| {
        let q = (p.0 + s, p.1);
        let n = nearest_on(q, a, b);
        (pp(q, n), angle(p, n))
    };
    vec![f(-2.0 * PI), f(0.0), f(2.0 * PI)]
}
pub fn sph_pt_seg(p: P, a: P, b: P) -> f64 {
    turns(p, a, b).into_iter().min_by(|x, y| x.0.total_cmp(&y.0)).unwrap().1
}
/// Is the nearest point of some segment equally near both ways round the globe, at different
/// great-circle distances?
pub fn ambiguous(a: &Sh, b: &Sh) -> bool {
    match (a, b) {
        (Sh::Pt(p), o) | (o, Sh::Pt(p)) if (1..=3).contains(&o.kind()) => segs(o).iter().any(|(a, b)| {
            let t = turns(*p, *a, *b);
            let m = t.iter().fold(f64::INFINITY, |m, x| m.min(x.0));
            let near: Vec<f64> = t.iter().filter(|x| x.0 <= m + 1e-4).map(|x| x.1).collect();
            near.iter().any(|x| (x - near[0]).abs() > 1e-13)
        }),
        _ => false,
    }
}
/// Spherical distance by the stated definition; None where the method does not define one.
pub fn spherical(a: &Sh, b: &Sh) -> Option<f64> {
    Some(match (a, b) {
        (Sh::Pt(p), Sh::Pt(q)) => angle(*p, *q),
        (Sh::Rc(p, q), Sh::Rc(r, s)) => sph_rect_rect_doc((*p, *q), (*r, *s)),
        (Sh::Pt(p), o) | (o, Sh::Pt(p)) => match o {
            Sh::Rc(q, r) => sph_pt_rect(*p, *q, *r),
            Sh::Ln(..) | Sh::Ls(_) | Sh::Pg(_) => {
                if covers(o, *p) {
                    0.0
                } else {
                    let zero = segs(o).iter().any(|(a, b)| pt_seg(*p, *a, *b) == 0.0);
                    if zero {
                        0.0
                    } else {
                        segs(o)
                            .iter()
                            .map(|(a, b)| sph_pt_seg(*p, *a, *b))
                            .fold(f64::INFINITY, f64::min)
                    }
                }
            }
            Sh::Pt(_) => unreachable!(),
        },
        _ => return None,
    })
}
/// Distance from a comparator to a box as the searches need it: the true minimum.
pub fn sph_bbox(c: &Sh, b: (f64, f64, f64, f64)) -> Option<f64> {
    match c {
        Sh::Pt(p) => Some(sph_pt_rect(*p, (b.0, b.1), (b.2, b.3))),
        Sh::Rc(p, q) => Some(sph_rect_rect_min((*p, *q), ((b.0, b.1), (b.2, b.3)))),
        _ => None,
    }
}

/// Tolerance for a planar distance in geometry of the given scale.
pub fn tol_planar(scale: f64, single: bool) -> f64 {
    if single { 2e-5 * scale + 1e-30 } else { 1e-10 * scale + 1e-300 }
}
/// Tolerance for a great-circle distance of size d: haversine loses accuracy near antipodes.
pub fn tol_sph(d: f64, single: bool) -> f64 {
    let eps = if single { f32::EPSILON as f64 } else { f64::EPSILON };
    let s = if d < PI / 2.0 { 1.0 } else { d.min(PI).sin().abs().max(eps.sqrt()) };
    64.0 * eps * (1.0 + 1.0 / s)
}
