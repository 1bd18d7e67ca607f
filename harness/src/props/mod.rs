//! The registered properties.
use crate::runner::{P, Prop};

pub mod distance;
pub mod live;
pub mod robust;
pub mod search;
pub mod structure;
pub mod wrap;

pub fn all() -> Vec<Box<dyn Prop>> {
    use distance as d;
    use search as f;
    use structure as s;
    vec![
        Box::new(P {
            id: "C01",
            rule: "random histories of up to 600 insert/retrieve/search/iterate/render calls on either tree over seven numeric types; non-trivial when the tree divided, holds >= 3 data and was queried",
            assumptions: vec!["a datum's geometry does not change while it is stored"],
            cases: (16_000, 640_000),
            strategy: s::hcase,
            check: s::c01,
        }),
        Box::new(P {
            id: "C02",
            rule: "data placed inside, on, one representable step outside or far outside each edge of the bounds, empty geometries and non-finite points, against a populated tree; non-trivial when the case has both accepted and rejected data",
            assumptions: vec!["bounds whose width or height overflows the numeric type are not generated"],
            cases: (400_000, 16_000_000),
            strategy: s::acase,
            check: s::c02,
        }),
        Box::new(P {
            id: "C03",
            rule: "random point sets and query positions compared with the cells computed from the definition; non-trivial when some exactly compared answer is a non-empty proper subset of the data",
            assumptions: vec!["positions within rounding of a dividing line are judged by relations only"],
            cases: (1_200_000, 48_000_000),
            strategy: s::scase_point,
            check: s::c03,
        }),
        Box::new(P {
            id: "C04",
            rule: "random geometry sets and query boxes in a bounds tree compared with the cells computed from the definition and with direct box overlap; non-trivial when some exactly compared answer is a non-empty proper subset of the data",
            assumptions: vec!["boxes within rounding of a dividing line are judged by relations only"],
            cases: (1_000_000, 40_000_000),
            strategy: s::scase_bounds,
            check: s::c04,
        }),
        Box::new(P {
            id: "C05",
            rule: "random data sets inserted in two orders; the cells (depth, corner, held) compared with the definition; non-trivial when the tree divided and was compared exactly",
            assumptions: vec!["cells are read off the rendering and the iteration; those within rounding of a dividing line are skipped"],
            cases: (300_000, 12_000_000),
            strategy: s::scase,
            check: s::c05,
        }),
        Box::new(P {
            id: "C06",
            rule: "random data sets; the iteration sequence compared with the preorder of the cells computed from the definition; non-trivial when three or more cells hold data",
            assumptions: vec!["data within rounding of a dividing line are excluded from the exact order"],
            cases: (1_000_000, 40_000_000),
            strategy: s::scase,
            check: s::c06,
        }),
        Box::new(P {
            id: "C20",
            rule: "random data sets; every line of the rendering compared with the cells computed from the definition; non-trivial when the tree divided and was compared exactly",
            assumptions: vec!["data within rounding of a dividing line are excluded from the exact counts"],
            cases: (400_000, 16_000_000),
            strategy: s::scase,
            check: s::c20,
        }),
        Box::new(P {
            id: "C07",
            rule: "random data sets, comparators and radii (including exactly the closest distance), planar and spherical; find and find_r compared with brute force over reference distances; non-trivial when a comparator inside the bounds was answered from a divided tree of >= 3 data",
            assumptions: vec!["distances are judged to within the tolerance in DESIGN.md section 2"],
            cases: (600_000, 24_000_000),
            strategy: f::fcase,
            check: f::c07,
        }),
        Box::new(P {
            id: "C08",
            rule: "random data sets, comparators, k and radii, planar and spherical; knn and knn_r compared with brute force over reference distances; non-trivial when k >= 2 neighbours were asked of a divided tree of >= 3 data",
            assumptions: vec!["distances are judged to within the tolerance in DESIGN.md section 2"],
            cases: (500_000, 20_000_000),
            strategy: f::fcase,
            check: f::c08,
        }),
        Box::new(P {
            id: "C09",
            rule: "random data sets (including kinds the method cannot measure) and comparators; the whole sorted sequence compared with brute force over reference distances; non-trivial when a divided tree of >= 3 data was enumerated",
            assumptions: vec!["distances are judged to within the tolerance in DESIGN.md section 2"],
            cases: (350_000, 14_000_000),
            strategy: f::fcase,
            check: f::c09,
        }),
        Box::new(P {
            id: "C10",
            rule: "random data sets and comparators; find, knn and sorted compared with each other and across configurations, orders, bounds, tree kinds and symmetries; non-trivial when a divided tree of >= 3 data was compared",
            assumptions: vec!["distances are judged to within the tolerance in DESIGN.md section 2"],
            cases: (120_000, 4_800_000),
            strategy: f::fcase,
            check: f::c10,
        }),
        Box::new(P {
            id: "C11",
            rule: "random trees (also empty, without a method, or holding unmeasurable kinds) and comparators inside, touching, surrounding and outside the bounds; outcome of every search compared with the specified one; non-trivial when some outcome is an error or two kinds of outcome occur",
            assumptions: vec!["a comparator within rounding of the edge of the bounds may be inside or outside"],
            cases: (400_000, 16_000_000),
            strategy: f::ecase,
            check: f::c11,
        }),
        Box::new(P {
            id: "C19",
            rule: "integral data sets run over seven numeric types, and searches over f32 and f64, compared with each other; non-trivial when the data exceed the node capacity",
            assumptions: vec!["coordinates, midpoints and dividing lines are integers that every type represents"],
            cases: (220_000, 8_800_000),
            strategy: f::ncase,
            check: f::c19,
        }),
        Box::new(P {
            id: "C12",
            rule: "pairs of generated geometries of all kinds (independent, nested, touching, equal), by every public route and in both orders, compared with a reference minimum distance; non-trivial when neither is a point and they are apart",
            assumptions: vec!["shapes are valid (rings do not cross themselves, holes lie inside)", "differences up to 1e-10 (f64) or 2e-5 (f32) of the scale are rounding"],
            cases: (4_000_000, 160_000_000),
            strategy: d::dcase,
            check: d::c12,
        }),
        Box::new(P {
            id: "C13",
            rule: "triples of points biased to poles, antipodes, the antimeridian and near coincidence, compared with the vector formula for the central angle; non-trivial when two of them differ in both longitude and latitude",
            assumptions: vec!["differences up to 64 eps (1 + 1/sin d) are rounding"],
            cases: (5_000_000, 200_000_000),
            strategy: d::tcase,
            check: d::c13,
        }),
        Box::new(P {
            id: "C14",
            rule: "pairs of generated geometries in one or two regions of the sphere, by every public route and in both orders, compared with a reference built from vectors; non-trivial when a shape other than a point is at a positive distance",
            assumptions: vec!["shapes are valid; a point equally near to a segment both ways round the globe may be at either distance", "differences up to 64 eps (1 + 1/sin d) are rounding"],
            cases: (5_000_000, 200_000_000),
            strategy: d::dcase,
            check: d::c14,
        }),
        Box::new(P {
            id: "C15",
            rule: "generated comparator, geometry and two nested boxes around it; their distances compared with each other; non-trivial when the outer box is apart from the comparator and strictly nearer than the geometry",
            assumptions: vec!["shapes are valid; differences up to the tolerances of C12 and C14 are rounding"],
            cases: (5_000_000, 200_000_000),
            strategy: d::bcase,
            check: d::c15,
        }),
        Box::new(P {
            id: "C16",
            rule: "generated data sets and comparators run through every wrapper and conversion and compared; non-trivial when three or more data are stored",
            assumptions: vec!["a user type's as_geom always exposes the same geometry"],
            cases: (80_000, 3_200_000),
            strategy: wrap::wcase,
            check: wrap::c16,
        }),
        Box::new(P {
            id: "C17",
            rule: "generated geometries with arbitrary finite coordinates, converted every way and compared coordinate by coordinate; non-trivial when some coordinate pair is non-zero",
            assumptions: vec!["one rounding of the product by pi/180 is allowed"],
            cases: (5_000_000, 200_000_000),
            strategy: wrap::rcase,
            check: wrap::c17,
        }),
        Box::new(P {
            id: "C18",
            rule: "trees with depth up to 255, clusters, thousands of data, enormous bounds and extreme or non-finite coordinates, every operation on a 2 MB stack under a work budget in a child process; non-trivial when the tree divided and holds three or more data",
            assumptions: vec!["an operation that needs over 2 million + 20000 n looks at data, or 180 s, counts as running away"],
            cases: (48_000, 1_920_000),
            strategy: robust::xcase,
            check: robust::c18,
        }),
        Box::new(P {
            id: "C21",
            rule: "random trees with up to 60 live iterators (iteration, retrieval, sorted) opened, advanced, dropped and interleaved with searches, each compared with the same query run alone, and consumed through every iterator method; non-trivial when two iterators were part-way through a divided tree of >= 3 data",
            assumptions: vec!["data at equal distances may change places in sorted"],
            cases: (60_000, 2_400_000),
            strategy: live::lcase,
            check: live::c21,
        }),
        Box::new(P {
            id: "C22",
            rule: "1600 to 5041 data spread over the bounds in shuffled order, and queries anywhere; the number of distinct data each query looks at; non-trivial when the tree divided at least twice",
            assumptions: vec!["looks are counted by the data themselves; the thresholds leave more than a factor of 1.5 over the worst seen"],
            cases: (40_000, 1_600_000),
            strategy: live::pcase,
            check: live::c22,
        }),
    ]
}
