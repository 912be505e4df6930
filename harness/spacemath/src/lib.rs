//! Stand-in for the plane geometry crate that bugi's mesher depends on and that this sandbox lacks.
//! Written from the uses bugi makes of it, with signs decided exactly. Segments are closed sets.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Orient {
    Positive,
    Negative,
    Zero,
}

impl Orient {
    pub fn of(x: f64) -> Self {
        if x > 0.0 {
            Orient::Positive
        } else if x < 0.0 {
            Orient::Negative
        } else {
            Orient::Zero
        }
    }
    pub fn is_positive(self) -> bool {
        self == Orient::Positive
    }
    pub fn is_negative(self) -> bool {
        self == Orient::Negative
    }
    pub fn is_zero(self) -> bool {
        self == Orient::Zero
    }
    pub fn is_nonzero(self) -> bool {
        self != Orient::Zero
    }
    pub fn rev(self) -> Self {
        match self {
            Orient::Positive => Orient::Negative,
            Orient::Negative => Orient::Positive,
            Orient::Zero => Orient::Zero,
        }
    }
}

/// sign of the area of abc, without rounding
pub fn orient2(a: (f64, f64), b: (f64, f64), c: (f64, f64)) -> Orient {
    let l = (a.0 - c.0) * (b.1 - c.1);
    let r = (a.1 - c.1) * (b.0 - c.0);
    let det = l - r;
    if det.abs() > 1e-14 * (l.abs() + r.abs()) {
        return Orient::of(det);
    }
    // ax by - ay bx + bx cy - by cx + cx ay - cy ax as an exact sum
    let mut e: Vec<f64> = Vec::new();
    for (x, y, s) in [(a.0, b.1, 1.0), (a.1, b.0, -1.0), (b.0, c.1, 1.0), (b.1, c.0, -1.0), (c.0, a.1, 1.0), (c.1, a.0, -1.0)] {
        let p = x * y;
        let q = x.mul_add(y, -p);
        grow(&mut e, s * q);
        grow(&mut e, s * p);
    }
    Orient::of(e.iter().rev().cloned().find(|&x| x != 0.0).unwrap_or(0.0))
}

/// adds a number to a sum kept as non-overlapping parts, smallest first
fn grow(e: &mut Vec<f64>, b: f64) {
    let mut q = b;
    for x in e.iter_mut() {
        let s = q + *x;
        let v = s - q;
        let err = (q - (s - v)) + (*x - v);
        *x = err;
        q = s;
    }
    e.push(q);
}

pub mod two {
    use super::{orient2, Orient};
    use std::ops::{Add, AddAssign, Div, Mul, Neg, Sub, SubAssign};

    #[derive(Clone, Copy, Debug, PartialEq, Default)]
    pub struct Point {
        pub x: f64,
        pub y: f64,
    }

    #[derive(Clone, Copy, Debug, PartialEq, Default)]
    pub struct Vector {
        pub x: f64,
        pub y: f64,
    }

    impl Point {
        pub fn new(x: f64, y: f64) -> Self {
            Self { x, y }
        }
        pub fn mid(self, o: Point) -> Point {
            Point::new((self.x + o.x) / 2.0, (self.y + o.y) / 2.0)
        }
    }

    impl Vector {
        pub fn new(x: f64, y: f64) -> Self {
            Self { x, y }
        }
        pub fn norm(self) -> f64 {
            self.x.hypot(self.y)
        }
        pub fn to_unit(self) -> Vector {
            let n = self.norm();
            Vector::new(self.x / n, self.y / n)
        }
        pub fn dot(self, o: Vector) -> f64 {
            self.x * o.x + self.y * o.y
        }
        pub fn cross(self, o: Vector) -> f64 {
            self.x * o.y - self.y * o.x
        }
    }

    macro_rules! pairs {
        ($t:ident) => {
            impl From<(f64, f64)> for $t {
                fn from(p: (f64, f64)) -> Self {
                    Self { x: p.0, y: p.1 }
                }
            }
            impl From<$t> for (f64, f64) {
                fn from(p: $t) -> Self {
                    (p.x, p.y)
                }
            }
        };
    }
    pairs!(Point);
    pairs!(Vector);

    impl From<Point> for Vector {
        fn from(p: Point) -> Self {
            Vector::new(p.x, p.y)
        }
    }
    impl From<Vector> for Point {
        fn from(p: Vector) -> Self {
            Point::new(p.x, p.y)
        }
    }
    impl Sub for Point {
        type Output = Vector;
        fn sub(self, o: Point) -> Vector {
            Vector::new(self.x - o.x, self.y - o.y)
        }
    }
    impl Add<Vector> for Point {
        type Output = Point;
        fn add(self, o: Vector) -> Point {
            Point::new(self.x + o.x, self.y + o.y)
        }
    }
    impl Sub<Vector> for Point {
        type Output = Point;
        fn sub(self, o: Vector) -> Point {
            Point::new(self.x - o.x, self.y - o.y)
        }
    }
    impl AddAssign<Vector> for Point {
        fn add_assign(&mut self, o: Vector) {
            *self = *self + o;
        }
    }
    impl SubAssign<Vector> for Point {
        fn sub_assign(&mut self, o: Vector) {
            *self = *self - o;
        }
    }
    impl Add for Vector {
        type Output = Vector;
        fn add(self, o: Vector) -> Vector {
            Vector::new(self.x + o.x, self.y + o.y)
        }
    }
    impl Sub for Vector {
        type Output = Vector;
        fn sub(self, o: Vector) -> Vector {
            Vector::new(self.x - o.x, self.y - o.y)
        }
    }
    impl Mul<f64> for Vector {
        type Output = Vector;
        fn mul(self, s: f64) -> Vector {
            Vector::new(self.x * s, self.y * s)
        }
    }
    impl Mul<Vector> for f64 {
        type Output = Vector;
        fn mul(self, v: Vector) -> Vector {
            v * self
        }
    }
    impl Div<f64> for Vector {
        type Output = Vector;
        fn div(self, s: f64) -> Vector {
            Vector::new(self.x / s, self.y / s)
        }
    }
    impl Neg for Vector {
        type Output = Vector;
        fn neg(self) -> Vector {
            Vector::new(-self.x, -self.y)
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Segment {
        pub p: Point,
        pub q: Point,
    }
    impl Segment {
        pub fn new(p: Point, q: Point) -> Self {
            Self { p, q }
        }
        pub fn mid(self) -> Point {
            self.p.mid(self.q)
        }
        pub fn len(self) -> f64 {
            (self.q - self.p).norm()
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Circle {
        pub center: Point,
        pub r: f64,
    }
    impl Circle {
        pub fn new(center: Point, r: f64) -> Self {
            Self { center, r }
        }
        pub fn center(self) -> Point {
            self.center
        }
        pub fn radius(self) -> f64 {
            self.r
        }
        pub fn contains(self, p: Point) -> bool {
            (p - self.center).norm() <= self.r
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Triangle {
        pub a: Point,
        pub b: Point,
        pub c: Point,
    }
    impl Triangle {
        pub fn new(a: Point, b: Point, c: Point) -> Self {
            Self { a, b, c }
        }
        /// positive when counter-clockwise
        pub fn dir(self) -> Orient {
            orient2(self.a.into(), self.b.into(), self.c.into())
        }
        pub fn area(self) -> f64 {
            (self.b - self.a).cross(self.c - self.a) / 2.0
        }
        pub fn circumradius(self) -> f64 {
            let (x, y, z) = ((self.b - self.a).norm(), (self.c - self.b).norm(), (self.a - self.c).norm());
            x * y * z / (4.0 * self.area().abs())
        }
    }
    impl From<(Point, Point, Point)> for Triangle {
        fn from(t: (Point, Point, Point)) -> Self {
            Self::new(t.0, t.1, t.2)
        }
    }

    pub mod dist {
        use super::{Point, Segment};
        pub trait Dist<T = Self> {
            fn dist(self, other: T) -> f64;
        }
        impl Dist<Point> for Point {
            fn dist(self, o: Point) -> f64 {
                (self - o).norm()
            }
        }
        impl Dist<Point> for Segment {
            fn dist(self, o: Point) -> f64 {
                let d = self.q - self.p;
                let l = d.dot(d);
                let t = if l > 0.0 { ((o - self.p).dot(d) / l).max(0.0).min(1.0) } else { 0.0 };
                (o - (self.p + d * t)).norm()
            }
        }
        impl Dist<Segment> for Point {
            fn dist(self, o: Segment) -> f64 {
                o.dist(self)
            }
        }
    }

    pub mod intersect {
        use super::{orient2, Orient, Segment};

        /// what two closed sets have in common
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum Intersection {
            Zero,
            Touch,
            Cross,
        }
        impl Intersection {
            pub fn is_zero(self) -> bool {
                self == Intersection::Zero
            }
            pub fn is_nonzero(self) -> bool {
                self != Intersection::Zero
            }
        }

        pub trait Intersect<T = Self> {
            fn intersects(&self, other: &T) -> Intersection;
        }

        impl Intersect<Segment> for Segment {
            fn intersects(&self, o: &Segment) -> Intersection {
                let (a, b, p, q): ((f64, f64), (f64, f64), (f64, f64), (f64, f64)) = (self.p.into(), self.q.into(), o.p.into(), o.q.into());
                let (s, t) = (orient2(a, b, p), orient2(a, b, q));
                let (u, v) = (orient2(p, q, a), orient2(p, q, b));
                let on = |d: Orient, a: (f64, f64), b: (f64, f64), x: (f64, f64)| {
                    d == Orient::Zero && x.0 >= a.0.min(b.0) && x.0 <= a.0.max(b.0) && x.1 >= a.1.min(b.1) && x.1 <= a.1.max(b.1)
                };
                if s.is_nonzero() && t.is_nonzero() && u.is_nonzero() && v.is_nonzero() {
                    return if s != t && u != v { Intersection::Cross } else { Intersection::Zero };
                }
                if on(s, a, b, p) || on(t, a, b, q) || on(u, p, q, a) || on(v, p, q, b) {
                    Intersection::Touch
                } else {
                    Intersection::Zero
                }
            }
        }
    }
}
