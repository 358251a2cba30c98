//! Sidereal time by the documented expressions, in double-double arithmetic.

/// unevaluated sum of two doubles
#[derive(Copy, Clone, Debug)]
pub struct Dd(pub f64, pub f64);

fn two_sum(a: f64, b: f64) -> Dd {
    let s = a + b;
    let bb = s - a;
    Dd(s, (a - (s - bb)) + (b - bb))
}

impl Dd {
    pub fn new(a: f64) -> Dd {
        Dd(a, 0.0)
    }
    pub fn add(self, o: Dd) -> Dd {
        let s = two_sum(self.0, o.0);
        let t = two_sum(self.1, o.1);
        let u = two_sum(s.0, s.1 + t.0);
        two_sum(u.0, u.1 + t.1)
    }
    pub fn mul(self, o: Dd) -> Dd {
        let p = self.0 * o.0;
        let e = self.0.mul_add(o.0, -p);
        two_sum(p, e + (self.0 * o.1 + self.1 * o.0))
    }
    pub fn div(self, o: Dd) -> Dd {
        let q = self.0 / o.0;
        let r = self.add(o.mul(Dd::new(-q)));
        let q2 = r.0 / o.0;
        let r2 = r.add(o.mul(Dd::new(-q2)));
        two_sum(q, q2).add(Dd::new(r2.0 / o.0))
    }
    pub fn floor(self) -> Dd {
        let f = self.0.floor();
        if f == self.0 {
            two_sum(f, self.1.floor())
        } else {
            Dd(f, 0.0)
        }
    }
}

const TAU: Dd = Dd(6.283185307179586, 2.4492935982947064e-16);
const PI_DD: Dd = Dd(3.141592653589793, 1.2246467991473532e-16);

fn one_turn(x: Dd) -> f64 {
    let turns = x.div(TAU).floor();
    let y = x.add(TAU.mul(turns).mul(Dd::new(-1.0)));
    y.0.max(0.0)
}

pub fn iau(epoch: f64) -> f64 {
    let c = Dd::new(epoch).div(Dd::new(100.0));
    let linear = Dd::new(876600.0 * 3600.0).add(Dd(8640184.812866, 0.0));
    let seconds = c
        .mul(c)
        .mul(c)
        .mul(Dd::new(-6.2e-6))
        .add(c.mul(c).mul(Dd::new(0.093104)))
        .add(linear.mul(c))
        .add(Dd::new(67310.54841));
    one_turn(seconds.mul(PI_DD).div(Dd::new(180.0)).div(Dd::new(240.0)))
}

/// days since 1970 as the expression rounds them, and the distance to a jump of the floor
pub fn afspc_parts(epoch: f64) -> (f64, f64) {
    let d = Dd::new(epoch).add(Dd::new(30.0)).mul(Dd::new(365.25)).add(Dd::new(1.0));
    let x = d.add(Dd::new(1.0e-8));
    let f = x.add(x.floor().mul(Dd::new(-1.0))).0;
    (d.0, f.min(1.0 - f))
}

pub fn afspc(epoch: f64) -> f64 {
    let d = Dd::new(epoch).add(Dd::new(30.0)).mul(Dd::new(365.25)).add(Dd::new(1.0));
    let whole = d.add(Dd::new(1.0e-8)).floor();
    let a = Dd::new(1.72027916940703639e-2);
    let theta = Dd::new(1.7321343856509374)
        .add(a.mul(whole))
        .add(a.add(TAU).mul(d.add(whole.mul(Dd::new(-1.0)))))
        .add(d.mul(d).mul(Dd::new(5.07551419432269442e-15)));
    one_turn(theta)
}
