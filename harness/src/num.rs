//! Number types of the reference model: plain doubles, and doubles with stochastic rounding.
//!
//! `Sto` perturbs the result of every elementary operation by up to one unit in the last place.
//! The spread of a few runs estimates how much a differently ordered evaluation may deviate.
use std::cell::Cell;
use std::ops::{Add, Div, Mul, Neg, Sub};

pub trait Real:
    Copy
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Div<Output = Self>
    + Neg<Output = Self>
{
    fn c(x: f64) -> Self;
    fn v(self) -> f64;
    fn map(self, f: impl Fn(f64) -> f64) -> Self;
    fn atan2(self, o: Self) -> Self;
    fn sin(self) -> Self {
        self.map(f64::sin)
    }
    fn cos(self) -> Self {
        self.map(f64::cos)
    }
    fn sqrt(self) -> Self {
        self.map(f64::sqrt)
    }
    fn abs(self) -> Self {
        if self.v() < 0.0 {
            -self
        } else {
            self
        }
    }
    fn pow(self, p: f64) -> Self {
        self.map(|x| x.powf(p))
    }
    fn sq(self) -> Self {
        self * self
    }
    fn rem2pi(self) -> Self {
        self.map(|x| x % (2.0 * std::f64::consts::PI))
    }
}

impl Real for f64 {
    #[inline]
    fn c(x: f64) -> f64 {
        x
    }
    #[inline]
    fn v(self) -> f64 {
        self
    }
    #[inline]
    fn map(self, f: impl Fn(f64) -> f64) -> f64 {
        f(self)
    }
    #[inline]
    fn atan2(self, o: f64) -> f64 {
        f64::atan2(self, o)
    }
}

thread_local! {
    static STO: Cell<u64> = const { Cell::new(0x9E3779B97F4A7C15) };
}

pub fn sto_seed(s: u64) {
    STO.with(|c| c.set(s.wrapping_mul(0x9E3779B97F4A7C15) | 1));
}

#[inline]
fn noisy(x: f64) -> f64 {
    STO.with(|c| {
        let mut s = c.get();
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        c.set(s);
        // uniform in [-1, 1] ulp
        let u = (s >> 11) as f64 * (1.0 / (1u64 << 52) as f64) - 1.0;
        x + x * (u * f64::EPSILON)
    })
}

#[derive(Copy, Clone, Debug)]
pub struct Sto(pub f64);

impl Add for Sto {
    type Output = Sto;
    #[inline]
    fn add(self, o: Sto) -> Sto {
        Sto(noisy(self.0 + o.0))
    }
}
impl Sub for Sto {
    type Output = Sto;
    #[inline]
    fn sub(self, o: Sto) -> Sto {
        Sto(noisy(self.0 - o.0))
    }
}
impl Mul for Sto {
    type Output = Sto;
    #[inline]
    fn mul(self, o: Sto) -> Sto {
        Sto(noisy(self.0 * o.0))
    }
}
impl Div for Sto {
    type Output = Sto;
    #[inline]
    fn div(self, o: Sto) -> Sto {
        Sto(noisy(self.0 / o.0))
    }
}
impl Neg for Sto {
    type Output = Sto;
    #[inline]
    fn neg(self) -> Sto {
        Sto(-self.0)
    }
}
impl Real for Sto {
    #[inline]
    fn c(x: f64) -> Sto {
        Sto(x)
    }
    #[inline]
    fn v(self) -> f64 {
        self.0
    }
    #[inline]
    fn map(self, f: impl Fn(f64) -> f64) -> Sto {
        Sto(noisy(f(self.0)))
    }
    #[inline]
    fn atan2(self, o: Sto) -> Sto {
        Sto(noisy(f64::atan2(self.0, o.0)))
    }
}
