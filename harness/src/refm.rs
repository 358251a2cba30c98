//! Reference model of SGP4/SDP4, organised like the revised Spacetrack Report 3 code
//! (init, common, secular resonance init, resonance integration, periodics, propagation).
//!
//! Differences with that code which the crate documents and which this model follows:
//! mean motion is not required to stay positive, decay is not an error, Kepler's equation is
//! iterated at most ten times and stops before applying a correction smaller than 1e-12, and
//! negative inclinations are handled implicitly.
use crate::num::Real;
use std::f64::consts::PI;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Geo {
    pub ae: f64,
    pub ke: f64,
    pub j2: f64,
    pub j3: f64,
    pub j4: f64,
}

pub const REF_WGS84: Geo = Geo {
    ae: 6378.137,
    ke: 0.07436685316871385,
    j2: 0.00108262998905,
    j3: -0.00000253215306,
    j4: -0.00000161098761,
};

pub const REF_WGS72: Geo = Geo {
    ae: 6378.135,
    ke: 0.07436691613317342,
    j2: 0.001082616,
    j3: -0.00000253881,
    j4: -0.00000165597,
};

/// Brouwer elements at epoch (rad, rad/min)
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Orb {
    pub i: f64,
    pub node: f64,
    pub e: f64,
    pub argp: f64,
    pub m: f64,
    pub n: f64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sat {
    pub geo: Geo,
    /// Julian years since J2000
    pub epoch: f64,
    /// sidereal time at epoch
    pub gsto: f64,
    pub bstar: f64,
    pub orb: Orb,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Ok([f64; 6]),
    ErrEcc(f64),
    ErrPert(f64),
    ErrSemi,
}

impl Out {
    pub fn class(&self) -> u8 {
        match self {
            Out::Ok(_) => 0,
            Out::ErrEcc(_) => 1,
            Out::ErrPert(_) => 2,
            Out::ErrSemi => 3,
        }
    }
}

/// Branch trace of one evaluation
#[derive(Clone, Copy, Debug)]
pub struct Trace {
    /// hash of all branches decided on computed quantities
    pub hash: u64,
    /// signed distances to the decision thresholds, in evaluation order
    pub margins: [f64; 12],
    pub decisions: usize,
    /// bit set of visited model branches (for coverage)
    pub cover: u64,
    /// residual of the last Kepler iteration
    pub kepler: f64,
    pub kepler_iterations: u32,
    /// perturbed inclination (deep space) or epoch inclination
    pub inclination: f64,
    pub lyddane: bool,
    pub steps: u32,
    pub semi_major: f64,
    /// node before periodics
    pub node: f64,
    /// size of the largest angles that were added up
    pub phase: f64,
}

impl Trace {
    fn new() -> Trace {
        Trace {
            hash: 0xcbf29ce484222325,
            margins: [f64::INFINITY; 12],
            decisions: 0,
            cover: 0,
            kepler: 0.0,
            kepler_iterations: 0,
            inclination: 0.0,
            lyddane: false,
            steps: 0,
            semi_major: 0.0,
            node: 0.0,
            phase: 0.0,
        }
    }
    fn push(&mut self, b: bool) {
        self.hash = (self.hash ^ (b as u64 + 1)).wrapping_mul(0x100000001b3);
    }
    fn mark(&mut self, m: f64) {
        if self.decisions < 12 {
            self.margins[self.decisions] = m;
        }
        self.decisions += 1;
    }
    /// x < y on computed quantities; the distance is recorded in units of `scale`
    fn lt(&mut self, x: f64, y: f64, scale: f64) -> bool {
        self.mark((x - y) / scale);
        let b = x < y;
        self.push(b);
        b
    }
    fn cov(&mut self, bit: u32) {
        self.cover |= 1 << bit;
    }
}

// coverage bits
pub const COVER_NAMES: [&str; 41] = [
    "near_earth",
    "deep_space",
    "perigee<98",
    "perigee 98..156",
    "perigee>=156",
    "perigee<220 (simplified drag)",
    "full drag",
    "e>1e-4",
    "e<=1e-4",
    "|1+cos i| tiny",
    "third body node rate zeroed",
    "third body node rate active",
    "one-day resonance",
    "half-day resonance",
    "no resonance",
    "half-day e<=0.65",
    "half-day 0.65<e<0.7",
    "half-day 0.7<=e<0.715",
    "half-day e>0.715",
    "backward integration",
    "forward integration",
    "no integration step",
    "Lyddane",
    "direct periodics",
    "Lyddane node negative",
    "Lyddane node non-negative",
    "Lyddane wrap +",
    "Lyddane wrap -",
    "eccentricity clamped",
    "Kepler correction clamped",
    "Kepler not converged",
    "afspc mode",
    "error eccentricity",
    "error perturbed eccentricity",
    "error semi-latus rectum",
    "ok",
    "perturbed inclination negative",
    "retrograde",
    "t<0",
    "t=0",
    "integrated mean motion negative",
];

struct Third<R> {
    e2: R,
    e3: R,
    i2: R,
    i3: R,
    l2: R,
    l3: R,
    l4: R,
    gh2: R,
    gh3: R,
    gh4: R,
    h2: R,
    h3: R,
    m0: R,
    // secular
    dedt: R,
    didt: R,
    dmdt: R,
    dgh: R,
    dh: R,
}

const ZES: f64 = 0.01675;
const ZEL: f64 = 0.05490;
const ZNS: f64 = 1.19459e-5;
const ZNL: f64 = 1.5835218e-4;

#[allow(clippy::too_many_arguments)]
fn third<R: Real>(
    orb: &Orb,
    zcosg: R,
    zsing: R,
    zcosi: R,
    zsini: R,
    zcosh: R,
    zsinh: R,
    cc: f64,
    zn: f64,
    ze: f64,
    m0: R,
    n: R,
) -> Third<R> {
    let c = R::c;
    let em = c(orb.e);
    let emsq = em * em;
    let betasq = c(1.0) - emsq;
    let rtemsq = betasq.sqrt();
    let (sini, cosi) = (c(orb.i).sin(), c(orb.i).cos());
    let (so, co) = (c(orb.argp).sin(), c(orb.argp).cos());

    let a1 = zcosg * zcosh + zsing * zcosi * zsinh;
    let a3 = -zsing * zcosh + zcosg * zcosi * zsinh;
    let a7 = -zcosg * zsinh + zsing * zcosi * zcosh;
    let a8 = zsing * zsini;
    let a9 = zsing * zsinh + zcosg * zcosi * zcosh;
    let a10 = zcosg * zsini;
    let a2 = cosi * a7 + sini * a8;
    let a4 = cosi * a9 + sini * a10;
    let a5 = -sini * a7 + cosi * a8;
    let a6 = -sini * a9 + cosi * a10;

    let x1 = a1 * co + a2 * so;
    let x2 = a3 * co + a4 * so;
    let x3 = -a1 * so + a2 * co;
    let x4 = -a3 * so + a4 * co;
    let x5 = a5 * so;
    let x6 = a6 * so;
    let x7 = a5 * co;
    let x8 = a6 * co;

    let z31 = c(12.0) * x1 * x1 - c(3.0) * x3 * x3;
    let z32 = c(24.0) * x1 * x2 - c(6.0) * x3 * x4;
    let z33 = c(12.0) * x2 * x2 - c(3.0) * x4 * x4;
    let mut z1 = c(3.0) * (a1 * a1 + a2 * a2) + z31 * emsq;
    let mut z2 = c(6.0) * (a1 * a3 + a2 * a4) + z32 * emsq;
    let mut z3 = c(3.0) * (a3 * a3 + a4 * a4) + z33 * emsq;
    let z11 = c(-6.0) * a1 * a5 + emsq * (c(-24.0) * x1 * x7 - c(6.0) * x3 * x5);
    let z12 = c(-6.0) * (a1 * a6 + a3 * a5)
        + emsq * (c(-24.0) * (x2 * x7 + x1 * x8) - c(6.0) * (x3 * x6 + x4 * x5));
    let z13 = c(-6.0) * a3 * a6 + emsq * (c(-24.0) * x2 * x8 - c(6.0) * x4 * x6);
    let z21 = c(6.0) * a2 * a5 + emsq * (c(24.0) * x1 * x5 - c(6.0) * x3 * x7);
    let z22 = c(6.0) * (a4 * a5 + a2 * a6)
        + emsq * (c(24.0) * (x2 * x5 + x1 * x6) - c(6.0) * (x4 * x7 + x3 * x8));
    let z23 = c(6.0) * a4 * a6 + emsq * (c(24.0) * x2 * x6 - c(6.0) * x4 * x8);
    z1 = z1 + z1 + betasq * z31;
    z2 = z2 + z2 + betasq * z32;
    z3 = z3 + z3 + betasq * z33;
    let s3 = c(cc) / n;
    let s2 = c(-0.5) * s3 / rtemsq;
    let s4 = s3 * rtemsq;
    let s1 = c(-15.0) * em * s4;
    let s5 = x1 * x3 + x2 * x4;
    let s6 = x2 * x3 + x1 * x4;
    let s7 = x2 * x4 - x1 * x3;
    let zn = c(zn);
    let ze = c(ze);
    Third {
        e2: c(2.0) * s1 * s6,
        e3: c(2.0) * s1 * s7,
        i2: c(2.0) * s2 * z12,
        i3: c(2.0) * s2 * (z13 - z11),
        l2: c(-2.0) * s3 * z2,
        l3: c(-2.0) * s3 * (z3 - z1),
        l4: c(-2.0) * s3 * (c(-21.0) - c(9.0) * emsq) * ze,
        gh2: c(2.0) * s4 * z32,
        gh3: c(2.0) * s4 * (z33 - z31),
        gh4: c(-18.0) * s4 * ze,
        h2: c(-2.0) * s2 * z22,
        h3: c(-2.0) * s2 * (z23 - z21),
        m0,
        dedt: s1 * zn * s5,
        didt: s2 * zn * (z11 + z13),
        dmdt: -zn * s3 * (z1 + z3 - c(14.0) - c(6.0) * emsq),
        dgh: s4 * zn * (z31 + z33 - c(6.0)),
        dh: -zn * s2 * (z21 + z23),
    }
}

/// (pe, pinc, pl, pgh, ph) of one body at time t
fn periodics<R: Real>(b: &Third<R>, zn: f64, ze: f64, t: R) -> [R; 5] {
    let c = R::c;
    let zm = b.m0 + c(zn) * t;
    let zf = zm + c(2.0 * ze) * zm.sin();
    let sinzf = zf.sin();
    let f2 = c(0.5) * sinzf * sinzf - c(0.25);
    let f3 = c(-0.5) * sinzf * zf.cos();
    [
        b.e2 * f2 + b.e3 * f3,
        b.i2 * f2 + b.i3 * f3,
        b.l2 * f2 + b.l3 * f3 + b.l4 * sinzf,
        b.gh2 * f2 + b.gh3 * f3 + b.gh4 * sinzf,
        b.h2 * f2 + b.h3 * f3,
    ]
}

/// Propagates `sat` to `t` minutes. `kick` is added to the converged eccentric longitude.
pub fn propagate<R: Real>(sat: &Sat, t: f64, afspc: bool, kick: f64) -> (Out, Trace) {
    let c = R::c;
    let mut tr = Trace::new();
    let g = &sat.geo;
    let o = &sat.orb;
    let (ke, j2) = (c(g.ke), c(g.j2));
    let j3oj2 = c(g.j3) / j2;
    let re = c(g.ae);
    let e = c(o.e);
    let no = c(o.n);
    let bstar = c(sat.bstar);
    let tt = c(t);
    if t < 0.0 {
        tr.cov(38);
    } else if t == 0.0 {
        tr.cov(39);
    }
    if o.i > PI / 2.0 {
        tr.cov(37);
    }

    // ---- initialisation ----
    let cosio = c(o.i).cos();
    let sinio = c(o.i).sin();
    let cosio2 = cosio * cosio;
    let cosio4 = cosio2 * cosio2;
    let omeosq = c(1.0) - e * e;
    let rteosq = omeosq.sqrt();
    let ao = (ke / no).pow(2.0 / 3.0);
    let po = ao * omeosq;
    let con42 = c(1.0) - c(5.0) * cosio2;
    let con41 = -con42 - cosio2 - cosio2;
    let rp = ao * (c(1.0) - e);
    let perige = (rp - c(1.0)) * re;
    let near_earth = o.n > 2.0 * PI / 225.0;
    // the drag shape is continuous at 98 and 156 km: these branches are not traced
    let sfour_km = if perige.v() < 98.0 {
        tr.cov(2);
        c(20.0)
    } else if perige.v() < 156.0 {
        tr.cov(3);
        perige - c(78.0)
    } else {
        tr.cov(4);
        c(78.0)
    };
    let q = (c(120.0) - sfour_km) / re;
    let qzms24 = q.sq().sq();
    let sfour = sfour_km / re + c(1.0);
    let pinvsq = c(1.0) / (po * po);
    let tsi = c(1.0) / (ao - sfour);
    let eta = ao * e * tsi;
    let etasq = eta * eta;
    let eeta = e * eta;
    let psisq = (c(1.0) - etasq).abs();
    let coef = qzms24 * tsi.sq().sq();
    let coef1 = coef / psisq.pow(3.5);
    let cc2 = coef1
        * no
        * (ao * (c(1.0) + c(1.5) * etasq + eeta * (c(4.0) + etasq))
            + c(0.375) * j2 * tsi / psisq * con41 * (c(8.0) + c(3.0) * etasq * (c(8.0) + etasq)));
    let cc1 = bstar * cc2;
    let x1mth2_0 = c(1.0) - cosio2;
    let cc4 = c(2.0)
        * no
        * coef1
        * ao
        * omeosq
        * (eta * (c(2.0) + c(0.5) * etasq) + e * (c(0.5) + c(2.0) * etasq)
            - j2 * tsi / (ao * psisq)
                * (c(-3.0)
                    * con41
                    * (c(1.0) - c(2.0) * eeta + etasq * (c(1.5) - c(0.5) * eeta))
                    + c(0.75)
                        * x1mth2_0
                        * (c(2.0) * etasq - eeta * (c(1.0) + etasq))
                        * (c(2.0) * c(o.argp)).cos()));
    let temp1 = c(1.5) * j2 * pinvsq * no;
    let temp2 = c(0.5) * temp1 * j2 * pinvsq;
    let temp3 = c(-0.46875) * c(g.j4) * pinvsq * pinvsq * no;
    let mdot = no
        + c(0.5) * temp1 * rteosq * con41
        + c(0.0625) * temp2 * rteosq * (c(13.0) - c(78.0) * cosio2 + c(137.0) * cosio4);
    let argpdot = c(-0.5) * temp1 * con42
        + c(0.0625) * temp2 * (c(7.0) - c(114.0) * cosio2 + c(395.0) * cosio4)
        + temp3 * (c(3.0) - c(36.0) * cosio2 + c(49.0) * cosio4);
    let xhdot1 = -temp1 * cosio;
    let nodedot = xhdot1
        + (c(0.5) * temp2 * (c(4.0) - c(19.0) * cosio2)
            + c(2.0) * temp3 * (c(3.0) - c(7.0) * cosio2))
            * cosio;
    let nodecf = c(3.5) * omeosq * xhdot1 * cc1;
    let t2cof = c(1.5) * cc1;

    // ---- secular effects ----
    let xmdf = c(o.m) + mdot * tt;
    let argpdf = c(o.argp) + argpdot * tt;
    let nodedf = c(o.node) + nodedot * tt;
    let t2 = tt * tt;
    let mut mm = xmdf;
    let mut argpm = argpdf;
    let mut nodem = nodedf + nodecf * t2;
    let mut tempa = c(1.0) - cc1 * tt;
    let mut tempe = bstar * cc4 * tt;
    let mut templ = t2cof * t2;
    let mut em = e;
    let mut inclm = c(o.i);
    let mut nm = no;
    let mut third_bodies: Option<(Third<R>, Third<R>)> = None;

    if near_earth {
        tr.cov(0);
        let low = tr.lt(
            rp.v(),
            (c(220.0) / re + c(1.0)).v(),
            1.0,
        );
        if low {
            tr.cov(5);
        } else {
            tr.cov(6);
            let cc5 = c(2.0)
                * coef1
                * ao
                * omeosq
                * (c(1.0) + c(2.75) * (etasq + eeta) + eeta * etasq);
            let cc1sq = cc1 * cc1;
            let d2 = c(4.0) * ao * tsi * cc1sq;
            let temp = d2 * tsi * cc1 / c(3.0);
            let d3 = (c(17.0) * ao + sfour) * temp;
            let d4 = c(0.5) * temp * ao * tsi * (c(221.0) * ao + c(31.0) * sfour) * cc1;
            let t3cof = d2 + c(2.0) * cc1sq;
            let t4cof = c(0.25) * (c(3.0) * d3 + cc1 * (c(12.0) * d2 + c(10.0) * cc1sq));
            let t5cof = c(0.2)
                * (c(3.0) * d4
                    + c(12.0) * cc1 * d3
                    + c(6.0) * d2 * d2
                    + c(15.0) * cc1sq * (c(2.0) * d2 + cc1sq));
            if o.e > 1.0e-4 {
                tr.cov(7);
                let cc3 = c(-2.0) * coef * tsi * j3oj2 * no * sinio / e;
                let omgcof = bstar * cc3 * c(o.argp).cos();
                let xmcof = c(-2.0 / 3.0) * coef * bstar / eeta;
                let cube = |x: R| x * x * x;
                let delmo = cube(c(1.0) + eta * c(o.m).cos());
                let delm = xmcof * (cube(c(1.0) + eta * xmdf.cos()) - delmo);
                let temp = omgcof * tt + delm;
                mm = xmdf + temp;
                argpm = argpdf - temp;
            } else {
                tr.cov(8);
            }
            let t3 = t2 * tt;
            let t4 = t3 * tt;
            tempa = tempa - d2 * t2 - d3 * t3 - d4 * t4;
            tempe = tempe + bstar * cc5 * (mm.sin() - c(o.m).sin());
            templ = templ + t3cof * t3 + t4 * (t4cof + tt * t5cof);
        }
    } else {
        tr.cov(1);
        // ---- common: lunar and solar geometry ----
        let day = (c(sat.epoch) + c(100.0)) * c(365.25);
        let xnodce = (c(4.5236020) - c(9.2422029e-4) * day).rem2pi();
        let stem = xnodce.sin();
        let ctem = xnodce.cos();
        let zcosil = c(0.91375164) - c(0.03568096) * ctem;
        let zsinil = (c(1.0) - zcosil * zcosil).sqrt();
        let zsinhl = c(0.089683511) * stem / zsinil;
        let zcoshl = (c(1.0) - zsinhl * zsinhl).sqrt();
        let gam = c(5.8351514) + c(0.0019443680) * day;
        let zx = c(0.39785416) * stem / zsinil;
        let zy = zcoshl * ctem + c(0.91744867) * zsinhl * stem;
        let zx = gam + zx.atan2(zy) - xnodce;
        let zcosgl = zx.cos();
        let zsingl = zx.sin();
        let snodm = c(o.node).sin();
        let cnodm = c(o.node).cos();
        let sun = third::<R>(
            o,
            c(0.1945905),
            c(-0.98088458),
            c(0.91744867),
            c(0.39785416),
            cnodm,
            snodm,
            2.9864797e-6,
            ZNS,
            ZES,
            (c(6.2565837) + c(0.017201977) * day).rem2pi(),
            no,
        );
        let moon = third::<R>(
            o,
            zcosgl,
            zsingl,
            zcosil,
            zsinil,
            zcoshl * cnodm + zsinhl * snodm,
            snodm * zcoshl - cnodm * zsinhl,
            4.7968065e-7,
            ZNL,
            ZEL,
            (c(4.7199672) + c(0.22997150) * day - gam).rem2pi(),
            no,
        );
        let dedt = sun.dedt + moon.dedt;
        let didt = sun.didt + moon.didt;
        let dmdt = sun.dmdt + moon.dmdt;
        let zeroed = o.i < 5.2359877e-2 || o.i > PI - 5.2359877e-2;
        tr.cov(if zeroed { 10 } else { 11 });
        let (domdt, dnodt) = if zeroed {
            (sun.dgh + moon.dgh, c(0.0))
        } else {
            let dn = (sun.dh + moon.dh) / sinio;
            (sun.dgh + moon.dgh - cosio * dn, dn)
        };

        em = em + dedt * tt;
        inclm = inclm + didt * tt;
        argpm = argpm + domdt * tt;
        nodem = nodem + dnodt * tt;

        const RPTIM: f64 = 4.37526908801129966e-3;
        let irez = if o.n < 0.0052359877 && o.n > 0.0034906585 {
            1
        } else if o.n >= 8.26e-3 && o.n <= 9.24e-3 && o.e >= 0.5 {
            2
        } else {
            0
        };
        if irez == 0 {
            tr.cov(14);
            mm = mm + dmdt * tt;
        } else {
            let theta0 = c(sat.gsto);
            let theta = (theta0 + tt * c(RPTIM)).rem2pi();
            let aonv = c(1.0) / ao;
            let cosisq = cosio2;
            let emsq = e * e;
            // (amplitude, multiple of xomi, multiple of xli, phase)
            let mut terms: Vec<(R, f64, f64, f64)> = Vec::with_capacity(10);
            let xlamo;
            let xfact;
            if irez == 1 {
                tr.cov(12);
                let g200 = c(1.0) + emsq * (c(-2.5) + c(0.8125) * emsq);
                let g310 = c(1.0) + c(2.0) * emsq;
                let g300 = c(1.0) + emsq * (c(-6.0) + c(6.60937) * emsq);
                let p1c = c(1.0) + cosio;
                let f220 = c(0.75) * p1c * p1c;
                let f311 =
                    c(0.9375) * sinio * sinio * (c(1.0) + c(3.0) * cosio) - c(0.75) * p1c;
                let f330 = c(1.875) * p1c * p1c * p1c;
                let del = c(3.0) * no * no * aonv * aonv;
                terms.push((del * f311 * g310 * c(2.1460748e-6) * aonv, 0.0, 1.0, 0.13130908));
                terms.push((
                    c(2.0) * del * f220 * g200 * c(1.7891679e-6),
                    0.0,
                    2.0,
                    2.0 * 2.8843198,
                ));
                terms.push((
                    c(3.0) * del * f330 * g300 * c(2.2123015e-7) * aonv,
                    0.0,
                    3.0,
                    3.0 * 0.37448087,
                ));
                xlamo = (c(o.m) + c(o.node) + c(o.argp) - theta0).rem2pi();
                xfact = mdot + (argpdot + nodedot) - c(RPTIM) + dmdt + domdt + dnodt - no;
            } else {
                tr.cov(13);
                let eoc = e * emsq;
                let poly = |a: f64, b: f64, d: f64, f: f64| {
                    c(a) + c(b) * e + c(d) * emsq + c(f) * eoc
                };
                let g201 = c(-0.306) - (e - c(0.64)) * c(0.440);
                let (g211, g310, g322, g410, g422, g520);
                if o.e <= 0.65 {
                    tr.cov(15);
                    g211 = poly(3.616, -13.247, 16.29, 0.0);
                    g310 = poly(-19.302, 117.39, -228.419, 156.591);
                    g322 = poly(-18.9068, 109.7927, -214.6334, 146.5816);
                    g410 = poly(-41.122, 242.694, -471.094, 313.953);
                    g422 = poly(-146.407, 841.88, -1629.014, 1083.435);
                    g520 = poly(-532.114, 3017.977, -5740.032, 3708.276);
                } else {
                    tr.cov(if o.e < 0.7 {
                        16
                    } else if o.e < 0.715 {
                        17
                    } else {
                        18
                    });
                    g211 = poly(-72.099, 331.819, -508.738, 266.724);
                    g310 = poly(-346.844, 1582.851, -2415.925, 1246.113);
                    g322 = poly(-342.585, 1554.908, -2366.899, 1215.972);
                    g410 = poly(-1052.797, 4758.686, -7193.992, 3651.957);
                    g422 = poly(-3581.69, 16178.11, -24462.77, 12422.52);
                    g520 = if o.e > 0.715 {
                        poly(-5149.66, 29936.92, -54087.36, 31324.56)
                    } else {
                        poly(1464.74, -4664.75, 3763.64, 0.0)
                    };
                }
                let (g533, g521, g532);
                if o.e < 0.7 {
                    g533 = poly(-919.2277, 4988.61, -9064.77, 5542.21);
                    g521 = poly(-822.71072, 4568.6173, -8491.4146, 5337.524);
                    g532 = poly(-853.666, 4690.25, -8624.77, 5341.4);
                } else {
                    g533 = poly(-37995.78, 161616.52, -229838.2, 109377.94);
                    g521 = poly(-51752.104, 218913.95, -309468.16, 146349.42);
                    g532 = poly(-40023.88, 170470.89, -242699.48, 115605.82);
                }
                let sini2 = sinio * sinio;
                let f220 = c(0.75) * (c(1.0) + c(2.0) * cosio + cosisq);
                let f221 = c(1.5) * sini2;
                let f321 = c(1.875) * sinio * (c(1.0) - c(2.0) * cosio - c(3.0) * cosisq);
                let f322 = c(-1.875) * sinio * (c(1.0) + c(2.0) * cosio - c(3.0) * cosisq);
                let f441 = c(35.0) * sini2 * f220;
                let f442 = c(39.375) * sini2 * sini2;
                let f522 = c(9.84375)
                    * sinio
                    * (sini2 * (c(1.0) - c(2.0) * cosio - c(5.0) * cosisq)
                        + c(0.33333333) * (c(-2.0) + c(4.0) * cosio + c(6.0) * cosisq));
                let f523 = sinio
                    * (c(4.92187512) * sini2 * (c(-2.0) - c(4.0) * cosio + c(10.0) * cosisq)
                        + c(6.56250012) * (c(1.0) + c(2.0) * cosio - c(3.0) * cosisq));
                let f542 = c(29.53125)
                    * sinio
                    * (c(2.0) - c(8.0) * cosio
                        + cosisq * (c(-12.0) + c(8.0) * cosio + c(10.0) * cosisq));
                let f543 = c(29.53125)
                    * sinio
                    * (c(-2.0) - c(8.0) * cosio
                        + cosisq * (c(12.0) + c(8.0) * cosio - c(10.0) * cosisq));
                const G22: f64 = 5.7686396;
                const G32: f64 = 0.95240898;
                const G44: f64 = 1.8014998;
                const G52: f64 = 1.0508330;
                const G54: f64 = 4.4108898;
                let mut t1 = c(3.0) * no * no * aonv * aonv;
                let mut tp = t1 * c(1.7891679e-6);
                terms.push((tp * f220 * g201, 2.0, 1.0, G22));
                terms.push((tp * f221 * g211, 0.0, 1.0, G22));
                t1 = t1 * aonv;
                tp = t1 * c(3.7393792e-7);
                terms.push((tp * f321 * g310, 1.0, 1.0, G32));
                terms.push((tp * f322 * g322, -1.0, 1.0, G32));
                t1 = t1 * aonv;
                tp = c(2.0) * t1 * c(7.3636953e-9);
                terms.push((tp * f441 * g410, 2.0, 2.0, G44));
                terms.push((tp * f442 * g422, 0.0, 2.0, G44));
                t1 = t1 * aonv;
                tp = t1 * c(1.1428639e-7);
                terms.push((tp * f522 * g520, 1.0, 1.0, G52));
                terms.push((tp * f523 * g532, -1.0, 1.0, G52));
                tp = c(2.0) * t1 * c(2.1765803e-9);
                terms.push((tp * f542 * g521, 1.0, 2.0, G54));
                terms.push((tp * f543 * g533, -1.0, 2.0, G54));
                xlamo = (c(o.m) + c(o.node) + c(o.node) - theta0 - theta0).rem2pi();
                xfact = mdot + dmdt + c(2.0) * (nodedot + dnodt - c(RPTIM)) - no;
            }
            // ---- integration ----
            let mut xli = xlamo;
            let mut xni = no;
            let mut atime = 0.0f64;
            let step = if t > 0.0 { 720.0 } else { -720.0 };
            tr.cov(if t.abs() < 720.0 {
                21
            } else if t > 0.0 {
                20
            } else {
                19
            });
            loop {
                let xomi = c(o.argp) + argpdot * c(atime);
                let mut xndt = c(0.0);
                let mut xnddt = c(0.0);
                for &(d, mo, ml, ph) in &terms {
                    let mut a = if ml == 1.0 { xli } else { c(ml) * xli } - c(ph);
                    if mo != 0.0 {
                        a = c(mo) * xomi + a;
                    }
                    xndt = xndt + d * a.sin();
                    xnddt = xnddt + c(ml) * d * a.cos();
                }
                let xldot = xni + xfact;
                xnddt = xnddt * xldot;
                if (t - atime).abs() >= 720.0 {
                    xli = xli + xldot * c(step) + xndt * c(259200.0);
                    xni = xni + xndt * c(step) + xnddt * c(259200.0);
                    atime += step;
                    tr.steps += 1;
                } else {
                    let ft = c(t - atime);
                    nm = xni + xndt * ft + xnddt * ft * ft * c(0.5);
                    if tr.lt(nm.v(), 0.0, o.n) {
                        tr.cov(40);
                    }
                    let xl = xli + xldot * ft + xndt * ft * ft * c(0.5);
                    mm = if irez == 1 {
                        xl - nodem - argpm + theta
                    } else {
                        xl - c(2.0) * nodem + c(2.0) * theta
                    };
                    break;
                }
            }
        }
        third_bodies = Some((sun, moon));
    }

    let mut am = (ke / nm).pow(2.0 / 3.0) * tempa * tempa;
    nm = ke / am.pow(1.5);
    em = em - tempe;
    tr.semi_major = am.v();
    let lo = tr.lt(em.v(), -0.001, 1.0);
    let hi = !tr.lt(em.v(), 1.0, 1.0);
    if lo || hi || em.v().is_nan() {
        tr.cov(32);
        return (Out::ErrEcc(em.v()), tr);
    }
    if em.v() < 1.0e-6 {
        // continuous: not traced
        tr.cov(28);
        em = c(1.0e-6);
    }
    mm = mm + no * templ;

    // ---- periodics ----
    let mut ep = em;
    let mut xincp = inclm;
    let mut nodep = nodem;
    let mut argpp = argpm;
    let mut mp = mm;
    tr.node = nodem.v();
    if let Some((sun, moon)) = &third_bodies {
        if afspc {
            tr.cov(31);
        }
        let s = periodics(sun, ZNS, ZES, tt);
        let l = periodics(moon, ZNL, ZEL, tt);
        let pe = s[0] + l[0];
        let pinc = s[1] + l[1];
        let pl = s[2] + l[2];
        let pgh = s[3] + l[3];
        let ph = s[4] + l[4];
        xincp = xincp + pinc;
        ep = ep + pe;
        let sinip = xincp.sin();
        let cosip = xincp.cos();
        let lyd = tr.lt(xincp.v(), 0.2, 1.0);
        tr.lyddane = lyd;
        if xincp.v() < 0.0 {
            tr.cov(36);
        }
        if !lyd {
            tr.cov(23);
            let ph = ph / sinip;
            argpp = argpp + (pgh - cosip * ph);
            nodep = nodep + ph;
            mp = mp + pl;
        } else {
            tr.cov(22);
            let sinop = nodep.sin();
            let cosop = nodep.cos();
            let alfdp = sinip * sinop + (ph * cosop + pinc * cosip * sinop);
            let betdp = sinip * cosop + (-ph * sinop + pinc * cosip * cosop);
            let wrapped = nodep.rem2pi();
            // the reduction is discontinuous at every multiple of a turn
            let turn = nodep.v() / (2.0 * PI);
            tr.mark(turn - turn.round());
            tr.push((turn.floor() as i64) % 2 == 0);
            tr.cov(if wrapped.v() < 0.0 { 24 } else { 25 });
            let xnoh = if afspc && wrapped.v() < 0.0 {
                wrapped + c(2.0 * PI)
            } else {
                wrapped
            };
            let xls = mp + argpp + cosip * xnoh + (pl + pgh - pinc * xnoh * sinip);
            let mut node = alfdp.atan2(betdp);
            if afspc && node.v() < 0.0 {
                node = node + c(2.0 * PI);
            }
            let diff = (xnoh.v() - node.v()).abs();
            if !tr.lt(diff, PI, 1.0) {
                // strictly greater than pi, margin recorded
                if node.v() < xnoh.v() {
                    tr.cov(26);
                    node = node + c(2.0 * PI);
                } else {
                    tr.cov(27);
                    node = node - c(2.0 * PI);
                }
            }
            nodep = node;
            mp = mp + pl;
            argpp = xls - mp - cosip * nodep;
        }
        let neg = tr.lt(ep.v(), 0.0, 1.0);
        let big = !tr.lt(ep.v(), 1.0, 1.0) && ep.v() != 1.0;
        if neg || big || ep.v().is_nan() {
            tr.cov(33);
            tr.inclination = xincp.v();
            return (Out::ErrPert(ep.v()), tr);
        }
    }
    tr.inclination = xincp.v();

    let (sinip, cosip) = if near_earth {
        (sinio, cosio)
    } else {
        (xincp.sin(), xincp.cos())
    };
    let cosisq = cosip * cosip;
    let con41 = c(3.0) * cosisq - c(1.0);
    let x1mth2 = c(1.0) - cosisq;
    let x7thm1 = c(7.0) * cosisq - c(1.0);
    let aycof = c(-0.5) * j3oj2 * sinip;
    let opc = c(1.0) + cosip;
    // relative to the rounding of the cosine
    let tiny = !tr.lt(1.5e-12, opc.abs().v(), 1.0e-3);
    if tiny {
        tr.cov(9);
    }
    let den = if tiny { c(1.5e-12) } else { opc };
    let xlcof = c(-0.25) * j3oj2 * sinip * (c(3.0) + c(5.0) * cosip) / den;

    // ---- long period periodics ----
    let axnl = ep * argpp.cos();
    let temp = c(1.0) / (am * (c(1.0) - ep * ep));
    let aynl = ep * argpp.sin() + temp * aycof;
    tr.phase = xmdf.v().abs()
        + mp.v().abs()
        + argpp.v().abs()
        + nodem.v().abs()
        + (no * templ).v().abs()
        + o.m.abs()
        + o.argp.abs()
        + o.node.abs();
    let u = (mp + argpp + temp * xlcof * axnl).rem2pi();

    // ---- Kepler ----
    let mut eo1 = u;
    let mut converged = false;
    for _ in 0..10 {
        let (s, k) = (eo1.sin(), eo1.cos());
        let d = (u - aynl * k + axnl * s - eo1) / (c(1.0) - k * axnl - s * aynl);
        tr.kepler = d.v().abs();
        if d.v().abs() < 1.0e-12 {
            converged = true;
            break;
        }
        tr.kepler_iterations += 1;
        let d = if d.v() > 0.95 {
            tr.cov(29);
            c(0.95)
        } else if d.v() < -0.95 {
            tr.cov(29);
            c(-0.95)
        } else {
            d
        };
        eo1 = eo1 + d;
    }
    if !converged {
        tr.cov(30);
    }
    if kick != 0.0 {
        eo1 = eo1 + c(kick);
    }

    // ---- short period ----
    let (sineo1, coseo1) = (eo1.sin(), eo1.cos());
    let ecose = axnl * coseo1 + aynl * sineo1;
    let esine = axnl * sineo1 - aynl * coseo1;
    let el2 = axnl * axnl + aynl * aynl;
    let pl = am * (c(1.0) - el2);
    // undefined when the integrated mean motion of a resonant orbit became negative
    if am.v().is_nan() || tr.lt(pl.v(), 0.0, am.v()) {
        tr.cov(34);
        return (Out::ErrSemi, tr);
    }
    tr.cov(35);
    let rl = am * (c(1.0) - ecose);
    let rdotl = am.sqrt() * esine / rl;
    let rvdotl = pl.sqrt() / rl;
    let betal = (c(1.0) - el2).sqrt();
    let temp = esine / (c(1.0) + betal);
    let sinu = am / rl * (sineo1 - aynl - axnl * temp);
    let cosu = am / rl * (coseo1 - axnl + aynl * temp);
    let mut su = sinu.atan2(cosu);
    let sin2u = (cosu + cosu) * sinu;
    let cos2u = c(1.0) - c(2.0) * sinu * sinu;
    let temp = c(1.0) / pl;
    let temp1 = c(0.5) * j2 * temp;
    let temp2 = temp1 * temp;
    let mrt = rl * (c(1.0) - c(1.5) * temp2 * betal * con41) + c(0.5) * temp1 * x1mth2 * cos2u;
    su = su - c(0.25) * temp2 * x7thm1 * sin2u;
    let xnode = nodep + c(1.5) * temp2 * cosip * sin2u;
    let xinc = xincp + c(1.5) * temp2 * cosip * sinip * cos2u;
    let mvt = rdotl - nm * temp1 * x1mth2 * sin2u / ke;
    let rvdot = rvdotl + nm * temp1 * (x1mth2 * cos2u + c(1.5) * con41) / ke;
    let (sinsu, cossu) = (su.sin(), su.cos());
    let (snod, cnod) = (xnode.sin(), xnode.cos());
    let (sini, cosi) = (xinc.sin(), xinc.cos());
    let xmx = -snod * cosi;
    let xmy = cnod * cosi;
    let ux = xmx * sinsu + cnod * cossu;
    let uy = xmy * sinsu + snod * cossu;
    let uz = sini * sinsu;
    let vx = xmx * cossu - cnod * sinsu;
    let vy = xmy * cossu - snod * sinsu;
    let vz = sini * cossu;
    let vkmpersec = re * ke / c(60.0);
    am = mrt * re;
    (
        Out::Ok([
            (am * ux).v(),
            (am * uy).v(),
            (am * uz).v(),
            ((mvt * ux + rvdot * vx) * vkmpersec).v(),
            ((mvt * uy + rvdot * vy) * vkmpersec).v(),
            ((mvt * uz + rvdot * vz) * vkmpersec).v(),
        ]),
        tr,
    )
}

/// Kozai to Brouwer mean motion; `Err(1)`: catalogue mean motion not positive, `Err(2)`: recovered one not positive.
pub fn unkozai<R: Real>(g: &Geo, i: f64, e: f64, n: f64) -> Result<f64, u8> {
    if n <= 0.0 {
        return Err(1);
    }
    let c = R::c;
    let cosio = c(i).cos();
    let eosq = c(e) * c(e);
    let omeosq = c(1.0) - eosq;
    let rteosq = omeosq.sqrt();
    let ak = (c(g.ke) / c(n)).pow(2.0 / 3.0);
    let d1 = c(0.75) * c(g.j2) * (c(3.0) * cosio * cosio - c(1.0)) / (rteosq * omeosq);
    let mut del = d1 / (ak * ak);
    let adel = ak
        * (c(1.0)
            - del * del
            - del * (c(1.0) / c(3.0) + c(134.0) * del * del / c(81.0)));
    del = d1 / (adel * adel);
    let r = (c(n) / (c(1.0) + del)).v();
    if r <= 0.0 {
        Err(2)
    } else {
        Ok(r)
    }
}
