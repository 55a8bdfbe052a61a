//! W01 on aether_catalogs::wmm.
use crate::util::*;
use aether_catalogs::wmm::*;
struct W01 {
    m: WorldMagneticModel,
}
pub fn w01() -> Box<dyn Model> {
    Box::new(W01 { m: WorldMagneticModel::embedded() })
}
impl Model for W01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let cx = &*cx;
        let m = &self.m;
        let e = |k: usize| cx.xf(k) / 1e30;
        match op {
            "table" => {
                let r = m.records();
                cx.eq_i("table/count", r.len() as i128, 90);
                cx.eq_f("table/epoch", m.header.epoch, 2025.0);
                let d = WorldMagneticModel::default();
                cx.check("table/default", d.records() == r && d.header == m.header && d.max_degree == m.max_degree, || "default() is another model".into());
                cx.eq_i("table/degree", m.max_degree as i128, 12);
                cx.near("table/reference_radius", wmm_reference_radius_m(), 6371200.0, 1e-6, 0.0);
                cx.near("table/mean_radius", wgs84_mean_radius_m(), 6371008.7714150598, 1e-5, 0.0);
                for k in 0..90 {
                    let x = r.iter().find(|x| x.degree == cx.us(6 * k) && x.order == cx.us(6 * k + 1));
                    match x {
                        None => cx.fail("table/missing", format!("{} {}", cx.us(6 * k), cx.us(6 * k + 1))),
                        Some(x) => {
                            for (i, v) in [x.g_nm_nt, x.h_nm_nt, x.g_dot_nm_nt_per_year, x.h_dot_nm_nt_per_year].into_iter().enumerate() {
                                cx.near("table/coefficient", v, cx.af(6 * k + 2 + i) / 10.0, 1e-9, 0.0);
                            }
                        }
                    }
                }
                let c = m.coefficients_at(2026.5);
                cx.check("table/out_of_range", c.g(13, 0) == 0.0 && c.h(3, 4) == 0.0 && c.g_dot(13, 13) == 0.0 && c.h_dot(0, 1) == 0.0 && c.g(0, 0) == 0.0, || "nonzero".into());
            }
            "coeff" => {
                let c = m.coefficients_at(cx.af(0) / 1000.0);
                let (n, o) = (cx.us(1), cx.us(2));
                for (w, v, x) in [("g", c.g(n, o), cx.xf(0) / 1e4), ("h", c.h(n, o), cx.xf(1) / 1e4), ("g_dot", c.g_dot(n, o), cx.xf(2) / 10.0), ("h_dot", c.h_dot(n, o), cx.xf(3) / 10.0)] {
                    cx.near(&format!("coeff/{}", w), v, x, 1e-8, 0.0);
                }
            }
            "pole" => {
                let s = if cx.i(0) == 0 { 1.0 } else { -1.0 };
                for lat in [s * std::f64::consts::FRAC_PI_2, s * std::f64::consts::FRAC_PI_2 - s * 1e-14] {
                    let r = m.evaluate(cx.af(3) / 1000.0, GeodeticPoint::new(lat, cx.af(1) * 1e-15, cx.af(2) / 1000.0));
                    cx.check("pole/is_error", r.is_err(), || format!("{:?}", r));
                }
            }
            "eval" => {
                let year = cx.af(3) / 1000.0;
                let p = GeodeticPoint::new(cx.af(0) * 1e-15, cx.af(1) * 1e-15, cx.af(2) / 1000.0);
                let (r, sp, cp) = (e(0), e(1), e(2));
                let pd = GeodeticPoint::from_degrees(cx.af(0) * 1e-15 * 180.0 / std::f64::consts::PI, cx.af(1) * 1e-15 * 180.0 / std::f64::consts::PI, p.height_m);
                cx.near("eval/from_degrees_latitude", pd.latitude_rad, p.latitude_rad, 1e-15, 1e-15);
                cx.near("eval/from_degrees_longitude", pd.longitude_rad, p.longitude_rad, 1e-15, 1e-15);
                cx.check("eval/from_degrees_height", pd.height_m == p.height_m, || format!("{:?}", pd));
                let x = match m.evaluate(year, p) {
                    Ok(x) => x,
                    Err(er) => {
                        if cp > 5e-8 {
                            cx.fail("eval/is_error", format!("{:?}", er));
                        }
                        return;
                    }
                };
                let c = m.coefficients_at(year);
                cx.check("eval/same_coefficients", m.evaluate_with_coefficients(&c, p) == Ok(x), || format!("{:?}", x));
                cx.check("eval/echo", x.geodetic == p && x.decimal_year == year && x.geocentric.longitude_rad == p.longitude_rad, || format!("{:?}", x));
                cx.near("eval/radius", x.geocentric.radius_m, r, 1e-8, 1e-14);
                cx.near("eval/geocentric_latitude", x.geocentric.latitude_rad, sp.atan2(cp), 1e-14 + 3e-16 / cp, 0.0);
                let dt = (year - 2025.0).abs() / 50.0 + 1.0;
                let tol = (5e-6 + 2e-8 / cp) * dt;
                let f = [x.field_ned_nt.x(), x.field_ned_nt.y(), x.field_ned_nt.z()];
                let d = [x.secular_variation_ned_nt_per_year.x(), x.secular_variation_ned_nt_per_year.y(), x.secular_variation_ned_nt_per_year.z()];
                for (i, n) in ["north", "east", "down"].iter().enumerate() {
                    cx.near(&format!("eval/field_{}", n), f[i], e(3 + i), tol, 0.0);
                    cx.near(&format!("eval/rate_{}", n), d[i], e(6 + i), tol * 1e-2, 0.0);
                }
                let hh = f[0].hypot(f[1]);
                let tt = hh.hypot(f[2]);
                cx.near("eval/horizontal", x.horizontal_intensity_nt, hh, 0.0, 1e-13);
                cx.near("eval/total", x.total_intensity_nt, tt, 0.0, 1e-13);
                cx.near("eval/declination", x.declination_rad, f[1].atan2(f[0]), 1e-14, 0.0);
                cx.near("eval/inclination", x.inclination_rad, f[2].atan2(hh), 1e-14, 0.0);
                let hd = (f[0] * d[0] + f[1] * d[1]) / hh;
                cx.near("eval/horizontal_rate", x.horizontal_intensity_rate_nt_per_year, hd, 1e-10, 0.0);
                cx.near("eval/total_rate", x.total_intensity_rate_nt_per_year, (f[0] * d[0] + f[1] * d[1] + f[2] * d[2]) / tt, 1e-10, 0.0);
                cx.near("eval/declination_rate", x.declination_rate_rad_per_year, (f[0] * d[1] - f[1] * d[0]) / (hh * hh), 1e-10 / hh, 0.0);
                cx.near("eval/inclination_rate", x.inclination_rate_rad_per_year, (hh * d[2] - f[2] * hd) / (tt * tt), 1e-10 / tt, 0.0);
            }
            _ => bad(op),
        }
    }
}
