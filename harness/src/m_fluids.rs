//! P02 on aether_fluids.
use crate::util::*;
use aether_fluids::*;
fn shape(cx: &Cx, o: usize) -> TankShape {
    let (r, l) = (cx.af(o + 1) / 256.0, cx.af(o + 2) / 256.0);
    if cx.i(o) == 0 { TankShape::Sphere { radius_m: r } } else { TankShape::Cylinder { radius_m: r, length_m: l } }
}
struct P02;
pub fn p02() -> Box<dyn Model> {
    Box::new(P02)
}
impl Model for P02 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let cx = &*cx;
        let e = |k: usize| cx.xf(k) / 1e30;
        let tol = 1e-14;
        match op {
            "limits" => {
                let spec = PropellantTankSpec { shape: shape(cx, 0), propellant_density_kg_m3: cx.af(3) / 16.0, fill_fraction: cx.af(4) / 1000.0 };
                let l = spec.limits();
                if cx.x(0) == 0 {
                    cx.near("limits/geometric_volume", l.geometric_volume_m3, e(1), 0.0, tol);
                    cx.near("limits/usable_volume", l.usable_volume_m3, e(2), 0.0, tol);
                    cx.near("limits/capacity", l.max_propellant_mass_kg, e(3), 0.0, tol);
                    cx.near("limits/shape_volume", spec.shape.volume_m3().max(0.0), e(1), 0.0, tol);
                } else {
                    cx.near("limits/usable_fraction", l.usable_volume_m3, l.geometric_volume_m3 * spec.fill_fraction.clamp(0.0, 1.0), 0.0, tol);
                    cx.near("limits/capacity_ratio", l.max_propellant_mass_kg, l.usable_volume_m3 * spec.propellant_density_kg_m3.max(0.0), 0.0, tol);
                }
                cx.check("limits/never_negative", l.geometric_volume_m3 >= 0.0 && l.usable_volume_m3 >= 0.0 && l.max_propellant_mass_kg >= 0.0, || format!("{:?}", l));
                let i = spec.shape.inertia_principal_cm_kg_m2(cx.af(5) / 64.0);
                for k in 0..3 {
                    cx.near("limits/inertia", i[k], e(4 + k), 0.0, tol);
                }
            }
            "agg" => {
                let v: Vec<TankMassState> = (0..cx.an() / 6).map(|t| TankMassState { shape: shape(cx, 6 * t), mass_kg: cx.af(6 * t + 5) / 64.0 }).collect();
                cx.near("agg/mass", aggregate_tank_mass_kg(&v), cx.xf(0) / 64.0, 0.0, tol);
                let i = aggregate_tank_inertia_principal_cm_kg_m2(&v);
                for k in 0..3 {
                    cx.near("agg/inertia", i[k], e(1 + k), 0.0, tol);
                }
            }
            _ => bad(op),
        }
    }
}
