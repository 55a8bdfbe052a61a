// The WGS84 ellipsoid in 30-digit fixed point (metres, radians).
module wgs {
  import lib.* from "./lib"
  import fx.* from "./fx"
  pure val WA = 6378137                                // semi-major axis [m]
  pure val WE2 = 6694379990141 * 10^15                 // first eccentricity squared (6.694379990141e-3)
  pure val WB = 63567523142 * 10^26                    // semi-minor axis 6356752.3142 m
  type P3 = { x: int, y: int, z: int }
  // prime-vertical radius of curvature
  pure def primeV(sinlat: int): int = fdv(WA * SC, fsqrt(SC - fmul(WE2, fsq(sinlat))))
  pure def toEcef(lat: int, lon: int, h: int): P3 = {
    pure val sp = fsin(lat)
    pure val cp = fcos(lat)
    pure val nv = primeV(sp)
    { x: fmul(fmul(nv + h, cp), fcos(lon)), y: fmul(fmul(nv + h, cp), fsin(lon)), z: fmul(fmul(nv, SC - WE2) + h, sp) } }
}
