// G03: the ICAO standard atmosphere and the US Standard Atmosphere 1976 as layered models.
// The state is an altitude that climbs and sinks through the layers.  Temperature is the layer
// profile; pressure is integrated hydrostatically from sea level through the layers (not read from
// the crate's tables); both are compared with the crate on the same altitude.
module g03 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  var h: int        // millimetres
  var out: List[Ev]

  pure val R0 = 6356766
  pure val G0 = 980665 * 10^25                 // 9.80665 m/s^2
  type Layer = { z: int, t: int, l: int }      // base [m], base temperature [cK], lapse rate [0.1 mK/m]
  pure val LAYERS: List[Layer] = [ { z: 0, t: 28815, l: -65 }, { z: 11000, t: 21665, l: 0 }, { z: 20000, t: 21665, l: 10 }, { z: 32000, t: 22865, l: 28 },
    { z: 47000, t: 27065, l: 0 }, { z: 51000, t: 27065, l: -28 }, { z: 71000, t: 21465, l: -20 } ]
  // index of the layer of geopotential altitude H [um]
  pure def layer(H: int): int = range(1, LAYERS.length()).foldl(0, (a, i) => if (H >= LAYERS[i].z * 10^6) i else a)
  pure def tAt(i: int, H: int): int = LAYERS[i].t * SC / 100 + LAYERS[i].l * (H - LAYERS[i].z * 10^6) * 10^20      // um * 1e-4 K/m
  // pressure ratio from the base of layer i up to H, gas constant r
  pure def ratio(i: int, H: int, r: int): int =
    if (LAYERS[i].l == 0) fexp(-fdv(G0 * (H - LAYERS[i].z * 10^6) / 10^6, r * LAYERS[i].t / 100))
    else fpow(fdv(LAYERS[i].t * SC / 100, tAt(i, H)), fdv(G0, r * LAYERS[i].l / 10000))
  pure def bases(r: int): List[int] = range(1, LAYERS.length()).foldl([101325 * SC], (l, i) => l.append(fmul(l[i - 1], ratio(i - 1, LAYERS[i].z * 10^6, r))))
  pure val RISA = 28705287 * 10^25             // 287.05287
  pure val RUS = fdv(831432 * 10^28, 289644 * 10^26)      // 8314.32 / 28.9644
  pure val BISA = bases(RISA)
  pure val BUS = bases(RUS)
  pure def pAt(H: int, r: int, b: List[int]): int = { pure val i = layer(H) fmul(b[i], ratio(i, H, r)) }

  // geometric millimetres -> geopotential micrometres, and back
  pure def geopot(z: int): int = R0 * 1000 * z * 1000 / (R0 * 1000 + z)
  pure def geomet(H: int): int = R0 * 1000 * H * 1000 / (R0 * 1000 - H)       // mm -> um
  // US 1976 kinetic temperature (molecular scale below 86 km), geometric mm
  pure def tUs(z: int): int =
    if (z < 86000000) { pure val H = geopot(z) tAt(layer(H), H) }
    else if (z < 91000000) 186867300 * 10^24
    else if (z < 110000000) { pure val q = fq(z - 91000000, 19942900) 2631905 * 10^26 - fmul(763232 * 10^26, fsqrt(SC - fsq(q))) }
    else if (z < 120000000) 240 * SC + 12 * (z - 110000000) * 10^24
    else 1000 * SC - fmul(640 * SC, fexp(-fmul(1875 * 10^25, fq((z - 120000000) * (R0 + 120000), (R0 * 1000 + z) * 1000)))) 
  // tabulated pressures of the upper layers (1e-11 Pa)
  pure val UPZ = [86000, 91000, 110000, 120000, 500000, 1000000]
  pure val UPP = [37338000000, 15381000000, 710420000, 253820000, 30236, 751]

  pure def usEv(z: int): Ev = {
    pure val below = z < 86000000
    pure val i = range(1, 5).foldl(0, (a, k) => if (z >= UPZ[k] * 1000) k else a)
    pure val node = range(0, 6).foldl(0, (a, k) => if (z == UPZ[k] * 1000) 1 else a)
    ev("ussa", [z], [b2i(below), tUs(z), if (below) pAt(geopot(z), RUS, BUS) else UPP[i] * 10^19, if (below) 0 else UPP[i + 1] * 10^19, node]) }
  pure def isaEv(z: int): Ev =     // z: geopotential mm
    ev("isa", [z], [{ tAt(layer(z * 1000), z * 1000) }, pAt(z * 1000, RISA, BISA)])
  // an altitude in mm up to a limit [m], often at or next to a layer boundary of the list
  pure def alt(s: int, bs: List[int], lo: int, hi: int): int = {
    pure val k = hh(s, 50) % 8
    pure val b = pick(s, 51, bs) * 1000
    pure val z = if (k == 0) b else if (k == 1) b + 1 else if (k == 2) b - 1 else if (k == 3) b + rnd(s, 52, -100000, 100000)
      else if (k == 4) rnd(s, 53, 0, 100000000) else rnd(s, 53, lo * 1000, hi * 1000)
    imax(lo * 1000, imin(hi * 1000, z)) }
  pure val USB = [0, 11019, 20063, 32162, 47350, 51413, 71802, 86000, 91000, 110000, 120000, 500000, 1000000]
  pure val ISB = [-5000, 0, 11000, 20000, 32000, 47000, 51000, 71000, 80000]

  action init = all { h' = 0, out' = [usEv(0)] }
  action ussa = { nondet s = 0.to(2^62).oneOf() val z = alt(s, USB, -5000, 1000000) all { h' = z, out' = [usEv(z)] } }
  action low = { nondet s = 0.to(2^62).oneOf() val z = alt(s, USB, -5000, 86000) all { h' = z, out' = [usEv(z)] } }
  action isa = { nondet s = 0.to(2^62).oneOf() val z = alt(s, ISB, -5000, 80000) all { h' = z, out' = [isaEv(z)] } }
  // climbing from the current altitude never raises pressure, and altitude is continuous across a step of 1 mm
  action climb = {
    nondet s = 0.to(2^62).oneOf()
    val z0 = imax(-5000000, imin(h, 1000000000))
    val z1 = imin(1000000000, z0 + pick(s, 1, [1, 1000, rnd(s, 2, 1, 10^6), rnd(s, 2, 1, 10^8)]))
    all { h' = z1, out' = [ev("climb", [z0, z1], List())] }
  }
  // a layer boundary seen from both sides
  action join = {
    nondet s = 0.to(2^62).oneOf()
    nondet us = Set(0, 1).oneOf()
    all { h' = h, out' = [ev("join", [us, if (us == 1) pick(s, 1, USB.slice(1, 12)) else pick(s, 1, ISB.slice(1, 8))], List())] }
  }
  action alts = {
    nondet s = 0.to(2^62).oneOf()
    val z = pick(s, 1, [0, rnd(s, 2, -10^7, 10^8), rnd(s, 2, -10^7, 10^9)])
    val g = fmul(G0, fsq(fq(R0 * 1000, R0 * 1000 + z)))
    all { h' = h, out' = [ev("alts", [z], [geopot(z), geomet(z), g])] }
  }
  action outside = {
    nondet s = 0.to(2^62).oneOf()
    all { h' = h, out' = [ev("outside", [hh(s, 1) % 6, rnd(s, 2, 1, 10^9)], List())] }
  }
  action step = any { ussa, ussa, low, low, isa, isa, climb, join, alts, outside }
  // sanity of the model itself: the layers join, and sea-level values are the standard ones
  val inv = range(1, LAYERS.length()).foldl(true, (b, i) => b and tAt(i - 1, LAYERS[i].z * 10^6) == tAt(i, LAYERS[i].z * 10^6))
    and iabs(tUs(110000000) - 240 * SC) < 10^27 and iabs(tUs(120000000) - 360 * SC) < 10^10
    and iabs(BISA[1] - 2263204 * 10^28) < 10^28 and iabs(BISA[6] - 395639 * 10^25) < 10^25 
}
