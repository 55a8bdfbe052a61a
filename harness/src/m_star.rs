//! W02 on aether_catalogs::star_catalogs.
use crate::util::*;
use aether_catalogs::star_catalogs::color::gaia_color::*;
use aether_catalogs::star_catalogs::*;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};

const NONE: i128 = -1_000_000_000_000_000;
const COLS: [&str; 35] = [
    "gnc_id", "hip_id", "gaiadr3_id", "ra_2016", "de_2016", "e_ra_2016", "e_de_2016", "pmra", "pmde", "e_pmra", "e_pmde", "plx", "e_plx", "cat_2016",
    "gmag", "e_gmag", "bpmag", "e_bpmag", "rpmag", "e_rpmag", "jmag", "e_jmag", "hmag", "e_hmag", "kmag", "e_kmag", "flag_var", "flag_mult",
    "neighbor_id", "neighbor_distance_arcsec", "shift_arsec", "flag_shift", "flag_pos", "flag_pm", "flag_neighbor",
];
const TEXTS: [&str; 4] = ["GAIADR3", "HIPPARCOS", "a, \"b\"\nc", "GAIA DR2"];
fn is_text(c: usize) -> bool {
    matches!(c, 13 | 26 | 27 | 31..=34)
}
fn is_int(c: usize) -> bool {
    matches!(c, 0 | 1 | 2 | 28)
}
/// SHA-256 written from the standard, independent of the crate under test
fn sha256(m: &[u8]) -> String {
    let mut primes = Vec::new();
    let mut n = 2u64;
    while primes.len() < 64 {
        if primes.iter().all(|p| n % p != 0) {
            primes.push(n);
        }
        n += 1;
    }
    // fractional part of the k-th root, 32 bits
    let frac = |p: u64, cube: bool| -> u32 {
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        let want = if cube { (p as u128) << 96 } else { (p as u128) << 64 };
        while hi - lo > 1 {
            let mid = (lo + hi) / 2;
            let v = if cube { mid.checked_mul(mid).and_then(|x| x.checked_mul(mid)) } else { mid.checked_mul(mid) };
            if v.map_or(false, |v| v <= want) {
                lo = mid
            } else {
                hi = mid
            }
        }
        lo as u32
    };
    let k: Vec<u32> = primes.iter().map(|&p| frac(p, true)).collect();
    let mut h: Vec<u32> = primes[..8].iter().map(|&p| frac(p, false)).collect();
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 {
        d.push(0);
    }
    d.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    for b in d.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        for i in 16..64 {
            let a = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let c = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(a).wrapping_add(w[i - 7]).wrapping_add(c);
        }
        let mut s = [h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]];
        for i in 0..64 {
            let e1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
            let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
            let t1 = s[7].wrapping_add(e1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let e0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
            let mj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
            s = [t1.wrapping_add(e0.wrapping_add(mj)), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    h.iter().map(|x| format!("{:08x}", x)).collect()
}
fn base(i: usize) -> u8 {
    b'a' + (((i as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 40) % 26) as u8
}
pub struct W02 {
    dir: PathBuf,
    pos: Vec<usize>, // place of each column
    rev: bool,
    csv: Vec<u8>,
    rows: Vec<Vec<i128>>,
    blob: Vec<u8>,
    snaps: Vec<Vec<u8>>,
}
static N: AtomicUsize = AtomicUsize::new(0);
pub fn w02() -> Box<dyn Model> {
    let dir = std::env::temp_dir().join(format!("verif-w02-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&dir).unwrap_or_else(|_| bad("scratch directory"));
    Box::new(W02 { dir, pos: vec![], rev: false, csv: vec![], rows: vec![], blob: vec![], snaps: vec![] })
}
impl Drop for W02 {
    fn drop(&mut self) {
        for f in ["cat.csv", "blob"] {
            let _ = std::fs::remove_file(self.dir.join(f));
        }
        let _ = std::fs::remove_dir(&self.dir);
    }
}
fn cell(c: usize, v: i128) -> Vec<u8> {
    if v == NONE {
        return vec![];
    }
    if is_text(c) {
        let t = TEXTS[v as usize];
        return if t.contains('"') { format!("\"{}\"", t.replace('"', "\"\"")).into_bytes() } else { t.into() };
    }
    if is_int(c) {
        return v.to_string().into_bytes();
    }
    if c == 3 || c == 4 {
        return format!("{}{}.{:09}", if v < 0 { "-" } else { "" }, v.abs() / 1_000_000_000, v.abs() % 1_000_000_000).into_bytes();
    }
    format!("{}", v as f64 / 64.0).into_bytes()
}
fn num(c: usize, v: i128) -> f64 {
    if c == 3 || c == 4 {
        String::from_utf8(cell(c, v)).unwrap().parse().unwrap()
    } else {
        v as f64 / 64.0
    }
}
fn record(v: &[i128]) -> GncRecord {
    let u = |c: usize| v[c] as u64;
    let ou = |c: usize| if v[c] == NONE { None } else { Some(v[c] as u64) };
    let f = |c: usize| num(c, v[c]) as f32;
    let of = |c: usize| if v[c] == NONE { None } else { Some(num(c, v[c]) as f32) };
    let t = |c: usize| if v[c] == NONE { None } else { Some(TEXTS[v[c] as usize].to_string()) };
    GncRecord {
        gnc_id: u(0), hip_id: ou(1), gaiadr3_id: ou(2), ra_2016: num(3, v[3]), de_2016: num(4, v[4]), e_ra_2016: f(5), e_de_2016: f(6),
        pmra: of(7), pmde: of(8), e_pmra: of(9), e_pmde: of(10), plx: of(11), e_plx: of(12), cat_2016: t(13),
        gmag: of(14), e_gmag: of(15), bpmag: of(16), e_bpmag: of(17), rpmag: of(18), e_rpmag: of(19),
        jmag: of(20), e_jmag: of(21), hmag: of(22), e_hmag: of(23), kmag: of(24), e_kmag: of(25),
        flag_var: t(26), flag_mult: t(27), neighbor_id: u(28), neighbor_distance_arcsec: f(29), shift_arsec: of(30),
        flag_shift: t(31), flag_pos: t(32), flag_pm: t(33), flag_neighbor: t(34),
    }
}
impl W02 {
    fn put_csv(&self) -> PathBuf {
        let p = self.dir.join("cat.csv");
        std::fs::write(&p, &self.csv).unwrap_or_else(|_| bad("write"));
        p
    }
}
impl Model for W02 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let cx = &*cx;
        let e = |k: usize| cx.xf(k) / 1e30;
        let vals = || -> Vec<i128> { (0..35).map(|k| cx.i(k)).collect() };
        match op {
            "open" => {
                self.rev = cx.i(0) == 1;
                self.blob = (0..cx.us(1)).map(base).collect();
                self.snaps = vec![self.blob.clone()];
                self.pos = (0..35).map(|c| cx.us(2 + c)).collect();
                let mut h = vec![""; 35];
                for c in 0..35 {
                    h[self.pos[c]] = COLS[c];
                }
                self.csv = (h.join(",") + "\n").into_bytes();
            }
            "write" => {
                let (kind, col, cut, junk) = (cx.i(0), cx.us(1), cx.us(2), cx.us(3));
                let mut cells = vec![vec![]; 35];
                for c in 0..35 {
                    let mut t = cell(c, cx.i(4 + c));
                    if kind == 1 && c == col {
                        t = if is_int(c) { ["x", "-1", "1.5", "99999999999999999999", "1_0", "1e3", "nan", "--"][junk].into() } else { ["x", "--3", "1,5", "1.2.3", "0x10", "1e", "abc", "+-1"][junk].into() };
                        if t == b"1,5" {
                            t = b"\"1,5\"".to_vec();
                        }
                    }
                    if kind == 2 && c == col {
                        t = vec![];
                    }
                    if kind == 5 && c == col {
                        t = vec![b'A', 0xFF, 0xC3];
                    }
                    cells[self.pos[c]] = t;
                }
                cells.truncate(cut);
                if kind == 4 {
                    for i in 0..=junk {
                        cells.push(format!("extra{}", i).into_bytes());
                    }
                }
                self.csv.extend(cells.join(&b','));
                self.csv.extend(if junk % 3 == 0 { &b"\r\n"[..] } else { &b"\n"[..] });
                if junk == 7 {
                    self.csv.push(b'\n');
                }
                self.rows.push((0..35).map(|k| cx.x(k)).collect());
            }
            "load" => {
                let p = self.put_csv();
                let digest = sha256(&self.csv);
                let r = match cx.i(0) {
                    0 => GncCatalogReader::from_csv(&p),
                    1 => GncCatalogReader::from_csv_with_expected_sha256(&p, &digest),
                    2 => GncCatalogReader::from_csv_with_expected_sha256(&p, &digest.to_uppercase()),
                    3 => {
                        let wrong = sha256(b"something else");
                        let r = GncCatalogReader::from_csv_with_expected_sha256(&p, &wrong);
                        cx.check("load/wrong_digest_accepted", r.is_err(), || "loaded".into());
                        return;
                    }
                    _ => {
                        cx.check("load/official_digest_accepted", GncCatalogReader::from_csv_verified_v1_1(&p).is_err(), || "loaded".into());
                        let gone = self.dir.join("missing.csv");
                        cx.check("load/missing_file", GncCatalogReader::from_csv(&gone).is_err() && GncCatalogReader::verify_catalog_checksum(&gone, &digest).is_err(), || "ok".into());
                        return;
                    }
                };
                let r = match r {
                    Ok(r) => r.records,
                    Err(er) => {
                        cx.fail("load/is_error", er.to_string());
                        return;
                    }
                };
                cx.eq_i("load/count", r.len() as i128, cx.en() as i128);
                for (k, g) in r.iter().enumerate().take(cx.en()) {
                    let w = record(&self.rows[cx.x(k) as usize]);
                    if format!("{:?}", g) != format!("{:?}", w) {
                        cx.fail("load/record", format!("{:?} want {:?}", g, w));
                        break;
                    }
                }
            }
            // the body of the file several times over
            "bulk" => {
                let p = self.dir.join("cat.csv");
                let at = self.csv.iter().position(|b| *b == b'\n').unwrap_or(0) + 1;
                let mut all = self.csv[..at].to_vec();
                for _ in 0..cx.us(0) {
                    all.extend(&self.csv[at..]);
                }
                std::fs::write(&p, &all).unwrap_or_else(|_| bad("write"));
                match GncCatalogReader::from_csv_with_expected_sha256(&p, &sha256(&all)) {
                    Ok(r) => {
                        let r = r.records;
                        cx.eq_i("bulk/count", r.len() as i128, cx.x(0));
                        let want: Vec<String> = (1..cx.en()).map(|k| format!("{:?}", record(&self.rows[cx.x(k) as usize]))).collect();
                        for (k, g) in r.iter().enumerate().take(cx.x(0) as usize) {
                            let w = &want[k % want.len()];
                            if format!("{:?}", g) != *w {
                                cx.fail("bulk/record", format!("row {}: {:?} want {}", k, g, w));
                                break;
                            }
                        }
                    }
                    Err(er) => cx.fail("bulk/is_error", er.to_string()),
                }
            }
            "swap" => {
                let p = self.put_csv();
                let at = self.csv.iter().position(|b| *b == b'\n').unwrap_or(0) + 1;
                let mut other = self.csv[..at].to_vec();
                for _ in 0..cx.us(2) {
                    other.extend(&self.csv[at..]);
                }
                let digest = sha256(if cx.i(3) == 0 { &self.csv } else { &other });
                let (q, tmp, inplace) = (p.clone(), self.dir.join("other.csv"), cx.i(1) == 1);
                std::fs::write(&tmp, &other).unwrap_or_else(|_| bad("write"));
                let act = move || if inplace { std::fs::write(&q, &other) } else { std::fs::rename(&tmp, &q) }.unwrap_or_else(|_| bad("swap"));
                let r = crate::intrude::during(cx.i(0) as i64, act, || GncCatalogReader::from_csv_with_expected_sha256(&p, &digest).ok());
                if let Some(r) = r {
                    let r = r.records;
                    cx.eq_i("swap/count", r.len() as i128, cx.x(0));
                    for (k, g) in r.iter().enumerate().take(cx.x(0) as usize) {
                        let w = format!("{:?}", record(&self.rows[cx.x(1 + k % (cx.en() - 1)) as usize]));
                        if format!("{:?}", g) != w {
                            cx.fail("swap/record", format!("row {}: {:?} want {}", k, g, w));
                            break;
                        }
                    }
                }
            }
            "flip" => self.blob[cx.us(0)] ^= 1,
            "resize" => {
                let n = cx.us(0);
                self.blob.truncate(n);
                for i in self.blob.len()..n {
                    self.blob.push(base(i));
                }
            }
            "remember" => self.snaps.push(self.blob.clone()),
            "verify" => {
                let p = self.dir.join("blob");
                std::fs::write(&p, &self.blob).unwrap_or_else(|_| bad("write"));
                let mut d = sha256(&self.snaps[cx.us(0)]);
                match cx.i(1) {
                    0 => {}
                    1 => d = d.to_uppercase(),
                    2 => d = d.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
                    3 => {
                        let i = cx.us(2);
                        let c = u8::from_str_radix(&d[i..i + 1], 16).unwrap() ^ 1;
                        d.replace_range(i..i + 1, &format!("{:x}", c));
                    }
                    4 => d.truncate(cx.us(2)),
                    _ => d.push('0'),
                }
                cx.eq_b("verify/decision", GncCatalogReader::verify_catalog_checksum(&p, &d).is_ok(), cx.x(0) == 1);
            }
            "sample" => {
                let v = vals();
                let r = record(&v);
                let t = cx.af(35) / 1024.0;
                let s = r.icrs_sample(t);
                cx.eq_f("sample/epoch", s.epoch, t);
                let known = cx.x(0) == 1;
                let dist = e(1);
                let p = s.icrs_position_au;
                let n = (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt();
                cx.near("sample/distance", n, dist, 0.0, 3e-9);
                for i in 0..3 {
                    cx.near("sample/direction", p[i] / n, e(2 + i), 2e-13, 0.0);
                }
                if known {
                    let mu = e(5).hypot(e(6)).hypot(e(7));
                    for i in 0..3 {
                        cx.near("sample/velocity", s.icrs_velocity_au_per_yr[i] / dist, e(5 + i), 4e-9 * mu + 1e-25, 0.0);
                    }
                } else {
                    cx.check("sample/velocity_finite", s.icrs_velocity_au_per_yr.iter().all(|x| x.is_finite()), || format!("{:?}", s));
                }
                let dt = (t - 1991.25).abs().max(24.75);
                for (k, (n, u, em)) in [("ra", s.uncertainty_ra_mas, v[9]), ("dec", s.uncertainty_dec_mas, v[10])].into_iter().enumerate() {
                    let want = cx.xf(8 + k) / 4096.0 / 1048576.0;
                    let em = if em == NONE { 0.0 } else { em as f64 / 64.0 };
                    cx.check(&format!("sample/uncertainty_{}", n), u >= 0.0 && (u * u - want).abs() <= 1e-12 * (want + em * em * dt * dt) + 1e-20, || format!("{} squared {} want {}", u, u * u, want));
                }
            }
            "colour" => {
                let r = record(&vals());
                let c = r.photometric_color();
                cx.eq_b("colour/presence", c.is_some(), cx.x(0) == 1);
                let x = r.random_color();
                cx.check("colour/random", x.map_or(false, |x| x.rgb.iter().all(|v| (0.0..=1.0).contains(v))), || "outside".into());
                if let (Some(c), 1) = (c, cx.x(0)) {
                    cx.check("colour/magnitudes", Some(c.gmag) == r.gmag && Some(c.bpmag) == r.bpmag && Some(c.rpmag) == r.rpmag, || format!("{:?}", c));
                    let q = r.bpmag.unwrap() - r.rpmag.unwrap();
                    let teff = e(1);
                    cx.near("colour/temperature", bp_rp_to_teff(q) as f64, teff, 0.02, 1e-6);
                    let jump = if (teff - 6600.0).abs() < 1.0 { 0.05 } else { 0.0 };
                    for i in 0..3 {
                        cx.near("colour/blackbody", blackbody_to_rgb(bp_rp_to_teff(q))[i] as f64, e(2 + i), 1e-5 + jump, 0.0);
                        cx.near("colour/srgb", bp_rp_to_rgb(q, false)[i] as f64, e(5 + i), 2e-5 + jump, 0.0);
                        cx.near("colour/linear", bp_rp_to_rgb(q, true)[i] as f64, e(8 + i), 5e-5 + 3.0 * jump, 0.0);
                        cx.near("colour/sample", c.rgb[i] as f64, e(8 + i), 5e-5 + 3.0 * jump, 0.0);
                        cx.check("colour/range", (0.0..=1.0).contains(&c.rgb[i]), || format!("{:?}", c));
                    }
                }
            }
            "infrared" => {
                let r = record(&vals());
                match r.photometric_infrared_rgb() {
                    Some(GncCatalogInfraredColor::From2Mass { rgb, j, h, k }) => {
                        cx.eq_i("infrared/presence", 1, cx.x(0));
                        cx.check("infrared/magnitudes", Some(j) == r.jmag && Some(h) == r.hmag && Some(k) == r.kmag, || "differ".into());
                        if cx.x(0) == 1 {
                            for i in 0..3 {
                                cx.near("infrared/rgb", rgb[i] as f64, cx.xf(1 + i) / 512.0, 1e-6, 0.0);
                            }
                        }
                    }
                    Some(GncCatalogInfraredColor::Missing) => cx.eq_i("infrared/presence", 0, cx.x(0)),
                    None => cx.fail("infrared/none", "None".into()),
                }
            }
            _ => bad("op"),
        }
    }
}
