//! V02 on aether_viz: the drawings in the written SVG files.
use crate::util::*;
use aether_viz::realtime::*;
use aether_viz::{plot, plot_error_on_grid, plot_series, PlotStyle, XYSeries};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

static N: AtomicU64 = AtomicU64::new(0);
const TITLES: [&str; 3] = ["t", "A <b> & \"c\"", "H\u{f6}he > 1"];
const XL: [&str; 2] = ["time [s]", "x & y"];
const YL: [&str; 2] = ["value", "<f(x)>"];
const LABELS: [&str; 5] = ["alpha", "b<c", "x & y", "\"q\"", "\u{e9}"];

pub fn v02() -> Box<dyn Model> {
    let base = std::env::var("REPLAY_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let dir = PathBuf::from(base).join(format!("v02_{}_{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&dir).unwrap_or_else(|_| bad("scratch"));
    Box::new(V02 { dir, ids: [0, 0], known: [None, None] })
}
struct V02 {
    dir: PathBuf,
    ids: [i128; 2],                 // drawing the real files are known to hold
    known: [Option<Vec<u8>>; 2],    // their content when it was written
}
impl Drop for V02 {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

#[derive(Default, Debug)]
struct Txt {
    x: f64,
    y: f64,
    anchor: String,
    rotated: bool,
    s: String,
}
#[derive(Default, Debug)]
struct Group {
    color: String,
    line: bool,
    pts: Vec<(f64, f64)>,
}
#[derive(Default, Debug)]
struct Svg {
    frame: [f64; 4], // left, right, top, bottom
    groups: Vec<Group>,
    last_black: Vec<(f64, f64)>,
    texts: Vec<Txt>,
    legend: Vec<(String, String)>, // label, colour of its marker
    legend_rects: usize,
    whole: bool,
}

fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&#39;", "'").replace("&amp;", "&")
}
fn attr(tag: &str, name: &str) -> Option<String> {
    let key = format!(" {}=\"", name);
    let a = tag.find(&key)? + key.len();
    let b = tag[a..].find('"')? + a;
    Some(unescape(&tag[a..b]))
}
fn num(tag: &str, name: &str) -> f64 {
    attr(tag, name).and_then(|s| s.parse().ok()).unwrap_or(f64::NAN)
}
fn points(tag: &str) -> Vec<(f64, f64)> {
    attr(tag, "points")
        .unwrap_or_default()
        .split_whitespace()
        .filter_map(|p| p.split_once(',').map(|(a, b)| (a.parse().unwrap_or(f64::NAN), b.parse().unwrap_or(f64::NAN))))
        .collect()
}
fn dark(c: &str) -> bool {
    c == "#000000"
}

fn parse(text: &str) -> Svg {
    let mut v = Svg { whole: text.trim_start().starts_with("<svg") && text.trim_end().ends_with("</svg>"), ..Default::default() };
    let (mut vert, mut hor) = (None::<(f64, f64, f64)>, None::<(f64, f64, f64)>);
    let mut rects = 0;
    let mut markers: Vec<(f64, String)> = vec![];
    let mut legtexts: Vec<(f64, String)> = vec![];
    for piece in text.split('<').skip(1) {
        let (tag, body) = piece.split_once('>').unwrap_or((piece, ""));
        let name = tag.split_whitespace().next().unwrap_or("");
        match name {
            "rect" => {
                rects += 1;
                if rects > 1 {
                    v.legend_rects += 1;
                }
            }
            "polyline" => {
                let p = points(tag);
                let c = attr(tag, "stroke").unwrap_or_default();
                if dark(&c) {
                    if p.len() == 2 && v.legend_rects == 0 {
                        let (a, b) = (p[0], p[1]);
                        if a.0 == b.0 && vert.map_or(true, |w| (a.1 - b.1).abs() > w.2 - w.1) && hor.is_none() {
                            vert = Some((a.0, a.1.min(b.1), a.1.max(b.1)));
                        }
                        if a.1 == b.1 && (a.0 - b.0).abs() > 100.0 && hor.is_none() {
                            hor = Some((a.1, a.0.min(b.0), a.0.max(b.0)));
                        }
                    }
                    v.last_black = p;
                } else if v.legend_rects > 0 {
                    markers.push((p.iter().map(|q| q.1).sum::<f64>() / p.len().max(1) as f64, c));
                } else {
                    match v.groups.iter_mut().find(|g| g.color == c) {
                        Some(g) => g.pts.extend(p),
                        None => v.groups.push(Group { color: c, line: true, pts: p }),
                    }
                }
            }
            "circle" => {
                let c = attr(tag, "fill").unwrap_or_default();
                let q = (num(tag, "cx"), num(tag, "cy"));
                if v.legend_rects > 0 {
                    markers.push((q.1, c));
                } else {
                    match v.groups.iter_mut().find(|g| g.color == c) {
                        Some(g) => g.pts.push(q),
                        None => v.groups.push(Group { color: c, line: false, pts: vec![q] }),
                    }
                }
            }
            "text" => {
                let t = Txt {
                    x: num(tag, "x"),
                    y: num(tag, "y"),
                    anchor: attr(tag, "text-anchor").unwrap_or_default(),
                    rotated: tag.contains("rotate("),
                    s: unescape(body.trim_matches(|c| c == '\n' || c == '\r')),
                };
                if v.legend_rects > 0 {
                    legtexts.push((t.y, t.s));
                } else {
                    v.texts.push(t);
                }
            }
            _ => {}
        }
    }
    if let (Some(a), Some(b)) = (vert, hor) {
        v.frame = [b.1, b.2, a.1, a.2];
    }
    for (k, (y, s)) in legtexts.into_iter().enumerate() {
        // the marker on the same row as the text
        let near = |m: &&(f64, String)| (m.0 - y).abs();
        let c = if markers.is_empty() { String::new() } else { markers.iter().min_by(|p, q| near(p).partial_cmp(&near(q)).unwrap()).unwrap().1.clone() };
        let _ = k;
        v.legend.push((s, c));
    }
    v
}

fn value(v: i128, e: i32) -> f64 {
    let c = 1i128 << 40;
    match v - c {
        1 => f64::NAN,
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        _ => v as f64 * 2f64.powi(e),
    }
}

/// pixel = a + b * u over the whole drawing; u in [0, 1e9] (all zero when the data box is flat)
fn fit(us: &[f64], px: &[f64]) -> (f64, f64) {
    let lo = (0..us.len()).min_by(|&i, &j| us[i].partial_cmp(&us[j]).unwrap()).unwrap();
    let hi = (0..us.len()).max_by(|&i, &j| us[i].partial_cmp(&us[j]).unwrap()).unwrap();
    if us[hi] == us[lo] {
        return (px[lo], 0.0);
    }
    let b = (px[hi] - px[lo]) / (us[hi] - us[lo]);
    (px[lo] - b * us[lo], b)
}

impl V02 {
    fn path(&self, mode: i128) -> Option<String> {
        match mode {
            0 | 1 => Some(self.dir.join(format!("plot{}.svg", mode)).to_str().unwrap_or_else(|| bad("path")).to_string()),
            2 => None,
            _ => Some(self.dir.join("nowhere").join("p.svg").to_str().unwrap_or_else(|| bad("path")).to_string()),
        }
    }
    fn read(&self, k: usize) -> Option<Vec<u8>> {
        std::fs::read(self.dir.join(format!("plot{}.svg", k))).ok()
    }
    /// the answer of a request and, when it was drawn, the parsed file
    fn answered(&mut self, cx: &mut Cx, mode: i128, id: i128, silent: bool, r: std::thread::Result<Result<(), String>>) -> Option<Svg> {
        let want = cx.x(0) == 1;
        let said = match &r {
            Ok(Ok(())) => true,
            _ => false,
        };
        if !silent || want {
            cx.check("answer", said == want, || format!("request answered {:?}, want {}", r.as_ref().map_err(|_| "panic"), if want { "a drawing" } else { "a refusal" }));
        }
        if mode >= 2 {
            return None;
        }
        let k = mode as usize;
        let now = self.read(k);
        if !want {
            cx.check("untouched", now == self.known[k], || format!("a request that draws nothing changed file {}", k));
            return None;
        }
        self.ids[k] = id;
        self.known[k] = now.clone();
        let text = match now.map(String::from_utf8) {
            Some(Ok(t)) => t,
            _ => {
                cx.fail("file", format!("no readable drawing in file {}", k));
                return None;
            }
        };
        let v = parse(&text);
        cx.check("whole", v.whole && text.matches("<svg").count() == 1, || "the file is not one complete SVG document".into());
        if v.frame[1] - v.frame[0] < 50.0 || v.frame[3] - v.frame[2] < 50.0 {
            cx.fail("axes", format!("no axes found: {:?}", v.frame));
            return None;
        }
        Some(v)
    }
    /// all points of the drawing against the normalised coordinates, under one axis-parallel map
    fn placed(cx: &Cx, v: &Svg, us: &[f64], vs: &[f64], px: &[(f64, f64)], fill: bool) -> ((f64, f64), (f64, f64)) {
        let xs: Vec<f64> = px.iter().map(|p| p.0).collect();
        let ys: Vec<f64> = px.iter().map(|p| p.1).collect();
        let (a, b) = fit(us, &xs);
        let (c, d) = fit(vs, &ys);
        for k in 0..us.len() {
            let gx = (xs[k] - (a + b * us[k])).abs();
            let gy = (ys[k] - (c + d * vs[k])).abs();
            cx.check("placed", gx <= 1.6 && gy <= 1.6, || format!("point {} drawn at {:?}, ({:.1}, {:.1}) by the other points", k, px[k], a + b * us[k], c + d * vs[k]));
            let inside = xs[k] >= v.frame[0] - 2.0 && xs[k] <= v.frame[1] + 2.0 && ys[k] >= v.frame[2] - 2.0 && ys[k] <= v.frame[3] + 2.0;
            cx.check("inside", inside, || format!("point {} drawn at {:?}, outside the axes {:?}", k, px[k], v.frame));
        }
        if fill {
            let (w, h) = (v.frame[1] - v.frame[0], v.frame[3] - v.frame[2]);
            let flat = |u: &[f64]| u.iter().all(|t| *t == u[0]);
            if !flat(us) {
                cx.check("x span", b * 1e9 > 0.5 * w, || format!("the data spans {:.0} of {:.0} pixels in x", b * 1e9, w));
            }
            if !flat(vs) {
                cx.check("y span", -d * 1e9 > 0.5 * h, || format!("the data spans {:.0} of {:.0} pixels in y (y grows upwards)", -d * 1e9, h));
            }
        }
        ((a, b), (c, d))
    }
    fn ticks(cx: &Cx, v: &Svg, x: bool, lo: f64, hi: f64, m: (f64, f64)) {
        let mut all: Vec<(f64, f64)> = vec![];
        for t in &v.texts {
            let is = if x { t.anchor == "middle" && !t.rotated && t.y > v.frame[3] } else { t.anchor == "end" && t.x < v.frame[0] };
            if is {
                if let Ok(n) = t.s.trim().parse::<f64>() {
                    all.push((n, if x { t.x } else { t.y }));
                }
            }
        }
        cx.check("tick count", all.len() >= 2, || format!("{} tick labels on the {} axis", all.len(), if x { "x" } else { "y" }));
        if hi == lo {
            return;
        }
        for (n, p) in all {
            let want = m.0 + m.1 * ((n - lo) / (hi - lo) * 1e9);
            // labels are rounded to the digits they show
            cx.check("tick", (want - p).abs() <= 3.0, || format!("tick {} of the {} axis at pixel {}, its value lies at {:.1}", n, if x { "x" } else { "y" }, p, want));
        }
    }
    fn words(cx: &Cx, v: &Svg, want: &[&str]) {
        for w in want {
            cx.check("words", v.texts.iter().any(|t| t.s == *w), || format!("{:?} is not in the drawing: {:?}", w, v.texts.iter().map(|t| &t.s).collect::<Vec<_>>()));
        }
        for t in &v.texts {
            let ok = want.contains(&t.s.as_str()) || t.s.trim().parse::<f64>().is_ok();
            cx.check("extra words", ok, || format!("unexpected text {:?}", t.s));
        }
    }
    fn drawn(cx: &Cx, v: &Svg, words: &[&str], label: &dyn Fn(i128) -> String, scale: (i128, i128)) {
        let n = cx.x(5) as usize;
        cx.check("series", v.groups.len() == n, || format!("{} series drawn, want {}", v.groups.len(), n));
        if v.groups.len() != n {
            return;
        }
        let (mut us, mut vs, mut px) = (vec![], vec![], vec![]);
        let mut want_leg = vec![];
        let mut k = 6;
        for g in &v.groups {
            let m = cx.x(k + 2) as usize;
            cx.check("style", g.line == (cx.x(k) == 0), || format!("series drawn as {}", if g.line { "a line" } else { "points" }));
            if cx.x(k + 1) >= 0 {
                want_leg.push((label(cx.x(k + 1)), g.color.clone()));
            }
            cx.check("points", g.pts.len() == m, || format!("{} points drawn, want {}", g.pts.len(), m));
            if g.pts.len() != m {
                return;
            }
            k += 3;
            for p in &g.pts {
                us.push(cx.xf(k));
                vs.push(cx.xf(k + 1));
                px.push(*p);
                k += 2;
            }
        }
        let (mx, my) = Self::placed(cx, v, &us, &vs, &px, true);
        if scale == (0, 0) {
            Self::ticks(cx, v, true, cx.xf(1), cx.xf(2), mx);
            Self::ticks(cx, v, false, cx.xf(3), cx.xf(4), my);
        }
        cx.check("legend", v.legend == want_leg, || format!("legend {:?}, want {:?}", v.legend, want_leg));
        cx.check("legend box", (v.legend_rects > 0) == !want_leg.is_empty(), || format!("{} legend boxes", v.legend_rects));
        if scale == (0, 0) {
            Self::words(cx, v, words);
        }
    }
}

impl Model for V02 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        match op {
            "fresh" => {
                for k in 0..2 {
                    let _ = std::fs::remove_file(self.dir.join(format!("plot{}.svg", k)));
                }
                self.ids = [0, 0];
                self.known = [None, None];
            }
            "plot" => {
                let (mode, id, ex, ey) = (cx.i(0), cx.i(1), cx.i(2), cx.i(3));
                let title = TITLES[cx.us(4)];
                let xl = if cx.i(5) < 0 { None } else { Some(XL[cx.us(5)]) };
                let yl = if cx.i(6) < 0 { None } else { Some(YL[cx.us(6)]) };
                let mut data = vec![];
                let mut k = 8;
                for _ in 0..cx.us(7) {
                    let (style, lab, n, cut) = (cx.i(k), cx.i(k + 1), cx.us(k + 2), cx.us(k + 3));
                    k += 4;
                    let xs: Vec<f64> = (0..n).map(|j| value(cx.i(k + 2 * j), ex as i32)).collect();
                    let ys: Vec<f64> = (0..n - cut).map(|j| value(cx.i(k + 2 * j + 1), ey as i32)).collect();
                    k += 2 * n;
                    data.push((style, lab, xs, ys));
                }
                let series: Vec<XYSeries> = data
                    .iter()
                    .map(|(s, l, xs, ys)| {
                        let mut q = XYSeries::new(xs, ys);
                        if *s == 1 {
                            q = q.with_style(PlotStyle::Points);
                        }
                        if *l >= 0 {
                            q = q.with_label(LABELS[*l as usize]);
                        }
                        q
                    })
                    .collect();
                let path = self.path(mode);
                let single = series.len() == 1 && data[0].1 < 0;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if single {
                        plot(series[0].xs, series[0].ys, title, xl, yl, path.as_deref(), series[0].style).map_err(|e| e.to_string())
                    } else {
                        plot_series(&series, title, xl, yl, path.as_deref()).map_err(|e| e.to_string())
                    }
                }));
                if let Some(v) = self.answered(cx, mode, id, false, r) {
                    let mut words = vec![title];
                    words.extend(xl);
                    words.extend(yl);
                    Self::drawn(cx, &v, &words, &|l| LABELS[l as usize].to_string(), (ex, ey));
                }
            }
            "grid" => {
                let (mode, id) = (cx.i(0), cx.i(1));
                let (a, b, m) = (cx.af(2), cx.af(3), cx.us(4));
                let nh = cx.us(5);
                let holes: Vec<(usize, f64)> = (0..nh).map(|j| (cx.us(6 + 2 * j), value(cx.i(7 + 2 * j), 0))).collect();
                let k = 6 + 2 * nh;
                let f: Vec<f64> = (0..3).map(|j| cx.af(k + j)).collect();
                let g: Vec<f64> = (0..3).map(|j| cx.af(k + 3 + j)).collect();
                let hole = |x: f64| -> Option<f64> {
                    holes.iter().find(|(i, _)| (x - (a + (b - a) * *i as f64 / m as f64)).abs() < 1e-9 * (b - a).abs()).map(|h| h.1)
                };
                let path = self.path(mode);
                // the hole is in the approximation at even grid points, in the reference at odd ones
                let odd = |x: f64| ((x - a) / (b - a) * m as f64).round() as i64 & 1 == 1;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    plot_error_on_grid(
                        |x| hole(x).filter(|_| !odd(x)).unwrap_or(f[0] + f[1] * x + f[2] * x * x),
                        |x| hole(x).filter(|_| odd(x)).unwrap_or(g[0] + g[1] * x + g[2] * x * x),
                        a,
                        b,
                        m,
                        path.as_deref(),
                    )
                    .map_err(|e| e.to_string())
                }));
                if let Some(v) = self.answered(cx, mode, id, false, r) {
                    let n = cx.x(3) as usize;
                    let px = if v.groups.is_empty() { v.last_black.clone() } else { v.groups[0].pts.clone() };
                    cx.check("points", px.len() == n, || format!("{} points drawn, want {}", px.len(), n));
                    if px.len() == n {
                        let us: Vec<f64> = (0..n).map(|j| cx.xf(4 + 2 * j)).collect();
                        let vs: Vec<f64> = (0..n).map(|j| cx.xf(5 + 2 * j)).collect();
                        let (mx, my) = Self::placed(cx, &v, &us, &vs, &px, false);
                        if us.iter().any(|u| *u != us[0]) {
                            Self::ticks(cx, &v, true, a, b, mx);
                        }
                        if cx.xf(1) != cx.xf(2) {
                            cx.check("y span", -my.1 * 1e9 > 0.5 * (v.frame[3] - v.frame[2]), || format!("the error spans {:.0} pixels of the y axis {:?}", -my.1 * 1e9, v.frame));
                            let mm = (m * m) as f64;
                            Self::ticks(cx, &v, false, cx.xf(1) / mm, cx.xf(2) / mm, my);
                        }
                    }
                }
            }
            "csv" => {
                let (mode, id) = (cx.i(0), cx.i(1));
                let (ny, n0) = (cx.us(3), cx.us(4));
                let mut text = String::from("time");
                for j in 0..ny {
                    text += &format!(",c{}", j);
                }
                text.push('\n');
                for i in 0..n0 {
                    let row: Vec<String> = (0..=ny).map(|j| cx.i(5 + i * (ny + 1) + j).to_string()).collect();
                    text += &row.join(",");
                    text.push('\n');
                }
                let data = self.dir.join("d.csv");
                std::fs::write(&data, text).unwrap_or_else(|_| bad("csv"));
                let path = self.path(mode).unwrap_or_else(|| bad("csv mode"));
                let mut p = CsvRealtimePlotter::new(CsvRealtimeConfig {
                    csv_path: data,
                    output_path: path.into(),
                    title: "rows".into(),
                    x_column: "time".into(),
                    y_columns: (0..ny).map(|j| format!("c{}", j)).collect(),
                    x_label: Some("tt".into()),
                    y_label: None,
                    style: if cx.i(2) == 0 { PlotStyle::Line } else { PlotStyle::Points },
                    has_header: true,
                    max_points: None,
                    ..Default::default()
                });
                let r = catch_unwind(AssertUnwindSafe(|| {
                    p.initialize().map_err(|e| e.to_string())?;
                    p.render().map_err(|e| e.to_string())
                }));
                if let Some(v) = self.answered(cx, mode, id, true, r) {
                    Self::drawn(cx, &v, &["rows", "tt"], &|l| format!("c{}", l - 10), (0, 0));
                }
            }
            "files" => {
                for k in 0..2 {
                    let now = self.read(k);
                    cx.check("other file", now == self.known[k], || format!("file {} changed without a request for it", k));
                    cx.eq_i("holds", self.ids[k], cx.x(k));
                    cx.check("exists", now.is_some() == (cx.x(k) != 0), || format!("file {} {}", k, if now.is_some() { "exists" } else { "is missing" }));
                }
            }
            _ => bad(op),
        }
    }
}
