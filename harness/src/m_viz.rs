//! V01 on aether_viz::realtime.
use crate::util::*;
use aether_viz::realtime::*;
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

static N: AtomicU64 = AtomicU64::new(0);
const NAMES: [&str; 6] = ["time", "a", "b", "temp", "\u{e9}", "zz"];

pub fn v01() -> Box<dyn Model> {
    let base = std::env::var("REPLAY_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let dir = PathBuf::from(base).join(format!("v01_{}_{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&dir).unwrap_or_else(|_| bad("scratch"));
    Box::new(V01 { p: CsvRealtimePlotter::new(CsvRealtimeConfig::default()), header: true, dir, grave: 0, dead: vec![] })
}
struct V01 {
    p: CsvRealtimePlotter,
    header: bool,
    dir: PathBuf,
    grave: u32,
    dead: Vec<(u64, std::time::SystemTime)>,
}
impl Drop for V01 {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
impl V01 {
    fn path(&self) -> PathBuf {
        self.dir.join("data.csv")
    }
    fn cols(&self, cx: &Cx, from: usize) -> Vec<String> {
        (from..cx.an()).map(|k| if self.header { NAMES[cx.us(k)].to_string() } else { cx.us(k).to_string() }).collect()
    }
    fn bytes(cx: &Cx) -> Vec<u8> {
        (0..cx.an()).map(|k| cx.i(k) as u8).collect()
    }
    /// inode and birth of the file, where the file system tells when files were born
    fn identity(&self) -> Option<(u64, std::time::SystemTime)> {
        use std::os::unix::fs::MetadataExt;
        let m = std::fs::metadata(self.path()).ok()?;
        Some((m.ino(), m.created().ok()?))
    }
    /// a new file; its inode may be that of a removed one, but not its birth as well
    fn create(&mut self, b: &[u8]) {
        std::fs::write(self.path(), b).unwrap_or_else(|_| bad("create"));
        for _ in 0..20 {
            match self.identity() {
                Some(i) if self.dead.contains(&i) => {
                    std::fs::remove_file(self.path()).unwrap_or_else(|_| bad("remove"));
                    std::thread::sleep(std::time::Duration::from_millis(3));
                    std::fs::write(self.path(), b).unwrap_or_else(|_| bad("create"));
                }
                _ => return,
            }
        }
        bad("the clock of the file system stands still");
    }
    /// removed for good, or (always, if births are unknown) kept under another name, so that a new file gets
    /// another inode
    fn bury(&mut self) {
        self.grave += 1;
        if self.grave % 2 == 0 {
            if let Some(i) = self.identity() {
                self.dead.push(i);
                return std::fs::remove_file(self.path()).unwrap_or_else(|_| bad("remove"));
            }
        }
        std::fs::rename(self.path(), self.dir.join(format!("old{}", self.grave))).unwrap_or_else(|_| bad("rename"));
    }
    fn observe(&mut self, cx: &mut Cx, r: Result<Option<bool>, String>) {
        match &r {
            Err(e) => {
                if cx.x(0) == 1 {
                    cx.fail("err", format!("unexpected error {}", e));
                }
            }
            Ok(Some(c)) => {
                if cx.x(0) == 1 {
                    cx.eq_b("changed", *c, cx.x(1) == 1);
                }
            }
            Ok(None) => {}
        }
        let nc = cx.x(2) as usize;
        let nr = cx.x(3) as usize;
        let xs = self.p.x_values().to_vec();
        let ys = self.p.y_values().to_vec();
        cx.check("columns", ys.len() + 1 == nc, || format!("{} series, want {}", ys.len(), nc - 1));
        for y in &ys {
            cx.check("lengths", y.len() == xs.len(), || format!("x has {} values, a series has {}", xs.len(), y.len()));
        }
        cx.check("rows", xs.len() == nr, || format!("{} rows shown, want {}", xs.len(), nr));
        if cx.errs.borrow().is_empty() {
            let mut k = 4;
            for i in 0..nr {
                for j in 0..nc {
                    let w = cx.xr(k);
                    let g = if j == 0 { xs[i] } else { ys[j - 1][i] };
                    cx.near("cell", g, w, 0.0, 1e-15);
                    k += 2;
                }
            }
            let nh = cx.x(k) as usize;
            k += 1;
            let mut want = vec![];
            for _ in 0..nh {
                let l = cx.x(k) as usize;
                want.push((0..l).map(|m| cx.x(k + 1 + m) as u8).collect::<Vec<u8>>());
                k += 1 + l;
            }
            let got: Vec<Vec<u8>> = self.p.available_columns().iter().map(|s| s.as_bytes().to_vec()).collect();
            cx.check("header", got == want, || format!("columns {:?}", self.p.available_columns()));
        }
    }
}
/// V01 on long files: texts of 16-byte rows
pub fn v03() -> Box<dyn Model> {
    let base = std::env::var("REPLAY_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let dir = PathBuf::from(base).join(format!("v03_{}_{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&dir).unwrap_or_else(|_| bad("scratch"));
    Box::new(V03(V01 { p: CsvRealtimePlotter::new(CsvRealtimeConfig::default()), header: true, dir, grave: 0, dead: vec![] }))
}
struct V03(V01);
/// row k of text g
fn long_row(g: i128, k: i128) -> (i128, i128) {
    (k + 1_000_000 * (g % 8), (7 * k + g) % 1_000_003)
}
impl V03 {
    fn text(&self, g: i128, from: i128, n: i128) -> Vec<u8> {
        let (a, b) = (from / 16, (from + n) / 16 + 1);
        let mut v = Vec::with_capacity((16 * (b - a)) as usize);
        for k in a..b {
            if self.0.header && k == 0 {
                v.extend_from_slice(b"time   ,      a\n");
            } else {
                let (x, y) = long_row(g, k);
                v.extend_from_slice(format!("{:07},{:07}\n", x, y).as_bytes());
            }
        }
        v[(from - 16 * a) as usize..(from + n - 16 * a) as usize].to_vec()
    }
    fn observe(&self, cx: &mut Cx, r: Result<Option<bool>, String>) {
        match &r {
            Err(e) => cx.fail("err", format!("unexpected error {}", e)),
            Ok(Some(c)) => cx.eq_b("changed", *c, cx.x(0) == 1),
            Ok(None) => {}
        }
        let (xs, ys) = (self.0.p.x_values(), self.0.p.y_values());
        let n = cx.x(5) as usize;
        cx.check("rows", xs.len() == n && ys.len() == 1 && ys[0].len() == n, || format!("{} x values, want {}", xs.len(), n));
        cx.eq_i("header", self.0.p.available_columns().len() as i128, 2 * cx.x(2));
        if cx.errs.borrow().is_empty() {
            for i in 0..n {
                let (x, y) = long_row(cx.x(1), cx.x(4) + i as i128 + cx.x(3));
                cx.check("row", xs[i] == x as f64 && ys[0][i] == y as f64, || format!("row {} of {}: {},{} want {},{}", i, n, xs[i], ys[0][i], x, y));
            }
        }
    }
}
impl Model for V03 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        match op {
            "open" => {
                self.0.header = cx.i(0) == 1;
                self.0.p = CsvRealtimePlotter::new(CsvRealtimeConfig {
                    csv_path: self.0.path(),
                    output_path: self.0.dir.join("o.svg"),
                    x_column: if self.0.header { "time".into() } else { "0".into() },
                    y_columns: vec![if self.0.header { "a".into() } else { "1".into() }],
                    has_header: self.0.header,
                    max_points: if cx.i(1) < 0 { None } else { Some(cx.us(1)) },
                    ..Default::default()
                });
            }
            "append" => {
                let t = self.text(cx.i(0), cx.i(1), cx.i(2));
                let mut f = std::fs::OpenOptions::new().append(true).create(true).open(self.0.path()).unwrap_or_else(|_| bad("append"));
                f.write_all(&t).unwrap_or_else(|_| bad("append"));
            }
            "truncate" => {
                let f = std::fs::OpenOptions::new().write(true).open(self.0.path()).unwrap_or_else(|_| bad("truncate"));
                f.set_len(cx.u64(0)).unwrap_or_else(|_| bad("truncate"));
            }
            "replace" => {
                let t = self.text(cx.i(0), 0, cx.i(1));
                std::fs::write(self.0.dir.join("new"), t).unwrap_or_else(|_| bad("replace"));
                self.0.bury();
                std::fs::rename(self.0.dir.join("new"), self.0.path()).unwrap_or_else(|_| bad("replace"));
            }
            "poll" => {
                let r = self.0.p.update_once().map(Some).map_err(|e| e.to_string());
                self.observe(cx, r);
            }
            "initialize" => {
                let r = self.0.p.initialize().map(|_| None).map_err(|e| e.to_string());
                self.observe(cx, r);
            }
            _ => bad(op),
        }
    }
}
/// V04: run_forever on a thread of its own
pub fn v04() -> Box<dyn Model> {
    let base = std::env::var("REPLAY_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let dir = PathBuf::from(base).join(format!("v04_{}_{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&dir).unwrap_or_else(|_| bad("scratch"));
    Box::new(V04 { cfg: CsvRealtimeConfig::default(), dir, grave: 0, live: None, calls: Box::leak(Box::new(AtomicU64::new(0))), over: None })
}
struct V04 {
    cfg: CsvRealtimeConfig,
    dir: PathBuf,
    grave: u32,
    live: Option<std::thread::JoinHandle<Result<(), String>>>,
    calls: &'static AtomicU64,
    over: Option<Result<(), String>>,
}
impl Drop for V04 {
    fn drop(&mut self) {
        if self.live.is_some() {
            self.replace(b"nope\n");
            self.wait(2.0);
        }
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
/// how long a loop may take to notice something; once one was too slow the others need not be waited for as long
fn long() -> f64 {
    if SLOW.load(Ordering::Relaxed) > 0 { 0.5 } else { 10.0 }
}
static SLOW: AtomicU64 = AtomicU64::new(0);
fn until(secs: f64, mut f: impl FnMut() -> bool) -> bool {
    let t = std::time::Instant::now();
    loop {
        if f() {
            return true;
        }
        if t.elapsed().as_secs_f64() > secs {
            return false;
        }
        std::thread::sleep(std::time::Duration::from_micros(300));
    }
}
impl V04 {
    fn replace(&mut self, b: &[u8]) {
        self.grave += 1;
        let new = self.dir.join("new");
        std::fs::write(&new, b).unwrap_or_else(|_| bad("replace"));
        // the old file lives on under another name, so that the new one is a different file; the path always names one
        if self.cfg.csv_path.exists() {
            std::fs::hard_link(&self.cfg.csv_path, self.dir.join(format!("old{}", self.grave))).unwrap_or_else(|_| bad("replace"));
        }
        std::fs::rename(&new, &self.cfg.csv_path).unwrap_or_else(|_| bad("replace"));
    }
    /// true when the loop has ended
    fn wait(&mut self, secs: f64) -> bool {
        let h = &self.live;
        let done = until(secs, || h.as_ref().map_or(true, |h| h.is_finished()));
        if done {
            if let Some(h) = self.live.take() {
                self.over = Some(h.join().unwrap_or_else(|_| Err("panicked".into())));
            }
        }
        done
    }
    fn alive(&mut self, cx: &Cx) {
        if self.wait(-1.0) {
            cx.fail("ended", format!("the loop ended by itself: {:?}", self.over));
        }
    }
    fn drawing(&self, cx: &Cx) -> Vec<u8> {
        let (nc, nr) = (cx.x(1) as usize, cx.x(2) as usize);
        let at = |i: usize, j: usize| cx.xf(3 + i * nc + j);
        let xs: Vec<f64> = (0..nr).map(|i| at(i, 0)).collect();
        let ys: Vec<Vec<f64>> = (1..nc).map(|j| (0..nr).map(|i| at(i, j)).collect()).collect();
        let series: Vec<_> = ys
            .iter()
            .zip(&self.cfg.y_columns)
            .map(|(y, l)| aether_viz::XYSeries::new(&xs, y).with_style(self.cfg.style).with_label(l))
            .collect();
        let want = self.dir.join("want.svg");
        aether_viz::plot_series(&series, &self.cfg.title, self.cfg.x_label.as_deref(), self.cfg.y_label.as_deref(), want.to_str()).unwrap_or_else(|_| bad("plot"));
        std::fs::read(want).unwrap_or_else(|_| bad("want"))
    }
}
impl Model for V04 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let all: Vec<u8> = (0..cx.an()).map(|k| cx.i(k) as u8).collect();
        let bytes = |from: usize| -> Vec<u8> { all[from..].to_vec() };
        let pause = |us: u64| {
            if us > 0 {
                std::thread::sleep(std::time::Duration::from_micros(us))
            }
        };
        self.act(op, cx, &bytes, &pause);
        if !cx.errs.borrow().is_empty() {
            SLOW.store(1, Ordering::Relaxed);
        }
    }
}
impl V04 {
    fn act(&mut self, op: &str, cx: &mut Cx, bytes: &dyn Fn(usize) -> Vec<u8>, pause: &dyn Fn(u64)) {
        match op {
            "open" => {
                let st = cx.i(2);
                self.cfg = CsvRealtimeConfig {
                    csv_path: self.dir.join("data.csv"),
                    output_path: self.dir.join("o.svg"),
                    title: format!("plot {}", st),
                    x_label: if st & 2 == 0 { None } else { Some("t".into()) },
                    y_columns: (3..cx.an()).map(|k| NAMES[cx.us(k)].to_string()).collect(),
                    style: if st & 1 == 0 { aether_viz::PlotStyle::Line } else { aether_viz::PlotStyle::Points },
                    poll_hz: cx.af(0),
                    max_points: if cx.i(1) < 0 { None } else { Some(cx.us(1)) },
                    ..Default::default()
                };
            }
            "launch" => {
                let (cfg, calls) = (self.cfg.clone(), self.calls);
                self.live = Some(std::thread::spawn(move || {
                    crate::intrude::count(calls);
                    CsvRealtimePlotter::new(cfg).run_forever().map_err(|e| e.to_string())
                }));
            }
            "write" => {
                pause(cx.u64(0));
                let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&self.cfg.csv_path).unwrap_or_else(|_| bad("write"));
                f.write_all(&bytes(1)).unwrap_or_else(|_| bad("write"));
            }
            "shrink" => {
                let f = std::fs::OpenOptions::new().write(true).open(&self.cfg.csv_path).unwrap_or_else(|_| bad("shrink"));
                f.set_len(cx.u64(0)).unwrap_or_else(|_| bad("shrink"));
            }
            "replace" => {
                pause(cx.u64(0));
                self.replace(&bytes(1));
            }
            // the loop's own thread does it, at the n-th time from now that it looks for the file or opens it
            "vanish" | "flicker" => {
                let (vanish, again) = (op == "vanish", op == "flicker" || cx.i(1) == 1);
                let (csv, new) = (self.cfg.csv_path.clone(), self.dir.join("new"));
                if again {
                    std::fs::write(&new, bytes(if vanish { 2 } else { 1 })).unwrap_or_else(|_| bad("vanish"));
                }
                self.grave += 2;
                let (old, older) = (self.dir.join(format!("old{}", self.grave)), self.dir.join(format!("old{}", self.grave - 1)));
                let done: &'static AtomicU64 = Box::leak(Box::new(AtomicU64::new(0)));
                let (to, from) = (csv.clone(), new);
                let swap = move || {
                    std::fs::hard_link(&to, &older).and_then(|_| std::fs::rename(&from, &to)).unwrap_or_else(|_| bad("vanish"));
                    done.fetch_add(1, Ordering::SeqCst);
                };
                let gone = move || {
                    std::fs::rename(&csv, &old).unwrap_or_else(|_| bad("vanish"));
                    done.fetch_add(1, Ordering::SeqCst);
                };
                let n = cx.u64(0);
                let want = match (vanish, again) {
                    (true, true) => {
                        crate::intrude::arm(self.calls, n, Box::new(swap));
                        1
                    }
                    (true, false) => {
                        crate::intrude::arm(self.calls, n, Box::new(gone));
                        1
                    }
                    (false, _) => {
                        crate::intrude::arm(self.calls, 1, Box::new(swap));
                        crate::intrude::arm(self.calls, n, Box::new(gone));
                        2
                    }
                };
                let (h, calls) = (&self.live, self.calls);
                let over = || h.as_ref().map_or(true, |h| h.is_finished());
                let fired = until(long(), || done.load(Ordering::SeqCst) == want || over());
                let from = calls.load(Ordering::SeqCst);
                if !fired || !until(long(), || calls.load(Ordering::SeqCst) >= from + 3 || over()) {
                    return cx.fail("asleep", "the loop does not look at the file".into());
                }
                self.alive(cx);
            }
            "settle" => {
                // two whole polls later than now (a poll looks at the path four times at most)
                if cx.i(0) == 1 {
                    let (calls, from) = (self.calls, self.calls.load(Ordering::SeqCst));
                    let h = &self.live;
                    if !until(long(), || calls.load(Ordering::SeqCst) >= from + 12 || h.as_ref().map_or(true, |h| h.is_finished())) {
                        return cx.fail("asleep", "the loop does not look at the file".into());
                    }
                }
                self.alive(cx);
                let o = self.cfg.output_path.clone();
                if cx.x(2) > 0 {
                    let want = self.drawing(cx);
                    for when in ["late", "unstable"] {
                        if cx.errs.borrow().is_empty() && !until(long(), || std::fs::read(&o).map_or(false, |b| b == want)) {
                            cx.fail(when, format!("the drawing does not show the {} rows of the file", cx.x(2)));
                        }
                        pause(3000);
                    }
                } else if cx.x(0) == 0 {
                    cx.check("early", !o.exists(), || "a drawing without rows".into());
                }
                self.alive(cx);
            }
            "idle" => {
                let (from, t) = (self.calls.load(Ordering::SeqCst), std::time::Instant::now());
                pause(1000 * cx.u64(0));
                let n = self.calls.load(Ordering::SeqCst) - from;
                let most = 5.0 * (t.elapsed().as_secs_f64() * cx.xf(0) + 2.0);
                cx.check("rate", n as f64 <= most, || format!("an idle loop looked at the file {} times, at most {} expected", n, most));
                self.alive(cx);
            }
            "spoil" => {
                let have = (0..3).filter(|k| *k as i128 != cx.i(0)).map(|k| NAMES[k]).collect::<Vec<_>>().join(",");
                self.replace((have + "\n1,2\n").as_bytes());
                if self.wait(long()) {
                    cx.check("spoil", matches!(&self.over, Some(Err(e)) if !e.contains("panicked")), || format!("{:?}", self.over));
                } else {
                    cx.fail("spoil", "a missing column is not reported".into());
                }
            }
            _ => bad(op),
        }
    }
}
impl Model for V01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        match op {
            "open" => {
                self.header = cx.i(0) == 1;
                let y = self.cols(cx, 2);
                self.p = CsvRealtimePlotter::new(CsvRealtimeConfig {
                    csv_path: self.path(),
                    output_path: self.dir.join("o.svg"),
                    x_column: if self.header { "time".into() } else { "0".into() },
                    y_columns: y,
                    has_header: self.header,
                    max_points: if cx.i(1) < 0 { None } else { Some(cx.us(1)) },
                    ..Default::default()
                });
            }
            "create" => self.create(&Self::bytes(cx)),
            "append" => {
                let mut f = std::fs::OpenOptions::new().append(true).open(self.path()).unwrap_or_else(|_| bad("append"));
                f.write_all(&Self::bytes(cx)).unwrap_or_else(|_| bad("append"));
            }
            "truncate" => {
                let f = std::fs::OpenOptions::new().write(true).open(self.path()).unwrap_or_else(|_| bad("truncate"));
                f.set_len(cx.u64(0)).unwrap_or_else(|_| bad("truncate"));
            }
            "replace" => {
                self.bury();
                self.create(&Self::bytes(cx));
            }
            "delete" => self.bury(),
            // the writer acts while the reader is in the middle of a call; a quiet poll follows
            "intrude" => {
                let path = self.path();
                let rest: Vec<u8> = (3..cx.an()).map(|k| cx.i(k) as u8).collect();
                let n = if cx.i(2) == 2 { cx.u64(3) } else { 0 };
                let other = self.dir.join("new");
                if cx.i(2) == 1 {
                    std::fs::write(&other, &rest).unwrap_or_else(|_| bad("intrude"));
                }
                self.grave += 1;
                let old = self.dir.join(format!("old{}", self.grave));
                let kind = cx.i(2);
                let act = move || {
                    match kind {
                        0 => std::fs::OpenOptions::new().append(true).open(&path).and_then(|mut f| f.write_all(&rest)),
                        1 => std::fs::hard_link(&path, &old).and_then(|_| std::fs::rename(&other, &path)),
                        2 => std::fs::OpenOptions::new().write(true).open(&path).and_then(|f| f.set_len(n)),
                        _ => std::fs::rename(&path, &old),
                    }
                    .unwrap_or_else(|_| bad("intrude"))
                };
                let p = &mut self.p;
                let init = cx.i(0) == 1;
                let _ = crate::intrude::during(cx.i(1) as i64, act, || if init { p.initialize().is_ok() } else { p.update_once().is_ok() });
                let (xs, ys) = (self.p.x_values().len(), self.p.y_values());
                cx.check("torn", ys.iter().all(|y| y.len() == xs), || format!("x has {} values, the series {:?}", xs, ys.iter().map(|y| y.len()).collect::<Vec<_>>()));
                let r = self.p.update_once().map(|_| None).map_err(|e| e.to_string());
                self.observe(cx, r);
            }
            "poll" => {
                let r = self.p.update_once().map(Some).map_err(|e| e.to_string());
                self.observe(cx, r);
            }
            "initialize" => {
                let r = self.p.initialize().map(|_| None).map_err(|e| e.to_string());
                self.observe(cx, r);
            }
            "select" => {
                let y = self.cols(cx, 0);
                let want = y.clone();
                let r = self.p.set_y_columns(y).map(|_| None).map_err(|e| e.to_string());
                let ok = self.p.selected_y_columns() == &want[..];
                cx.eq_b("selected", ok, true);
                self.observe(cx, r);
            }
            _ => bad(op),
        }
    }
}
