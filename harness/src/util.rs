//! Argument decoding and comparisons shared by the per-area models.
pub struct Cx<'a> {
    pub a: &'a [&'a str],
    pub e: &'a [&'a str],
    pub errs: std::cell::RefCell<Vec<(String, String)>>,
}

pub trait Model {
    fn step(&mut self, op: &str, cx: &mut Cx);
}

pub fn bad(what: &str) -> ! {
    panic!("HARNESS: {}", what)
}

impl<'a> Cx<'a> {
    pub fn i(&self, k: usize) -> i128 {
        self.a.get(k).unwrap_or_else(|| bad("arg missing")).parse().unwrap_or_else(|_| bad("arg range"))
    }
    pub fn i64(&self, k: usize) -> i64 {
        self.i(k).try_into().unwrap_or_else(|_| bad("arg i64"))
    }
    pub fn u64(&self, k: usize) -> u64 {
        self.i(k).try_into().unwrap_or_else(|_| bad("arg u64"))
    }
    pub fn us(&self, k: usize) -> usize {
        self.i(k).try_into().unwrap_or_else(|_| bad("arg usize"))
    }
    pub fn x(&self, k: usize) -> i128 {
        self.e.get(k).unwrap_or_else(|| bad("exp missing")).parse().unwrap_or_else(|_| bad("exp range"))
    }
    /// argument k as correctly rounded f64 integer
    pub fn af(&self, k: usize) -> f64 {
        self.a.get(k).unwrap_or_else(|| bad("arg missing")).parse().unwrap_or_else(|_| bad("arg f64"))
    }
    /// argument k in units of 1/den
    pub fn aq(&self, k: usize, den: f64) -> f64 {
        self.af(k) / den
    }
    pub fn xf(&self, k: usize) -> f64 {
        self.e.get(k).unwrap_or_else(|| bad("exp missing")).parse().unwrap_or_else(|_| bad("exp f64"))
    }
    /// expectation k / expectation k+1 as f64 (a rational n/d)
    pub fn xr(&self, k: usize) -> f64 {
        self.xf(k) / self.xf(k + 1)
    }
    pub fn an(&self) -> usize {
        self.a.len()
    }
    pub fn en(&self) -> usize {
        self.e.len()
    }
    pub fn fail(&self, k: &str, m: String) {
        self.errs.borrow_mut().push((k.to_string(), m));
    }
    pub fn eq_i(&self, k: &str, got: i128, want: i128) {
        if got != want {
            self.fail(k, format!("got {} want {}", got, want));
        }
    }
    pub fn eq_b(&self, k: &str, got: bool, want: bool) {
        if got != want {
            self.fail(k, format!("got {} want {}", got, want));
        }
    }
    pub fn eq_f(&self, k: &str, got: f64, want: f64) {
        if got != want {
            self.fail(k, format!("got {:?} want {:?}", got, want));
        }
    }
    /// |got - want| <= abs + rel*|want|
    pub fn near(&self, k: &str, got: f64, want: f64, abs: f64, rel: f64) {
        let ok = (got - want).abs() <= abs + rel * want.abs();
        if !ok {
            self.fail(k, format!("got {:?} want {:?} (diff {:e}, tol {:e})", got, want, got - want, abs + rel * want.abs()));
        }
    }
    pub fn check(&self, k: &str, ok: bool, m: impl FnOnce() -> String) {
        if !ok {
            let s = m();
            self.fail(k, s);
        }
    }
}
