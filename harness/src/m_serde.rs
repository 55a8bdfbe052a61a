//! M03 on aether_core's serde and bincode implementations.
use crate::util::*;
use aether_core::attitude::{DirectionCosineMatrix, Euler, Quaternion};
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;
use aether_core::reference_frame::{Assembly, Body, ICRF};
use serde::{de::DeserializeOwned, Serialize};

/// a float as its bit pattern
trait Bits: Copy {
    const W: usize;
    fn to(self) -> u64;
    fn of(b: u64) -> Self;
}
impl Bits for f64 {
    const W: usize = 64;
    fn to(self) -> u64 {
        self.to_bits()
    }
    fn of(b: u64) -> f64 {
        f64::from_bits(b)
    }
}
impl Bits for f32 {
    const W: usize = 32;
    fn to(self) -> u64 {
        self.to_bits() as u64
    }
    fn of(b: u64) -> f32 {
        f32::from_bits(b as u32)
    }
}
trait Comps: Sized + Serialize + DeserializeOwned + bincode::Encode + bincode::Decode<()> + for<'a> bincode::BorrowDecode<'a, ()> {
    type F: Bits;
    fn make(b: &[u64]) -> Self;
    fn comps(&self) -> Vec<u64>;
}
macro_rules! vecs { ($t:ty; $($n:literal),*) => { $(
    impl Comps for Vector<$t, $n> {
        type F = $t;
        fn make(b: &[u64]) -> Self { let mut v = Vector::new([0.0; $n]); for i in 0..$n { v.data[i] = <$t as Bits>::of(b[i]); } v }
        fn comps(&self) -> Vec<u64> { self.data.iter().map(|x| x.to()).collect() }
    } )* } }
vecs!(f64; 1, 2, 3, 4, 6, 9);
vecs!(f32; 1, 2, 3, 4, 6, 9);
fn mm<T: Bits + Default, const M: usize, const N: usize>(b: &[u64]) -> Matrix<T, M, N> {
    let mut m = Matrix { data: [[T::default(); N]; M] };
    for i in 0..M {
        for j in 0..N {
            m.data[i][j] = T::of(b[i * N + j]);
        }
    }
    m
}
macro_rules! mats { ($t:ty; $($m:literal $n:literal),*) => { $(
    impl Comps for Matrix<$t, $m, $n> {
        type F = $t;
        fn make(b: &[u64]) -> Self { mm(b) }
        fn comps(&self) -> Vec<u64> { self.data.iter().flatten().map(|x| x.to()).collect() }
    } )* } }
mats!(f64; 1 1, 1 3, 3 1, 2 3, 3 2, 3 3, 4 4, 6 6, 2 5);
mats!(f32; 1 1, 1 3, 3 1, 2 3, 3 2, 3 3, 4 4, 6 6, 2 5);
/// an assembly frame, which has no bincode form
#[derive(Serialize, serde::Deserialize)]
#[serde(transparent, bound = "T: Serialize + DeserializeOwned")]
struct Asm<T: Real>(Assembly<T>);
impl<T: Real> bincode::Encode for Asm<T> {
    fn encode<E: bincode::enc::Encoder>(&self, _: &mut E) -> Result<(), bincode::error::EncodeError> {
        Err(bincode::error::EncodeError::Other("none"))
    }
}
impl<T: Real> bincode::Decode<()> for Asm<T> {
    fn decode<D: bincode::de::Decoder<Context = ()>>(_: &mut D) -> Result<Self, bincode::error::DecodeError> {
        Err(bincode::error::DecodeError::Other("none"))
    }
}
impl<'a, T: Real> bincode::BorrowDecode<'a, ()> for Asm<T> {
    fn borrow_decode<D: bincode::de::BorrowDecoder<'a, Context = ()>>(_: &mut D) -> Result<Self, bincode::error::DecodeError> {
        Err(bincode::error::DecodeError::Other("none"))
    }
}
macro_rules! atts { ($t:ty) => {
    impl Comps for Cartesian<$t, ICRF<$t>> {
        type F = $t;
        fn make(b: &[u64]) -> Self { Cartesian::new(<$t as Bits>::of(b[0]), <$t as Bits>::of(b[1]), <$t as Bits>::of(b[2])) }
        fn comps(&self) -> Vec<u64> { vec![self.x().to(), self.y().to(), self.z().to()] }
    }
    impl Comps for Asm<$t> {
        type F = $t;
        fn make(b: &[u64]) -> Self {
            let c = |i: usize| Cartesian::new(<$t as Bits>::of(b[i]), <$t as Bits>::of(b[i + 1]), <$t as Bits>::of(b[i + 2]));
            Asm(Assembly::new(c(0), c(3)))
        }
        fn comps(&self) -> Vec<u64> {
            let (m, l) = (&self.0.mass_center, &self.0.lever_arm);
            vec![m.x().to(), m.y().to(), m.z().to(), l.x().to(), l.y().to(), l.z().to()]
        }
    }
    impl Comps for Euler<$t, Body<$t>, ICRF<$t>> {
        type F = $t;
        fn make(b: &[u64]) -> Self { Euler::new(<$t as Bits>::of(b[0]), <$t as Bits>::of(b[1]), <$t as Bits>::of(b[2])) }
        fn comps(&self) -> Vec<u64> { vec![self.roll().to(), self.pitch().to(), self.yaw().to()] }
    }
    impl Comps for Quaternion<$t, Body<$t>, ICRF<$t>> {
        type F = $t;
        fn make(b: &[u64]) -> Self { Quaternion::new(<$t as Bits>::of(b[0]), <$t as Bits>::of(b[1]), <$t as Bits>::of(b[2]), <$t as Bits>::of(b[3])) }
        fn comps(&self) -> Vec<u64> { self.data.data.iter().map(|x| x.to()).collect() }
    }
    impl Comps for DirectionCosineMatrix<$t, Body<$t>, ICRF<$t>> {
        type F = $t;
        fn make(b: &[u64]) -> Self { DirectionCosineMatrix::from_matrix(mm(b)) }
        fn comps(&self) -> Vec<u64> { self.as_matrix().data.iter().flatten().map(|x| x.to()).collect() }
    }
    impl Comps for Body<$t> {
        type F = $t;
        fn make(b: &[u64]) -> Self { Body::new(
            Cartesian::new(<$t as Bits>::of(b[0]), <$t as Bits>::of(b[1]), <$t as Bits>::of(b[2])),
            Cartesian::new(<$t as Bits>::of(b[3]), <$t as Bits>::of(b[4]), <$t as Bits>::of(b[5]))) }
        fn comps(&self) -> Vec<u64> { self.mass_center.data.data.iter().chain(self.lever_arm.data.data.iter()).map(|x| x.to()).collect() }
    }
} }
atts!(f64);
atts!(f32);

/// A tree format with sequences of numbers, the part of JSON and CBOR the values use.
trait Tree: Clone {
    fn seq(&mut self) -> Option<&mut Vec<Self>>;
    fn fields(&mut self) -> Vec<&mut Self>;
    fn num(x: f64) -> Self;
    fn odd(k: usize) -> Self;
    fn get(&self) -> Option<f64>;
}
impl Tree for serde_json::Value {
    fn seq(&mut self) -> Option<&mut Vec<Self>> {
        self.as_array_mut()
    }
    fn fields(&mut self) -> Vec<&mut Self> {
        self.as_object_mut().map(|o| o.values_mut().collect()).unwrap_or_default()
    }
    fn num(x: f64) -> Self {
        serde_json::json!(x)
    }
    fn odd(k: usize) -> Self {
        [serde_json::json!("x"), serde_json::Value::Null, serde_json::json!([1.0])][k].clone()
    }
    fn get(&self) -> Option<f64> {
        self.as_f64()
    }
}
impl Tree for ciborium::Value {
    fn seq(&mut self) -> Option<&mut Vec<Self>> {
        self.as_array_mut()
    }
    fn fields(&mut self) -> Vec<&mut Self> {
        self.as_map_mut().map(|o| o.iter_mut().map(|(_, v)| v).collect()).unwrap_or_default()
    }
    fn num(x: f64) -> Self {
        ciborium::Value::Float(x)
    }
    fn odd(k: usize) -> Self {
        [ciborium::Value::Text("x".into()), ciborium::Value::Null, ciborium::Value::Array(vec![ciborium::Value::Float(1.0)])][k].clone()
    }
    fn get(&self) -> Option<f64> {
        self.as_float()
    }
}
/// the sequence that carries the components (attitudes wrap it in a structure)
fn body<V: Tree>(v: &mut V) -> &mut Vec<V> {
    if v.seq().is_some() {
        return v.seq().unwrap();
    }
    for f in v.fields() {
        if f.seq().is_some() {
            return f.seq().unwrap();
        }
    }
    bad("no sequence in the encoded value")
}
fn row<V: Tree>(v: &mut V, nested: bool, r: usize) -> &mut Vec<V> {
    let b = body(v);
    if nested {
        b[r].seq().unwrap_or_else(|| bad("row is not a sequence"))
    } else {
        b
    }
}
fn flat<V: Tree>(v: &mut V, nested: bool) -> Vec<f64> {
    let b = body(v).clone();
    if nested {
        b.into_iter().flat_map(|mut r| r.seq().cloned().unwrap_or_default()).map(|x| x.get().unwrap_or(f64::NAN)).collect()
    } else {
        b.into_iter().map(|x| x.get().unwrap_or(f64::NAN)).collect()
    }
}
enum Wire {
    None,
    Json(serde_json::Value, Option<String>),
    Core(String),
    Cbor(ciborium::Value),
    CborBytes(ciborium::Value, usize),
    Bytes(Vec<u8>),
    Legacy(Vec<u8>),
    Borrow(Vec<u8>),
    Framed(Vec<u8>),
}
struct Slot<V: Comps> {
    v: V,
    nested: bool,
    wire: Wire,
}
/// numbers on a tree wire as bit patterns of the value's own type
fn same<F: Bits>(got: &[f64], want: &[u64]) -> bool {
    got.len() == want.len()
        && got.iter().zip(want).all(|(g, w)| {
            let b = if F::W == 32 { (*g as f32).to_bits() as u64 } else { g.to_bits() };
            b == *w
        })
}
impl<V: Comps> Slot<V> {
    fn edit(&mut self, f: &dyn Fn(&mut dyn EditDyn)) {
        match &mut self.wire {
            Wire::Json(v, s) => {
                *s = None;
                f(v)
            }
            Wire::Cbor(v) => f(v),
            Wire::CborBytes(v, _) => f(v),
            _ => bad("edit of an unstructured wire"),
        }
    }
}
trait EditDyn {
    fn drop_at(&mut self, nested: bool, r: usize, j: usize);
    fn add_at(&mut self, nested: bool, r: usize, j: usize, x: f64);
    fn drop_row(&mut self, r: usize);
    fn add_row(&mut self, r: usize);
    fn poison(&mut self, nested: bool, r: usize, j: usize, k: usize);
}
impl<T: Tree> EditDyn for T {
    fn drop_at(&mut self, nested: bool, r: usize, j: usize) {
        row(self, nested, r).remove(j);
    }
    fn add_at(&mut self, nested: bool, r: usize, j: usize, x: f64) {
        row(self, nested, r).insert(j, T::num(x));
    }
    fn drop_row(&mut self, r: usize) {
        body(self).remove(r);
    }
    fn add_row(&mut self, r: usize) {
        let b = body(self);
        let x = b[r].clone();
        b.push(x);
    }
    fn poison(&mut self, nested: bool, r: usize, j: usize, k: usize) {
        row(self, nested, r)[j] = T::odd(k);
    }
}
const STD: bincode::config::Configuration = bincode::config::standard();
impl<V: Comps> Model for Slot<V> {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let nested = self.nested;
        match op {
            "encode" => {
                let n = cx.x(0) as usize;
                let want: Vec<u64> = (1..cx.en()).map(|k| cx.x(k) as u64).collect();
                self.wire = match cx.us(0) {
                    0 => match serde_json::to_string(&self.v) {
                        Ok(s) => Wire::Json(serde_json::from_str(&s).unwrap_or_else(|_| bad("own JSON")), Some(s)),
                        Err(e) => return cx.fail("json", format!("{}", e)),
                    },
                    1 => match serde_json_core::to_string::<_, 16384>(&self.v) {
                        Ok(s) => Wire::Core(s.as_str().to_string()),
                        Err(e) => return cx.fail("core", format!("{}", e)),
                    },
                    2 => match ciborium::Value::serialized(&self.v) {
                        Ok(s) => Wire::Cbor(s),
                        Err(e) => return cx.fail("cbor", format!("{}", e)),
                    },
                    3 => {
                        let mut b = vec![];
                        if let Err(e) = ciborium::into_writer(&self.v, &mut b) {
                            return cx.fail("cborbytes", format!("{}", e));
                        }
                        Wire::CborBytes(ciborium::from_reader(&b[..]).unwrap_or_else(|_| bad("own CBOR")), 0)
                    }
                    4 => match bincode::encode_to_vec(&self.v, STD) {
                        Ok(b) => Wire::Bytes(b),
                        Err(e) => return cx.fail("bincode", format!("{}", e)),
                    },
                    5 => match bincode::encode_to_vec(&self.v, bincode::config::legacy().with_big_endian()) {
                        Ok(b) => Wire::Legacy(b),
                        Err(e) => return cx.fail("legacy", format!("{}", e)),
                    },
                    6 => match bincode::encode_to_vec(&self.v, STD) {
                        Ok(b) => Wire::Borrow(b),
                        Err(e) => return cx.fail("borrow", format!("{}", e)),
                    },
                    _ => match bincode::serde::encode_to_vec(&self.v, STD) {
                        Ok(b) => Wire::Framed(b),
                        Err(e) => return cx.fail("framed", format!("{}", e)),
                    },
                };
                let w = <V::F as Bits>::W / 8;
                match &mut self.wire {
                    Wire::Json(v, _) => {
                        let g = flat(v, nested);
                        cx.check("json", same::<V::F>(&g, &want), || format!("encoded as {:?}", g));
                    }
                    Wire::Cbor(v) | Wire::CborBytes(v, _) => {
                        let g = flat(v, nested);
                        cx.check("cbor", same::<V::F>(&g, &want), || format!("encoded as {:?}", g));
                    }
                    Wire::Bytes(b) | Wire::Borrow(b) => {
                        let e: Vec<u8> = want.iter().flat_map(|x| x.to_le_bytes()[..w].to_vec()).collect();
                        cx.check("bincode", *b == e && b.len() == n, || format!("encoded as {:?} want {:?}", b, e));
                    }
                    Wire::Legacy(b) => {
                        let e: Vec<u8> = want.iter().flat_map(|x| x.to_be_bytes()[8 - w..].to_vec()).collect();
                        cx.check("legacy", *b == e && b.len() == n, || format!("encoded as {:?} want {:?}", b, e));
                    }
                    _ => {}
                }
            }
            "drop" => {
                let (r, j) = (cx.us(0), cx.us(1));
                self.edit(&|v| v.drop_at(nested, r, j));
            }
            "add" => {
                let (r, j) = (cx.us(0), cx.us(1));
                let b = cx.u64(2);
                let x = if <V::F as Bits>::W == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) };
                self.edit(&|v| v.add_at(nested, r, j, x));
            }
            "droprow" => {
                let r = cx.us(0);
                self.edit(&|v| v.drop_row(r));
            }
            "addrow" => {
                let r = cx.us(0);
                self.edit(&|v| v.add_row(r));
            }
            "poison" => {
                let (r, j, k) = (cx.us(0), cx.us(1), cx.us(2));
                self.edit(&|v| v.poison(nested, r, j, k));
            }
            "cut" => match &mut self.wire {
                Wire::Bytes(b) | Wire::Legacy(b) | Wire::Borrow(b) => b.truncate(cx.us(0)),
                _ => bad("cut"),
            },
            "chop" => match &mut self.wire {
                Wire::Framed(b) => b.truncate(b.len().saturating_sub(cx.us(0))),
                Wire::CborBytes(_, c) => *c = cx.us(0),
                _ => bad("chop"),
            },
            "decode" => {
                let ok = cx.x(0) == 1;
                let want: Vec<u64> = (1..cx.en()).map(|k| cx.x(k) as u64).collect();
                let judge = |cx: &Cx, k: &str, got: Result<V, String>| match got {
                    Ok(v) if ok => cx.check(k, v.comps() == want, || format!("decoded {:x?} want {:x?}", v.comps(), want)),
                    Ok(v) => cx.fail(k, format!("a damaged image was decoded to {:x?}", v.comps())),
                    Err(e) => cx.check(k, !ok, || format!("own encoding refused: {}", e)),
                };
                fn st<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
                    r.map_err(|e| format!("{:?}", e))
                }
                match &self.wire {
                    Wire::Json(v, s) => {
                        judge(cx, "json", st(serde_json::from_str::<V>(&s.clone().unwrap_or_else(|| v.to_string()))));
                        judge(cx, "jsonvalue", st(serde_json::from_value::<V>(v.clone())));
                    }
                    Wire::Core(s) => judge(cx, "core", st(serde_json_core::from_str::<V>(s).map(|x| x.0))),
                    Wire::Cbor(v) => judge(cx, "cbor", st(v.deserialized::<V>())),
                    Wire::CborBytes(v, c) => {
                        let mut b = vec![];
                        ciborium::into_writer(v, &mut b).unwrap_or_else(|_| bad("cbor writer"));
                        b.truncate(b.len().saturating_sub(*c));
                        judge(cx, "cborbytes", st(ciborium::from_reader::<V, _>(&b[..])));
                    }
                    Wire::Bytes(b) => {
                        judge(cx, "bincode", st(bincode::decode_from_slice::<V, _>(b, STD).map(|x| x.0)));
                        let mut c = b.clone();
                        c.extend([1, 2, 3]);
                        if ok {
                            let used = bincode::decode_from_slice::<V, _>(&c, STD).map(|x| x.1).unwrap_or(0);
                            cx.check("consumed", used == b.len(), || format!("consumed {} of {}", used, b.len()));
                        }
                    }
                    Wire::Legacy(b) => judge(cx, "legacy", st(bincode::decode_from_slice::<V, _>(b, bincode::config::legacy().with_big_endian()).map(|x| x.0))),
                    Wire::Borrow(b) => judge(cx, "borrow", st(bincode::borrow_decode_from_slice::<V, _>(b, STD).map(|x| x.0))),
                    Wire::Framed(b) => judge(cx, "framed", st(bincode::serde::decode_from_slice::<V, _>(b, STD).map(|x| x.0))),
                    Wire::None => bad("nothing encoded"),
                }
            }
            _ => bad(op),
        }
    }
}
pub fn m03() -> Box<dyn Model> {
    Box::new(M03 { p: None })
}
struct M03 {
    p: Option<Box<dyn Model>>,
}
fn slot<V: Comps + 'static>(cx: &Cx, nested: bool, off: usize) -> Box<dyn Model> {
    let b: Vec<u64> = (off..cx.an()).map(|k| cx.u64(k)).collect();
    let v = V::make(&b);
    cx.check("value", v.comps() == b && b.len() as i128 == cx.x(0), || format!("built {:x?} from {:x?}", v.comps(), b));
    Box::new(Slot { v, nested, wire: Wire::None })
}
macro_rules! types { ($cx:expr, $t:ty, $id:expr) => { match $id {
    0 => slot::<Vector<$t, 1>>($cx, false, 2), 1 => slot::<Vector<$t, 2>>($cx, false, 2), 2 => slot::<Vector<$t, 3>>($cx, false, 2),
    3 => slot::<Vector<$t, 4>>($cx, false, 2), 4 => slot::<Vector<$t, 6>>($cx, false, 2), 5 => slot::<Vector<$t, 9>>($cx, false, 2),
    6 => slot::<Matrix<$t, 1, 1>>($cx, true, 2), 7 => slot::<Matrix<$t, 1, 3>>($cx, true, 2), 8 => slot::<Matrix<$t, 3, 1>>($cx, true, 2),
    9 => slot::<Matrix<$t, 2, 3>>($cx, true, 2), 10 => slot::<Matrix<$t, 3, 2>>($cx, true, 2), 11 => slot::<Matrix<$t, 3, 3>>($cx, true, 2),
    12 => slot::<Matrix<$t, 4, 4>>($cx, true, 2), 13 => slot::<Matrix<$t, 6, 6>>($cx, true, 2), 14 => slot::<Matrix<$t, 2, 5>>($cx, true, 2),
    15 => slot::<Cartesian<$t, ICRF<$t>>>($cx, false, 2), 16 => slot::<Euler<$t, Body<$t>, ICRF<$t>>>($cx, false, 2),
    17 => slot::<Quaternion<$t, Body<$t>, ICRF<$t>>>($cx, false, 2), 18 => slot::<DirectionCosineMatrix<$t, Body<$t>, ICRF<$t>>>($cx, true, 2),
    19 => slot::<Body<$t>>($cx, true, 2), 20 => slot::<Asm<$t>>($cx, true, 2),
    _ => bad("type"),
} } }
impl Model for M03 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        match op {
            "value" => self.p = Some(if cx.i(1) == 64 { types!(cx, f64, cx.us(0)) } else { types!(cx, f32, cx.us(0)) }),
            _ => self.p.as_mut().unwrap_or_else(|| bad("no value")).step(op, cx),
        }
    }
}
