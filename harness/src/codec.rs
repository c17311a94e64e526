//! Calls through the serialization integrations, and their oracle.
//! Byte inputs travel as hex in the case text; documents travel as they are.
use crate::big::Big;
use crate::case::*;
use crate::gen::{self, Rng};
use crate::judge::{self, ok_if, Verdict, *};
use crate::subj::Subj;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;

/// Numbers in the positions a document can hold them.
#[derive(Serialize, Deserialize)]
#[serde(bound = "T: Serialize + DeserializeOwned + Ord")]
pub struct Pos<T> {
    a: T,
    o: Option<T>,
    n: Option<T>,
    v: Vec<T>,
    m: BTreeMap<String, T>,
    k: BTreeMap<T, u8>,
    t: (T, T),
    #[serde(flatten)]
    f: Flat<T>,
    e: Either<T>,
    g: Tagged<T>,
}
#[derive(Serialize, Deserialize)]
#[serde(bound = "T: Serialize + DeserializeOwned")]
pub struct Flat<T> {
    x: T,
    y: Option<T>,
}
#[derive(Serialize, Deserialize)]
#[serde(untagged, bound = "T: Serialize + DeserializeOwned")]
pub enum Either<T> {
    No(bool),
    One(T),
}
#[derive(Serialize, Deserialize)]
#[serde(tag = "kind", bound = "T: Serialize + DeserializeOwned")]
pub enum Tagged<T> {
    Some { x: T },
}

pub fn pos<T: Copy + Ord>(a: T, b: T) -> Pos<T> {
    Pos {
        a, o: Some(b), n: None, v: vec![b, a, b], m: [("p".to_owned(), a), ("q".to_owned(), b)].into(), k: [(a, 1), (b, 2)].into(),
        t: (b, a), f: Flat { x: a, y: Some(b) }, e: Either::One(b), g: Tagged::Some { x: a },
    }
}

impl<T: Copy> Pos<T> {
    fn list(&self, f: impl Fn(T) -> i128) -> Out {
        let o = |x: Option<T>| x.map_or(7, &f);
        let mut v = vec![f(self.a), o(self.o), self.n.is_some() as i128, self.v.len() as i128];
        v.extend(self.v.iter().map(|x| f(*x)));
        v.extend(self.m.values().map(|x| f(*x)));
        v.extend(self.k.iter().flat_map(|(x, n)| [f(*x), *n as i128]));
        v.extend([f(self.t.0), f(self.t.1), f(self.f.x), o(self.f.y)]);
        v.push(match self.e { Either::One(x) => f(x), _ => 7 });
        let Tagged::Some { x } = self.g;
        v.push(f(x));
        Out::List(v)
    }
}

/// What binary formats get: no map keys that need text, no flattening.
#[derive(Serialize, Deserialize)]
#[serde(bound = "T: Serialize + DeserializeOwned")]
pub struct BPos<T> {
    a: T,
    o: Option<T>,
    n: Option<T>,
    v: Vec<T>,
    t: (T, T),
}
pub fn bpos<T: Copy>(a: T, b: T) -> BPos<T> {
    BPos { a, o: Some(b), n: None, v: vec![b, a, b], t: (b, a) }
}
impl<T: Copy> BPos<T> {
    fn list(&self, f: impl Fn(T) -> i128) -> Out {
        let o = |x: Option<T>| x.map_or(7, &f);
        let mut v = vec![f(self.a), o(self.o), self.n.is_some() as i128];
        v.extend(self.v.iter().map(|x| f(*x)));
        v.extend([f(self.t.0), f(self.t.1)]);
        Out::List(v)
    }
}

/// Attributes in quick-xml's dialect (its serializer writes primitive fields as attributes).
#[derive(Serialize, Deserialize)]
#[serde(rename = "d", bound = "T: Serialize + DeserializeOwned")]
pub struct XmlAttr<T> {
    a: T,
    b: Option<T>,
}
#[derive(Deserialize)]
#[serde(bound = "T: DeserializeOwned")]
pub struct XmlElems<T> {
    #[serde(default = "Vec::new")]
    x: Vec<T>,
    y: Option<T>,
}

/// A reader that hands out few bytes at a time.
pub struct Trickle<'a>(&'a [u8]);
impl std::io::Read for Trickle<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(buf.len()).min(3);
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// Reads a JSON document from one of four sources.
pub fn json<T: DeserializeOwned>(doc: &str, src: i32) -> Option<T> {
    match src {
        0 => serde_json::from_str(doc).ok(),
        1 => serde_json::from_reader(Trickle(doc.as_bytes())).ok(),
        2 => serde_json::from_value(serde_json::from_str(doc).ok()?).ok(),
        _ => serde_json::from_slice(doc.as_bytes()).ok(),
    }
}
const JSON_SRC: i32 = 4;

/// bincode's default format, bounded so that a claimed length cannot exhaust memory.
pub fn bin<T: DeserializeOwned>(doc: &[u8], src: i32) -> Option<T> {
    use bincode::Options;
    let o = bincode::DefaultOptions::new().with_fixint_encoding().allow_trailing_bytes().with_limit(1 << 16);
    match src {
        0 => o.deserialize(doc).ok(),
        _ => o.deserialize_from(Trickle(doc)).ok(),
    }
}

pub fn cbor<T: Serialize>(x: &T) -> Vec<u8> {
    let mut v = Vec::new();
    ciborium::into_writer(x, &mut v).expect("monitor: cbor");
    v
}
pub fn from_cbor<T: DeserializeOwned>(b: &[u8], src: i32) -> Option<T> {
    match src {
        0 => ciborium::from_reader(b).ok(),
        _ => ciborium::from_reader(Trickle(b)).ok(),
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("monitor: hex")).collect()
}

fn xml_escape(t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&apos;"),
            c => o.push(c),
        }
    }
    o
}

/// `#[serde(with)]` modules under test.
pub const MODULES: [&str; 6] = ["repr", "str", "float", "repr_option", "str_option", "float_option"];
/// Formats the modules are driven through: JSON text, JSON from a reader, bincode, bincode from a reader, CBOR.
pub const FORMATS: i32 = 5;
pub fn mod_code(module: i32, wrapper: bool, some: bool, format: i32) -> i32 {
    module + 8 * wrapper as i32 + 16 * some as i32 + 32 * format
}

pub fn to_format<T: Serialize>(x: &T, format: i32) -> Vec<u8> {
    match format {
        0 | 1 => serde_json::to_vec(x).expect("monitor: json"),
        2 | 3 => bincode::serialize(x).expect("monitor: bincode"),
        _ => cbor(x),
    }
}
pub fn from_format<T: DeserializeOwned>(b: &[u8], format: i32) -> Option<T> {
    match format {
        0 => serde_json::from_slice(b).ok(),
        1 => serde_json::from_reader(Trickle(b)).ok(),
        2 | 3 => bin(b, format - 2),
        _ => ciborium::from_reader(b).ok(),
    }
}

macro_rules! layout {
    ($m:ident, $l:ident, $u:ident) => {
        pub mod $m {
            use super::*;
            use fixnum::{typenum::Unsigned, FixedPoint};
            use parity_scale_codec::{Compact, Decode, Encode};
            use serde::de::{value::Error as VErr, IntoDeserializer};
            use serde::{Deserializer, Serializer};

            type F<P> = FixedPoint<$l, P>;
            fn raw<P: Unsigned>(x: F<P>) -> i128 {
                x.into_bits() as i128
            }

            /// A user's newtype around a number.
            pub struct Own<P>(F<P>);
            impl<P: Unsigned> Clone for Own<P> where F<P>: Copy {
                fn clone(&self) -> Self {
                    Own(self.0)
                }
            }
            impl<P> From<F<P>> for Own<P> {
                fn from(x: F<P>) -> Self {
                    Own(x)
                }
            }
            impl<P> From<Own<P>> for F<P> {
                fn from(x: Own<P>) -> Self {
                    x.0
                }
            }

            // What `#[serde(with = ...)]` expands to for a field.
            macro_rules! with {
                ($plain:ident, $own:ident, $path:ident) => {
                    pub struct $plain<P>(F<P>);
                    impl<P: Unsigned> Serialize for $plain<P> where F<P>: Copy {
                        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                            fixnum::serde::$path::serialize(&self.0, s)
                        }
                    }
                    impl<'de, P: Unsigned> Deserialize<'de> for $plain<P> {
                        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                            Ok($plain(fixnum::serde::$path::deserialize(d)?))
                        }
                    }
                    pub struct $own<P>(Own<P>);
                    impl<P: Unsigned> Serialize for $own<P> where F<P>: Copy {
                        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                            fixnum::serde::$path::serialize::<Own<P>, $l, P, S>(&self.0, s)
                        }
                    }
                    impl<'de, P: Unsigned> Deserialize<'de> for $own<P> {
                        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                            Ok($own(fixnum::serde::$path::deserialize::<Own<P>, $l, P, D>(d)?))
                        }
                    }
                };
            }
            macro_rules! with_option {
                ($plain:ident, $own:ident, $path:ident) => {
                    pub struct $plain<P>(Option<F<P>>);
                    impl<P: Unsigned> Serialize for $plain<P> where F<P>: Copy {
                        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                            fixnum::serde::$path::serialize(&self.0, s)
                        }
                    }
                    impl<'de, P: Unsigned> Deserialize<'de> for $plain<P> {
                        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                            Ok($plain(fixnum::serde::$path::deserialize(d)?))
                        }
                    }
                    pub struct $own<P>(Option<Own<P>>);
                    impl<P: Unsigned> Serialize for $own<P> where F<P>: Copy {
                        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                            fixnum::serde::$path::serialize::<Own<P>, $l, P, S>(&self.0, s)
                        }
                    }
                    impl<'de, P: Unsigned> Deserialize<'de> for $own<P> {
                        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                            Ok($own(fixnum::serde::$path::deserialize::<Own<P>, $l, P, D>(d)?))
                        }
                    }
                };
            }
            with!(Repr, ReprOwn, repr);
            with!(Str, StrOwn, str);
            with!(Float, FloatOwn, float);
            with_option!(ReprOpt, ReprOptOwn, repr_option);
            with_option!(StrOpt, StrOptOwn, str_option);
            with_option!(FloatOpt, FloatOptOwn, float_option);

            fn write_mod<P: Unsigned>(k: &Case) -> Vec<u8> where F<P>: Copy {
                let x = F::<P>::from_bits(k.a as $l);
                let (c, f) = (k.c & 15, k.c >> 5);
                let o = (k.c & 16 != 0).then_some(x);
                match c {
                    0 => to_format(&Repr(x), f),
                    1 => to_format(&Str(x), f),
                    2 => to_format(&Float(x), f),
                    3 => to_format(&ReprOpt(o), f),
                    4 => to_format(&StrOpt(o), f),
                    5 => to_format(&FloatOpt(o), f),
                    8 => to_format(&ReprOwn(Own(x)), f),
                    9 => to_format(&StrOwn(Own(x)), f),
                    10 => to_format(&FloatOwn(Own(x)), f),
                    11 => to_format(&ReprOptOwn(o.map(Own)), f),
                    12 => to_format(&StrOptOwn(o.map(Own)), f),
                    13 => to_format(&FloatOptOwn(o.map(Own)), f),
                    _ => panic!("monitor: no such module"),
                }
            }

            /// Some(None) is an absent value.
            fn read_mod<P: Unsigned>(b: &[u8], code: i32) -> Option<Option<i128>> where F<P>: Copy {
                let f = code >> 5;
                match code & 15 {
                    0 => from_format::<Repr<P>>(b, f).map(|x| Some(raw(x.0))),
                    1 => from_format::<Str<P>>(b, f).map(|x| Some(raw(x.0))),
                    2 => from_format::<Float<P>>(b, f).map(|x| Some(raw(x.0))),
                    3 => from_format::<ReprOpt<P>>(b, f).map(|x| x.0.map(raw)),
                    4 => from_format::<StrOpt<P>>(b, f).map(|x| x.0.map(raw)),
                    5 => from_format::<FloatOpt<P>>(b, f).map(|x| x.0.map(raw)),
                    8 => from_format::<ReprOwn<P>>(b, f).map(|x| Some(raw(x.0 .0))),
                    9 => from_format::<StrOwn<P>>(b, f).map(|x| Some(raw(x.0 .0))),
                    10 => from_format::<FloatOwn<P>>(b, f).map(|x| Some(raw(x.0 .0))),
                    11 => from_format::<ReprOptOwn<P>>(b, f).map(|x| x.0.map(|x| raw(x.0))),
                    12 => from_format::<StrOptOwn<P>>(b, f).map(|x| x.0.map(|x| raw(x.0))),
                    13 => from_format::<FloatOptOwn<P>>(b, f).map(|x| x.0.map(|x| raw(x.0))),
                    _ => panic!("monitor: no such module"),
                }
            }

            fn opt_out(x: Option<Option<i128>>) -> Out {
                match x {
                    None => Out::Reject,
                    Some(None) => Out::List(vec![]),
                    Some(Some(x)) => Out::Int(x),
                }
            }

            #[inline(never)]
            fn text_formats<P: Unsigned>(k: &Case) -> Out
            where
                F<P>: Copy + Ord,
            {
                let x = F::<P>::from_bits(k.a as $l);
                let y = F::<P>::from_bits(k.b as $l);
                let int = |r: Option<F<P>>| r.map_or(Out::Reject, |x| Out::Int(raw(x)));
                match k.op {
                    Op::JsonSer => match k.c {
                        0 => serde_json::to_string(&x).map_or(Out::Reject, Out::Text),
                        1 => serde_json::to_value(x).map_or(Out::Reject, |v| Out::Text(v.to_string())),
                        _ => serde_json::to_string(&Some(x)).map_or(Out::Reject, Out::Text),
                    },
                    Op::JsonDe => {
                        if k.c >= 8 {
                            // as an optional value
                            return match json::<Option<F<P>>>(&k.s, k.c - 8) {
                                None => Out::Reject,
                                Some(None) => Out::List(vec![]),
                                Some(Some(x)) => Out::Int(raw(x)),
                            };
                        }
                        int(json(&k.s, k.c))
                    }
                    Op::JsonPos => {
                        let Ok(doc) = serde_json::to_string(&pos(x, y)) else {
                            return Out::Reject;
                        };
                        if k.c == JSON_SRC {
                            return Out::Text(doc);
                        }
                        json::<Pos<F<P>>>(&doc, k.c).map_or(Out::Reject, |p| p.list(raw))
                    }
                    Op::XmlRound => {
                        let a = XmlAttr { a: x, b: Some(y) };
                        let Ok(doc) = quick_xml::se::to_string(&a) else {
                            return Out::Reject;
                        };
                        match k.c {
                            0 => quick_xml::de::from_str::<XmlAttr<F<P>>>(&doc).map_or(Out::Reject, |r| {
                                Out::List(vec![raw(r.a), r.b.map_or(7, raw)])
                            }),
                            1 => quick_xml::de::from_reader::<_, XmlAttr<F<P>>>(doc.as_bytes()).map_or(Out::Reject, |r| {
                                Out::List(vec![raw(r.a), r.b.map_or(7, raw)])
                            }),
                            _ => Out::Text(doc),
                        }
                    }
                    Op::XmlDe => {
                        let t = xml_escape(&k.s);
                        let read = |d: &str| -> Option<Vec<F<P>>> {
                            match k.c {
                                0 | 1 => quick_xml::de::from_str::<XmlAttr<F<P>>>(d).ok().map(|r| [r.a].into_iter().chain(r.b).collect()),
                                2 => quick_xml::de::from_str::<XmlElems<F<P>>>(d).ok().map(|r| r.x.into_iter().chain(r.y).collect()),
                                3 => quick_xml::de::from_str::<F<P>>(d).ok().map(|r| vec![r]),
                                _ => quick_xml::de::from_reader::<_, XmlElems<F<P>>>(d.as_bytes()).ok().map(|r| r.x.into_iter().chain(r.y).collect()),
                            }
                        };
                        let doc = match k.c {
                            0 => format!("<d a=\"{t}\" b=\"{t}\"/>"),
                            1 => format!("<d><a>{t}</a><b>{t}</b></d>"),
                            2 => format!("<d><x>{t}</x><x>{t}</x><y>{t}</y></d>"),
                            3 => format!("<d>{t}</d>"),
                            _ => format!("<d><x>{t}</x><x>{t}</x></d>"),
                        };
                        read(&doc).map_or(Out::Reject, |v| Out::List(v.into_iter().map(raw).collect()))
                    }
                    Op::RonRound => {
                        let Ok(doc) = ron::to_string(&(x, Some(y), vec![x, y])) else {
                            return Out::Reject;
                        };
                        if k.c == 0 {
                            return Out::Text(doc);
                        }
                        ron::from_str::<(F<P>, Option<F<P>>, Vec<F<P>>)>(&doc).map_or(Out::Reject, |r| {
                            Out::List([r.0, r.1.unwrap_or(r.0)].into_iter().chain(r.2).map(raw).collect())
                        })
                    }
                    #[cfg(feature = "schema")]
                    Op::Schema => {
                        let s = match k.c {
                            0 => schemars::schema_for!(F<P>),
                            1 => schemars::schema_for!((F<P>, Option<F<P>>, Vec<F<P>>)),
                            _ => schemars::schema_for!(std::collections::BTreeMap<String, F<P>>),
                        };
                        Out::Text(serde_json::to_string(&s).expect("monitor: schema"))
                    }
                    Op::HrNum => {
                        let d = |r: Result<F<P>, VErr>| int(r.ok());
                        macro_rules! via {
                            ($x:expr) => {
                                d(F::<P>::deserialize(IntoDeserializer::<VErr>::into_deserializer($x)))
                            };
                        }
                        match k.c {
                            0 => via!(k.a as i8),
                            1 => via!(k.a as u8),
                            2 => via!(k.a as i16),
                            3 => via!(k.a as u16),
                            4 => via!(k.a as i32),
                            5 => via!(k.a as u32),
                            6 => via!(k.a as i64),
                            7 => via!(k.a as u64),
                            8 => via!(k.a),
                            9 => via!(k.a as u128),
                            10 => via!(f64::from_bits(k.a as u64)),
                            11 => via!(f32::from_bits(k.a as u32)),
                            12 => via!(k.s.as_str()),
                            13 => via!(k.s.clone()),
                            14 => via!(k.a & 1 == 1),
                            15 => via!(()),
                            16 => d(F::<P>::deserialize(serde::de::value::BorrowedStrDeserializer::<VErr>::new(&k.s))),
                            17 => d(F::<P>::deserialize(serde::de::value::BytesDeserializer::<VErr>::new(&[0x80, k.a as u8]))),
                            _ => via!(vec![1u8, 2]),
                        }
                    }
                    _ => modules::<P>(k),
                }
            }

            #[inline(never)]
            fn modules<P: Unsigned>(k: &Case) -> Out
            where
                F<P>: Copy + Ord,
            {
                match k.op {
                    Op::ModVal => {
                        use serde::de::value::*;
                        macro_rules! read {
                            ($x:expr) => {
                                match k.c & 15 {
                                    0 => Repr::<P>::deserialize($x).ok().map(|x| Some(raw(x.0))),
                                    1 => Str::<P>::deserialize($x).ok().map(|x| Some(raw(x.0))),
                                    2 => Float::<P>::deserialize($x).ok().map(|x| Some(raw(x.0))),
                                    3 => ReprOpt::<P>::deserialize($x).ok().map(|x| x.0.map(raw)),
                                    4 => StrOpt::<P>::deserialize($x).ok().map(|x| x.0.map(raw)),
                                    _ => FloatOpt::<P>::deserialize($x).ok().map(|x| x.0.map(raw)),
                                }
                            };
                        }
                        opt_out(match k.c >> 4 {
                            0 => read!(StrDeserializer::<VErr>::new(&k.s)),
                            1 => read!(StringDeserializer::<VErr>::new(k.s.clone())),
                            2 => read!(BorrowedStrDeserializer::<VErr>::new(&k.s)),
                            3 => read!(BytesDeserializer::<VErr>::new(k.s.as_bytes())),
                            4 => read!(BorrowedBytesDeserializer::<VErr>::new(k.s.as_bytes())),
                            5 => read!(BytesDeserializer::<VErr>::new(&unhex(&k.s))),
                            6 => read!(UnitDeserializer::<VErr>::new()),
                            7 => read!(I64Deserializer::<VErr>::new(k.a as i64)),
                            8 => read!(U64Deserializer::<VErr>::new(k.a as u64)),
                            9 => read!(F64Deserializer::<VErr>::new(f64::from_bits(k.a as u64))),
                            10 => read!(BoolDeserializer::<VErr>::new(k.a & 1 == 1)),
                            11 => read!(I8Deserializer::<VErr>::new(k.a as i8)),
                            _ => read!(U16Deserializer::<VErr>::new(k.a as u16)),
                        })
                    }
                    Op::ModSer => Out::Bytes(write_mod::<P>(k)),
                    Op::ModRound => opt_out(read_mod::<P>(&write_mod::<P>(k), k.c)),
                    Op::ModDe => opt_out(read_mod::<P>(if k.c >> 5 < 2 { k.s.as_bytes().to_vec() } else { unhex(&k.s) }.as_slice(), k.c)),
                    _ => binary::<P>(k),
                }
            }

            #[inline(never)]
            fn binary<P: Unsigned>(k: &Case) -> Out
            where
                F<P>: Copy + Ord,
            {
                let x = F::<P>::from_bits(k.a as $l);
                let y = F::<P>::from_bits(k.b as $l);
                let int = |r: Option<F<P>>| r.map_or(Out::Reject, |x| Out::Int(raw(x)));
                let tail = |r: Option<(F<P>, usize)>| r.map_or(Out::Reject, |(x, n)| Out::Pair(raw(x), n as i64));
                match k.op {
                    Op::BinSer => match k.c {
                        0 => Out::Bytes(bincode::serialize(&x).expect("monitor: bincode")),
                        _ => Out::Bytes(cbor(&x)),
                    },
                    Op::BinDe => int(bin(&unhex(&k.s), k.c)),
                    Op::BinPos => {
                        let b = bincode::serialize(&bpos(x, y)).expect("monitor: bincode");
                        if k.c == 2 {
                            return Out::Bytes(b);
                        }
                        bin::<BPos<F<P>>>(&b, k.c).map_or(Out::Reject, |p| p.list(raw))
                    }
                    Op::CborRound => {
                        let b = cbor(&bpos(x, y));
                        if k.c == 2 {
                            return Out::Bytes(b);
                        }
                        from_cbor::<BPos<F<P>>>(&b, k.c).map_or(Out::Reject, |p| p.list(raw))
                    }
                    Op::CborDe => int(from_cbor(&unhex(&k.s), k.c)),
                    Op::ScaleEnc => match k.c {
                        0 => Out::Bytes(x.encode()),
                        1 => {
                            let mut v = vec![0xee];
                            x.encode_to(&mut v);
                            Out::Bytes(v[1..].to_vec())
                        }
                        2 => Out::Bytes(x.using_encoded(|b| b.to_vec())),
                        3 => Out::Bytes((&x).encode()),
                        _ => Out::Int(x.encoded_size() as i128),
                    },
                    Op::ScaleDec => {
                        let b = unhex(&k.s);
                        match k.c {
                            2 => tail(parity_scale_codec::DecodeAll::decode_all(&mut &b[..]).ok().map(|x: F<P>| (x, b.len()))),
                            3 => {
                                let mut r = &b[..];
                                tail(F::<P>::skip(&mut r).ok().map(|_| (F::<P>::from_bits(0), b.len() - r.len())))
                            }
                            4 => {
                                let mut r = &b[..];
                                tail(<[F<P>; 1]>::decode(&mut r).ok().map(|x| (x[0], b.len() - r.len())))
                            }
                            5 => {
                                let mut r = &b[..];
                                tail(Box::<F<P>>::decode(&mut r).ok().map(|x| (*x, b.len() - r.len())))
                            }
                            0 => {
                                let mut r = &b[..];
                                tail(F::<P>::decode(&mut r).ok().map(|x| (x, b.len() - r.len())))
                            }
                            _ => {
                                let mut r = parity_scale_codec::IoReader(Trickle(&b));
                                tail(F::<P>::decode(&mut r).ok().map(|x| (x, b.len() - r.0 .0.len())))
                            }
                        }
                    }
                    Op::ScaleCompEnc => match k.c {
                        0 => Out::Bytes(Compact(x).encode()),
                        1 => Out::Bytes(parity_scale_codec::CompactRef(&x).encode()),
                        _ => Out::Int(Compact(x).encoded_size() as i128),
                    },
                    Op::ScaleCompDec => {
                        let b = unhex(&k.s);
                        match k.c {
                            0 => {
                                let mut r = &b[..];
                                tail(Compact::<F<P>>::decode(&mut r).ok().map(|x| (F::<P>::from(x), b.len() - r.len())))
                            }
                            _ => {
                                let mut r = parity_scale_codec::IoReader(Trickle(&b));
                                tail(Compact::<F<P>>::decode(&mut r).ok().map(|x| (x.0, b.len() - r.0 .0.len())))
                            }
                        }
                    }
                    Op::ScaleSeq => {
                        let b = (vec![x, y, x], Some(y), None::<F<P>>, Compact(x), (y, x), [x, y], Ok::<_, ()>(x), vec![Compact(y), Compact(x)]).encode();
                        if k.c == 0 {
                            return Out::Bytes(b);
                        }
                        type Seq<T> = (Vec<T>, Option<T>, Option<T>, Compact<T>, (T, T), [T; 2], Result<T, ()>, Vec<Compact<T>>);
                        let r = Seq::<F<P>>::decode(&mut &b[..]);
                        r.map_or(Out::Reject, |(v, o, n, c, t, a, e, q)| {
                            let mut l: Vec<i128> = v.into_iter().map(raw).collect();
                            l.extend([o.map_or(7, raw), n.is_some() as i128, raw(c.0), raw(t.0), raw(t.1), raw(a[0]), raw(a[1]), e.map_or(7, raw)]);
                            l.extend(q.into_iter().map(|x| raw(x.0)));
                            Out::List(l)
                        })
                    }
                    op => panic!("monitor: {} is not a codec operation", op.name()),
                }
            }

            pub fn exec<P: Unsigned>(k: &Case) -> Out
            where
                F<P>: Copy + Ord,
            {
                text_formats::<P>(k)
            }
        }
    };
}
#[cfg(feature = "i16")]
layout!(l16, i16, u16);
#[cfg(feature = "i32")]
layout!(l32, i32, u32);
#[cfg(feature = "i64")]
layout!(l64, i64, u64);
#[cfg(feature = "i128")]
layout!(l128, i128, u128);

// ------------------------------------------------------------------ oracle

fn expect(class: u8, out: &Out, want: Out) -> Verdict {
    ok_if(class, *out == want, || format!("expected {want:?}, got {out:?}"))
}

fn fit(s: &Subj, v: Big) -> Option<i128> {
    v.to_i128().filter(|&x| x >= s.min() && x <= s.max())
}

/// Raw bytes as the layout's integer writes them.
fn le(s: &Subj, v: i128) -> Vec<u8> {
    v.to_le_bytes()[..s.bits as usize / 8].to_vec()
}

fn from_le(s: &Subj, b: &[u8]) -> Option<i128> {
    let n = s.bits as usize / 8;
    if b.len() < n {
        return None;
    }
    let mut w = [if b[n - 1] >> 7 == 1 { 0xff } else { 0 }; 16];
    w[..n].copy_from_slice(&b[..n]);
    Some(i128::from_le_bytes(w))
}

fn unsigned(s: &Subj, v: i128) -> u128 {
    v as u128 & (u128::MAX >> (128 - s.bits))
}

/// Compact form by the SCALE specification.
fn compact(v: u128) -> Vec<u8> {
    match v {
        0..=0x3f => vec![(v as u8) << 2],
        0..=0x3fff => (((v as u16) << 2) | 1).to_le_bytes().to_vec(),
        0..=0x3fff_ffff => (((v as u32) << 2) | 2).to_le_bytes().to_vec(),
        _ => {
            let n = (128 - v.leading_zeros()).div_ceil(8) as usize;
            let mut b = vec![((n - 4) << 2 | 3) as u8];
            b.extend(&v.to_le_bytes()[..n]);
            b
        }
    }
}

/// The number a compact prefix denotes, canonical or not, and its length.
fn compact_value(b: &[u8]) -> Option<(Big, usize)> {
    let first = *b.first()?;
    let (n, shift) = match first & 3 {
        0 => (1, 2),
        1 => (2, 2),
        2 => (4, 2),
        _ => {
            let n = (first >> 2) as usize + 4;
            let d = b.get(1..1 + n)?;
            let mut v = Big::ZERO;
            for x in d.iter().rev() {
                if v.bits() > 400 {
                    return None;
                }
                v = v.shl(8).add(Big::u(*x as u128));
            }
            return Some((v, 1 + n));
        }
    };
    let mut w = [0; 16];
    w[..n].copy_from_slice(b.get(..n)?);
    Some((Big::u(u128::from_le_bytes(w) >> shift), n))
}

/// CBOR of an integer: the shortest head, or a bignum tag.
fn cbor_int(v: i128) -> Vec<u8> {
    let (major, n) = if v < 0 { (1u8, (-1 - v) as u128) } else { (0, v as u128) };
    let head = |major: u8, n: u64| -> Vec<u8> {
        let m = major << 5;
        match n {
            0..=23 => vec![m | n as u8],
            0..=0xff => vec![m | 24, n as u8],
            0..=0xffff => [&[m | 25][..], &(n as u16).to_be_bytes()].concat(),
            0..=0xffff_ffff => [&[m | 26][..], &(n as u32).to_be_bytes()].concat(),
            _ => [&[m | 27][..], &n.to_be_bytes()].concat(),
        }
    };
    if n <= u64::MAX as u128 {
        return head(major, n as u64);
    }
    let b = n.to_be_bytes();
    let b = &b[(n.leading_zeros() / 8) as usize..];
    [&[0xc2 + major][..], &head(2, b.len() as u64), b].concat()
}

/// Widest integer the format carries for a layout, checked through the plain integer's own reading.
fn cbor_plain(s: &Subj, b: &[u8]) -> Option<i128> {
    match s.bits {
        16 => from_cbor::<i16>(b, 0).map(|x| x as i128),
        32 => from_cbor::<i32>(b, 0).map(|x| x as i128),
        64 => from_cbor::<i64>(b, 0).map(|x| x as i128),
        _ => from_cbor::<i128>(b, 0),
    }
}

fn quoted(t: &str) -> String {
    format!("\"{t}\"")
}

/// What a JSON value means to the default reader.
fn json_want(s: &Subj, doc: &str, optional: bool, out: &Out) -> Verdict {
    let Ok(v) = serde_json::from_str::<serde_json::Value>(doc) else {
        return ok_if(REJ, *out == Out::Reject, || format!("malformed document {doc:?} gave {out:?}"));
    };
    use serde_json::Value::*;
    match &v {
        Null if optional => expect(ABSENT, out, Out::List(vec![])),
        String(t) => {
            let (class, want) = judge::parse_want(s, t, false);
            expect(class, out, want.map_or(Out::Reject, Out::Int))
        }
        Number(n) => {
            if let Some(i) = n.as_u64().map(|x| Big::u(x as u128)).or(n.as_i64().map(|x| Big::i(x as i128))) {
                let v = i.mul(Big::i(s.coef()));
                let class = if fit(s, v).is_some() { INTEGRAL } else if v.neg { LOW } else { HIGH };
                return expect(class, out, fit(s, v).map_or(Out::Reject, Out::Int));
            }
            match n.as_f64() {
                Some(f) => judge::from_float(s, out, f.to_bits()),
                None => (OTHER, None),
            }
        }
        // The element form of quick-xml; only totality is claimed for it in JSON.
        Object(m) if m.contains_key("$value") => ok_if(OTHER, matches!(out, Out::Reject | Out::Int(_)), || format!("{doc:?} gave {out:?}")),
        _ => ok_if(REJ, *out == Out::Reject, || format!("{doc:?} is not a number or a string, got {out:?}")),
    }
}

/// A JSON integer without fraction or exponent.
fn plain_int(doc: &str) -> Option<Big> {
    let t = doc.trim_matches([' ', '\t', '\n', '\r']);
    let (neg, d) = t.strip_prefix('-').map_or((false, t), |d| (true, d));
    if d.is_empty() || d.len() > 100 || !d.bytes().all(|b| b.is_ascii_digit()) || (d.len() > 1 && d.starts_with('0')) {
        return None;
    }
    let mut v = Big::ZERO;
    for c in d.bytes() {
        v = v.mul(Big::u(10)).add(Big::u((c - b'0') as u128));
    }
    Some(if neg { v.neg() } else { v })
}

/// What a JSON document means to an explicitly chosen module.
fn mod_json_want(s: &Subj, module: i32, doc: &str, out: &Out) -> Verdict {
    let optional = module >= 3;
    let Ok(v) = serde_json::from_str::<serde_json::Value>(doc) else {
        return ok_if(REJ, *out == Out::Reject, || format!("malformed document {doc:?} gave {out:?}"));
    };
    use serde_json::Value::*;
    match (&v, module % 3) {
        (Null, _) if optional => expect(ABSENT, out, Out::List(vec![])),
        (String(t), 1) => {
            let (class, want) = judge::parse_want(s, t, false);
            expect(class, out, want.map_or(Out::Reject, Out::Int))
        }
        (Number(_), 0) => match plain_int(doc) {
            // "-0" is a float to serde_json's narrow integers.
            Some(v) if v.is_zero() => ok_if(ZERO, matches!(out, Out::Int(0) | Out::Reject), || format!("{doc:?} gave {out:?}")),
            Some(v) => {
                let class = if fit(s, v).is_some() { INTEGRAL } else if v.neg { LOW } else { HIGH };
                expect(class, out, fit(s, v).map_or(Out::Reject, Out::Int))
            }
            None => ok_if(REJ, *out == Out::Reject, || format!("{doc:?} is not an integer, got {out:?}")),
        },
        (Number(n), 2) => match n.as_f64() {
            Some(f) => judge::from_float(s, out, f.to_bits()),
            None => (OTHER, None),
        },
        // Byte-like forms of strings may be accepted by a text reader.
        _ => ok_if(REJ, *out == Out::Reject, || format!("{doc:?} is not what the module reads, got {out:?}")),
    }
}

/// Checks the bytes a module wrote.
fn mod_bytes(s: &Subj, k: &Case, b: &[u8]) -> Result<u8, String> {
    let module = k.c & 7;
    let format = k.c >> 5;
    let optional = module >= 3;
    let some = k.c & 16 != 0;
    let absent = optional && !some;
    let want: Vec<u8>;
    match format {
        0 | 1 => {
            if absent {
                want = b"null".to_vec();
            } else {
                match module % 3 {
                    0 => want = k.a.to_string().into_bytes(),
                    1 => want = quoted(&canonical(k.a, s.prec)).into_bytes(),
                    _ => {
                        let t = String::from_utf8_lossy(b).into_owned();
                        let f: f64 = t.parse().map_err(|_| format!("{t:?} is not a float"))?;
                        if !t.contains(['.', 'e', 'E']) {
                            return Err(format!("{t:?} is not written as a float"));
                        }
                        return match to_float(s, k.a, f.to_bits()) {
                            (c, None) => Ok(c),
                            (_, Some(w)) => Err(w),
                        };
                    }
                }
            }
        }
        2 | 3 => {
            let mut w = Vec::new();
            if optional {
                w.push(some as u8);
            }
            if !absent {
                match module % 3 {
                    0 => w.extend(le(s, k.a)),
                    1 => {
                        let t = canonical(k.a, s.prec);
                        w.extend((t.len() as u64).to_le_bytes());
                        w.extend(t.as_bytes());
                    }
                    _ => {
                        let n = w.len();
                        if b.len() != n + 8 || b[..n] != w[..] {
                            return Err(format!("{b:02x?} is not a float's form"));
                        }
                        return match to_float(s, k.a, u64::from_le_bytes(b[n..].try_into().unwrap())) {
                            (c, None) => Ok(c),
                            (_, Some(w)) => Err(w),
                        };
                    }
                }
            }
            want = w;
        }
        _ => {
            if absent {
                want = vec![0xf6];
            } else {
                match module % 3 {
                    0 => want = cbor_int(k.a),
                    1 => {
                        let t = canonical(k.a, s.prec);
                        let mut w = if t.len() < 24 { vec![0x60 | t.len() as u8] } else { vec![0x78, t.len() as u8] };
                        w.extend(t.as_bytes());
                        want = w;
                    }
                    _ => {
                        let f: f64 = ciborium::from_reader(b).map_err(|_| format!("{b:02x?} is not a float"))?;
                        if !matches!(b.first(), Some(0xf9..=0xfb)) {
                            return Err(format!("{b:02x?} is not written as a float"));
                        }
                        return match to_float(s, k.a, f.to_bits()) {
                            (c, None) => Ok(c),
                            (_, Some(w)) => Err(w),
                        };
                    }
                }
            }
        }
    }
    if b == want {
        Ok(if absent { ABSENT } else if k.a < 0 { LESS } else { EXACT })
    } else {
        Err(format!("expected {want:02x?} ({:?}), got {b:02x?} ({:?})", String::from_utf8_lossy(&want), String::from_utf8_lossy(b)))
    }
}

fn sign_class(v: i128) -> u8 {
    match v.signum() {
        0 => ZERO,
        1 => GREATER,
        _ => LESS,
    }
}

/// Why a schema does not admit a document, as far as it uses the keywords known here.
fn schema_rejects(root: &serde_json::Value, s: &serde_json::Value, d: &serde_json::Value) -> Option<String> {
    use serde_json::Value;
    let m = match s {
        Value::Bool(false) => return Some("false".into()),
        Value::Object(m) => m,
        _ => return None,
    };
    let admits = |t: &str| match d {
        Value::Null => t == "null",
        Value::Bool(_) => t == "boolean",
        Value::String(_) => t == "string",
        Value::Array(_) => t == "array",
        Value::Object(_) => t == "object",
        Value::Number(n) => t == "number" || (t == "integer" && !n.is_f64()),
    };
    for (key, v) in m {
        let each = |v: &Value| -> Vec<Option<String>> { v.as_array().into_iter().flatten().map(|x| schema_rejects(root, x, d)).collect() };
        let bad = match (key.as_str(), d) {
            ("$ref", _) => {
                let path = v.as_str().unwrap_or("").trim_start_matches('#');
                match root.pointer(path) {
                    Some(x) => schema_rejects(root, x, d).is_some(),
                    None => true,
                }
            }
            ("type", _) => match v {
                Value::String(t) => !admits(t),
                Value::Array(a) => !a.iter().any(|t| t.as_str().is_some_and(admits)),
                _ => true,
            },
            ("enum", _) => !v.as_array().is_some_and(|a| a.contains(d)),
            ("const", _) => v != d,
            ("not", _) => schema_rejects(root, v, d).is_none(),
            ("anyOf", _) => each(v).iter().all(|x| x.is_some()),
            ("oneOf", _) => each(v).iter().filter(|x| x.is_none()).count() != 1,
            ("allOf", _) => each(v).iter().any(|x| x.is_some()),
            ("maxLength", Value::String(t)) => v.as_u64().is_some_and(|n| t.chars().count() as u64 > n),
            ("minLength", Value::String(t)) => v.as_u64().is_some_and(|n| (t.chars().count() as u64) < n),
            ("pattern", Value::String(t)) => {
                // ECMA-262 patterns match anywhere.
                v.as_str().and_then(|p| regex::Regex::new(p).ok()).is_some_and(|r| !r.is_match(t))
            }
            ("maxItems", Value::Array(a)) => v.as_u64().is_some_and(|n| a.len() as u64 > n),
            ("minItems", Value::Array(a)) => v.as_u64().is_some_and(|n| (a.len() as u64) < n),
            ("items", Value::Array(a)) => a.iter().enumerate().any(|(i, x)| {
                let x_schema = if let Value::Array(l) = v { l.get(i) } else { Some(v) };
                x_schema.is_some_and(|y| schema_rejects(root, y, x).is_some())
            }),
            ("additionalProperties", Value::Object(o)) => o.iter().any(|(n, x)| {
                m.get("properties").and_then(|p| p.get(n)).is_none() && schema_rejects(root, v, x).is_some()
            }),
            _ => false,
        };
        if bad {
            return Some(format!("{key}: {v}"));
        }
    }
    None
}

pub fn judge(s: &Subj, k: &Case, out: &Out) -> Verdict {
    let canon = |v: i128| canonical(v, s.prec);
    let (ca, cb) = (canon(k.a), canon(k.b));
    if let Out::Panic(p) = out {
        return (OTHER, Some(format!("panic: {p}")));
    }
    match k.op {
        Op::JsonSer => expect(sign_class(k.a), out, Out::Text(quoted(&ca))),
        Op::JsonDe => json_want(s, &k.s, k.c >= 8, out),
        Op::JsonPos => {
            let (a, b) = (k.a, k.b);
            let class = sign_class(a);
            if k.c == JSON_SRC {
                let (qa, qb) = (quoted(&ca), quoted(&cb));
                let keys = match a.cmp(&b) {
                    std::cmp::Ordering::Less => format!("{qa}:1,{qb}:2"),
                    std::cmp::Ordering::Equal => format!("{qa}:2"),
                    std::cmp::Ordering::Greater => format!("{qb}:2,{qa}:1"),
                };
                let want = format!(
                    "{{\"a\":{qa},\"o\":{qb},\"n\":null,\"v\":[{qb},{qa},{qb}],\"m\":{{\"p\":{qa},\"q\":{qb}}},\"k\":{{{keys}}},\"t\":[{qb},{qa}],\"x\":{qa},\"y\":{qb},\"e\":{qb},\"g\":{{\"kind\":\"Some\",\"x\":{qa}}}}}"
                );
                return expect(class, out, Out::Text(want));
            }
            let mut want = vec![a, b, 0, 3, b, a, b, a, b];
            match a.cmp(&b) {
                std::cmp::Ordering::Less => want.extend([a, 1, b, 2]),
                std::cmp::Ordering::Equal => want.extend([a, 2]),
                std::cmp::Ordering::Greater => want.extend([b, 2, a, 1]),
            }
            want.extend([b, a, a, b, b, a]);
            expect(class, out, Out::List(want))
        }
        Op::XmlRound => match k.c {
            0 | 1 => expect(sign_class(k.a), out, Out::List(vec![k.a, k.b])),
            _ => expect(sign_class(k.a), out, Out::Text(format!("<d a=\"{ca}\" b=\"{cb}\"/>"))),
        },
        Op::XmlDe => {
            let (class, want) = judge::parse_want(s, &k.s, false);
            let n = [2, 2, 3, 1, 2][k.c as usize];
            match want {
                Some(v) => expect(class, out, Out::List(vec![v; n])),
                None => ok_if(class, *out == Out::Reject, || format!("text {:?} must be rejected, got {out:?}", k.s)),
            }
        }
        Op::RonRound => {
            if k.c == 0 {
                let want = format!("(\"{ca}\",Some(\"{cb}\"),[\"{ca}\",\"{cb}\"])");
                return expect(sign_class(k.a), out, Out::Text(want));
            }
            expect(sign_class(k.a), out, Out::List(vec![k.a, k.b, k.a, k.b]))
        }
        Op::Schema => {
            let Out::Text(t) = out else {
                return (OTHER, Some(format!("schema gave {out:?}")));
            };
            use serde_json::{json, Value};
            let Ok(schema) = serde_json::from_str::<Value>(t) else {
                return (OTHER, Some(format!("schema {t} is not JSON")));
            };
            let third = s.max() / 3;
            for v in [k.a, k.b, 0, 1, -1, s.min(), s.max(), third, -third, s.coef(), -s.coef(), s.max() / s.coef() * s.coef()] {
                let x = Value::String(canonical(v, s.prec));
                let y = Value::String(canonical(k.b, s.prec));
                let docs = match k.c {
                    0 => vec![x],
                    1 => vec![json!([x, null, []]), json!([y, x, [x, y, x]])],
                    _ => vec![json!({}), json!({"a": x, "b": y})],
                };
                for d in docs {
                    if let Some(why) = schema_rejects(&schema, &schema, &d) {
                        return (OTHER, Some(format!("schema {t} rejects the serialized form {d}: {why}")));
                    }
                }
            }
            (ACC, None)
        }
        Op::ModVal => {
            let (module, kind) = (k.c & 15, k.c >> 4);
            let none = || expect(REJ, out, Out::Reject);
            let text = |t: &str| {
                let (class, want) = judge::parse_want(s, t, false);
                expect(class, out, want.map_or(Out::Reject, Out::Int))
            };
            let int = |v: i128| match module {
                0 => expect(if fit(s, Big::i(v)).is_some() { INTEGRAL } else if v < 0 { LOW } else { HIGH }, out, fit(s, Big::i(v)).map_or(Out::Reject, Out::Int)),
                2 => judge::from_float(s, out, (v as f64).to_bits()),
                _ => none(),
            };
            match (kind, module) {
                (0..=4, 1) => text(&k.s),
                (5, 1) => std::str::from_utf8(&unhex(&k.s)).map_or_else(|_| none(), text),
                (6, 3..=5) => expect(ABSENT, out, Out::List(vec![])),
                (7, _) => int(k.a as i64 as i128),
                (8, _) => int(k.a as u64 as i128),
                (9, 2) => judge::from_float(s, out, k.a as u64),
                (11, _) => int(k.a as i8 as i128),
                (12, _) => int(k.a as u16 as i128),
                _ => none(),
            }
        }
        Op::HrNum => match k.c {
            0..=9 => {
                let v = judge::int_value(k.c, k.a).mul(Big::i(s.coef()));
                let class = if fit(s, v).is_some() { INTEGRAL } else if v.neg { LOW } else { HIGH };
                expect(class, out, fit(s, v).map_or(Out::Reject, Out::Int))
            }
            10 => judge::from_float(s, out, k.a as u64),
            11 => judge::from_float(s, out, (f32::from_bits(k.a as u32) as f64).to_bits()),
            12 | 13 | 16 => {
                let (class, want) = judge::parse_want(s, &k.s, false);
                expect(class, out, want.map_or(Out::Reject, Out::Int))
            }
            _ => expect(REJ, out, Out::Reject),
        },
        Op::ModSer => {
            let Out::Bytes(b) = out else {
                return (OTHER, Some(format!("serializing gave {out:?}")));
            };
            match mod_bytes(s, k, b) {
                Ok(c) => (c, None),
                Err(w) => (OTHER, Some(format!("module {}: {w}", MODULES[(k.c & 7) as usize]))),
            }
        }
        Op::ModRound => {
            let module = k.c & 7;
            if module >= 3 && k.c & 16 == 0 {
                return expect(ABSENT, out, Out::List(vec![]));
            }
            if module % 3 == 2 {
                let k2 = Case::new(Op::F64Round, k.subj).a(k.a);
                let o = if *out == Out::Reject { Out::Conv("") } else { out.clone() };
                return judge::judge(s, &k2, &o);
            }
            expect(sign_class(k.a), out, Out::Int(k.a))
        }
        Op::ModDe => {
            let (module, format) = (k.c & 7, k.c >> 5);
            match format {
                0 | 1 => mod_json_want(s, module, &k.s, out),
                2 | 3 => {
                    let b = unhex(&k.s);
                    let mut b = &b[..];
                    if module >= 3 {
                        match b.first() {
                            Some(0) => return expect(ABSENT, out, Out::List(vec![])),
                            Some(1) => b = &b[1..],
                            _ => return expect(REJ, out, Out::Reject),
                        }
                    }
                    match module % 3 {
                        0 => match from_le(s, b) {
                            Some(v) => expect(ACC, out, Out::Int(v)),
                            None => expect(REJ, out, Out::Reject),
                        },
                        1 => {
                            let t = b.get(..8).map(|n| u64::from_le_bytes(n.try_into().unwrap()))
                                .and_then(|n| b.get(8..8usize.checked_add(n.try_into().ok()?)?))
                                .and_then(|t| std::str::from_utf8(t).ok());
                            let (class, want) = t.map_or((REJ, None), |t| judge::parse_want(s, t, false));
                            expect(class, out, want.map_or(Out::Reject, Out::Int))
                        }
                        _ => match b.get(..8) {
                            Some(f) => judge::from_float(s, out, u64::from_le_bytes(f.try_into().unwrap())),
                            None => expect(REJ, out, Out::Reject),
                        },
                    }
                }
                _ => {
                    let b = unhex(&k.s);
                    // CBOR: the module reads what the plain representation reads.
                    if module % 3 == 0 {
                        let null = module == 3 && from_cbor::<Option<u8>>(&b, 0) == Some(None);
                        if null {
                            return expect(ABSENT, out, Out::List(vec![]));
                        }
                        return match cbor_plain(s, &b) {
                            Some(v) => expect(ACC, out, Out::Int(v)),
                            None => expect(REJ, out, Out::Reject),
                        };
                    }
                    ok_if(OTHER, matches!(out, Out::Int(_) | Out::Reject | Out::List(_)), || format!("got {out:?}"))
                }
            }
        }
        Op::BinSer => match k.c {
            0 => expect(sign_class(k.a), out, Out::Bytes(le(s, k.a))),
            _ => expect(sign_class(k.a), out, Out::Bytes(cbor_int(k.a))),
        },
        Op::BinDe => match from_le(s, &unhex(&k.s)) {
            Some(v) => expect(ACC, out, Out::Int(v)),
            None => expect(REJ, out, Out::Reject),
        },
        Op::BinPos => {
            let (a, b) = (k.a, k.b);
            if k.c == 2 {
                let mut w = le(s, a);
                w.push(1);
                w.extend(le(s, b));
                w.push(0);
                w.extend(3u64.to_le_bytes());
                for x in [b, a, b, b, a] {
                    w.extend(le(s, x));
                }
                return expect(sign_class(a), out, Out::Bytes(w));
            }
            expect(sign_class(a), out, Out::List(vec![a, b, 0, b, a, b, b, a]))
        }
        Op::CborRound => {
            let (a, b) = (k.a, k.b);
            if k.c == 2 {
                let (x, y) = (cbor_int(a), cbor_int(b));
                let w = [
                    &[0xa5, 0x61, b'a'][..], &x, &[0x61, b'o'], &y, &[0x61, b'n', 0xf6, 0x61, b'v', 0x83], &y, &x, &y,
                    &[0x61, b't', 0x82], &y, &x,
                ].concat();
                return expect(sign_class(a), out, Out::Bytes(w));
            }
            expect(sign_class(a), out, Out::List(vec![a, b, 0, b, a, b, b, a]))
        }
        Op::CborDe => match cbor_plain(s, &unhex(&k.s)) {
            Some(v) => expect(ACC, out, Out::Int(v)),
            None => expect(REJ, out, Out::Reject),
        },
        Op::ScaleEnc => match k.c {
            0..=3 => expect(sign_class(k.a), out, Out::Bytes(le(s, k.a))),
            _ => expect(sign_class(k.a), out, Out::Int(s.bits as i128 / 8)),
        },
        Op::ScaleDec => {
            let b = unhex(&k.s);
            match from_le(s, &b) {
                // All of the input must be used up.
                Some(_) if k.c == 2 && b.len() > s.bits as usize / 8 => expect(REJ, out, Out::Reject),
                Some(v) => expect(ACC, out, Out::Pair(if k.c == 3 { 0 } else { v }, s.bits as i64 / 8)),
                None => expect(REJ, out, Out::Reject),
            }
        }
        Op::ScaleCompEnc => {
            let w = compact(unsigned(s, k.a));
            let class = [ZERO, ZERO, LESS, ZERO, EQUAL][w.len().min(4)];
            let class = if w.len() > 4 { LONG } else { class };
            match k.c {
                0 | 1 => expect(class, out, Out::Bytes(w)),
                _ => expect(class, out, Out::Int(w.len() as i128)),
            }
        }
        Op::ScaleCompDec => {
            let b = unhex(&k.s);
            let Some((v, n)) = compact_value(&b) else {
                return expect(REJ, out, Out::Reject);
            };
            let max = Big::u(u128::MAX >> (128 - s.bits));
            if v > max {
                return expect(HIGH, out, Out::Reject);
            }
            let u = v.to_i128().map(|x| x as u128).unwrap_or_else(|| v.sub(Big::u(1 << 127)).to_i128().unwrap() as u128 | 1 << 127);
            let signed = (u << (128 - s.bits)) as i128 >> (128 - s.bits);
            let want = Out::Pair(signed, n as i64);
            if compact(u) == b[..n] {
                expect(ACC, out, want)
            } else {
                // Longer spellings may be refused.
                ok_if(OTHER, *out == want || *out == Out::Reject, || format!("expected {want:?} or an error, got {out:?}"))
            }
        }
        Op::ScaleSeq => {
            let (a, b) = (k.a, k.b);
            if k.c == 0 {
                let mut w = vec![12];
                for x in [a, b, a] {
                    w.extend(le(s, x));
                }
                w.push(1);
                w.extend(le(s, b));
                w.push(0);
                w.extend(compact(unsigned(s, a)));
                w.extend(le(s, b));
                w.extend(le(s, a));
                w.extend(le(s, a));
                w.extend(le(s, b));
                w.push(0);
                w.extend(le(s, a));
                w.push(8);
                w.extend(compact(unsigned(s, b)));
                w.extend(compact(unsigned(s, a)));
                return expect(sign_class(a), out, Out::Bytes(w));
            }
            expect(sign_class(a), out, Out::List(vec![a, b, a, b, 0, a, b, a, a, b, a, b, a]))
        }
        op => panic!("monitor: no oracle for {}", op.name()),
    }
}

// ------------------------------------------------------------------ workload

pub fn ops_of(prop: &str, s: &Subj) -> Option<&'static [Op]> {
    use Op::*;
    if s.int {
        return None;
    }
    Some(match prop {
        #[cfg(not(feature = "schema"))]
        "C15" => &[JsonSer, JsonDe, JsonPos, XmlRound, XmlDe, RonRound, HrNum],
        #[cfg(feature = "schema")]
        "C15" => &[JsonSer, JsonDe, JsonPos, XmlRound, XmlDe, RonRound, Schema, HrNum],
        "C16" => &[ModSer, ModRound, ModDe, ModVal, BinSer, BinDe, BinPos, CborRound, CborDe],
        "C17" => &[ScaleEnc, ScaleDec, ScaleCompEnc, ScaleCompDec, ScaleSeq],
        _ => return None,
    })
}

fn json_escape(r: &Rng, t: &str) -> String {
    let mut o = String::from("\"");
    let all = r.below(3) == 0;
    for c in t.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
            o.push(c);
        } else if (c as u32) < 32 || (all && r.bool()) {
            let mut b = [0; 2];
            for u in c.encode_utf16(&mut b) {
                o.push_str(&format!("\\u{u:04x}"));
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}

fn json_doc(r: &Rng, s: &Subj) -> String {
    match r.below(12) {
        0 | 1 | 2 => {
            let t = gen::text(r, s);
            json_escape(r, &t)
        }
        3 => canonical(gen::value(r, s), s.prec),
        4 => {
            let f = f64::from_bits(gen::float(r, s));
            if r.bool() { format!("{f:?}") } else { format!("{f:e}") }
        }
        5 => {
            let lim = s.max() / s.coef();
            let v = match r.below(4) {
                0 => lim.saturating_add(r.small()),
                1 => (-lim).saturating_add(r.small()),
                2 => r.small(),
                _ => gen::value(r, s),
            };
            v.to_string()
        }
        6 => r.pick(&[u64::MAX as i128, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128 + 1, i64::MIN as i128 - 1, 0, 1 << 53]).to_string(),
        7 => r.pick(&[
            "null", "true", "false", "[]", "{}", "[1]", "\"\"", "", " ", "-", "-0", "0.0", "-0.0", "1e400", "-1e400", "1e-400", "1.", ".5", "01", "+1",
            "\"", "\"1", "1 2", "{\"$value\":\"1.5\"}", "{\"$value\":1}", "{\"a\":1}", "\"\\ud800\"", "\"1\\u002e5\"", "\"\\u0031\"", "nan", "Infinity", "1e2", "1E-3",
            "99999999999999999999999999999999999999999999", "[\"1\"]", "\"1\" ", "\t5\n", "\"null\"", "\"1e3\"", "5e-1", "0.5e1", "\u{feff}1",
        ]).to_owned(),
        8 => gen::text(r, s),
        9 => {
            let (m, e) = (gen::value(r, s), r.below(60) as i32 - 40);
            format!("{m}e{e}")
        }
        10 => {
            // scientific forms of representable numbers
            let v = gen::value(r, s);
            format!("{v}e-{}", s.prec)
        }
        _ => {
            let v = gen::value(r, s);
            let c = canonical(v, s.prec);
            format!("{}{}", r.pick(&["", " ", "\n"]), json_escape(r, &c))
        }
    }
}

fn noise(r: &Rng, max: u64) -> Vec<u8> {
    let n = r.below(max + 1);
    (0..n).map(|_| match r.below(4) {
        0 => 0,
        1 => 0xff,
        _ => r.next() as u8,
    }).collect()
}

pub fn case(r: &Rng, si: u16, s: &Subj, op: Op) -> Case {
    use Op::*;
    let k = Case::new(op, si);
    let n = s.bits as u64 / 8;
    match op {
        JsonSer => k.a(gen::value(r, s)).c(r.below(3) as i32),
        JsonDe => k.s(json_doc(r, s)).c(r.below(JSON_SRC as u64) as i32 + if r.below(3) == 0 { 8 } else { 0 }),
        JsonPos => k.a(gen::value(r, s)).b(gen::value(r, s)).c(r.below(JSON_SRC as u64 + 1) as i32),
        XmlRound => k.a(gen::value(r, s)).b(gen::value(r, s)).c(r.below(3) as i32),
        XmlDe => {
            // Only characters XML can carry.
            let t: String = gen::text(r, s).chars().filter(|c| !c.is_control() && !c.is_whitespace()
                && !('\u{fdd0}'..='\u{fdef}').contains(c) && (*c as u32) & 0xfffe != 0xfffe).collect();
            k.s(t).c(r.below(5) as i32)
        }
        RonRound => k.a(gen::value(r, s)).b(gen::value(r, s)).c(r.below(2) as i32),
        HrNum => {
            let c = r.below(19) as i32;
            match c {
                0..=9 => {
                    let k2 = gen::case(r, si, s, FromInt);
                    let v = match c {
                        8 => k2.a,
                        9 => k2.a,
                        _ => judge::int_value(c, k2.a).to_i128().unwrap(),
                    };
                    k.c(c).a(v)
                }
                10 => k.c(c).a(gen::float(r, s) as i128),
                11 => {
                    let f = f64::from_bits(gen::float(r, s)) as f32;
                    k.c(c).a(f.to_bits() as i128)
                }
                12 | 13 | 16 => k.c(c).s(gen::text(r, s)),
                _ => k.c(c).a(r.below(256) as i128),
            }
        }
        ModSer | ModRound => {
            let module = r.below(6) as i32;
            let some = module < 3 || r.below(5) > 0;
            let v = gen::value(r, s);
            let v = if module % 3 == 2 && r.bool() { v % 100_000_000_000_000 } else { v };
            k.a(v).c(mod_code(module, r.bool(), some, r.below(FORMATS as u64) as i32))
        }
        ModDe => {
            let module = r.below(6) as i32;
            let format = r.below(FORMATS as u64) as i32;
            let k = k.c(mod_code(module, r.bool(), false, format));
            match format {
                0 | 1 => {
                    let v = gen::value(r, s);
                    k.s(match r.below(4) {
                        0 => match module % 3 {
                            0 => match r.below(3) {
                                0 => v.to_string(),
                                1 => Big::i(s.max()).add(Big::i(r.small())).to_i128().unwrap_or(s.max()).to_string(),
                                _ => Big::i(s.min()).add(Big::i(r.small())).to_i128().unwrap_or(s.min()).to_string(),
                            },
                            1 => {
                                let t = gen::text(r, s);
                                json_escape(r, &t)
                            }
                            _ => format!("{:e}", f64::from_bits(gen::float(r, s))),
                        },
                        _ => json_doc(r, s),
                    })
                }
                2 | 3 => {
                    let mut b = Vec::new();
                    if module >= 3 {
                        b.push(r.pick(&[0, 1, 1, 1, 1, 2, 255]));
                    }
                    match module % 3 {
                        0 => b.extend(noise(r, n + 4)),
                        1 => {
                            let t = gen::text(r, s);
                            let len = if r.below(8) == 0 { r.next() >> r.below(64) } else { t.len() as u64 };
                            b.extend(len.to_le_bytes());
                            b.extend(t.as_bytes());
                            if r.below(8) == 0 && b.len() > 9 {
                                let i = r.below(b.len() as u64) as usize;
                                b[i] = r.next() as u8;
                            }
                            if r.below(8) == 0 {
                                b.truncate(r.below(b.len() as u64 + 1) as usize);
                            }
                        }
                        _ => {
                            b.extend(gen::float(r, s).to_le_bytes());
                            if r.below(8) == 0 {
                                b.truncate(r.below(b.len() as u64 + 1) as usize);
                            }
                        }
                    }
                    k.s(hex(&b))
                }
                _ => k.s(hex(&cbor_doc(r, s))),
            }
        }
        Schema => k.a(gen::value(r, s)).b(gen::value(r, s)).c(r.below(3) as i32),
        ModVal => {
            let (module, kind) = (r.below(6) as i32, r.below(13) as i32);
            let k = k.c(module | kind << 4);
            match kind {
                0..=4 => k.s(gen::text(r, s)),
                5 => {
                    let mut b = gen::text(r, s).into_bytes();
                    if !b.is_empty() && r.bool() {
                        let i = r.below(b.len() as u64) as usize;
                        b[i] = r.next() as u8;
                    }
                    k.s(hex(&b))
                }
                9 => k.a(gen::float(r, s) as i128),
                _ => k.a(if r.bool() { gen::value(r, s) } else { r.i128() >> r.below(127) }),
            }
        }
        BinSer => k.a(gen::value(r, s)).c(r.below(2) as i32),
        BinDe => k.s(hex(&noise(r, n + 3))).c(r.below(2) as i32),
        BinPos | CborRound => k.a(gen::value(r, s)).b(gen::value(r, s)).c(r.below(3) as i32),
        CborDe => k.s(hex(&cbor_doc(r, s))).c(r.below(2) as i32),
        ScaleEnc => k.a(gen::value(r, s)).c(r.below(5) as i32),
        ScaleDec => k.s(hex(&noise(r, n + 3))).c(r.below(6) as i32),
        ScaleCompEnc => k.a(compact_operand(r, s)).c(r.below(3) as i32),
        ScaleCompDec => {
            let v = unsigned(s, compact_operand(r, s));
            let mut b = match r.below(4) {
                0 => noise(r, 20),
                _ => compact(v),
            };
            match r.below(6) {
                0 => b.truncate(r.below(b.len() as u64 + 1) as usize),
                1 if !b.is_empty() => {
                    let i = r.below(b.len() as u64) as usize;
                    b[i] ^= 1 << r.below(8);
                }
                2 => {
                    // non-canonical: a longer mode than needed
                    let m = 4 + r.below(14) as usize;
                    let mut w = vec![((m - 4) << 2 | 3) as u8];
                    w.extend(v.to_le_bytes());
                    w.resize(1 + m, 0);
                    b = w;
                }
                3 => b.extend(noise(r, 4)),
                _ => {}
            }
            k.s(hex(&b)).c(r.below(2) as i32)
        }
        ScaleSeq => k.a(compact_operand(r, s)).b(gen::value(r, s)).c(r.below(2) as i32),
        _ => k.a(gen::value(r, s)),
    }
}

/// Values around the size classes of the compact form.
fn compact_operand(r: &Rng, s: &Subj) -> i128 {
    match r.below(3) {
        0 => {
            let i = r.pick(&[6, 14, 30, 32, 40, 48, 56, 64, 72, 80, 96, 120]).min(s.bits - 1);
            gen::clamp(s, (1i128 << i.min(126)).saturating_add(r.small()))
        }
        _ => gen::value(r, s),
    }
}

fn cbor_doc(r: &Rng, s: &Subj) -> Vec<u8> {
    let mut b = match r.below(5) {
        0 => noise(r, 20),
        1 => cbor_int(r.i128() >> r.below(127)),
        2 => cbor(&f64::from_bits(gen::float(r, s))),
        3 => cbor(&gen::text(r, s)),
        _ => cbor_int(gen::value(r, s)),
    };
    match r.below(6) {
        0 => b.truncate(r.below(b.len() as u64 + 1) as usize),
        1 if !b.is_empty() => {
            let i = r.below(b.len() as u64) as usize;
            b[i] = r.next() as u8;
        }
        _ => {}
    }
    // Nested containers and huge lengths are the format's business, not the number's.
    if b.first().is_some_and(|b| (0x80..0xc0).contains(b)) {
        b[0] &= 0x3f;
    }
    b
}

pub fn corpus(si: u16, s: &Subj, op: Op, f: &mut dyn FnMut(Case)) {
    use Op::*;
    let k = Case::new(op, si);
    let ex = gen::extremes(s);
    let values = if s.bits <= 32 { gen::unary(s) } else { ex.clone() };
    let fixed = Rng::new(7);
    match op {
        JsonSer => values.iter().for_each(|&a| f(k.clone().a(a))),
        BinSer | ScaleEnc | ScaleCompEnc => {
            let n = match op { BinSer => 2, ScaleEnc => 5, _ => 3 };
            for a in gen::unary(s) {
                for c in 0..n {
                    f(k.clone().a(a).c(c));
                }
            }
        }
        JsonPos | XmlRound | RonRound | BinPos | CborRound | ScaleSeq => {
            let n = match op { JsonPos => JSON_SRC + 1, XmlRound | BinPos | CborRound => 3, _ => 2 };
            for &a in &ex {
                for &b in [s.min(), s.max(), 0, a].iter() {
                    for c in 0..n {
                        f(k.clone().a(a).b(b).c(c));
                    }
                }
            }
        }
        JsonDe => {
            for &a in &ex {
                for src in 0..JSON_SRC {
                    f(k.clone().s(quoted(&canonical(a, s.prec))).c(src));
                    f(k.clone().s(canonical(a, s.prec)).c(src));
                    f(k.clone().s((a / s.coef()).to_string()).c(src));
                    f(k.clone().s(a.to_string()).c(src));
                    f(k.clone().s(quoted(&canonical(a, s.prec))).c(src + 8));
                }
            }
            for src in 0..JSON_SRC {
                f(k.clone().s("null".into()).c(src));
                f(k.clone().s("null".into()).c(src + 8));
                f(k.clone().s("true".into()).c(src));
                f(k.clone().s("[]".into()).c(src));
                f(k.clone().s("\"\\u0031\\u002e5\"".into()).c(src));
            }
        }
        XmlDe => {
            for &a in &ex {
                for c in 0..5 {
                    f(k.clone().s(canonical(a, s.prec)).c(c));
                }
            }
        }
        Schema => {
            for c in 0..3 {
                f(k.clone().c(c));
            }
        }
        HrNum => {
            for c in 0..10 {
                for &a in &ex {
                    f(k.clone().a(judge::int_value(c, a).to_i128().unwrap_or(a)).c(c));
                    f(k.clone().a(judge::int_value(c, a / s.coef()).to_i128().unwrap_or(a)).c(c));
                }
            }
        }
        ModSer | ModRound => {
            for module in 0..6 {
                for own in [false, true] {
                    for format in 0..FORMATS {
                        for &a in &ex {
                            f(k.clone().a(a).c(mod_code(module, own, true, format)));
                        }
                        if module >= 3 {
                            f(k.clone().c(mod_code(module, own, false, format)));
                        }
                    }
                }
            }
        }
        ModDe => {
            for module in 0..6 {
                for own in [false, true] {
                    for format in 0..2 {
                        for d in ["null", "true", "1", "-1", "\"1.5\"", "\"\\u0031.5\"", "1.5", "[]", "{}", "\"\"", "{\"$value\":\"1\"}"] {
                            f(k.clone().s(d.into()).c(mod_code(module, own, false, format)));
                        }
                    }
                }
            }
        }
        ModVal => {
            for module in 0..6 {
                for kind in 0..13 {
                    for &a in &ex {
                        f(k.clone().a(a).s(if kind == 5 { hex(canonical(a, s.prec).as_bytes()) } else { canonical(a, s.prec) }).c(module | kind << 4));
                    }
                }
            }
        }
        BinDe | ScaleDec => {
            let n = s.bits as usize / 8;
            for len in 0..=n + 2 {
                for fill in [0u8, 1, 0x7f, 0x80, 0xff] {
                    for c in 0..2 {
                        f(k.clone().s(hex(&vec![fill; len])).c(c));
                    }
                }
            }
        }
        ScaleCompDec => {
            for a in gen::unary(s) {
                let b = compact(unsigned(s, a));
                f(k.clone().s(hex(&b)));
                f(k.clone().s(hex(&b)).c(1));
                f(k.clone().s(hex(&b[..b.len() - 1])));
            }
            for first in 0..=255u8 {
                f(k.clone().s(hex(&[first])));
                f(k.clone().s(hex(&[&[first][..], &[0xff; 20]].concat())));
                f(k.clone().s(hex(&[&[first][..], &[1; 20]].concat())));
                f(k.clone().s(hex(&[&[first][..], &[0; 68]].concat())));
            }
        }
        CborDe => {
            for &a in &ex {
                f(k.clone().s(hex(&cbor_int(a))));
                f(k.clone().s(hex(&cbor_int(a))).c(1));
            }
            for d in [&[0xf6][..], &[0xf5], &[0x60], &[0xfb, 0x3f, 0xf8, 0, 0, 0, 0, 0, 0]] {
                f(k.clone().s(hex(d)));
            }
        }
        op => panic!("monitor: no corpus for {}", op.name()),
    }
    let _ = fixed;
}
