//! C20: a self-describing format that can produce every event of the serde data model which stands
//! for data, and a recorder of what a node hands to another format.
use super::c13::canon;
use crate::{doc::*, engine::*, util::*};
use serde::{
    de::{self, value::Error, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor},
    forward_to_deserialize_any,
    ser::{self, Impossible, Serializer},
    Deserialize, Serialize,
};
use yaml_peg::{NodeArc, NodeRc};

#[derive(Clone, Debug)]
pub enum Ev {
    Unit,
    None,
    Some(Box<Ev>),
    Bool(bool),
    Int(usize, i128),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(usize, &'static str),
    Seq(Vec<Ev>, usize),
    Map(Vec<(Ev, Ev)>, usize),
}
/// The widths that can hold the integer.
fn width(k: usize, n: i128) -> bool {
    let (lo, hi): (i128, i128) = match k {
        0 => (i8::MIN.into(), i8::MAX.into()),
        1 => (i16::MIN.into(), i16::MAX.into()),
        2 => (i32::MIN.into(), i32::MAX.into()),
        3 => (i64::MIN.into(), i64::MAX.into()),
        4 => (0, u8::MAX.into()),
        5 => (0, u16::MAX.into()),
        6 => (0, u32::MAX.into()),
        7 => (0, u64::MAX.into()),
        8 => (i128::MIN, i128::MAX),
        _ => (0, i128::MAX),
    };
    (lo..=hi).contains(&n)
}
impl<'de> Deserializer<'de> for Ev {
    type Error = Error;
    fn deserialize_any<T: Visitor<'de>>(self, v: T) -> Result<T::Value, Error> {
        match self {
            Ev::Unit => v.visit_unit(),
            Ev::None => v.visit_none(),
            Ev::Some(e) => v.visit_some(*e),
            Ev::Bool(b) => v.visit_bool(b),
            Ev::Int(0, n) => v.visit_i8(n as i8),
            Ev::Int(1, n) => v.visit_i16(n as i16),
            Ev::Int(2, n) => v.visit_i32(n as i32),
            Ev::Int(3, n) => v.visit_i64(n as i64),
            Ev::Int(4, n) => v.visit_u8(n as u8),
            Ev::Int(5, n) => v.visit_u16(n as u16),
            Ev::Int(6, n) => v.visit_u32(n as u32),
            Ev::Int(7, n) => v.visit_u64(n as u64),
            Ev::Int(8, n) => v.visit_i128(n),
            Ev::Int(_, n) => v.visit_u128(n as u128),
            Ev::U128(n) => v.visit_u128(n),
            Ev::F32(f) => v.visit_f32(f),
            Ev::F64(f) => v.visit_f64(f),
            Ev::Char(c) => v.visit_char(c),
            Ev::Str(0, t) => v.visit_borrowed_str(t),
            Ev::Str(1, t) => v.visit_string(t.to_string()),
            Ev::Str(_, t) => v.visit_str(&t.to_string()),
            Ev::Seq(e, h) => v.visit_seq(Items(e.into_iter(), h)),
            Ev::Map(e, h) => v.visit_map(Entries(e.into_iter(), None, h)),
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
fn hint(left: usize, how: usize) -> Option<usize> {
    match how {
        0 => None,
        1 => Some(left),
        2 => Some(left / 2),
        _ => Some(left + 100),
    }
}
struct Items(std::vec::IntoIter<Ev>, usize);
impl<'de> SeqAccess<'de> for Items {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        self.0.next().map(|e| seed.deserialize(e)).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.0.len(), self.1)
    }
}
struct Entries(std::vec::IntoIter<(Ev, Ev)>, Option<Ev>, usize);
impl<'de> MapAccess<'de> for Entries {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        let Some((k, v)) = self.0.next() else { return Ok(None) };
        self.1 = Some(v);
        seed.deserialize(k).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Error> {
        seed.deserialize(self.1.take().ok_or_else(|| <Error as de::Error>::custom("value in front of its key"))?)
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.0.len(), self.2)
    }
}
/// The data of the events. The last value of a key counts.
fn data(e: &Ev) -> V {
    match e {
        Ev::Unit | Ev::None => V::Null,
        Ev::Some(e) => data(e),
        Ev::Bool(b) => V::Bool(*b),
        Ev::Int(_, n) => V::Int(n.to_string()),
        Ev::U128(n) => V::Int(n.to_string()),
        Ev::F32(f) => V::Float(f64::from(*f).to_string()),
        Ev::F64(f) => V::Float(f.to_string()),
        Ev::Char(c) => V::Str(c.to_string()),
        Ev::Str(_, t) => V::Str(t.to_string()),
        Ev::Seq(e, _) => V::Seq(e.iter().map(|e| data(e).into()).collect()),
        Ev::Map(e, _) => {
            let mut m: Vec<(N, N)> = vec![];
            for (k, v) in e {
                let k = data(k);
                m.retain(|(n, _)| canon(&n.v) != canon(&k));
                m.push((k.into(), data(v).into()));
            }
            V::Map(m)
        }
    }
}
fn doubled(e: &Ev) -> bool {
    match e {
        Ev::Some(e) => doubled(e),
        Ev::Seq(e, _) => e.iter().any(doubled),
        Ev::Map(e, _) => {
            let mut keys: Vec<_> = e.iter().map(|(k, _)| canon(&data(k))).collect();
            keys.sort();
            keys.windows(2).any(|w| w[0] == w[1]) || e.iter().any(|(k, v)| doubled(k) || doubled(v))
        }
        _ => false,
    }
}
/// The order of doubled keys is not judged.
fn sorted(v: &V) -> V {
    match v {
        V::Seq(v) => V::Seq(v.iter().map(|n| sorted(&n.v).into()).collect()),
        V::Map(m) => {
            let mut m: Vec<(N, N)> = m.iter().map(|(k, v)| (sorted(&k.v).into(), sorted(&v.v).into())).collect();
            m.sort_by_key(|(k, _)| canon(&k.v));
            V::Map(m)
        }
        v => v.clone(),
    }
}

/// A format that keeps what it is given.
struct Rec;
struct RecSeq(Vec<N>, Option<usize>);
struct RecMap(Vec<(N, N)>, Option<N>, Option<usize>);
fn no<T>(what: &str) -> Result<T, Error> {
    Err(ser::Error::custom(format!("a node is no {what}")))
}
impl Serializer for Rec {
    type Ok = V;
    type Error = Error;
    type SerializeSeq = RecSeq;
    type SerializeTuple = Impossible<V, Error>;
    type SerializeTupleStruct = Impossible<V, Error>;
    type SerializeTupleVariant = Impossible<V, Error>;
    type SerializeMap = RecMap;
    type SerializeStruct = Impossible<V, Error>;
    type SerializeStructVariant = Impossible<V, Error>;
    fn serialize_bool(self, v: bool) -> Result<V, Error> { Ok(V::Bool(v)) }
    fn serialize_i8(self, v: i8) -> Result<V, Error> { Ok(V::Int(v.to_string())) }
    fn serialize_i16(self, v: i16) -> Result<V, Error> { Ok(V::Int(v.to_string())) }
    fn serialize_i32(self, v: i32) -> Result<V, Error> { Ok(V::Int(v.to_string())) }
    fn serialize_i64(self, v: i64) -> Result<V, Error> { Ok(V::Int(v.to_string())) }
    fn serialize_i128(self, v: i128) -> Result<V, Error> { Ok(V::Int(v.to_string())) }
    fn serialize_u8(self, v: u8) -> Result<V, Error> { Ok(V::Int(v.to_string())) }
    fn serialize_u16(self, v: u16) -> Result<V, Error> { Ok(V::Int(v.to_string())) }
    fn serialize_u32(self, v: u32) -> Result<V, Error> { Ok(V::Int(v.to_string())) }
    fn serialize_u64(self, v: u64) -> Result<V, Error> { Ok(V::Int(v.to_string())) }
    fn serialize_u128(self, v: u128) -> Result<V, Error> { Ok(V::Int(v.to_string())) }
    fn serialize_f32(self, v: f32) -> Result<V, Error> { Ok(V::Float(v.to_string())) }
    fn serialize_f64(self, v: f64) -> Result<V, Error> { Ok(V::Float(v.to_string())) }
    fn serialize_char(self, v: char) -> Result<V, Error> { Ok(V::Str(v.to_string())) }
    fn serialize_str(self, v: &str) -> Result<V, Error> { Ok(V::Str(v.to_string())) }
    fn serialize_bytes(self, _: &[u8]) -> Result<V, Error> { no("bytes") }
    fn serialize_none(self) -> Result<V, Error> { Ok(V::Null) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<V, Error> { v.serialize(Rec) }
    fn serialize_unit(self) -> Result<V, Error> { Ok(V::Null) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, Error> { no("structure") }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<V, Error> { no("variant") }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<V, Error> { no("structure") }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<V, Error> { no("variant") }
    fn serialize_seq(self, n: Option<usize>) -> Result<RecSeq, Error> { Ok(RecSeq(vec![], n)) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> { no("tuple") }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> { no("structure") }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> { no("variant") }
    fn serialize_map(self, n: Option<usize>) -> Result<RecMap, Error> { Ok(RecMap(vec![], None, n)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> { no("structure") }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> { no("variant") }
}
fn size(n: usize, told: Option<usize>) -> Result<(), Error> {
    match told {
        Some(t) if t != n => Err(ser::Error::custom(format!("{t} items are announced, {n} come"))),
        _ => Ok(()),
    }
}
impl ser::SerializeSeq for RecSeq {
    type Ok = V;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.0.push(v.serialize(Rec)?.into());
        Ok(())
    }
    fn end(self) -> Result<V, Error> {
        size(self.0.len(), self.1)?;
        Ok(V::Seq(self.0))
    }
}
impl ser::SerializeMap for RecMap {
    type Ok = V;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.1 = Some(v.serialize(Rec)?.into());
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.1.take().ok_or_else(|| <Error as ser::Error>::custom("value in front of its key"))?;
        self.0.push((k, v.serialize(Rec)?.into()));
        Ok(())
    }
    fn end(self) -> Result<V, Error> {
        size(self.0.len(), self.2)?;
        Ok(V::Map(self.0))
    }
}

fn event(ch: &mut Ch, depth: usize, small: bool, inner: bool) -> Ev {
    let limit = if inner { 3 } else { 4 };
    const INTS: &[i128] = &[0, 1, -1, 127, 128, -128, 255, 256, 32768, -32769, 65536, 1 << 31, -(1 << 31) - 1, 1 << 32, i64::MAX as i128, i64::MIN as i128, 1 << 63, u64::MAX as i128, 1 << 64, i128::MAX, i128::MIN];
    const F: &[f64] = &[0.0, -0.0, 1.0, 0.1, 1.5, -2.5e-3, 1e16, 1e300, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX];
    const T: &[&str] = &["", "a", "1", "null", "é\n", "~"];
    if small {
        match ch.pick(if depth > 0 { 9 } else { 8 }) {
            0 => return Ev::Unit,
            1 => return Ev::Some(Box::new(Ev::Bool(true))),
            2 => return Ev::Int(4, 1),
            3 => return Ev::Int(0, 1),
            4 => return Ev::F64(1.0),
            5 => return Ev::Char('1'),
            6 => return Ev::Str(1, "1"),
            7 => return Ev::Str(0, "k"),
            _ => {}
        }
    } else {
        match ch.pick(if depth > 0 { 8 } else { 7 }) {
            0 => return if ch.flip() { Ev::Unit } else { Ev::None },
            1 => return Ev::Bool(ch.flip()),
            2 => {
                let n = *ch.of(INTS);
                let ks: Vec<usize> = (0..10).filter(|k| width(*k, n)).collect();
                return Ev::Int(*ch.of(&ks), n);
            }
            3 => return Ev::U128(*ch.of(&[u128::MAX, 1 << 127, u128::MAX - 1])),
            4 => return if ch.flip() { Ev::F64(*ch.of(F)) } else { Ev::F32(*ch.of(F) as f32) },
            5 => return Ev::Char(*ch.of(&['a', '1', '\n', 'é', '\0', '😀'])),
            6 => return Ev::Str(ch.pick(3), ch.of(T)),
            _ => {}
        }
    }
    match ch.pick(3) {
        0 => Ev::Some(Box::new(event(ch, depth - 1, small, true))),
        1 => {
            let (n, h) = (ch.pick(limit), if inner { 0 } else { ch.pick(4) });
            Ev::Seq((0..n).map(|_| event(ch, if n > 1 { 0 } else { depth - 1 }, n > 1 || small, true)).collect(), h)
        }
        _ => {
            let (n, h) = (ch.pick(limit), if inner { 0 } else { ch.pick(4) });
            Ev::Map((0..n).map(|_| (event(ch, if n > 1 { 0 } else { depth - 1 }, true, true), if n > 1 { Ev::Int(3, ch.pick(2) as i128) } else { event(ch, depth - 1, small, true) })).collect(), h)
        }
    }
}
pub fn formats(ch: &mut Ch, depth: usize) -> Result<(), String> {
    let ev = event(ch, depth, false, false);
    if !ch.begin(|| format!("a node from the events {ev:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&format!("{ev:?}")));
    ch.tally.validated += 1;
    let want = data(&ev);
    let twice = doubled(&ev);
    let same = |v: &V| if twice { canon(&sorted(v)) == canon(&sorted(&want)) } else { canon(v) == canon(&want) };
    let n = NodeRc::deserialize(ev.clone()).map_err(|x| format!("refused: {x}"))?;
    if !same(&read(&n).v) {
        return Err(format!("gives {}, expected {}", show(&read(&n).v), show(&want)));
    }
    let a = NodeArc::deserialize(ev).map_err(|x| format!("refused by the multi-threaded node: {x}"))?;
    if canon(&read(&a).v) != canon(&read(&n).v) {
        return Err(format!("the multi-threaded node is {}, expected {}", show(&read(&a).v), show(&want)));
    }
    let back = n.serialize(Rec).map_err(|x| format!("handed over: {x}"))?;
    if canon(&back) != canon(&read(&n).v) {
        return Err(format!("handed over as {}, the node is {}", show(&back), show(&read(&n).v)));
    }
    let back = a.serialize(Rec).map_err(|x| format!("handed over by the multi-threaded node: {x}"))?;
    if canon(&back) != canon(&read(&a).v) {
        return Err(format!("handed over as {} by the multi-threaded node", show(&back)));
    }
    ch.outcome(if twice { "doubled keys" } else { "equal" });
    Ok(())
}
