//! A serde data format of our own: values as explicit trees. Being a format, it can present the
//! code under test with every combination a real one may (readable or not, records as maps or as
//! sequences, borrowed, transient or owned strings), and trees can be edited one node at a time.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Seq(Vec<Node>),
    Map(Vec<(String, Node)>),
}
#[derive(Clone, Copy, Debug)]
pub struct Opts {
    pub readable: bool,
    /// records as sequences and variants as numbers
    pub compact: bool,
    /// 0 borrowed, 1 transient, 2 owned
    pub strings: u8,
}
pub const ALL_OPTS: [Opts; 12] = {
    let mut a = [Opts { readable: true, compact: false, strings: 0 }; 12];
    let mut i = 0;
    while i < 12 {
        a[i] = Opts { readable: i & 1 == 0, compact: i & 2 != 0, strings: (i / 4) as u8 };
        i += 1;
    }
    a
};
#[derive(Debug)]
pub struct Er(pub String);
impl fmt::Display for Er {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Er {}
impl ser::Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Er(m.to_string())
    }
}
impl de::Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Er(m.to_string())
    }
}

pub fn to_node<T: Serialize + ?Sized>(v: &T, o: Opts) -> Result<Node, Er> {
    v.serialize(Ser(o))
}
pub fn from_node<'a, T: de::Deserialize<'a>>(n: &'a Node, o: Opts) -> Result<T, Er> {
    T::deserialize(De(n, o))
}

struct Ser(Opts);
struct SeqS(Opts, Vec<Node>);
struct MapS(Opts, Vec<(String, Node)>, Option<String>);
enum RecS {
    S(SeqS),
    M(MapS),
}
fn int(v: impl Into<i128>) -> Result<Node, Er> {
    Ok(Node::Int(v.into()))
}
fn unsupported<T>(w: &str) -> Result<T, Er> {
    Err(Er(format!("ENGINE: tree format doesn't support {}", w)))
}
impl ser::Serializer for Ser {
    type Ok = Node;
    type Error = Er;
    type SerializeSeq = SeqS;
    type SerializeTuple = SeqS;
    type SerializeTupleStruct = SeqS;
    type SerializeTupleVariant = ser::Impossible<Node, Er>;
    type SerializeMap = MapS;
    type SerializeStruct = RecS;
    type SerializeStructVariant = ser::Impossible<Node, Er>;
    fn is_human_readable(&self) -> bool {
        self.0.readable
    }
    fn serialize_bool(self, v: bool) -> Result<Node, Er> {
        Ok(Node::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Node, Er> {
        int(v)
    }
    fn serialize_i16(self, v: i16) -> Result<Node, Er> {
        int(v)
    }
    fn serialize_i32(self, v: i32) -> Result<Node, Er> {
        int(v)
    }
    fn serialize_i64(self, v: i64) -> Result<Node, Er> {
        int(v)
    }
    fn serialize_u8(self, v: u8) -> Result<Node, Er> {
        int(v)
    }
    fn serialize_u16(self, v: u16) -> Result<Node, Er> {
        int(v)
    }
    fn serialize_u32(self, v: u32) -> Result<Node, Er> {
        int(v)
    }
    fn serialize_u64(self, v: u64) -> Result<Node, Er> {
        int(v)
    }
    fn serialize_f32(self, v: f32) -> Result<Node, Er> {
        Ok(Node::Float(v as f64))
    }
    fn serialize_f64(self, v: f64) -> Result<Node, Er> {
        Ok(Node::Float(v))
    }
    fn serialize_char(self, v: char) -> Result<Node, Er> {
        Ok(Node::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Node, Er> {
        Ok(Node::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Node, Er> {
        Ok(Node::Seq(v.iter().map(|b| Node::Int(*b as i128)).collect()))
    }
    fn serialize_none(self) -> Result<Node, Er> {
        Ok(Node::Null)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Node, Er> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Node, Er> {
        Ok(Node::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Node, Er> {
        Ok(Node::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, v: &'static str) -> Result<Node, Er> {
        Ok(if self.0.compact { Node::Int(i as i128) } else { Node::Str(v.into()) })
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Node, Er> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Node, Er> {
        unsupported("variants with data")
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqS, Er> {
        Ok(SeqS(self.0, vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqS, Er> {
        Ok(SeqS(self.0, vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqS, Er> {
        Ok(SeqS(self.0, vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Er> {
        unsupported("variants with data")
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapS, Er> {
        Ok(MapS(self.0, vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<RecS, Er> {
        Ok(if self.0.compact { RecS::S(SeqS(self.0, vec![])) } else { RecS::M(MapS(self.0, vec![], None)) })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Er> {
        unsupported("variants with data")
    }
}
impl ser::SerializeSeq for SeqS {
    type Ok = Node;
    type Error = Er;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        self.1.push(to_node(v, self.0)?);
        Ok(())
    }
    fn end(self) -> Result<Node, Er> {
        Ok(Node::Seq(self.1))
    }
}
impl ser::SerializeTuple for SeqS {
    type Ok = Node;
    type Error = Er;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Node, Er> {
        Ok(Node::Seq(self.1))
    }
}
impl ser::SerializeTupleStruct for SeqS {
    type Ok = Node;
    type Error = Er;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Node, Er> {
        Ok(Node::Seq(self.1))
    }
}
impl ser::SerializeMap for MapS {
    type Ok = Node;
    type Error = Er;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Er> {
        match to_node(k, self.0)? {
            Node::Str(s) => self.2 = Some(s),
            _ => return unsupported("keys that aren't strings"),
        }
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        let k = self.2.take().unwrap();
        self.1.push((k, to_node(v, self.0)?));
        Ok(())
    }
    fn end(self) -> Result<Node, Er> {
        Ok(Node::Map(self.1))
    }
}
impl ser::SerializeStruct for RecS {
    type Ok = Node;
    type Error = Er;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Er> {
        match self {
            RecS::S(s) => s.1.push(to_node(v, s.0)?),
            RecS::M(m) => m.1.push((k.into(), to_node(v, m.0)?)),
        }
        Ok(())
    }
    fn end(self) -> Result<Node, Er> {
        Ok(match self {
            RecS::S(s) => Node::Seq(s.1),
            RecS::M(m) => Node::Map(m.1),
        })
    }
}

#[derive(Clone, Copy)]
struct De<'a>(&'a Node, Opts);
impl<'a> De<'a> {
    fn any<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Er> {
        match self.0 {
            Node::Null => v.visit_unit(),
            Node::Bool(b) => v.visit_bool(*b),
            Node::Int(i) if *i >= 0 && *i <= u64::MAX as i128 => v.visit_u64(*i as u64),
            Node::Int(i) if *i >= i64::MIN as i128 && *i < 0 => v.visit_i64(*i as i64),
            Node::Int(i) => v.visit_f64(*i as f64),
            Node::Float(f) => v.visit_f64(*f),
            Node::Str(s) => match self.1.strings {
                0 => v.visit_borrowed_str(s),
                1 => v.visit_str(s),
                _ => v.visit_string(s.clone()),
            },
            Node::Seq(s) => {
                let mut a = Items(s, self.1);
                let r = v.visit_seq(&mut a)?;
                if !a.0.is_empty() {
                    return Err(Er("too many elements".into()));
                }
                Ok(r)
            }
            Node::Map(m) => v.visit_map(Entries(m, None, self.1)),
        }
    }
}
macro_rules! any {
    ($($n:ident)*) => { $(fn $n<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Er> { self.any(v) })* };
}
impl<'a> de::Deserializer<'a> for De<'a> {
    type Error = Er;
    fn is_human_readable(&self) -> bool {
        self.1.readable
    }
    any! {deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any}
    fn deserialize_option<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Er> {
        match self.0 {
            Node::Null => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'a>>(self, _: &'static str, v: V) -> Result<V::Value, Er> {
        self.any(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'a>>(self, _: &'static str, v: V) -> Result<V::Value, Er> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple<V: Visitor<'a>>(self, _: usize, v: V) -> Result<V::Value, Er> {
        self.any(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'a>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Er> {
        self.any(v)
    }
    fn deserialize_struct<V: Visitor<'a>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Er> {
        self.any(v)
    }
    fn deserialize_enum<V: Visitor<'a>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Er> {
        match self.0 {
            Node::Str(s) if !self.1.compact => v.visit_enum(s.as_str().into_deserializer()),
            Node::Int(i) if self.1.compact && *i >= 0 && *i <= u32::MAX as i128 => v.visit_enum((*i as u32).into_deserializer()),
            _ => Err(Er("not a variant".into())),
        }
    }
}
struct Items<'a>(&'a [Node], Opts);
impl<'a> de::SeqAccess<'a> for Items<'a> {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'a>>(&mut self, s: T) -> Result<Option<T::Value>, Er> {
        match self.0.split_first() {
            None => Ok(None),
            Some((a, b)) => {
                self.0 = b;
                s.deserialize(De(a, self.1)).map(Some)
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.len())
    }
}
struct Entries<'a>(&'a [(String, Node)], Option<&'a Node>, Opts);
impl<'a> de::MapAccess<'a> for Entries<'a> {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'a>>(&mut self, s: K) -> Result<Option<K::Value>, Er> {
        match self.0.split_first() {
            None => Ok(None),
            Some(((k, v), b)) => {
                self.0 = b;
                self.1 = Some(v);
                let k: de::value::StrDeserializer<Er> = k.as_str().into_deserializer();
                s.deserialize(k).map(Some)
            }
        }
    }
    fn next_value_seed<V: DeserializeSeed<'a>>(&mut self, s: V) -> Result<V::Value, Er> {
        s.deserialize(De(self.1.take().unwrap(), self.2))
    }
}

impl Node {
    /// Number of nodes.
    pub fn count(&self) -> usize {
        1 + match self {
            Node::Seq(s) => s.iter().map(|n| n.count()).sum(),
            Node::Map(m) => m.iter().map(|(_, n)| n.count()).sum(),
            _ => 0,
        }
    }
    /// The `i`th node in preorder.
    pub fn at(&mut self, mut i: usize) -> &mut Node {
        if i == 0 {
            return self;
        }
        i -= 1;
        let kids: Vec<&mut Node> = match self {
            Node::Seq(s) => s.iter_mut().collect(),
            Node::Map(m) => m.iter_mut().map(|x| &mut x.1).collect(),
            _ => vec![],
        };
        for k in kids {
            let n = k.count();
            if i < n {
                return k.at(i);
            }
            i -= n;
        }
        unreachable!()
    }
    /// What two encodings of the same value have in common: hex case, absent optional entries and
    /// the order of entries don't matter.
    pub fn canon(&self) -> Node {
        match self {
            Node::Str(s) => Node::Str(s.to_lowercase()),
            Node::Seq(s) => Node::Seq(s.iter().map(|n| n.canon()).collect()),
            Node::Map(m) => {
                let mut v: Vec<_> = m.iter().filter(|(_, n)| *n != Node::Null).map(|(k, n)| (k.clone(), n.canon())).collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                Node::Map(v)
            }
            n => n.clone(),
        }
    }
    pub fn json(&self) -> serde_json::Value {
        use serde_json::Value as V;
        match self {
            Node::Null => V::Null,
            Node::Bool(b) => V::Bool(*b),
            Node::Int(i) if *i >= 0 && *i <= u64::MAX as i128 => (*i as u64).into(),
            Node::Int(i) if *i < 0 && *i >= i64::MIN as i128 => (*i as i64).into(),
            Node::Int(i) => (*i as f64).into(),
            Node::Float(f) => (*f).into(),
            Node::Str(s) => V::String(s.clone()),
            Node::Seq(s) => V::Array(s.iter().map(|n| n.json()).collect()),
            Node::Map(m) => V::Object(m.iter().map(|(k, n)| (k.clone(), n.json())).collect()),
        }
    }
    pub fn is_leaf(&self) -> bool {
        !matches!(self, Node::Seq(_) | Node::Map(_))
    }
}
