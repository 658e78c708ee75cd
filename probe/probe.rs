
/// A serializer that builds the tree of what it is given (analysed, never run).
#[cfg(feature = "serialize")]
#[allow(dead_code, missing_docs)]
pub mod verif_probe {
    use serde::ser::*;
    use std::fmt;

    pub enum Out {
        Bool(bool),
        Int(i128),
        Uint(u128),
        Float(f64),
        Str(String),
        Unit,
        None,
        Some(Vec<Out>),
        Seq(Vec<Out>),
        Struct(&'static str, Vec<(&'static str, Out)>),
        Newtype(&'static str, Vec<Out>),
        Variant(&'static str, &'static str, Vec<Out>),
        Map(Vec<(Out, Out)>),
    }

    fn one(x: Out) -> Vec<Out> {
        let mut v = Vec::new();
        v.push(x);
        v
    }

    #[derive(Debug)]
    pub struct Bad;
    impl fmt::Display for Bad {
        fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
            Ok(())
        }
    }
    impl std::error::Error for Bad {}
    impl Error for Bad {
        fn custom<T: fmt::Display>(_: T) -> Self {
            Bad
        }
    }

    pub struct Probe;
    pub struct Seq(Option<(&'static str, &'static str)>, Vec<Out>);
    pub struct Fields(&'static str, Option<&'static str>, Vec<(&'static str, Out)>);
    pub struct Pairs(Vec<(Out, Out)>, Option<Out>);

    impl Seq {
        fn done(self) -> Result<Out, Bad> {
            Ok(match self.0 {
                None => Out::Seq(self.1),
                Some((n, v)) => Out::Variant(n, v, one(Out::Seq(self.1))),
            })
        }
    }

    impl SerializeSeq for Seq {
        type Ok = Out;
        type Error = Bad;
        fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
            let x = v.serialize(Probe)?;
            self.1.push(x);
            Ok(())
        }
        fn end(self) -> Result<Out, Bad> {
            self.done()
        }
    }
    impl SerializeTuple for Seq {
        type Ok = Out;
        type Error = Bad;
        fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
            let x = v.serialize(Probe)?;
            self.1.push(x);
            Ok(())
        }
        fn end(self) -> Result<Out, Bad> {
            self.done()
        }
    }
    impl SerializeTupleStruct for Seq {
        type Ok = Out;
        type Error = Bad;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
            let x = v.serialize(Probe)?;
            self.1.push(x);
            Ok(())
        }
        fn end(self) -> Result<Out, Bad> {
            self.done()
        }
    }
    impl SerializeTupleVariant for Seq {
        type Ok = Out;
        type Error = Bad;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
            let x = v.serialize(Probe)?;
            self.1.push(x);
            Ok(())
        }
        fn end(self) -> Result<Out, Bad> {
            self.done()
        }
    }
    impl SerializeMap for Pairs {
        type Ok = Out;
        type Error = Bad;
        fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
            self.1 = Some(v.serialize(Probe)?);
            Ok(())
        }
        fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
            let x = v.serialize(Probe)?;
            if let Some(k) = self.1.take() {
                self.0.push((k, x));
            }
            Ok(())
        }
        fn end(self) -> Result<Out, Bad> {
            Ok(Out::Map(self.0))
        }
    }
    impl Fields {
        fn done(self) -> Result<Out, Bad> {
            Ok(match self.1 {
                None => Out::Struct(self.0, self.2),
                Some(v) => Out::Variant(self.0, v, one(Out::Struct(self.0, self.2))),
            })
        }
    }
    impl SerializeStruct for Fields {
        type Ok = Out;
        type Error = Bad;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Bad> {
            let x = v.serialize(Probe)?;
            self.2.push((k, x));
            Ok(())
        }
        fn end(self) -> Result<Out, Bad> {
            self.done()
        }
    }
    impl SerializeStructVariant for Fields {
        type Ok = Out;
        type Error = Bad;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Bad> {
            let x = v.serialize(Probe)?;
            self.2.push((k, x));
            Ok(())
        }
        fn end(self) -> Result<Out, Bad> {
            self.done()
        }
    }

    impl Serializer for Probe {
        type Ok = Out;
        type Error = Bad;
        type SerializeSeq = Seq;
        type SerializeTuple = Seq;
        type SerializeTupleStruct = Seq;
        type SerializeTupleVariant = Seq;
        type SerializeMap = Pairs;
        type SerializeStruct = Fields;
        type SerializeStructVariant = Fields;
        fn serialize_bool(self, v: bool) -> Result<Out, Bad> {
            Ok(Out::Bool(v))
        }
        fn serialize_i8(self, v: i8) -> Result<Out, Bad> {
            Ok(Out::Int(v as i128))
        }
        fn serialize_i16(self, v: i16) -> Result<Out, Bad> {
            Ok(Out::Int(v as i128))
        }
        fn serialize_i32(self, v: i32) -> Result<Out, Bad> {
            Ok(Out::Int(v as i128))
        }
        fn serialize_i64(self, v: i64) -> Result<Out, Bad> {
            Ok(Out::Int(v as i128))
        }
        fn serialize_u8(self, v: u8) -> Result<Out, Bad> {
            Ok(Out::Uint(v as u128))
        }
        fn serialize_u16(self, v: u16) -> Result<Out, Bad> {
            Ok(Out::Uint(v as u128))
        }
        fn serialize_u32(self, v: u32) -> Result<Out, Bad> {
            Ok(Out::Uint(v as u128))
        }
        fn serialize_u64(self, v: u64) -> Result<Out, Bad> {
            Ok(Out::Uint(v as u128))
        }
        fn serialize_f32(self, v: f32) -> Result<Out, Bad> {
            Ok(Out::Float(v as f64))
        }
        fn serialize_f64(self, v: f64) -> Result<Out, Bad> {
            Ok(Out::Float(v))
        }
        fn serialize_char(self, v: char) -> Result<Out, Bad> {
            Ok(Out::Uint(v as u128))
        }
        fn serialize_str(self, v: &str) -> Result<Out, Bad> {
            Ok(Out::Str(v.to_string()))
        }
        fn serialize_bytes(self, v: &[u8]) -> Result<Out, Bad> {
            let mut o = Vec::new();
            for b in v {
                o.push(Out::Uint(*b as u128));
            }
            Ok(Out::Seq(o))
        }
        fn serialize_none(self) -> Result<Out, Bad> {
            Ok(Out::None)
        }
        fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Out, Bad> {
            let x = v.serialize(Probe)?;
            Ok(Out::Some(one(x)))
        }
        fn serialize_unit(self) -> Result<Out, Bad> {
            Ok(Out::Unit)
        }
        fn serialize_unit_struct(self, n: &'static str) -> Result<Out, Bad> {
            Ok(Out::Newtype(n, one(Out::Unit)))
        }
        fn serialize_unit_variant(self, n: &'static str, _: u32, v: &'static str) -> Result<Out, Bad> {
            Ok(Out::Variant(n, v, one(Out::Unit)))
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<Out, Bad> {
            let x = v.serialize(Probe)?;
            Ok(Out::Newtype(n, one(x)))
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, _: u32, w: &'static str, v: &T) -> Result<Out, Bad> {
            let x = v.serialize(Probe)?;
            Ok(Out::Variant(n, w, one(x)))
        }
        fn serialize_seq(self, _: Option<usize>) -> Result<Seq, Bad> {
            Ok(Seq(None, Vec::new()))
        }
        fn serialize_tuple(self, _: usize) -> Result<Seq, Bad> {
            Ok(Seq(None, Vec::new()))
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq, Bad> {
            Ok(Seq(None, Vec::new()))
        }
        fn serialize_tuple_variant(self, n: &'static str, _: u32, v: &'static str, _: usize) -> Result<Seq, Bad> {
            Ok(Seq(Some((n, v)), Vec::new()))
        }
        fn serialize_map(self, _: Option<usize>) -> Result<Pairs, Bad> {
            Ok(Pairs(Vec::new(), None))
        }
        fn serialize_struct(self, n: &'static str, _: usize) -> Result<Fields, Bad> {
            Ok(Fields(n, None, Vec::new()))
        }
        fn serialize_struct_variant(self, n: &'static str, _: u32, v: &'static str, _: usize) -> Result<Fields, Bad> {
            Ok(Fields(n, Some(v), Vec::new()))
        }
        fn collect_seq<I>(self, iter: I) -> Result<Out, Bad>
        where
            I: IntoIterator,
            <I as IntoIterator>::Item: Serialize,
        {
            let mut o = Vec::new();
            for x in iter {
                let y = x.serialize(Probe)?;
                o.push(y);
            }
            Ok(Out::Seq(o))
        }
        fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<Out, Bad> {
            Ok(Out::Str(v.to_string()))
        }
    }

    pub fn probe_session(x: &super::SdpSession) -> Result<Out, Bad> {
        x.serialize(Probe)
    }
    pub fn probe_media(x: &super::media_type::SdpMedia) -> Result<Out, Bad> {
        x.serialize(Probe)
    }
    pub fn probe_attribute(x: &super::attribute_type::SdpAttribute) -> Result<Out, Bad> {
        x.serialize(Probe)
    }
    pub fn probe_error(x: &super::error::SdpParserError) -> Result<Out, Bad> {
        x.serialize(Probe)
    }
    pub fn probe_line(x: &super::SdpLine) -> Result<Out, Bad> {
        x.serialize(Probe)
    }
}
