//! The serialization traits of arkworks, with its formats for lists and byte arrays.
pub use ark_serialize_derive::{CanonicalDeserialize, CanonicalSerialize};
pub use std::io::{Read, Write};
#[derive(Debug)]
pub enum SerializationError { NotEnoughSpace, InvalidData, UnexpectedFlags, IoError(std::io::Error) }
impl std::fmt::Display for SerializationError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("serialization error") }
}
impl std::error::Error for SerializationError {}
impl From<std::io::Error> for SerializationError { fn from(e: std::io::Error) -> Self { Self::IoError(e) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Compress { Yes, No }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Validate { Yes, No }
type R<T> = Result<T, SerializationError>;
pub trait CanonicalSerialize {
    fn serialize_with_mode<W: Write>(&self, writer: W, compress: Compress) -> R<()>;
    fn serialized_size(&self, compress: Compress) -> usize;
    fn serialize_compressed<W: Write>(&self, writer: W) -> R<()> { self.serialize_with_mode(writer, Compress::Yes) }
    fn serialize_uncompressed<W: Write>(&self, writer: W) -> R<()> { self.serialize_with_mode(writer, Compress::No) }
    fn compressed_size(&self) -> usize { self.serialized_size(Compress::Yes) }
    fn uncompressed_size(&self) -> usize { self.serialized_size(Compress::No) }
}
pub trait Valid: Sized { fn check(&self) -> R<()> { Ok(()) } }
impl<T: CanonicalDeserialize> Valid for T {}
pub trait CanonicalDeserialize: Sized {
    fn deserialize_with_mode<D: Read>(reader: D, compress: Compress, validate: Validate) -> R<Self>;
    fn deserialize_compressed<D: Read>(reader: D) -> R<Self> { Self::deserialize_with_mode(reader, Compress::Yes, Validate::Yes) }
    fn deserialize_compressed_unchecked<D: Read>(reader: D) -> R<Self> { Self::deserialize_with_mode(reader, Compress::Yes, Validate::No) }
    fn deserialize_uncompressed<D: Read>(reader: D) -> R<Self> { Self::deserialize_with_mode(reader, Compress::No, Validate::Yes) }
    fn deserialize_uncompressed_unchecked<D: Read>(reader: D) -> R<Self> { Self::deserialize_with_mode(reader, Compress::No, Validate::No) }
}
macro_rules! int {
    ($($t:ty)*) => {$(
        impl CanonicalSerialize for $t {
            fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> R<()> { w.write_all(&self.to_le_bytes())?; Ok(()) }
            fn serialized_size(&self, _: Compress) -> usize { std::mem::size_of::<$t>() }
        }
        impl CanonicalDeserialize for $t {
            fn deserialize_with_mode<D: Read>(mut r: D, _: Compress, _: Validate) -> R<Self> {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                r.read_exact(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
        }
    )*};
}
int!(u8 u16 u32 u64 i8 i16 i32 i64);
impl<T: CanonicalSerialize> CanonicalSerialize for [T] {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> R<()> {
        (self.len() as u64).serialize_with_mode(&mut w, c)?;
        for x in self { x.serialize_with_mode(&mut w, c)?; }
        Ok(())
    }
    fn serialized_size(&self, c: Compress) -> usize { 8 + self.iter().map(|x| x.serialized_size(c)).sum::<usize>() }
}
impl<T: CanonicalSerialize> CanonicalSerialize for Vec<T> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> R<()> { self.as_slice().serialize_with_mode(w, c) }
    fn serialized_size(&self, c: Compress) -> usize { self.as_slice().serialized_size(c) }
}
impl<T: CanonicalDeserialize> CanonicalDeserialize for Vec<T> {
    fn deserialize_with_mode<D: Read>(mut r: D, c: Compress, v: Validate) -> R<Self> {
        let n = u64::deserialize_with_mode(&mut r, c, v)?;
        let mut out = Vec::new();
        for _ in 0..n { out.push(T::deserialize_with_mode(&mut r, c, v)?); }
        Ok(out)
    }
}
impl<T: CanonicalSerialize, const N: usize> CanonicalSerialize for [T; N] {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> R<()> {
        for x in self { x.serialize_with_mode(&mut w, c)?; }
        Ok(())
    }
    fn serialized_size(&self, c: Compress) -> usize { self.iter().map(|x| x.serialized_size(c)).sum() }
}
impl<T: CanonicalDeserialize, const N: usize> CanonicalDeserialize for [T; N] {
    fn deserialize_with_mode<D: Read>(mut r: D, c: Compress, v: Validate) -> R<Self> {
        let mut out = Vec::new();
        for _ in 0..N { out.push(T::deserialize_with_mode(&mut r, c, v)?); }
        out.try_into().map_err(|_| SerializationError::InvalidData)
    }
}
impl<T: CanonicalSerialize> CanonicalSerialize for &T {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> R<()> { (**self).serialize_with_mode(w, c) }
    fn serialized_size(&self, c: Compress) -> usize { (**self).serialized_size(c) }
}
