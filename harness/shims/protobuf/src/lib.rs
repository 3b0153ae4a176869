//! A small stand-in for the API of the rust-protobuf fork that the repository's generated code and
//! hand-written code use (the fork itself is a git dependency and is not available offline).  It
//! implements the real wire format; descriptors and reflection are inert.
use std::collections::HashMap;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Read, Write};
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicU32, Ordering};

pub const VERSION_4_0_0_ALPHA_0: () = ();

//
// Errors
//
#[derive(Debug)]
pub enum Error {
  Io(std::io::Error),
  Wire(&'static str),
}
impl fmt::Display for Error {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match self {
      Self::Io(e) => write!(f, "IO error: {e}"),
      Self::Wire(e) => write!(f, "Wire error: {e}"),
    }
  }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
  fn from(e: std::io::Error) -> Self {
    Self::Io(e)
  }
}
impl From<Error> for std::io::Error {
  fn from(e: Error) -> Self {
    match e {
      Error::Io(e) => e,
      e @ Error::Wire(_) => std::io::Error::new(std::io::ErrorKind::Other, e.to_string()),
    }
  }
}
pub type Result<T> = std::result::Result<T, Error>;

//
// Special fields
//
#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub enum UnknownValue {
  #[default]
  None,
  Fixed32(u32),
  Fixed64(u64),
  Varint(u64),
  LengthDelimited(Vec<u8>),
}
#[derive(Debug, Clone, PartialEq, Eq, Default, Hash)]
pub struct UnknownFields {
  fields: Option<Box<Vec<(u32, UnknownValue)>>>,
}
impl UnknownFields {
  pub const fn new() -> Self {
    Self { fields: None }
  }
  pub fn clear(&mut self) {
    self.fields = None;
  }
  fn push(&mut self, n: u32, v: UnknownValue) {
    self.fields.get_or_insert_with(Default::default).push((n, v));
  }
  fn iter(&self) -> impl Iterator<Item = &(u32, UnknownValue)> {
    self.fields.iter().flat_map(|f| f.iter())
  }
}
pub struct CachedSize(AtomicU32);
impl CachedSize {
  pub const fn new() -> Self {
    Self(AtomicU32::new(0))
  }
  pub fn get(&self) -> u32 {
    self.0.load(Ordering::Relaxed)
  }
  pub fn set(&self, v: u32) {
    self.0.store(v, Ordering::Relaxed);
  }
}
impl fmt::Debug for CachedSize {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("CachedSize")
  }
}
impl Default for CachedSize {
  fn default() -> Self {
    Self::new()
  }
}
impl Clone for CachedSize {
  fn clone(&self) -> Self {
    let s = Self::new();
    s.set(self.get());
    s
  }
}
impl PartialEq for CachedSize {
  fn eq(&self, _: &Self) -> bool {
    true
  }
}
impl Eq for CachedSize {}
impl Hash for CachedSize {
  fn hash<H: Hasher>(&self, _: &mut H) {}
}
#[derive(Debug, Clone, PartialEq, Eq, Default, Hash)]
pub struct SpecialFields {
  unknown_fields: UnknownFields,
  cached_size: CachedSize,
}
impl SpecialFields {
  pub const fn new() -> Self {
    Self { unknown_fields: UnknownFields::new(), cached_size: CachedSize::new() }
  }
  pub fn unknown_fields(&self) -> &UnknownFields {
    &self.unknown_fields
  }
  pub fn mut_unknown_fields(&mut self) -> &mut UnknownFields {
    &mut self.unknown_fields
  }
  pub fn cached_size(&self) -> &CachedSize {
    &self.cached_size
  }
  pub fn clear(&mut self) {
    self.unknown_fields.clear();
  }
}

//
// Chars
//
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Chars(String);
impl Chars {
  pub const fn new() -> Self {
    Self(String::new())
  }
  pub fn as_str(&self) -> &str {
    &self.0
  }
  pub fn clear(&mut self) {
    self.0.clear();
  }
}
impl Deref for Chars {
  type Target = str;
  fn deref(&self) -> &str {
    &self.0
  }
}
impl From<String> for Chars {
  fn from(s: String) -> Self {
    Self(s)
  }
}
impl From<&str> for Chars {
  fn from(s: &str) -> Self {
    Self(s.to_string())
  }
}
impl From<Chars> for String {
  fn from(s: Chars) -> Self {
    s.0
  }
}
impl AsRef<str> for Chars {
  fn as_ref(&self) -> &str {
    &self.0
  }
}
impl std::borrow::Borrow<str> for Chars {
  fn borrow(&self) -> &str {
    &self.0
  }
}
impl fmt::Display for Chars {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Display::fmt(&self.0, f)
  }
}
impl fmt::Debug for Chars {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Debug::fmt(&self.0, f)
  }
}

//
// Enums, oneofs, message fields
//
pub trait Enum: Eq + Sized + Copy + fmt::Debug + Default + Hash + 'static {
  const NAME: &'static str;
  const VALUES: &'static [Self];
  fn value(&self) -> i32;
  fn from_i32(v: i32) -> Option<Self>;
  fn from_str(s: &str) -> Option<Self>;
}
pub trait EnumFull: Enum {
  fn enum_descriptor() -> reflect::EnumDescriptor;
  fn descriptor(&self) -> reflect::EnumValueDescriptor;
}
pub trait Oneof {}
pub trait OneofFull: Oneof {
  fn descriptor() -> reflect::OneofDescriptor;
}
#[derive(Eq, PartialEq, Clone, Copy, Hash)]
pub struct EnumOrUnknown<E: Enum> {
  value: i32,
  _p: PhantomData<E>,
}
impl<E: Enum> EnumOrUnknown<E> {
  pub fn new(e: E) -> Self {
    Self::from_i32(e.value())
  }
  pub const fn from_i32(value: i32) -> Self {
    Self { value, _p: PhantomData }
  }
  pub fn value(&self) -> i32 {
    self.value
  }
  pub fn enum_value(&self) -> std::result::Result<E, i32> {
    E::from_i32(self.value).ok_or(self.value)
  }
  pub fn enum_value_or(&self, d: E) -> E {
    E::from_i32(self.value).unwrap_or(d)
  }
  pub fn enum_value_or_default(&self) -> E {
    self.enum_value_or(E::default())
  }
  pub fn unwrap(&self) -> E {
    self.enum_value().unwrap()
  }
}
impl<E: Enum> From<E> for EnumOrUnknown<E> {
  fn from(e: E) -> Self {
    Self::new(e)
  }
}
impl<E: Enum> Default for EnumOrUnknown<E> {
  fn default() -> Self {
    Self::new(E::default())
  }
}
impl<E: Enum> fmt::Debug for EnumOrUnknown<E> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match self.enum_value() {
      Ok(e) => e.fmt(f),
      Err(v) => v.fmt(f),
    }
  }
}
#[derive(Clone, Debug, Eq, PartialEq, Hash)]
pub struct MessageField<T>(pub Option<Box<T>>);
impl<T> MessageField<T> {
  pub const fn none() -> Self {
    Self(None)
  }
  pub fn some(t: T) -> Self {
    Self(Some(Box::new(t)))
  }
  pub fn from_option(o: Option<T>) -> Self {
    Self(o.map(Box::new))
  }
  pub fn into_option(self) -> Option<T> {
    self.0.map(|b| *b)
  }
  pub fn is_some(&self) -> bool {
    self.0.is_some()
  }
  pub fn is_none(&self) -> bool {
    self.0.is_none()
  }
  pub fn clear(&mut self) {
    self.0 = None;
  }
  pub fn as_ref(&self) -> Option<&T> {
    self.0.as_deref()
  }
  pub fn as_mut(&mut self) -> Option<&mut T> {
    self.0.as_deref_mut()
  }
  pub fn take(&mut self) -> Option<T> {
    self.0.take().map(|b| *b)
  }
  pub fn unwrap(self) -> T {
    *self.0.unwrap()
  }
  pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U> {
    self.into_option().map(f)
  }
  pub fn unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
    self.into_option().unwrap_or_else(f)
  }
  pub fn iter(&self) -> std::option::IntoIter<&T> {
    self.as_ref().into_iter()
  }
}
impl<T: Default> MessageField<T> {
  pub fn unwrap_or_default(self) -> T {
    self.into_option().unwrap_or_default()
  }
  pub fn mut_or_insert_default(&mut self) -> &mut T {
    self.0.get_or_insert_with(Default::default)
  }
}
impl<T: Message> MessageField<T> {
  pub fn get_or_default<'a>(&'a self) -> &'a T {
    self.as_ref().unwrap_or_else(|| T::default_instance())
  }
}
impl<T> Default for MessageField<T> {
  fn default() -> Self {
    Self(None)
  }
}
impl<T: Message> Deref for MessageField<T> {
  type Target = T;
  fn deref(&self) -> &T {
    self.get_or_default()
  }
}
impl<T> From<Option<T>> for MessageField<T> {
  fn from(o: Option<T>) -> Self {
    Self::from_option(o)
  }
}
impl<T> IntoIterator for MessageField<T> {
  type Item = T;
  type IntoIter = std::option::IntoIter<T>;
  fn into_iter(self) -> Self::IntoIter {
    self.into_option().into_iter()
  }
}

//
// Message
//
pub trait Message: Default + Clone + Send + Sync + Sized + PartialEq + 'static {
  const NAME: &'static str;
  fn is_initialized(&self) -> bool;
  fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()>;
  fn compute_size(&self) -> u64;
  fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()>;
  fn special_fields(&self) -> &SpecialFields;
  fn mut_special_fields(&mut self) -> &mut SpecialFields;
  fn new() -> Self;
  fn clear(&mut self);
  fn default_instance() -> &'static Self;

  fn parse_from(is: &mut CodedInputStream<'_>) -> Result<Self> {
    let mut m = Self::new();
    m.merge_from(is)?;
    Ok(m)
  }
  fn parse_from_bytes(b: &[u8]) -> Result<Self> {
    let mut is = CodedInputStream::from_bytes(b);
    let r = Self::parse_from(&mut is)?;
    is.check_eof()?;
    Ok(r)
  }
  fn parse_from_tokio_bytes(b: &bytes::Bytes) -> Result<Self> {
    Self::parse_from_bytes(b)
  }
  fn parse_from_reader(r: &mut dyn Read) -> Result<Self> {
    let mut v = Vec::new();
    r.read_to_end(&mut v)?;
    Self::parse_from_bytes(&v)
  }
  fn merge_from_bytes(&mut self, b: &[u8]) -> Result<()> {
    self.merge_from(&mut CodedInputStream::from_bytes(b))
  }
  fn check_initialized(&self) -> Result<()> {
    Ok(())
  }
  fn cached_size(&self) -> u32 {
    self.special_fields().cached_size().get()
  }
  fn write_to(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
    self.compute_size();
    self.write_to_with_cached_sizes(os)
  }
  fn write_to_vec(&self, v: &mut Vec<u8>) -> Result<()> {
    let mut os = CodedOutputStream::vec(v);
    self.write_to(&mut os)
  }
  fn write_to_bytes(&self) -> Result<Vec<u8>> {
    let mut v = Vec::new();
    self.write_to_vec(&mut v)?;
    Ok(v)
  }
  fn write_to_writer(&self, w: &mut dyn Write) -> Result<()> {
    let v = self.write_to_bytes()?;
    w.write_all(&v)?;
    Ok(())
  }
  fn unknown_fields(&self) -> &UnknownFields {
    self.special_fields().unknown_fields()
  }
}
pub trait MessageFull: Message + reflect::ProtobufValue {
  fn descriptor() -> reflect::MessageDescriptor;
}
pub trait MessageDyn: Send + Sync + 'static {
  fn compute_size_dyn(&self) -> u64;
  fn write_to_bytes_dyn(&self) -> Result<Vec<u8>>;
}
impl<M: MessageFull> MessageDyn for M {
  fn compute_size_dyn(&self) -> u64 {
    self.compute_size()
  }
  fn write_to_bytes_dyn(&self) -> Result<Vec<u8>> {
    self.write_to_bytes()
  }
}

//
// Coded streams
//
pub struct CodedInputStream<'a> {
  buf: std::borrow::Cow<'a, [u8]>,
  pos: usize,
  limit: usize,
  depth: u32,
}
impl<'a> CodedInputStream<'a> {
  pub fn from_bytes(b: &'a [u8]) -> Self {
    Self { buf: std::borrow::Cow::Borrowed(b), pos: 0, limit: b.len(), depth: 0 }
  }
  pub fn new(r: &'a mut dyn Read) -> Self {
    let mut v = Vec::new();
    let _ = r.read_to_end(&mut v);
    let limit = v.len();
    Self { buf: std::borrow::Cow::Owned(v), pos: 0, limit, depth: 0 }
  }
  pub fn from_buf_read(r: &'a mut dyn BufRead) -> Self {
    let mut v = Vec::new();
    let _ = r.read_to_end(&mut v);
    let limit = v.len();
    Self { buf: std::borrow::Cow::Owned(v), pos: 0, limit, depth: 0 }
  }
  pub fn eof(&mut self) -> Result<bool> {
    Ok(self.pos >= self.limit)
  }
  pub fn pos(&self) -> u64 {
    self.pos as u64
  }
  pub fn check_eof(&mut self) -> Result<()> {
    if self.eof()? {
      Ok(())
    } else {
      Err(Error::Wire("unexpected trailing data"))
    }
  }
  fn raw(&mut self, n: usize) -> Result<&[u8]> {
    if self.limit - self.pos < n {
      return Err(Error::Wire("unexpected EOF"));
    }
    let s = &self.buf[self.pos .. self.pos + n];
    self.pos += n;
    Ok(s)
  }
  pub fn read_raw_varint64(&mut self) -> Result<u64> {
    let mut r = 0u64;
    for i in 0 .. 10 {
      let b = self.raw(1)?[0];
      if i == 9 && b > 1 {
        return Err(Error::Wire("incorrect varint"));
      }
      r |= u64::from(b & 0x7f) << (7 * i);
      if b & 0x80 == 0 {
        return Ok(r);
      }
    }
    Err(Error::Wire("incorrect varint"))
  }
  pub fn read_raw_varint32(&mut self) -> Result<u32> {
    Ok(self.read_raw_varint64()? as u32)
  }
  pub fn read_raw_tag_or_eof(&mut self) -> Result<Option<u32>> {
    if self.eof()? {
      return Ok(None);
    }
    let v = self.read_raw_varint64()?;
    if v > u64::from(u32::MAX) || v >> 3 == 0 {
      return Err(Error::Wire("incorrect tag"));
    }
    Ok(Some(v as u32))
  }
  pub fn push_limit(&mut self, n: u64) -> Result<u64> {
    let old = self.limit;
    let n = usize::try_from(n).map_err(|_| Error::Wire("limit overflow"))?;
    let new = self.pos.checked_add(n).ok_or(Error::Wire("limit overflow"))?;
    if new > old {
      return Err(Error::Wire("truncated message"));
    }
    self.limit = new;
    Ok(old as u64)
  }
  pub fn pop_limit(&mut self, old: u64) {
    self.limit = old as usize;
  }
  pub fn read_raw_bytes(&mut self, n: u32) -> Result<Vec<u8>> {
    Ok(self.raw(n as usize)?.to_vec())
  }
  pub fn read_bytes(&mut self) -> Result<Vec<u8>> {
    let n = self.read_raw_varint32()?;
    self.read_raw_bytes(n)
  }
  pub fn read_tokio_bytes(&mut self) -> Result<bytes::Bytes> {
    Ok(self.read_bytes()?.into())
  }
  pub fn read_string(&mut self) -> Result<String> {
    String::from_utf8(self.read_bytes()?).map_err(|_| Error::Wire("invalid UTF-8"))
  }
  pub fn read_tokio_chars(&mut self) -> Result<Chars> {
    Ok(self.read_string()?.into())
  }
  pub fn read_int64(&mut self) -> Result<i64> {
    Ok(self.read_raw_varint64()? as i64)
  }
  pub fn read_int32(&mut self) -> Result<i32> {
    Ok(self.read_raw_varint64()? as i32)
  }
  pub fn read_uint64(&mut self) -> Result<u64> {
    self.read_raw_varint64()
  }
  pub fn read_uint32(&mut self) -> Result<u32> {
    self.read_raw_varint32()
  }
  pub fn read_sint64(&mut self) -> Result<i64> {
    let n = self.read_raw_varint64()?;
    Ok(((n >> 1) as i64) ^ -((n & 1) as i64))
  }
  pub fn read_sint32(&mut self) -> Result<i32> {
    Ok(self.read_sint64()? as i32)
  }
  pub fn read_bool(&mut self) -> Result<bool> {
    Ok(self.read_raw_varint64()? != 0)
  }
  pub fn read_fixed32(&mut self) -> Result<u32> {
    Ok(u32::from_le_bytes(self.raw(4)?.try_into().unwrap()))
  }
  pub fn read_fixed64(&mut self) -> Result<u64> {
    Ok(u64::from_le_bytes(self.raw(8)?.try_into().unwrap()))
  }
  pub fn read_sfixed64(&mut self) -> Result<i64> {
    Ok(self.read_fixed64()? as i64)
  }
  pub fn read_sfixed32(&mut self) -> Result<i32> {
    Ok(self.read_fixed32()? as i32)
  }
  pub fn read_double(&mut self) -> Result<f64> {
    Ok(f64::from_bits(self.read_fixed64()?))
  }
  pub fn read_float(&mut self) -> Result<f32> {
    Ok(f32::from_bits(self.read_fixed32()?))
  }
  pub fn read_enum_or_unknown<E: Enum>(&mut self) -> Result<EnumOrUnknown<E>> {
    Ok(EnumOrUnknown::from_i32(self.read_int32()?))
  }
  pub fn read_repeated_packed_double_into(&mut self, v: &mut Vec<f64>) -> Result<()> {
    let n = self.read_raw_varint64()?;
    let old = self.push_limit(n)?;
    while !self.eof()? {
      v.push(self.read_double()?);
    }
    self.pop_limit(old);
    Ok(())
  }
  pub fn read_message<M: Message>(&mut self) -> Result<M> {
    let mut m = M::new();
    self.merge_message(&mut m)?;
    Ok(m)
  }
  pub fn merge_message<M: Message>(&mut self, m: &mut M) -> Result<()> {
    if self.depth >= 100 {
      return Err(Error::Wire("recursion limit"));
    }
    self.depth += 1;
    let n = self.read_raw_varint64()?;
    let old = self.push_limit(n)?;
    m.merge_from(self)?;
    self.pop_limit(old);
    self.depth -= 1;
    Ok(())
  }
  fn read_unknown(&mut self, wire: u32) -> Result<UnknownValue> {
    Ok(match wire {
      0 => UnknownValue::Varint(self.read_raw_varint64()?),
      1 => UnknownValue::Fixed64(self.read_fixed64()?),
      2 => UnknownValue::LengthDelimited(self.read_bytes()?),
      5 => UnknownValue::Fixed32(self.read_fixed32()?),
      3 => {
        loop {
          let Some(tag) = self.read_raw_tag_or_eof()? else {
            return Err(Error::Wire("unexpected EOF"));
          };
          if tag & 7 == 4 {
            break;
          }
          self.read_unknown(tag & 7)?;
        }
        UnknownValue::None
      },
      _ => return Err(Error::Wire("unexpected wire type")),
    })
  }
}

enum Target<'a> {
  Vec(&'a mut Vec<u8>),
  Slice(&'a mut [u8], usize),
  Writer(&'a mut dyn Write),
}
pub struct CodedOutputStream<'a> {
  target: Target<'a>,
  total: u64,
}
impl<'a> CodedOutputStream<'a> {
  pub fn vec(v: &'a mut Vec<u8>) -> Self {
    Self { target: Target::Vec(v), total: 0 }
  }
  pub fn bytes(b: &'a mut [u8]) -> Self {
    Self { target: Target::Slice(b, 0), total: 0 }
  }
  pub fn new(w: &'a mut dyn Write) -> Self {
    Self { target: Target::Writer(w), total: 0 }
  }
  pub fn flush(&mut self) -> Result<()> {
    if let Target::Writer(w) = &mut self.target {
      w.flush()?;
    }
    Ok(())
  }
  pub fn total_bytes_written(&self) -> u64 {
    self.total
  }
  pub fn write_raw_bytes(&mut self, b: &[u8]) -> Result<()> {
    self.total += b.len() as u64;
    match &mut self.target {
      Target::Vec(v) => v.extend_from_slice(b),
      Target::Slice(s, pos) => {
        if s.len() - *pos < b.len() {
          return Err(Error::Wire("buffer too small"));
        }
        s[*pos .. *pos + b.len()].copy_from_slice(b);
        *pos += b.len();
      },
      Target::Writer(w) => w.write_all(b)?,
    }
    Ok(())
  }
  pub fn write_raw_varint64(&mut self, mut v: u64) -> Result<()> {
    let mut out = [0u8; 10];
    let mut n = 0;
    loop {
      let b = (v & 0x7f) as u8;
      v >>= 7;
      out[n] = if v == 0 { b } else { b | 0x80 };
      n += 1;
      if v == 0 {
        break;
      }
    }
    self.write_raw_bytes(&out[.. n])
  }
  pub fn write_raw_varint32(&mut self, v: u32) -> Result<()> {
    self.write_raw_varint64(u64::from(v))
  }
  fn tag(&mut self, n: u32, w: u32) -> Result<()> {
    self.write_raw_varint32(n << 3 | w)
  }
  pub fn write_tag(&mut self, n: u32, w: rt::WireType) -> Result<()> {
    self.tag(n, w as u32)
  }
  pub fn write_string(&mut self, n: u32, s: &str) -> Result<()> {
    self.write_bytes(n, s.as_bytes())
  }
  pub fn write_bytes(&mut self, n: u32, b: &[u8]) -> Result<()> {
    self.tag(n, 2)?;
    self.write_raw_varint64(b.len() as u64)?;
    self.write_raw_bytes(b)
  }
  pub fn write_int64(&mut self, n: u32, v: i64) -> Result<()> {
    self.tag(n, 0)?;
    self.write_raw_varint64(v as u64)
  }
  pub fn write_int32(&mut self, n: u32, v: i32) -> Result<()> {
    self.write_int64(n, i64::from(v))
  }
  pub fn write_uint64(&mut self, n: u32, v: u64) -> Result<()> {
    self.tag(n, 0)?;
    self.write_raw_varint64(v)
  }
  pub fn write_uint32(&mut self, n: u32, v: u32) -> Result<()> {
    self.write_uint64(n, u64::from(v))
  }
  pub fn write_sint64(&mut self, n: u32, v: i64) -> Result<()> {
    self.write_uint64(n, ((v << 1) ^ (v >> 63)) as u64)
  }
  pub fn write_sint32(&mut self, n: u32, v: i32) -> Result<()> {
    self.write_sint64(n, i64::from(v))
  }
  pub fn write_bool(&mut self, n: u32, v: bool) -> Result<()> {
    self.write_uint64(n, u64::from(v))
  }
  pub fn write_enum(&mut self, n: u32, v: i32) -> Result<()> {
    self.write_int32(n, v)
  }
  pub fn write_double(&mut self, n: u32, v: f64) -> Result<()> {
    self.tag(n, 1)?;
    self.write_raw_bytes(&v.to_bits().to_le_bytes())
  }
  pub fn write_fixed64(&mut self, n: u32, v: u64) -> Result<()> {
    self.tag(n, 1)?;
    self.write_raw_bytes(&v.to_le_bytes())
  }
  pub fn write_fixed32(&mut self, n: u32, v: u32) -> Result<()> {
    self.tag(n, 5)?;
    self.write_raw_bytes(&v.to_le_bytes())
  }
  pub fn write_sfixed64(&mut self, n: u32, v: i64) -> Result<()> {
    self.write_fixed64(n, v as u64)
  }
  pub fn write_sfixed32(&mut self, n: u32, v: i32) -> Result<()> {
    self.write_fixed32(n, v as u32)
  }
  pub fn write_float(&mut self, n: u32, v: f32) -> Result<()> {
    self.tag(n, 5)?;
    self.write_raw_bytes(&v.to_bits().to_le_bytes())
  }
  pub fn write_repeated_packed_double(&mut self, n: u32, v: &[f64]) -> Result<()> {
    if v.is_empty() {
      return Ok(());
    }
    self.tag(n, 2)?;
    self.write_raw_varint64(8 * v.len() as u64)?;
    for d in v {
      self.write_raw_bytes(&d.to_bits().to_le_bytes())?;
    }
    Ok(())
  }
  pub fn write_repeated_packed_enum_or_unknown<E: Enum>(
    &mut self,
    n: u32,
    v: &[EnumOrUnknown<E>],
  ) -> Result<()> {
    if v.is_empty() {
      return Ok(());
    }
    self.tag(n, 2)?;
    self.write_raw_varint64(v.iter().map(|e| rt::compute_raw_varint64_size(e.value() as i64 as u64)).sum())?;
    for e in v {
      self.write_raw_varint64(e.value() as i64 as u64)?;
    }
    Ok(())
  }
  pub fn write_unknown_fields(&mut self, f: &UnknownFields) -> Result<()> {
    for (n, v) in f.iter() {
      match v {
        UnknownValue::Varint(v) => self.write_uint64(*n, *v)?,
        UnknownValue::Fixed64(v) => self.write_fixed64(*n, *v)?,
        UnknownValue::Fixed32(v) => self.write_fixed32(*n, *v)?,
        UnknownValue::LengthDelimited(v) => self.write_bytes(*n, v)?,
        UnknownValue::None => {},
      }
    }
    Ok(())
  }
}

//
// Runtime
//
pub mod rt {
  use super::*;
  #[derive(Clone, Copy, PartialEq, Eq, Debug)]
  #[repr(u32)]
  pub enum WireType {
    Varint = 0,
    Fixed64 = 1,
    LengthDelimited = 2,
    StartGroup = 3,
    EndGroup = 4,
    Fixed32 = 5,
  }
  pub struct Lazy<T: Sync>(std::sync::OnceLock<T>);
  impl<T: Sync> Lazy<T> {
    pub const fn new() -> Self {
      Self(std::sync::OnceLock::new())
    }
    pub fn get(&self, f: impl FnOnce() -> T) -> &T {
      self.0.get_or_init(f)
    }
  }
  pub fn compute_raw_varint64_size(v: u64) -> u64 {
    let bits = 64 - u64::from((v | 1).leading_zeros());
    bits.div_ceil(7)
  }
  fn tag_size(n: u32) -> u64 {
    compute_raw_varint64_size(u64::from(n) << 3)
  }
  pub fn string_size(n: u32, s: &str) -> u64 {
    bytes_size(n, s.as_bytes())
  }
  pub fn bytes_size(n: u32, b: &[u8]) -> u64 {
    tag_size(n) + compute_raw_varint64_size(b.len() as u64) + b.len() as u64
  }
  pub fn int64_size(n: u32, v: i64) -> u64 {
    tag_size(n) + compute_raw_varint64_size(v as u64)
  }
  pub fn int32_size(n: u32, v: i32) -> u64 {
    int64_size(n, i64::from(v))
  }
  pub fn uint64_size(n: u32, v: u64) -> u64 {
    tag_size(n) + compute_raw_varint64_size(v)
  }
  pub fn uint32_size(n: u32, v: u32) -> u64 {
    uint64_size(n, u64::from(v))
  }
  pub fn sint64_size(n: u32, v: i64) -> u64 {
    uint64_size(n, ((v << 1) ^ (v >> 63)) as u64)
  }
  pub fn sint32_size(n: u32, v: i32) -> u64 {
    sint64_size(n, i64::from(v))
  }
  pub fn vec_packed_double_size(n: u32, v: &[f64]) -> u64 {
    if v.is_empty() {
      0
    } else {
      let l = 8 * v.len() as u64;
      tag_size(n) + compute_raw_varint64_size(l) + l
    }
  }
  pub fn vec_packed_enum_or_unknown_size<E: Enum>(n: u32, v: &[EnumOrUnknown<E>]) -> u64 {
    if v.is_empty() {
      0
    } else {
      let l: u64 = v.iter().map(|e| compute_raw_varint64_size(e.value() as i64 as u64)).sum();
      tag_size(n) + compute_raw_varint64_size(l) + l
    }
  }
  pub fn unknown_fields_size(f: &UnknownFields) -> u64 {
    f.iter()
      .map(|(n, v)| match v {
        UnknownValue::Varint(v) => uint64_size(*n, *v),
        UnknownValue::Fixed64(_) => tag_size(*n) + 8,
        UnknownValue::Fixed32(_) => tag_size(*n) + 4,
        UnknownValue::LengthDelimited(v) => bytes_size(*n, v),
        UnknownValue::None => 0,
      })
      .sum()
  }
  pub fn read_unknown_or_skip_group(
    tag: u32,
    is: &mut CodedInputStream<'_>,
    f: &mut UnknownFields,
  ) -> Result<()> {
    let v = is.read_unknown(tag & 7)?;
    if v != UnknownValue::None {
      f.push(tag >> 3, v);
    }
    Ok(())
  }
  pub fn skip_field_for_tag(tag: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
    is.read_unknown(tag & 7)?;
    Ok(())
  }
  pub fn read_singular_message_into_field<M: Message>(
    is: &mut CodedInputStream<'_>,
    f: &mut MessageField<M>,
  ) -> Result<()> {
    let mut m = M::new();
    is.merge_message(&mut m)?;
    *f = MessageField::some(m);
    Ok(())
  }
  pub fn write_message_field_with_cached_size<M: Message>(
    n: u32,
    m: &M,
    os: &mut CodedOutputStream<'_>,
  ) -> Result<()> {
    os.tag(n, 2)?;
    os.write_raw_varint32(m.cached_size())?;
    m.write_to_with_cached_sizes(os)
  }
  pub fn read_repeated_packed_enum_or_unknown_into<E: Enum>(
    is: &mut CodedInputStream<'_>,
    v: &mut Vec<EnumOrUnknown<E>>,
  ) -> Result<()> {
    let n = is.read_raw_varint64()?;
    let old = is.push_limit(n)?;
    while !is.eof()? {
      v.push(is.read_enum_or_unknown()?);
    }
    is.pop_limit(old);
    Ok(())
  }
}

pub mod text_format {
  pub fn fmt<M: std::fmt::Debug>(m: &M, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{m:?}")
  }
}

pub mod ext {
  use super::*;
  pub struct ExtFieldOptional<M, T>(PhantomData<(M, T)>);
  impl<M, T> ExtFieldOptional<M, T> {
    pub const fn new(_n: u32, _t: descriptor::field_descriptor_proto::Type) -> Self {
      Self(PhantomData)
    }
  }
}

/// Inert descriptors.
pub mod reflect {
  use super::*;
  #[derive(Clone, Default, Debug)]
  pub struct MessageDescriptor;
  impl MessageDescriptor {
    pub fn oneof_by_name(&self, _n: &str) -> Option<OneofDescriptor> {
      Some(OneofDescriptor)
    }
    pub fn full_name(&self) -> &str {
      ""
    }
  }
  #[derive(Clone, Default, Debug)]
  pub struct OneofDescriptor;
  #[derive(Clone, Default, Debug)]
  pub struct EnumDescriptor;
  impl EnumDescriptor {
    pub fn value_by_index(&self, _n: usize) -> EnumValueDescriptor {
      EnumValueDescriptor
    }
    pub fn value_by_number(&self, _n: i32) -> Option<EnumValueDescriptor> {
      Some(EnumValueDescriptor)
    }
  }
  #[derive(Clone, Default, Debug)]
  pub struct EnumValueDescriptor;
  #[derive(Clone, Default, Debug)]
  pub struct FileDescriptor;
  impl FileDescriptor {
    pub fn new_generated_2(_g: &'static GeneratedFileDescriptor) -> Self {
      Self
    }
    pub fn message_by_package_relative_name(&self, _n: &str) -> Option<MessageDescriptor> {
      Some(MessageDescriptor)
    }
    pub fn enum_by_package_relative_name(&self, _n: &str) -> Option<EnumDescriptor> {
      Some(EnumDescriptor)
    }
  }
  #[derive(Clone, Default, Debug)]
  pub struct GeneratedFileDescriptor;
  impl GeneratedFileDescriptor {
    pub fn new_generated(
      _p: &'static descriptor::FileDescriptorProto,
      _deps: Vec<FileDescriptor>,
      _m: Vec<GeneratedMessageDescriptorData>,
      _e: Vec<GeneratedEnumDescriptorData>,
    ) -> Self {
      Self
    }
  }
  pub struct GeneratedMessageDescriptorData;
  impl GeneratedMessageDescriptorData {
    pub fn new_2<M>(
      _n: &'static str,
      _f: Vec<rt::v2::FieldAccessor>,
      _o: Vec<GeneratedOneofDescriptorData>,
    ) -> Self {
      Self
    }
  }
  pub struct GeneratedOneofDescriptorData;
  impl GeneratedOneofDescriptorData {
    pub fn new<O>(_n: &'static str) -> Self {
      Self
    }
  }
  pub struct GeneratedEnumDescriptorData;
  impl GeneratedEnumDescriptorData {
    pub fn new<O>(_n: &'static str) -> Self {
      Self
    }
  }
  pub trait ProtobufValue: Sized + 'static {
    type RuntimeType;
  }
  pub mod rt {
    pub struct RuntimeTypeMessage<T>(std::marker::PhantomData<T>);
    pub struct RuntimeTypeEnumOrUnknown<T>(std::marker::PhantomData<T>);
    pub mod v2 {
      pub struct FieldAccessor;
      pub fn make_simpler_field_accessor<M, T>(
        _n: &'static str,
        _g: for<'a> fn(&'a M) -> &'a T,
        _s: for<'a> fn(&'a mut M) -> &'a mut T,
      ) -> FieldAccessor {
        FieldAccessor
      }
      pub fn make_message_field_accessor<M, T>(
        _n: &'static str,
        _g: for<'a> fn(&'a M) -> &'a crate::MessageField<T>,
        _s: for<'a> fn(&'a mut M) -> &'a mut crate::MessageField<T>,
      ) -> FieldAccessor {
        FieldAccessor
      }
      pub fn make_option_accessor<M, T>(
        _n: &'static str,
        _g: for<'a> fn(&'a M) -> &'a Option<T>,
        _s: for<'a> fn(&'a mut M) -> &'a mut Option<T>,
      ) -> FieldAccessor {
        FieldAccessor
      }
      pub fn make_vec_simpler_accessor<M, T>(
        _n: &'static str,
        _g: for<'a> fn(&'a M) -> &'a Vec<T>,
        _s: for<'a> fn(&'a mut M) -> &'a mut Vec<T>,
      ) -> FieldAccessor {
        FieldAccessor
      }
      pub fn make_map_simpler_accessor_new<M, T>(
        _n: &'static str,
        _g: for<'a> fn(&'a M) -> &'a T,
        _s: for<'a> fn(&'a mut M) -> &'a mut T,
      ) -> FieldAccessor {
        FieldAccessor
      }
      pub fn make_oneof_message_has_get_mut_set_accessor<M, F>(
        _n: &'static str,
        _h: fn(&M) -> bool,
        _g: for<'a> fn(&'a M) -> &'a F,
        _m: for<'a> fn(&'a mut M) -> &'a mut F,
        _s: fn(&mut M, F),
      ) -> FieldAccessor {
        FieldAccessor
      }
      pub fn make_oneof_deref_has_get_set_simpler_accessor<M, F: std::ops::Deref>(
        _n: &'static str,
        _h: fn(&M) -> bool,
        _g: for<'a> fn(&'a M) -> &'a F::Target,
        _s: fn(&mut M, F),
      ) -> FieldAccessor {
        FieldAccessor
      }
      pub fn make_oneof_enum_accessors<M, E>(
        _n: &'static str,
        _g: fn(&M) -> Option<crate::EnumOrUnknown<E>>,
        _s: fn(&mut M, crate::EnumOrUnknown<E>),
        _d: E,
      ) -> FieldAccessor
      where
        E: crate::Enum,
      {
        FieldAccessor
      }
      pub fn make_oneof_copy_has_get_set_simpler_accessors<M, F>(
        _n: &'static str,
        _h: fn(&M) -> bool,
        _g: fn(&M) -> F,
        _s: fn(&mut M, F),
      ) -> FieldAccessor {
        FieldAccessor
      }
    }
  }
}

pub mod descriptor {
  pub mod field_descriptor_proto {
    #[allow(non_camel_case_types)]
    #[derive(Clone, Copy)]
    pub enum Type {
      TYPE_BOOL,
      TYPE_STRING,
      TYPE_MESSAGE,
      TYPE_INT32,
      TYPE_ENUM,
    }
  }
  pub struct FileOptions;
  pub struct MessageOptions;
  pub struct FieldOptions;
  pub struct EnumOptions;
  pub struct OneofOptions;
  pub struct MethodOptions;
  pub struct EnumValueOptions;
  simple_message!(FileDescriptorProto, "FileDescriptorProto", {});
  use crate::simple_message;
  pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor {
    static D: crate::reflect::FileDescriptor = crate::reflect::FileDescriptor;
    &D
  }
}

/// Messages of this crate: named fields with a tag, a reader, a writer and a size.
#[macro_export]
#[doc(hidden)]
macro_rules! simple_message {
  ($name:ident, $str:expr, { $($f:ident : $t:ty, $tag:expr, $n:expr, $read:ident, $write:ident, $size:ident, $zero:expr, $empty:expr;)* }) => {
    #[derive(Clone, PartialEq, Default, Debug)]
    pub struct $name {
      $(pub $f: $t,)*
      pub special_fields: $crate::SpecialFields,
    }
    impl $name {
      pub fn new() -> Self {
        Self::default()
      }
    }
    impl<'a> Default for &'a $name {
      fn default() -> &'a $name {
        <$name as $crate::Message>::default_instance()
      }
    }
    impl $crate::Message for $name {
      const NAME: &'static str = $str;
      fn is_initialized(&self) -> bool {
        true
      }
      fn merge_from(&mut self, is: &mut $crate::CodedInputStream<'_>) -> $crate::Result<()> {
        while let Some(tag) = is.read_raw_tag_or_eof()? {
          match tag {
            $($tag => self.$f = is.$read()?,)*
            tag => $crate::rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?,
          }
        }
        Ok(())
      }
      #[allow(unused_mut)]
      fn compute_size(&self) -> u64 {
        let mut s = 0;
        $(if !($empty)(&self.$f) { s += $crate::rt::$size($n, self.$f.clone().into_arg()); })*
        s += $crate::rt::unknown_fields_size(self.special_fields.unknown_fields());
        self.special_fields.cached_size().set(s as u32);
        s
      }
      fn write_to_with_cached_sizes(&self, os: &mut $crate::CodedOutputStream<'_>) -> $crate::Result<()> {
        $(if !($empty)(&self.$f) { os.$write($n, self.$f.clone().into_arg())?; })*
        os.write_unknown_fields(self.special_fields.unknown_fields())
      }
      fn special_fields(&self) -> &$crate::SpecialFields {
        &self.special_fields
      }
      fn mut_special_fields(&mut self) -> &mut $crate::SpecialFields {
        &mut self.special_fields
      }
      fn new() -> Self {
        Self::default()
      }
      fn clear(&mut self) {
        *self = Self::default();
      }
      fn default_instance() -> &'static Self {
        static I: $name = $name { $($f: $zero,)* special_fields: $crate::SpecialFields::new() };
        &I
      }
    }
    impl $crate::MessageFull for $name {
      fn descriptor() -> $crate::reflect::MessageDescriptor {
        $crate::reflect::MessageDescriptor
      }
    }
    impl $crate::reflect::ProtobufValue for $name {
      type RuntimeType = $crate::reflect::rt::RuntimeTypeMessage<Self>;
    }
    impl ::std::fmt::Display for $name {
      fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        $crate::text_format::fmt(self, f)
      }
    }
  };
}

pub mod well_known_types {
  trait Arg: Sized {
    fn into_arg(self) -> Self {
      self
    }
  }
  impl Arg for i64 {}
  impl Arg for i32 {}
  pub mod timestamp {
    use super::Arg;
    simple_message!(Timestamp, "Timestamp", {
      seconds: i64, 8, 1, read_int64, write_int64, int64_size, 0, |v: &i64| *v == 0;
      nanos: i32, 16, 2, read_int32, write_int32, int32_size, 0, |v: &i32| *v == 0;
    });
    use crate::simple_message;
    pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor {
      crate::descriptor::file_descriptor()
    }
  }
  pub mod duration {
    use super::Arg;
    use crate::simple_message;
    simple_message!(Duration, "Duration", {
      seconds: i64, 8, 1, read_int64, write_int64, int64_size, 0, |v: &i64| *v == 0;
      nanos: i32, 16, 2, read_int32, write_int32, int32_size, 0, |v: &i32| *v == 0;
    });
    impl TryFrom<Duration> for std::time::Duration {
      type Error = crate::Error;
      fn try_from(d: Duration) -> Result<Self, crate::Error> {
        let e = || crate::Error::Wire("duration out of range");
        Ok(Self::new(u64::try_from(d.seconds).map_err(|_| e())?, u32::try_from(d.nanos).map_err(|_| e())?))
      }
    }
    impl From<std::time::Duration> for Duration {
      fn from(d: std::time::Duration) -> Self {
        Self { seconds: d.as_secs() as i64, nanos: d.subsec_nanos() as i32, ..Default::default() }
      }
    }
    pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor {
      crate::descriptor::file_descriptor()
    }
  }
  pub mod any {
    /// google.protobuf.Any
    #[derive(Clone, PartialEq, Default, Debug)]
    pub struct Any {
      pub type_url: String,
      pub value: Vec<u8>,
      pub special_fields: crate::SpecialFields,
    }
    impl crate::Message for Any {
      const NAME: &'static str = "Any";
      fn is_initialized(&self) -> bool {
        true
      }
      fn merge_from(&mut self, is: &mut crate::CodedInputStream<'_>) -> crate::Result<()> {
        while let Some(tag) = is.read_raw_tag_or_eof()? {
          match tag {
            10 => self.type_url = is.read_string()?,
            18 => self.value = is.read_bytes()?,
            tag => crate::rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?,
          }
        }
        Ok(())
      }
      fn compute_size(&self) -> u64 {
        let mut s = 0;
        if !self.type_url.is_empty() {
          s += crate::rt::string_size(1, &self.type_url);
        }
        if !self.value.is_empty() {
          s += crate::rt::bytes_size(2, &self.value);
        }
        s += crate::rt::unknown_fields_size(self.special_fields.unknown_fields());
        self.special_fields.cached_size().set(s as u32);
        s
      }
      fn write_to_with_cached_sizes(&self, os: &mut crate::CodedOutputStream<'_>) -> crate::Result<()> {
        if !self.type_url.is_empty() {
          os.write_string(1, &self.type_url)?;
        }
        if !self.value.is_empty() {
          os.write_bytes(2, &self.value)?;
        }
        os.write_unknown_fields(self.special_fields.unknown_fields())
      }
      fn special_fields(&self) -> &crate::SpecialFields {
        &self.special_fields
      }
      fn mut_special_fields(&mut self) -> &mut crate::SpecialFields {
        &mut self.special_fields
      }
      fn new() -> Self {
        Self::default()
      }
      fn clear(&mut self) {
        *self = Self::default();
      }
      fn default_instance() -> &'static Self {
        static I: Any = Any { type_url: String::new(), value: Vec::new(), special_fields: crate::SpecialFields::new() };
        &I
      }
    }
    impl crate::MessageFull for Any {
      fn descriptor() -> crate::reflect::MessageDescriptor {
        crate::reflect::MessageDescriptor
      }
    }
    impl crate::reflect::ProtobufValue for Any {
      type RuntimeType = crate::reflect::rt::RuntimeTypeMessage<Self>;
    }
    pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor {
      crate::descriptor::file_descriptor()
    }
  }
}

macro_rules! pv { ($($t:ty),*) => { $(impl reflect::ProtobufValue for $t { type RuntimeType = (); })* } }
pv!(i32, i64, u32, u64, bool, f32, f64, String, Vec<u8>, Chars, bytes::Bytes);
impl<K: 'static, V: 'static> reflect::ProtobufValue for HashMap<K, V> {
  type RuntimeType = ();
}
impl<T: Message> DerefMut for MessageField<T> {
  fn deref_mut(&mut self) -> &mut T {
    self.mut_or_insert_default()
  }
}
