//! Stand-in for DDSketch that keeps the exact multiset of values (the accuracy of the sketch is
//! outside what is checked here), with an encoding that can be merged.
use std::collections::BTreeMap;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("sketch error")
  }
}
impl std::error::Error for Error {}
#[derive(Clone, Debug, Default)]
pub struct DDSketch {
  values: BTreeMap<u64, u64>,
}
impl DDSketch {
  pub fn logarithmic_collapsing_lowest_dense(_a: f64, _n: usize) -> Result<Self, Error> {
    Ok(Self::default())
  }
  pub fn accept(&mut self, v: f64) {
    *self.values.entry(v.to_bits()).or_default() += 1;
  }
  pub fn is_empty(&self) -> bool {
    self.values.is_empty()
  }
  pub fn clear(&mut self) {
    self.values.clear();
  }
  pub fn merge_with(&mut self, o: &Self) -> Result<(), Error> {
    for (k, v) in &o.values {
      *self.values.entry(*k).or_default() += v;
    }
    Ok(())
  }
  pub fn get_count(&self) -> f64 {
    self.values.values().sum::<u64>() as f64
  }
  pub fn get_sum(&self) -> Option<f64> {
    if self.is_empty() {
      return None;
    }
    Some(self.values.iter().map(|(k, n)| f64::from_bits(*k) * *n as f64).sum())
  }
  pub fn values(&self) -> Vec<f64> {
    self.values.iter().flat_map(|(k, n)| std::iter::repeat(f64::from_bits(*k)).take(*n as usize)).collect()
  }
  pub fn encode(&self) -> Result<Vec<u8>, Error> {
    let mut out = b"MSET".to_vec();
    for (k, n) in &self.values {
      out.extend_from_slice(&k.to_le_bytes());
      out.extend_from_slice(&n.to_le_bytes());
    }
    Ok(out)
  }
  pub fn decode_and_merge_with(&mut self, b: &[u8]) -> Result<(), Error> {
    let b = b.strip_prefix(b"MSET").ok_or(Error)?;
    if b.len() % 16 != 0 {
      return Err(Error);
    }
    for c in b.chunks(16) {
      let k = u64::from_le_bytes(c[.. 8].try_into().unwrap());
      *self.values.entry(k).or_default() += u64::from_le_bytes(c[8 ..].try_into().unwrap());
    }
    Ok(())
  }
}
