//! Encoders and decoders of bd-grpc-codec on one thread.
use bd_client_stats_store::{Collector, Counter, CounterWrapper};
use bd_grpc_codec::{Compression, Decoder, Decompression, Encoder, OptimizeFor};
use bd_proto::protos::client::api::StatsUploadRequest;
use drv_kit::*;
use std::io::Write;

struct Stream {
  enc: Encoder<StatsUploadRequest>,
  dec: Decoder<StatsUploadRequest>,
  frames: Vec<Vec<u8>>,
  wire: Vec<u8>,
  fed: usize,
  attached: Option<[Counter; 4]>,
}

fn text(len: usize, kind: i64, salt: u64) -> String {
  let mut r = Rng(salt);
  (0 .. len).map(|i| if kind == 1 { b'a' + (i % 7) as u8 } else { 33 + r.below(90) as u8 } as char).collect()
}

fn zlib(d: &[u8]) -> Vec<u8> {
  let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(6));
  e.write_all(d).unwrap();
  e.finish().unwrap()
}

fn frame(flag: u8, body: &[u8]) -> Vec<u8> {
  let mut f = vec![flag];
  f.extend_from_slice(&(body.len() as u32).to_be_bytes());
  f.extend_from_slice(body);
  f
}

fn bad(how: &str, r: &mut Rng) -> Vec<u8> {
  match how {
    "garbage" => {
      let mut b: Vec<u8> = (0 .. 1 + r.below(300)).map(|_| r.next() as u8).collect();
      b[0] = 0xff;
      frame(1, &b)
    },
    // Breaks off in the middle: what came out so far must not reach another message.
    "crc" => {
      let mut z = zlib(&{ let mut m = vec![10, 120]; m.extend_from_slice(&[b'z'; 120]); m });
      let n = z.len();
      z[n - 1 - r.below(4) as usize] ^= 1 + r.below(255) as u8;
      frame(1, &z)
    },
    "block" => {
      let mut z = zlib(text(4000, 2, r.next()).as_bytes());
      z.truncate(z.len() / 2);
      z.extend_from_slice(&[0xff; 64]);
      let n = z.len();
      z[n / 3] ^= 0x10;
      // A stored block whose length and its complement differ ends it.
      let mut y = vec![0x78, 0x9c, 0, 10, 0, 0xf5, 0xff];
      y.extend_from_slice(b"0123456789");
      y.extend_from_slice(&[1, 5, 0, 5, 0]);
      frame(1, if r.below(2) == 0 { &y } else { &y[.. y.len()] })
    },
    "proto" => frame(0, &[10, 200, 1, 7]),
    "zproto" => frame(1, &zlib(&[10, 200, 1, 7])),
    o => panic!("{o}"),
  }
}

fn run(test: &Value, log: &Log) {
  let c = &test["cfg"];
  let col = Collector::default();
  let mut salt = seed();
  let mut streams: Vec<Stream> = arr(c, "enc")
    .iter()
    .enumerate()
    .map(|(i, e)| {
      let level = (i * 4 % 10) as u32;
      Stream {
        enc: Encoder::new(match e.as_str().unwrap() {
          "none" => None,
          "less" => Some(Compression::StatelessZlib { level }),
          _ => Some(Compression::StatefulZlib { level }),
        }),
        dec: Decoder::new(
          c["dec"][i].as_bool().unwrap().then(|| if e == "ful" { Decompression::StatefulZlib } else { Decompression::StatelessZlib }),
          if i % 2 == 0 { OptimizeFor::Cpu } else { OptimizeFor::Memory },
        ),
        frames: Vec::new(),
        wire: Vec::new(),
        fed: 0,
        attached: None,
      }
    })
    .collect();
  let init = n(c, "init") as usize;
  for (k, op) in arr(test, "ops").iter().enumerate() {
    let i = n(op, "st") as usize - 1;
    if k == init {
      for (i, s) in streams.iter_mut().enumerate() {
        let cs = [0, 1, 2, 3].map(|k| col.scope("t").counter(&format!("c{i}{k}")));
        s.enc.initialize_stats(CounterWrapper::make_dyn(cs[0].clone()), CounterWrapper::make_dyn(cs[1].clone()));
        s.dec.initialize_stats(CounterWrapper::make_dyn(cs[2].clone()), CounterWrapper::make_dyn(cs[3].clone()));
        s.attached = Some(cs);
      }
    }
    let s = &mut streams[i];
    let (e0, d0) = (s.enc.bandwidth_stats(), s.dec.bandwidth_stats());
    let mut got = Vec::new();
    let mut r = "ok".to_string();
    let (mut len, mut sq) = (0, false);
    match op["op"].as_str().unwrap() {
      "enc" => {
        salt += 1;
        let l = n(op, "len") as usize;
        let m = StatsUploadRequest { upload_uuid: text(l, n(op, "kind"), l as u64), ..Default::default() };
        let f = s.enc.encode(&m).to_vec();
        len = f.len();
        sq = f[0] == 1;
        if f[1 .. 5] != ((f.len() - 5) as u32).to_be_bytes() || f[0] > 1 {
          r = format!("prefix {:?}", &f[.. 5]);
        }
        s.wire.extend_from_slice(&f);
        s.frames.push(f);
      },
      "bad" => {
        salt += 1;
        let f = bad(&drv_kit::s(op, "how"), &mut Rng(salt));
        s.wire.extend_from_slice(&f);
        s.frames.push(f);
      },
      _ => {
        let (f, p) = (n(&op["to"], "f") as usize, n(&op["to"], "p") as usize);
        let mut end: usize = s.frames[.. f].iter().map(Vec::len).sum();
        if p > 0 {
          let b = s.frames[f].len() - 5;
          end += match p {
            0 ..= 5 => p,
            6 => 5 + b / 2,
            _ => 5 + b.saturating_sub(1),
          };
        }
        let end = end.max(s.fed);
        len = end - s.fed;
        match s.dec.decode_data(&s.wire[s.fed .. end]) {
          Ok(ms) => {
            for m in ms {
              let l = m.upload_uuid.len();
              got.push((1 ..= 2).find(|k| m.upload_uuid == text(l, *k, l as u64)).map_or_else(|| json!(m.upload_uuid), |k| json!([l, if l == 0 { 0 } else { k }])));
            }
          },
          Err(_) => r = "err".into(),
        }
        s.fed = end;
      },
    }
    let (e1, d1) = (s.enc.bandwidth_stats(), s.dec.bandwidth_stats());
    let d = if op["op"] == "feed" { [d1.0 - d0.0, d1.1 - d0.1] } else { [e1.0 - e0.0, e1.1 - e0.1] };
    let ctr = s.attached.as_ref().map_or(true, |c| [e1.0, e1.1, d1.0, d1.1] == [0, 1, 2, 3].map(|k: usize| c[k].get()));
    log.op(op, json!({"r": r, "sq": sq, "n": len, "d": d, "got": got, "ctr": ctr}));
  }
}

fn main() {
  drv_kit::main(run);
}
