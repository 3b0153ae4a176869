use bd_server_stats::stats::{
  AutoGauge, Collector, CounterWrapper, GatherMetrics, LabeledCounter, LabeledGauge, LabeledHistogram, LateInitializedCounter, LateInitializedGauge,
  LateInitializedHistogram, Scope, StackAutoGauge,
};
use drv_kit::{arr, b, json, n, s, Log, Value};
use prometheus::proto::{MetricFamily, MetricType};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Barrier};

enum Vecs {
  C(LabeledCounter),
  G(LabeledGauge),
  H(LabeledHistogram),
}
enum Late {
  C(LateInitializedCounter),
  G(LateInitializedGauge),
  H(LateInitializedHistogram),
}

struct Chained(Collector);
impl GatherMetrics for Chained {
  fn gather(&self) -> Vec<MetricFamily> {
    self.0.gather()
  }
}

fn leak(v: &str) -> &'static str {
  Box::leak(v.to_string().into_boxed_str())
}
fn labels(v: &Value) -> HashMap<String, String> {
  v.as_array().map_or_else(HashMap::new, |a| a.iter().map(|p| (p[0].as_str().unwrap().into(), p[1].as_str().unwrap().into())).collect())
}
fn scope(c: &Collector, op: &Value) -> Scope {
  let mut sc = c.scope(&s(op, "root"));
  for st in arr(op, "chain") {
    let l = labels(&st["labels"]);
    sc = if l.is_empty() { sc.scope(&s(st, "n")) } else { sc.scope_with_labels(&s(st, "n"), l) };
  }
  sc
}
fn strs(op: &Value, k: &str) -> Vec<String> {
  arr(op, k).iter().map(|v| v.as_str().unwrap().to_string()).collect()
}

fn row(name: &str, labels: Vec<(String, String)>, kind: &str, v: f64, n: u64) -> Value {
  let name: Vec<&str> = name.split(':').collect();
  json!({"name": name, "labels": labels, "kind": kind, "v": v as i64, "n": n})
}

fn rows(fams: &[MetricFamily]) -> Vec<Value> {
  let mut out = vec![];
  for f in fams {
    for m in f.get_metric() {
      let l = m.get_label().iter().map(|l| (l.get_name().to_string(), l.get_value().to_string())).collect();
      out.push(match f.get_field_type() {
        MetricType::COUNTER => row(f.get_name(), l, "counter", m.get_counter().get_value(), 0),
        MetricType::GAUGE => row(f.get_name(), l, "gauge", m.get_gauge().get_value(), 0),
        _ => row(f.get_name(), l, "hist", m.get_histogram().get_sample_sum(), m.get_histogram().get_sample_count()),
      });
    }
  }
  out
}

/// The text form, parsed back into the same rows.
fn text_rows(text: &str) -> Vec<Value> {
  let mut out: Vec<Value> = vec![];
  let mut kinds: HashMap<String, String> = HashMap::new();
  let mut sums: BTreeMap<(String, Vec<(String, String)>), (f64, u64)> = BTreeMap::new();
  for line in text.lines() {
    if let Some(t) = line.strip_prefix("# TYPE ") {
      let (n, k) = t.split_once(' ').unwrap();
      kinds.insert(n.into(), k.into());
      continue;
    }
    if line.starts_with('#') || line.is_empty() {
      continue;
    }
    let (id, v) = line.rsplit_once(' ').unwrap();
    let (name, l) = id.split_once('{').map_or((id, ""), |(a, b)| (a, b.trim_end_matches('}')));
    let l: Vec<(String, String)> = l
      .split(',')
      .filter(|x| !x.is_empty())
      .map(|x| x.split_once('=').map(|(a, b)| (a.to_string(), b.trim_matches('"').to_string())).unwrap())
      .collect();
    let v: f64 = v.parse().unwrap();
    match kinds.get(name).map(String::as_str) {
      Some(k) => out.push(row(name, l, k, v, 0)),
      None => {
        if let Some(b) = name.strip_suffix("_sum") {
          sums.entry((b.into(), l)).or_default().0 = v;
        } else if let Some(b) = name.strip_suffix("_count") {
          sums.entry((b.into(), l)).or_default().1 = v as u64;
        }
      },
    }
  }
  for ((name, l), (sum, count)) in sums {
    out.push(row(&name, l, "hist", sum, count));
  }
  out
}

pub fn test(test: &Value, log: &Log) {
  let cs: Vec<Collector> = (0 .. 2)
    .map(|_| if b(&test["cfg"], "dflt") { Collector::default() } else { Collector::new_with_label_limit(n(&test["cfg"], "limit") as u64) })
    .collect();
  let mut vecs: BTreeMap<i64, Vecs> = BTreeMap::new();
  let mut lates: BTreeMap<i64, Late> = BTreeMap::new();
  let mut autos: BTreeMap<i64, AutoGauge> = BTreeMap::new();
  for op in arr(test, "ops") {
    let c = &cs[n(op, "c") as usize];
    let name = s(op, "name");
    let mut res = json!(0);
    match s(op, "op").as_str() {
      "counter" => {
        let l = labels(&op["labels"]);
        let sc = scope(c, op);
        let m = if l.is_empty() { sc.counter(&name) } else { sc.counter_with_labels(&name, l) };
        if b(op, "dynamic") {
          CounterWrapper::make_dyn(m).inc_by(n(op, "v") as u64);
        } else {
          m.inc_by(n(op, "v") as u64);
        }
      },
      "gauge" => scope(c, op).gauge(&name).add(n(op, "v")),
      "set" => scope(c, op).gauge(&name).set(n(op, "v")),
      "hist" => {
        let sc = scope(c, op);
        let m = if b(op, "buckets") { sc.histogram_with_buckets(&name, &[1.0, 5.0]) } else { sc.histogram(&name) };
        m.observe(n(op, "v") as f64);
      },
      "auto" => {
        autos.insert(n(op, "id"), AutoGauge::new(scope(c, op).gauge(&name)));
      },
      "unauto" => drop(autos.remove(&n(op, "id"))),
      "stack" => {
        let g = scope(c, op).gauge(&name);
        let inside = {
          let _a = StackAutoGauge::new(&g);
          let _b = StackAutoGauge::new(&g);
          g.get()
        };
        res = json!([inside, g.get()]);
      },
      "vec" => {
        let ln: Vec<&'static str> = strs(op, "names").iter().map(|x| leak(x)).collect();
        let builder = scope(c, op).labeled_metric_builder(&ln);
        vecs.insert(
          n(op, "id"),
          match s(op, "kind").as_str() {
            "counter" => Vecs::C(builder.build_counter(&name)),
            "gauge" => Vecs::G(builder.build_gauge(&name)),
            _ if b(op, "buckets") => Vecs::H(builder.build_histogram_with_buckets(&name, &[1.0, 5.0])),
            _ => Vecs::H(builder.build_histogram(&name)),
          },
        );
      },
      "late" => {
        let l = match &vecs[&n(op, "vec")] {
          Vecs::C(v) => Late::C(v.new_metric()),
          Vecs::G(v) => Late::G(v.new_metric()),
          Vecs::H(v) => Late::H(v.new_metric()),
        };
        lates.insert(n(op, "id"), l);
      },
      "use" => {
        let vals = strs(op, "values");
        let refs: Vec<&str> = vals.iter().map(String::as_str).collect();
        let v = n(op, "v");
        let single = vals.len() == 1 && v % 2 == 0;
        let p: &dyn bd_server_stats::stats::LabelProvider = if single { &vals[0] } else { &refs };
        match lates.get_mut(&n(op, "id")).unwrap() {
          Late::C(m) => m.get(p).inc_by(v as u64),
          Late::G(m) => m.get(p).add(v),
          Late::H(m) => m.get(p).observe(v as f64),
        }
      },
      "gather" => res = json!(rows(&c.gather())),
      "text" => res = json!(text_rows(&String::from_utf8(c.prometheus_output()).unwrap())),
      "cb" => {
        let m = scope(c, op).counter(&name);
        let v = n(op, "v") as u64;
        c.add_gather_callback(move || m.inc_by(v));
      },
      "chain" => c.chain(Arc::new(Chained(cs[1].clone()))),
      "storm" => {
        // Every thread asks for its own metrics and increments them once each; a reader gathers meanwhile.
        let threads = arr(op, "threads");
        let barrier = Barrier::new(threads.len());
        std::thread::scope(|sc| {
          for t in threads {
            let (barrier, v) = (&barrier, &vecs[&n(op, "vec")]);
            let base = scope(c, op);
            sc.spawn(move || {
              barrier.wait();
              for vals in t.as_array().unwrap() {
                base.counter("shared").inc();
                let vals: Vec<&str> = vals.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
                if let Vecs::C(v) = v {
                  let mut m: LateInitializedCounter = v.new_metric();
                  m.get(&vals).inc();
                }
                let g = base.gauge("inflight");
                let _a = StackAutoGauge::new(&g);
              }
            });
          }
          for _ in 0 .. 3 {
            let _ = c.gather();
          }
        });
        res = json!(rows(&c.gather()));
      },
      _ => {},
    }
    log.op(op, res);
  }
}
