//! Log matchers of both dialects and the buffer selector (C29), log filters (C30).
use bd_log_primitives::{FieldsRef, Log as BdLog, LogField, LogFields, LogMessage, LogType, StringOrBytes};
use bd_proto::protos::config::v1::config as c2;
use bd_proto::protos::filter::filter as pf;
use bd_proto::protos::log_matcher::log_matcher as c1;
use drv_kit::*;
use protobuf::EnumOrUnknown;

fn main() {
  match std::env::args().nth(3).as_deref() {
    Some("match") => drv_kit::main(match_test),
    Some("filter") => drv_kit::main(filter_test),
    m => panic!("mode {m:?}"),
  }
}

// "~" stands for a character of two bytes.
fn text(v: &Value) -> String {
  v.as_array().unwrap().iter().map(|c| c.as_str().unwrap().replace('~', "é")).collect()
}
fn chars(t: &str) -> Value {
  json!(t.replace('é', "~").chars().map(|c| c.to_string()).collect::<Vec<_>>())
}
fn value(f: &Value) -> StringOrBytes<String, Vec<u8>> {
  let t = text(&f["v"]);
  if b(f, "b") { StringOrBytes::Bytes(t.into_bytes()) } else { StringOrBytes::String(t) }
}
fn field(f: &Value) -> LogField {
  LogField { key: s(f, "key"), value: value(f) }
}
fn shown(f: &LogField) -> Value {
  match &f.value {
    StringOrBytes::String(t) => json!({"key": f.key, "b": false, "v": chars(t)}),
    StringOrBytes::Bytes(d) => json!({"key": f.key, "b": true, "v": chars(std::str::from_utf8(d).unwrap())}),
  }
}
fn u(n: i64) -> u32 {
  if n < 0 { u32::MAX } else { n as u32 }
}

struct Entry {
  lv: u32,
  ty: u32,
  msg: LogMessage,
  cap: LogFields,
  mat: LogFields,
}
impl Entry {
  fn new() -> Self {
    Self { lv: 2, ty: 0, msg: "a".into(), cap: vec![], mat: vec![] }
  }
  fn set(&mut self, op: &Value) -> bool {
    match op["op"].as_str().unwrap() {
      "field" if op["w"] == "cap" => self.cap.push(field(&op["f"])),
      "field" => self.mat.push(field(&op["f"])),
      "msg" => self.msg = value(&op["f"]),
      "lv" => self.lv = u(n(op, "n")),
      "ty" => self.ty = u(n(op, "n")),
      "fresh" => *self = Self::new(),
      _ => return false,
    }
    true
  }
}

fn leaf1(l: &Value) -> c1::log_matcher::BaseLogMatcher {
  use c1::log_matcher::base_log_matcher::*;
  let op: EnumOrUnknown<Operator> = EnumOrUnknown::from_i32(n(l, "op") as i32);
  let v = text(&l["v"]);
  let tag = |m| Some(Match_type::TagMatch(TagMatch { tag_key: s(l, "key"), value_match: m, ..Default::default() }));
  c1::log_matcher::BaseLogMatcher {
    match_type: match l["k"].as_str().unwrap() {
      "none" => None,
      "noval" => tag(None),
      "set" => tag(Some(tag_match::Value_match::IsSetMatch(IsSetMatch::default()))),
      "int" => tag(Some(tag_match::Value_match::IntValueMatch(IntValueMatch { operator: op, match_value: n(l, "n") as i32, ..Default::default() }))),
      "str" => tag(Some(tag_match::Value_match::StringValueMatch(StringValueMatch { operator: op, match_value: v, ..Default::default() }))),
      "ver" => tag(Some(tag_match::Value_match::SemVerValueMatch(SemVerValueMatch { operator: op, match_value: v, ..Default::default() }))),
      "msg" => Some(Match_type::MessageMatch(MessageMatch {
        string_value_match: Some(StringValueMatch { operator: op, match_value: v, ..Default::default() }).into(),
        ..Default::default()
      })),
      k => panic!("{k}"),
    },
    ..Default::default()
  }
}
fn tree1(t: &Value) -> c1::LogMatcher {
  use c1::log_matcher::*;
  let list = || MatcherList { log_matchers: arr(t, "kids").iter().map(tree1).collect(), ..Default::default() };
  c1::LogMatcher {
    matcher: match t["t"].as_str().unwrap() {
      "missing" => None,
      "base" => Some(Matcher::BaseMatcher(leaf1(&t["leaf"]))),
      "or" => Some(Matcher::OrMatcher(list())),
      "and" => Some(Matcher::AndMatcher(list())),
      "not" => Some(Matcher::NotMatcher(Box::new(tree1(&t["kids"][0])))),
      k => panic!("{k}"),
    },
    ..Default::default()
  }
}
fn leaf2(l: &Value) -> c2::log_matcher::BaseLogMatcher {
  use c2::log_matcher::base_log_matcher::*;
  let op = n(l, "op") as i32;
  let v = text(&l["v"]);
  c2::log_matcher::BaseLogMatcher {
    match_type: match l["k"].as_str().unwrap() {
      "none" => None,
      "any" => Some(Match_type::AnyMatch(AnyMatch::default())),
      "ty" => Some(Match_type::TypeMatch(TypeMatch { type_: n(l, "n") as u32, ..Default::default() })),
      "lv" => Some(Match_type::LogLevelMatch(LogLevelMatch {
        operator: EnumOrUnknown::from_i32(op),
        log_level: EnumOrUnknown::from_i32(n(l, "n") as i32),
        ..Default::default()
      })),
      "msg" => Some(Match_type::MessageMatch(MessageMatch { match_type: EnumOrUnknown::from_i32(op), match_value: v, ..Default::default() })),
      "tag" => Some(Match_type::TagMatch(TagMatch { match_type: EnumOrUnknown::from_i32(op), tag_key: s(l, "key"), match_value: v, ..Default::default() })),
      k => panic!("{k}"),
    },
    ..Default::default()
  }
}
fn tree2(t: &Value) -> c2::LogMatcher {
  use c2::log_matcher::*;
  let list = || MatcherList { matcher: arr(t, "kids").iter().map(tree2).collect(), ..Default::default() };
  c2::LogMatcher {
    match_type: match t["t"].as_str().unwrap() {
      "missing" => None,
      "base" => Some(Match_type::BaseMatcher(leaf2(&t["leaf"]))),
      "or" => Some(Match_type::OrMatcher(list())),
      "and" => Some(Match_type::AndMatcher(list())),
      "not" => Some(Match_type::NotMatcher(Box::new(tree2(&t["kids"][0])))),
      k => panic!("{k}"),
    },
    ..Default::default()
  }
}

fn match_test(test: &Value, log: &Log) {
  let d = n(&test["cfg"], "d");
  let mut st: Vec<Value> = vec![];
  let mut e = Entry::new();
  for op in arr(test, "ops") {
    let mut res = json!("ok");
    match op["op"].as_str().unwrap() {
      _ if e.set(op) => {},
      "leaf" => st.push(json!({"t": "base", "leaf": op["leaf"]})),
      "missing" => st.push(json!({"t": "missing"})),
      k @ ("and" | "or" | "not") => {
        let kids = st.split_off(st.len() - n(op, "n") as usize);
        st.push(json!({"t": k, "kids": kids}));
      },
      "drop" => {
        st.pop();
      },
      "match" => {
        let f = FieldsRef::new(&e.cap, &e.mat);
        let t = st.last().unwrap();
        let yes = |b| if b { "yes" } else { "no" };
        res = json!(if d == 1 {
          bd_log_matcher::matcher::Tree::new(&tree1(t)).map_or("invalid", |m| yes(m.do_match(e.lv, LogType(e.ty), &e.msg, &f)))
        } else {
          bd_matcher::matcher::Tree::new(&tree2(t)).map_or("invalid", |m| yes(m.do_match(LogType(e.ty), e.lv, &e.msg, &f)))
        });
      },
      "select" => {
        let mut buffers: Vec<c2::BufferConfig> = vec![];
        for name in ["1", "2"] {
          buffers.push(c2::BufferConfig { id: name.into(), ..Default::default() });
        }
        for (i, t) in st.iter().enumerate() {
          buffers[i % 2].filters.push(c2::buffer_config::BufferFilter { id: i.to_string(), filter: Some(tree2(t)).into(), ..Default::default() });
          // One without a matcher in between changes nothing.
          buffers[i % 2].filters.push(c2::buffer_config::BufferFilter::default());
        }
        let config = c2::BufferConfigList { buffer_config: buffers, ..Default::default() };
        res = match bd_matcher::buffer_selector::BufferSelector::new(&config) {
          Err(_) => json!("invalid"),
          Ok(sel) => {
            let f = FieldsRef::new(&e.cap, &e.mat);
            json!(sel.buffers(LogType(e.ty), e.lv, &e.msg, &f).iter().map(|x| x.to_string()).collect::<String>())
          },
        };
      },
      o => panic!("{o}"),
    }
    log.op(op, res);
  }
}

fn transform(t: &Value) -> pf::filter::Transform {
  use pf::filter::transform::set_field::{set_field_value, SetFieldValue};
  use pf::filter::transform::*;
  let name = s(t, "name");
  let set = |value: Option<set_field_value::Value>| {
    Transform_type::SetField(SetField {
      name: name.clone(),
      value: Some(SetFieldValue { value, ..Default::default() }).into(),
      field_type: EnumOrUnknown::from_i32(n(t, "ft") as i32),
      allow_override: b(t, "ov"),
      ..Default::default()
    })
  };
  pf::filter::Transform {
    transform_type: match t["k"].as_str().unwrap() {
      "none" => None,
      "noval" => Some(set(None)),
      "cap" => Some(Transform_type::CaptureField(CaptureField { name: name.clone(), ..Default::default() })),
      "rm" => Some(Transform_type::RemoveField(RemoveField { name: name.clone(), ..Default::default() })),
      "set" => Some(set(Some(set_field_value::Value::StringValue(text(&t["v"]))))),
      "copy" => Some(set(Some(set_field_value::Value::ExistingField(set_field_value::ExistingField { name: s(t, "from"), ..Default::default() })))),
      "sub" => Some(Transform_type::RegexMatchAndSubstituteField(RegexMatchAndSubstituteField {
        name: name.clone(),
        pattern: text(&t["pat"]),
        substitution: text(&t["rep"]),
        ..Default::default()
      })),
      k => panic!("{k}"),
    },
    ..Default::default()
  }
}

fn filter_test(test: &Value, log: &Log) {
  let mut fl: Vec<pf::Filter> = vec![];
  let mut e = Entry::new();
  for op in arr(test, "ops") {
    let mut res = json!("ok");
    match op["op"].as_str().unwrap() {
      _ if e.set(op) => {},
      "clear" => fl.clear(),
      "filter" => fl.push(pf::Filter {
        matcher: if op["m"]["t"] == "missing" { None.into() } else { Some(tree1(&op["m"])).into() },
        transforms: arr(op, "tf").iter().map(transform).collect(),
        ..Default::default()
      }),
      "process" => {
        let (chain, failed) = bd_log_filter::FilterChain::new(pf::FiltersConfiguration { filters: fl.clone(), ..Default::default() });
        let mut l = BdLog {
          log_level: e.lv,
          log_type: LogType(e.ty),
          message: e.msg.clone(),
          fields: e.cap.clone(),
          matching_fields: e.mat.clone(),
          session_id: "s".into(),
          occurred_at: time::OffsetDateTime::UNIX_EPOCH,
        };
        chain.process(&mut l);
        assert_eq!((l.session_id.as_str(), l.occurred_at), ("s", time::OffsetDateTime::UNIX_EPOCH));
        e = Entry { lv: l.log_level, ty: l.log_type.0, msg: l.message, cap: l.fields, mat: l.matching_fields };
        let m = shown(&LogField { key: String::new(), value: e.msg.clone() });
        res = json!({"failed": failed, "log": {
          "lv": e.lv, "ty": e.ty, "msg": {"b": m["b"], "v": m["v"]},
          "cap": e.cap.iter().map(shown).collect::<Vec<_>>(), "mat": e.mat.iter().map(shown).collect::<Vec<_>>(),
        }});
      },
      o => panic!("{o}"),
    }
    log.op(op, res);
  }
}
