//! Workflow configurations from their JSON form.
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value as RtValue};
use bd_proto::protos::client::runtime::Runtime;
use bd_proto::protos::log_matcher::log_matcher::log_matcher::base_log_matcher::{Match_type, MessageMatch, Operator, StringValueMatch};
use bd_proto::protos::log_matcher::log_matcher::log_matcher::{BaseLogMatcher, Matcher, MatcherList};
use bd_proto::protos::log_matcher::log_matcher::LogMatcher;
use bd_proto::protos::workflow::workflow::workflow::action::action_emit_metric::{Metric_type, Value_extractor_type};
use bd_proto::protos::workflow::workflow::workflow::action::action_flush_buffers::streaming::termination_criterion::{LogsCount, Type};
use bd_proto::protos::workflow::workflow::workflow::action::action_flush_buffers::streaming::TerminationCriterion;
use bd_proto::protos::workflow::workflow::workflow::action::action_flush_buffers::Streaming;
use bd_proto::protos::workflow::workflow::workflow::action::tag::Tag_type;
use bd_proto::protos::workflow::workflow::workflow::action::{
  ActionEmitMetric, ActionEmitSankeyDiagram, ActionFlushBuffers, ActionTakeScreenshot, Action_type, Tag,
};
use bd_proto::protos::workflow::workflow::workflow::execution::Execution_type;
use bd_proto::protos::workflow::workflow::workflow::field_extracted::Extraction_type;
use bd_proto::protos::workflow::workflow::workflow::rule::Rule_type;
use bd_proto::protos::workflow::workflow::workflow::transition_extension::sankey_diagram_value_extraction::Value_type;
use bd_proto::protos::workflow::workflow::workflow::transition_extension::{Extension_type, SankeyDiagramValueExtraction};
use bd_proto::protos::workflow::workflow::workflow::{
  Action, Execution, FieldExtracted, LimitDuration, LimitMatchedLogsCount, Rule, RuleLogMatch, RuleTimeout, State, Transition, TransitionExtension,
};
use bd_proto::protos::workflow::workflow::{Workflow, WorkflowsConfiguration};
use drv_kit::*;

pub fn text(v: &Value) -> Vec<String> {
  v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
}

fn message(m: &str) -> LogMatcher {
  LogMatcher {
    matcher: Some(Matcher::BaseMatcher(BaseLogMatcher {
      match_type: Some(Match_type::MessageMatch(MessageMatch {
        string_value_match: Some(StringValueMatch { operator: Operator::OPERATOR_EQUALS.into(), match_value: m.to_string(), ..Default::default() }).into(),
        ..Default::default()
      })),
      ..Default::default()
    })),
    ..Default::default()
  }
}

pub fn any_of(ms: &[String]) -> LogMatcher {
  if ms.len() == 1 {
    return message(&ms[0]);
  }
  LogMatcher {
    matcher: Some(Matcher::OrMatcher(MatcherList { log_matchers: ms.iter().map(|m| message(m)).collect(), ..Default::default() })),
    ..Default::default()
  }
}

fn extracted(field: &str) -> FieldExtracted {
  FieldExtracted { field_name: field.to_string(), extraction_type: Some(Extraction_type::Exact(Default::default())), ..Default::default() }
}

/// Tags: "name" => "value", or "$field" for what the field says.
fn tags(v: &Value) -> Vec<Tag> {
  v.as_array().map_or(vec![], |a| {
    a.iter()
      .map(|t| Tag {
        name: t[0].as_str().unwrap().to_string(),
        tag_type: Some(match t[1].as_str().unwrap().strip_prefix('$') {
          Some(f) => Tag_type::FieldExtracted(extracted(f)),
          None => Tag_type::FixedValue(t[1].as_str().unwrap().to_string()),
        }),
        ..Default::default()
      })
      .collect()
  })
}

fn action(a: &Value) -> Action {
  let id = s(a, "id");
  Action {
    action_type: Some(match s(a, "k").as_str() {
      "m" => Action_type::ActionEmitMetric(ActionEmitMetric {
        id,
        tags: tags(&a["tags"]),
        metric_type: Some(if b(a, "hist") { Metric_type::Histogram(Default::default()) } else { Metric_type::Counter(Default::default()) }),
        value_extractor_type: Some(match a["v"].as_str() {
          Some(f) => Value_extractor_type::FieldExtracted(extracted(f)),
          None => Value_extractor_type::Fixed(a["v"].as_u64().unwrap_or(1) as u32),
        }),
        ..Default::default()
      }),
      "f" => Action_type::ActionFlushBuffers(ActionFlushBuffers {
        id,
        buffer_ids: text(&a["bufs"]),
        streaming: if a["dest"].is_array() {
          Some(Streaming {
            destination_streaming_buffer_ids: text(&a["dest"]),
            termination_criteria: arr(a, "max")
              .iter()
              .map(|m| TerminationCriterion {
                type_: Some(Type::LogsCount(LogsCount { max_logs_count: m.as_u64().unwrap(), ..Default::default() })),
                ..Default::default()
              })
              .collect(),
            ..Default::default()
          })
          .into()
        } else {
          None.into()
        },
        ..Default::default()
      }),
      "k" => Action_type::ActionEmitSankeyDiagram(ActionEmitSankeyDiagram { id, limit: n(a, "limit") as u32, tags: tags(&a["tags"]), ..Default::default() }),
      _ => Action_type::ActionTakeScreenshot(ActionTakeScreenshot { id, ..Default::default() }),
    }),
    ..Default::default()
  }
}

fn transition(t: &Value) -> Transition {
  Transition {
    target_state_id: n(t, "to").to_string(),
    rule: Some(Rule {
      rule_type: Some(if n(t, "n") < 0 {
        Rule_type::RuleTimeout(RuleTimeout { duration_ms: 1, ..Default::default() })
      } else {
        Rule_type::RuleLogMatch(RuleLogMatch { log_matcher: Some(any_of(&text(&t["m"]))).into(), count: n(t, "n") as u32, ..Default::default() })
      }),
      ..Default::default()
    })
    .into(),
    actions: arr(t, "acts").iter().map(action).collect(),
    extensions: arr(t, "ext")
      .iter()
      .map(|e| TransitionExtension {
        extension_type: Some(Extension_type::SankeyDiagramValueExtraction(SankeyDiagramValueExtraction {
          sankey_diagram_id: s(e, "id"),
          counts_toward_sankey_extraction_limit: b(e, "counts"),
          value_type: Some(match s(e, "v").strip_prefix('$') {
            Some(f) => Value_type::FieldExtracted(extracted(f)),
            None => Value_type::Fixed(s(e, "v")),
          }),
          ..Default::default()
        })),
        ..Default::default()
      })
      .collect(),
    ..Default::default()
  }
}

pub fn workflow(d: &Value) -> Workflow {
  Workflow {
    id: s(d, "id"),
    execution: Some(Execution {
      execution_type: Some(if b(d, "excl") { Execution_type::ExecutionExclusive(Default::default()) } else { Execution_type::ExecutionParallel(Default::default()) }),
      ..Default::default()
    })
    .into(),
    limit_matched_logs_count: (n(d, "lim") > 0).then(|| LimitMatchedLogsCount { count: n(d, "lim") as u32, ..Default::default() }).into(),
    limit_duration: (n(d, "dur") > 0).then(|| LimitDuration { duration_ms: n(d, "dur") as u64 * 1000, ..Default::default() }).into(),
    states: arr(d, "st")
      .iter()
      .enumerate()
      .map(|(i, ts)| State { id: (i + 1).to_string(), transitions: ts.as_array().unwrap().iter().map(transition).collect(), ..Default::default() })
      .collect(),
    ..Default::default()
  }
}

pub fn workflows(ds: &[&Value]) -> WorkflowsConfiguration {
  WorkflowsConfiguration { workflows: ds.iter().map(|d| workflow(d)).collect(), ..Default::default() }
}

pub fn runtime(vs: &[(&str, u32)]) -> RuntimeUpdate {
  RuntimeUpdate {
    version_nonce: "v".to_string(),
    runtime: Some(Runtime {
      values: vs
        .iter()
        .map(|(k, v)| ((*k).to_string(), RtValue { type_: Some(value::Type::UintValue(*v)), ..Default::default() }))
        .collect(),
      ..Default::default()
    })
    .into(),
    ..Default::default()
  }
}
