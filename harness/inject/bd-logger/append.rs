
/// Access for the verification drivers (appended to a copy of this crate).
#[doc(hidden)]
pub mod verif {
  use std::sync::Arc;

  pub struct AppVersions(crate::app_version::Repository);
  impl AppVersions {
    pub fn new(store: Arc<bd_key_value::Store>) -> Self {
      Self(crate::app_version::Repository::new(store))
    }
    pub fn has_changed(&self, v: String, e: crate::AppVersionExtra) -> bool {
      self.0.has_changed(&crate::app_version::AppVersion { app_version: v, app_version_extra: e })
    }
    pub fn set(&self, v: String, e: crate::AppVersionExtra) -> Option<(String, crate::AppVersionExtra)> {
      self
        .0
        .set(&crate::app_version::AppVersion { app_version: v, app_version_extra: e })
        .map(|p| (p.app_version, p.app_version_extra))
    }
  }

  pub struct Metadata(crate::metadata::MetadataCollector);
  impl Metadata {
    pub fn new(p: Arc<dyn crate::MetadataProvider + Send + Sync>) -> Self {
      Self(crate::metadata::MetadataCollector::new(p))
    }
    pub fn collect(
      &self,
      fields: bd_log_metadata::AnnotatedLogFields,
      matching: bd_log_metadata::AnnotatedLogFields,
      log_type: crate::LogType,
    ) -> anyhow::Result<crate::LogMetadata> {
      self.0.normalized_metadata_with_extra_fields(fields, matching, log_type)
    }
    pub fn add(&mut self, f: bd_log_primitives::LogField) -> anyhow::Result<()> {
      self.0.add_field(f)
    }
    pub fn remove(&mut self, k: &str) {
      self.0.remove_field(k);
    }
  }

  pub use crate::memory_bound::{channel, MemorySized, Receiver, Sender, TrySendError};
  pub use crate::pre_config_buffer::{Error as PreError, PreConfigBuffer};
  pub struct SendCounters(crate::memory_bound::SendCounters);
  impl SendCounters {
    pub fn new(scope: &bd_client_stats_store::Scope, name: &str) -> Self {
      Self(crate::memory_bound::SendCounters::new(scope, name))
    }
    pub fn record<T: MemorySized>(&self, r: &Result<(), TrySendError<T>>) {
      self.0.record(r);
    }
  }
  pub struct PushCounters(crate::pre_config_buffer::PushCounters);
  impl PushCounters {
    pub fn new(scope: &bd_client_stats_store::Scope) -> Self {
      Self(crate::pre_config_buffer::PushCounters::new(scope))
    }
    pub fn record(&self, r: &Result<(), PreError>) {
      self.0.record(r);
    }
  }

  #[derive(Clone)]
  pub struct UploadService(crate::service::Upload);
  impl UploadService {
    pub fn new(
      tx: tokio::sync::mpsc::Sender<bd_api::DataUpload>,
      shutdown: bd_shutdown::ComponentShutdown,
      loader: &bd_runtime::runtime::ConfigLoader,
      scope: &bd_client_stats_store::Scope,
    ) -> Self {
      Self(crate::service::new(tx, shutdown, loader, scope).unwrap())
    }
    pub async fn upload(mut self, logs: Vec<Vec<u8>>, buffer_id: String) -> String {
      use tower::{Service as _, ServiceExt as _};
      let r = self
        .0
        .ready()
        .await
        .unwrap()
        .call(crate::service::UploadRequest::new(bd_api::upload::LogBatch { logs, buffer_id }))
        .await
        .unwrap();
      format!("{r:?}")
    }
  }

  pub fn buffer_uploads(
    tx: tokio::sync::mpsc::Sender<bd_api::DataUpload>,
    loader: &Arc<bd_runtime::runtime::ConfigLoader>,
    shutdown: bd_shutdown::ComponentShutdown,
    events: tokio::sync::mpsc::Receiver<bd_buffer::BufferEventWithResponse>,
    triggers: tokio::sync::mpsc::Receiver<bd_api::TriggerUpload>,
    scope: &bd_client_stats_store::Scope,
    logging: Arc<dyn bd_internal_logging::Logger>,
  ) -> impl std::future::Future<Output = anyhow::Result<()>> {
    crate::consumer::BufferUploadManager::new(tx, loader, shutdown, events, triggers, scope, logging).unwrap().run()
  }

  /// The interceptors that add summaries to logs, in the order the logger applies them.
  pub struct Interceptors {
    clock: Arc<Clock>,
    chain: Vec<Arc<dyn bd_log_primitives::LogInterceptor>>,
  }
  struct Clock(parking_lot::Mutex<std::time::Instant>);
  impl crate::network::TimeProvider for Clock {
    fn now(&self) -> std::time::Instant {
      *self.0.lock()
    }
  }
  impl Interceptors {
    pub fn new(
      quality: Arc<dyn bd_network_quality::NetworkQualityProvider>,
      loader: &bd_runtime::runtime::ConfigLoader,
    ) -> Self {
      let clock = Arc::new(Clock(parking_lot::Mutex::new(std::time::Instant::now())));
      Self {
        chain: vec![
          Arc::new(crate::internal_report::Reporter::new(loader)),
          Arc::new(crate::network::HTTPTrafficDataUsageTracker::new(clock.clone(), quality.clone())),
          Arc::new(crate::network::NetworkQualityInterceptor::new(quality)),
        ],
        clock,
      }
    }
    pub fn advance(&self, s: u64) {
      *self.clock.0.lock() += std::time::Duration::from_secs(s);
    }
    pub fn process(
      &self,
      level: crate::LogLevel,
      log_type: crate::LogType,
      msg: &crate::LogMessage,
      fields: &mut bd_log_metadata::AnnotatedLogFields,
    ) {
      for i in &self.chain {
        i.process(level, log_type, msg, fields);
      }
    }
  }

  /// The way of a log from the application to the buffers, with the driver at its ends.
  pub struct Pipe {
    buffer: crate::async_log_buffer::AsyncLogBuffer<crate::log_replay::LoggerReplay>,
  }
  #[derive(Clone)]
  pub struct PipeHandle {
    tx: crate::memory_bound::Sender<crate::async_log_buffer::AsyncLogBufferMessage>,
    conf: tokio::sync::mpsc::Sender<crate::logging_state::ConfigUpdate>,
  }
  pub struct PipeConfig {
    /// Name, whether it is a continuous one, where it writes to.
    pub buffers: Vec<(String, bool, bd_buffer::Producer)>,
    pub selector: bd_proto::protos::config::v1::config::BufferConfigList,
    pub workflows: bd_proto::protos::workflow::workflow::WorkflowsConfiguration,
    pub tail: bd_proto::protos::bdtail::bdtail_config::BdTailConfigurations,
    pub tail_producer: bd_buffer::Producer,
    pub filters: bd_proto::protos::filter::filter::FiltersConfiguration,
  }
  pub struct PipeEnds {
    pub stats: bd_client_stats_store::Scope,
    pub dynamic: Arc<bd_client_stats::DynamicStats>,
    pub triggers: tokio::sync::mpsc::Sender<bd_api::TriggerUpload>,
    pub uploads: tokio::sync::mpsc::Sender<bd_api::DataUpload>,
    pub flushes: tokio::sync::mpsc::Sender<bd_buffer::BuffersWithAck>,
    pub stats_flush: Option<bd_client_stats::FlushTrigger>,
  }
  struct Nothing;
  impl crate::ResourceUtilizationTarget for Nothing {
    fn tick(&self) {}
  }
  impl crate::SessionReplayTarget for Nothing {
    fn capture_screen(&self) {}
    fn capture_screenshot(&self) {}
  }
  impl crate::EventsListenerTarget for Nothing {
    fn start(&self) {}
    fn stop(&self) {}
  }
  impl Pipe {
    pub fn new(
      dir: &std::path::Path,
      loader: &Arc<bd_runtime::runtime::ConfigLoader>,
      ends: PipeEnds,
      (count, size): (usize, usize),
      session: Arc<bd_session::Strategy>,
      metadata: Arc<dyn crate::MetadataProvider + Send + Sync>,
      shutdown: bd_shutdown::ComponentShutdownTriggerHandle,
      quality: Arc<dyn bd_network_quality::NetworkQualityProvider>,
    ) -> (Self, PipeHandle) {
      let (conf, conf_rx) = tokio::sync::mpsc::channel(1);
      let (buffer, tx) = crate::async_log_buffer::AsyncLogBuffer::new(
        crate::logging_state::UninitializedLoggingContext::new(
          dir, loader, ends.stats, ends.dynamic, ends.triggers, ends.uploads, ends.flushes, ends.stats_flush, count, size,
        ),
        crate::log_replay::LoggerReplay {},
        session,
        metadata,
        Box::new(Nothing),
        Box::new(Nothing),
        Box::new(Nothing),
        conf_rx,
        shutdown,
        loader,
        quality,
      );
      (Self { buffer }, PipeHandle { tx, conf })
    }
    pub async fn run(self) {
      drop(self.buffer.run().await);
    }
  }
  impl PipeHandle {
    fn sent<T: MemorySized>(r: Result<(), TrySendError<T>>) -> &'static str {
      match r {
        Ok(()) => "ok",
        Err(TrySendError::Closed(_)) => "closed",
        Err(_) => "full",
      }
    }
    /// Like a blocking call, without blocking: what the caller would wait for is returned.
    pub fn blocking_log(
      &self,
      message: crate::LogMessage,
      fields: bd_log_metadata::AnnotatedLogFields,
      overrides: Option<crate::LogAttributesOverridesPreviousRunSessionID>,
    ) -> (&'static str, tokio::sync::oneshot::Receiver<()>) {
      let (tx, rx) = tokio::sync::oneshot::channel();
      let line = crate::async_log_buffer::LogLine {
        log_level: crate::log_level::INFO,
        log_type: crate::LogType::Normal,
        message,
        fields,
        matching_fields: vec![],
        attributes_overrides: overrides,
        log_processing_completed_tx: Some(tx),
      };
      (Self::sent(self.tx.try_send(crate::async_log_buffer::AsyncLogBufferMessage::EmitLog(line))), rx)
    }
    pub fn log(
      &self,
      message: crate::LogMessage,
      fields: bd_log_metadata::AnnotatedLogFields,
      overrides: Option<crate::LogAttributesOverridesPreviousRunSessionID>,
      blocking: bool,
    ) -> &'static str {
      Self::sent(crate::async_log_buffer::AsyncLogBuffer::<crate::log_replay::LoggerReplay>::enqueue_log(
        &self.tx,
        crate::log_level::INFO,
        crate::LogType::Normal,
        message,
        fields,
        vec![],
        overrides,
        blocking,
      ))
    }
    pub fn add_field(&self, f: bd_log_primitives::LogField) -> &'static str {
      Self::sent(crate::async_log_buffer::AsyncLogBuffer::<crate::log_replay::LoggerReplay>::add_log_field(&self.tx, f))
    }
    pub fn remove_field(&self, k: &str) -> &'static str {
      Self::sent(crate::async_log_buffer::AsyncLogBuffer::<crate::log_replay::LoggerReplay>::remove_log_field(&self.tx, k))
    }
    pub fn flush(&self, blocking: bool) -> &'static str {
      Self::sent(crate::async_log_buffer::AsyncLogBuffer::<crate::log_replay::LoggerReplay>::flush_state(&self.tx, blocking))
    }
    pub fn blocking_flush(&self) -> (&'static str, bd_completion::Receiver<()>) {
      let (tx, rx) = bd_completion::Sender::new();
      (Self::sent(self.tx.try_send(crate::async_log_buffer::AsyncLogBufferMessage::FlushState(Some(tx)))), rx)
    }
    pub fn config(&self, c: PipeConfig) -> bool {
      let mut continuous = std::collections::BTreeSet::new();
      let mut trigger = std::collections::BTreeSet::new();
      let mut buffers = std::collections::HashMap::new();
      for (name, cont, p) in c.buffers {
        (if cont { &mut continuous } else { &mut trigger }).insert(std::borrow::Cow::Owned(name.clone()));
        buffers.insert(name, p);
      }
      self
        .conf
        .try_send(crate::logging_state::ConfigUpdate {
          buffer_producers: crate::logging_state::BufferProducers {
            buffers,
            builder: flatbuffers::FlatBufferBuilder::new(),
            continuous_buffer_ids: continuous,
            trigger_buffer_ids: trigger,
          },
          buffer_selector: bd_matcher::buffer_selector::BufferSelector::new(&c.selector).unwrap(),
          workflows_configuration: bd_workflows::config::WorkflowsConfiguration::new(&c.workflows),
          tail_configs: crate::client_config::TailConfigurations::verif(c.tail, c.tail_producer),
          filter_chain: bd_log_filter::FilterChain::new(c.filters).0,
        })
        .is_ok()
    }
  }

  /// The remote configuration, between the server, the buffers and the logging loop.
  pub struct Remote(crate::client_config::Config<crate::client_config::LoggerUpdate>);
  pub struct Updates {
    tx: tokio::sync::mpsc::Sender<crate::logging_state::ConfigUpdate>,
    rx: tokio::sync::mpsc::Receiver<crate::logging_state::ConfigUpdate>,
  }
  pub struct Update(crate::logging_state::ConfigUpdate);
  impl Remote {
    pub fn new(
      dir: &std::path::Path,
      manager: Arc<bd_buffer::Manager>,
      loader: &Arc<bd_runtime::runtime::ConfigLoader>,
      scope: &bd_client_stats_store::Scope,
    ) -> (Self, Updates) {
      let (tx, rx) = tokio::sync::mpsc::channel(1);
      let update = crate::client_config::LoggerUpdate::new(manager, tx.clone(), loader, &scope.scope("config"));
      (Self(crate::client_config::Config::new(dir, update, scope).unwrap()), Updates { tx, rx })
    }
    pub async fn apply(&mut self, r: &bd_proto::protos::client::api::ApiResponse) -> Option<bd_proto::protos::client::api::ApiRequest> {
      use bd_api::ConfigurationUpdate as _;
      self.0.try_apply_config(r).await
    }
    pub async fn load(&mut self) {
      use bd_api::ConfigurationUpdate as _;
      self.0.try_load_persisted_config().await;
    }
    pub fn handshake(&self) -> bd_proto::protos::client::api::HandshakeRequest {
      use bd_api::ConfigurationUpdate as _;
      self.0.partial_handshake()
    }
  }
  impl Updates {
    pub fn next(&mut self) -> Option<Update> {
      self.rx.try_recv().ok().map(Update)
    }
    /// As if the loop had not taken the previous one yet.
    pub fn busy(&self) -> Option<Box<dyn std::any::Any>> {
      self.tx.clone().try_reserve_owned().ok().map(|p| Box::new(p) as Box<dyn std::any::Any>)
    }
  }
  impl Update {
    fn probe<T>(tag: &str, f: impl FnOnce(&bd_log_primitives::LogRef<'_>) -> T) -> T {
      f(&bd_log_primitives::LogRef {
        log_type: crate::LogType::Normal,
        log_level: crate::log_level::INFO,
        message: &tag.into(),
        fields: &bd_log_primitives::FieldsRef::new(&vec![], &vec![]),
        session_id: "s",
        occurred_at: time::OffsetDateTime::UNIX_EPOCH,
      })
    }
    pub fn continuous(&self) -> Vec<String> {
      self.0.buffer_producers.continuous_buffer_ids.iter().map(ToString::to_string).collect()
    }
    pub fn trigger(&self) -> Vec<String> {
      self.0.buffer_producers.trigger_buffer_ids.iter().map(ToString::to_string).collect()
    }
    pub fn producers(&self) -> Vec<String> {
      self.0.buffer_producers.buffers.keys().cloned().collect()
    }
    pub fn selected(&self, tag: &str) -> Vec<String> {
      Self::probe(tag, |l| {
        self.0.buffer_selector.buffers(l.log_type, l.log_level, l.message, l.fields).iter().map(ToString::to_string).collect()
      })
    }
    pub fn streams(&self, tag: &str) -> Vec<String> {
      Self::probe(tag, |l| self.0.tail_configs.verif_streams(l))
    }
    pub fn workflows(&self) -> Vec<String> {
      self.0.workflows_configuration.verif_ids()
    }
    pub fn filtered(&self, tag: &str) -> bool {
      let mut log = bd_log_primitives::Log {
        log_type: crate::LogType::Normal,
        log_level: crate::log_level::INFO,
        message: tag.into(),
        fields: vec![],
        matching_fields: vec![],
        session_id: String::new(),
        occurred_at: time::OffsetDateTime::UNIX_EPOCH,
      };
      self.0.filter_chain.process(&mut log);
      !log.fields.is_empty()
    }
  }
}
