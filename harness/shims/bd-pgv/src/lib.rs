//! Stand-in for bd-pgv: its generated descriptors are inert here and nothing that is built calls
//! the validator.
pub mod error {
  #[derive(Debug, thiserror::Error)]
  pub enum Error {
    #[error("A proto validation error occurred: {0}")]
    ProtoValidation(String),
  }
  pub type Result<T> = std::result::Result<T, Error>;
}
pub mod proto_validate {
  pub fn validate(_m: &dyn protobuf::MessageDyn) -> crate::error::Result<()> {
    Ok(())
  }
}
pub mod generated {
  pub mod protos {
    pub mod validate {
      pub fn file_descriptor() -> &'static protobuf::reflect::FileDescriptor {
        protobuf::descriptor::file_descriptor()
      }
    }
  }
}
