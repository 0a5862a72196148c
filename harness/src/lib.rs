//! Shared machinery of the runtime monitors for dzamkov/serdere.
pub mod backend;
pub mod free;
pub mod gen;
pub mod jobs;
pub mod mine;
pub mod mrender;
pub mod num;
pub mod place;
pub mod prog;
pub mod reader;
pub mod refjson;
pub mod rng;
pub mod run;
pub mod types;
pub mod types2;
pub mod types3;
pub mod walk;

pub use refjson::{JEntry, JKind, JNode};
pub use rng::Rng;
pub use run::{Check, Cx, Phase};
