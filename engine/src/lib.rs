//! A small property-based testing engine: deterministic generation per case index, parallel
//! execution, shrinking, crash isolation in a child process, replay files and evidence files.
pub mod gen;
pub mod inst;
pub mod oracle;
mod run;

pub use gen::Gen;
pub use inst::Inst;
pub use run::*;
