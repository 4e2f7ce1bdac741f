//! One module per area; one function per property.
#[cfg(feature = "lib")]
pub mod tree;
#[cfg(feature = "lib")]
pub mod block;
#[cfg(feature = "lib")]
pub mod merkle;
#[cfg(feature = "lib")]
pub mod commit;
#[cfg(feature = "lib")]
pub mod schemes;
#[cfg(feature = "lib")]
pub mod seals;
#[cfg(feature = "lib")]
pub mod enc;
#[cfg(feature = "lib")]
pub mod text;
#[cfg(feature = "lib")]
pub mod api;
#[cfg(feature = "lib")]
pub mod config;
#[cfg(feature = "tool")]
pub mod tool;
#[cfg(feature = "derive")]
pub mod derive;
