pub use futures::{Stream, StreamExt};
