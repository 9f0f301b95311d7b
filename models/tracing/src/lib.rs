//! Model of tracing for symbolic execution: events are not recorded.  The arguments are evaluated.
#[macro_export]
macro_rules! event {
    ($($t:tt)*) => {{ let _ = ::std::format_args!($($t)*); }};
}
pub use event as error;
pub use event as warn;
pub use event as info;
pub use event as debug;
pub use event as trace;
