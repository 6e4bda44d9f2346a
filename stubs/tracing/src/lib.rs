//! Stand-in for tracing: every event hands its formatted arguments to `event`.
pub use tracing_attributes::instrument;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Level(u8);
impl Level { pub const TRACE: Level = Level(0); pub const DEBUG: Level = Level(1); pub const INFO: Level = Level(2); pub const WARN: Level = Level(3); pub const ERROR: Level = Level(4); }
/// An event with its text
pub fn event(_level: u8, _args: std::fmt::Arguments<'_>) {}
/// A field recorded on an event or a span
pub fn field(_args: std::fmt::Arguments<'_>) {}
#[doc(hidden)]
#[macro_export]
macro_rules! __event {
	($l:expr;) => {};
	($l:expr; $lit:literal $($rest:tt)*) => { $crate::event($l, ::core::format_args!($lit $($rest)*)) };
	($l:expr; target: $t:expr, $($rest:tt)*) => { $crate::__event!($l; $($rest)*) };
	($l:expr; ?$v:ident) => { $crate::field(::core::format_args!("{:?}", $v)) };
	($l:expr; ?$v:ident, $($rest:tt)*) => { { $crate::field(::core::format_args!("{:?}", $v)); $crate::__event!($l; $($rest)*) } };
	($l:expr; %$v:ident) => { $crate::field(::core::format_args!("{}", $v)) };
	($l:expr; %$v:ident, $($rest:tt)*) => { { $crate::field(::core::format_args!("{}", $v)); $crate::__event!($l; $($rest)*) } };
	($l:expr; $k:ident = ?$v:expr) => { $crate::field(::core::format_args!("{:?}", $v)) };
	($l:expr; $k:ident = ?$v:expr, $($rest:tt)*) => { { $crate::field(::core::format_args!("{:?}", $v)); $crate::__event!($l; $($rest)*) } };
	($l:expr; $k:ident = %$v:expr) => { $crate::field(::core::format_args!("{}", $v)) };
	($l:expr; $k:ident = %$v:expr, $($rest:tt)*) => { { $crate::field(::core::format_args!("{}", $v)); $crate::__event!($l; $($rest)*) } };
	($l:expr; $k:ident = $v:expr) => { $crate::field(::core::format_args!("{:?}", $v)) };
	($l:expr; $k:ident = $v:expr, $($rest:tt)*) => { { $crate::field(::core::format_args!("{:?}", $v)); $crate::__event!($l; $($rest)*) } };
	($l:expr; $v:ident) => { $crate::field(::core::format_args!("{:?}", $v)) };
	($l:expr; $v:ident, $($rest:tt)*) => { { $crate::field(::core::format_args!("{:?}", $v)); $crate::__event!($l; $($rest)*) } };
}
#[macro_export] macro_rules! trace { ($($t:tt)*) => { $crate::__event!(0; $($t)*) } }
#[macro_export] macro_rules! debug { ($($t:tt)*) => { $crate::__event!(1; $($t)*) } }
#[macro_export] macro_rules! info { ($($t:tt)*) => { $crate::__event!(2; $($t)*) } }
#[macro_export] macro_rules! warn { ($($t:tt)*) => { $crate::__event!(3; $($t)*) } }
#[macro_export] macro_rules! error { ($($t:tt)*) => { $crate::__event!(4; $($t)*) } }
