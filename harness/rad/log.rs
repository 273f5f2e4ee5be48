#[macro_export] macro_rules! rt_ignore { ($($t:tt)*) => { { let _ = || { let _ = format_args!($($t)*); }; } }; }
pub use rt_ignore as trace; pub use rt_ignore as debug; pub use rt_ignore as info; pub use rt_ignore as warn; pub use rt_ignore as error;
