// Stands in for the `log` crate: messages of generated code go to stderr, errors are marked.
#[macro_export]
macro_rules! error { ($($x:tt)*) => { eprintln!("LOG-ERROR {}", format!($($x)*)) } }
#[macro_export]
macro_rules! warn { ($($x:tt)*) => { eprintln!("LOG-WARN {}", format!($($x)*)) } }
#[macro_export]
macro_rules! info { ($($x:tt)*) => { { let _ = format!($($x)*); } } }
#[macro_export]
macro_rules! debug { ($($x:tt)*) => { { let _ = format!($($x)*); } } }
#[macro_export]
macro_rules! trace { ($($x:tt)*) => { { let _ = format!($($x)*); } } }
