//! Stand-in for the `log` crate used only when a crate is expanded for verification: every logging statement expands to
//! nothing.  This is the one thing the extraction drops from the source (log output is not part of any property).
#[macro_export]
macro_rules! error { ($($t:tt)*) => { () } }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => { () } }
#[macro_export]
macro_rules! info { ($($t:tt)*) => { () } }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => { () } }
#[macro_export]
macro_rules! trace { ($($t:tt)*) => { () } }
#[macro_export]
macro_rules! log { ($($t:tt)*) => { () } }
#[macro_export]
macro_rules! log_enabled { ($($t:tt)*) => { false } }
