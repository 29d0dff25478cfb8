#[path = "all.rs"]
pub mod all;

/// Directory of the registered virtual files.
pub fn prefix() -> String {
    String::from("/sym/")
}
