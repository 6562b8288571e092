pub mod cover;
pub mod dict;
pub mod engine;
pub mod nums;
pub mod scene;
pub mod soup;
