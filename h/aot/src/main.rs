pub use logicaffeine_data; pub use logicaffeine_system; pub use tokio; fn main() {}
