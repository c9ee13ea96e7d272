mod kit;
fn main() {}
