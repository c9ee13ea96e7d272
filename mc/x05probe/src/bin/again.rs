include!(concat!(env!("X05_GEN"), "/again.rs"));
