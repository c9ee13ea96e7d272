include!(concat!(env!("X05_GEN"), "/disabled.rs"));
