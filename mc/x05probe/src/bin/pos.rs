include!(concat!(env!("X05_GEN"), "/pos.rs"));
