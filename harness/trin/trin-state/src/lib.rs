include!(concat!(env!("OUT_DIR"), "/src/lib.rs"));
