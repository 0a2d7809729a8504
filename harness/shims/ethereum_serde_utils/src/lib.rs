//! Serde helpers with the interface of `ethereum_serde_utils`.
pub mod hex {
    use serde::de::{self, Visitor};
    use std::fmt;

    pub fn encode<T: AsRef<[u8]>>(data: T) -> String {
        format!("0x{}", ::hex::encode(data))
    }
    pub fn decode(s: &str) -> Result<Vec<u8>, String> {
        match s.strip_prefix("0x") {
            Some(h) => ::hex::decode(h).map_err(|e| format!("invalid hex ({e:?})")),
            None => Err("hex must have 0x prefix".to_string()),
        }
    }
    pub struct PrefixedHexVisitor;
    impl Visitor<'_> for PrefixedHexVisitor {
        type Value = Vec<u8>;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("a hex string with 0x prefix")
        }
        fn visit_str<E: de::Error>(self, v: &str) -> Result<Self::Value, E> {
            decode(v).map_err(de::Error::custom)
        }
    }
    pub struct HexVisitor;
    impl Visitor<'_> for HexVisitor {
        type Value = Vec<u8>;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("a hex string (irrelevant of prefix)")
        }
        fn visit_str<E: de::Error>(self, v: &str) -> Result<Self::Value, E> {
            ::hex::decode(v.trim_start_matches("0x")).map_err(de::Error::custom)
        }
    }
}
macro_rules! quoted {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use serde::{de, Deserializer, Serializer};
            struct V;
            impl<'de> de::Visitor<'de> for V {
                type Value = $t;
                fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str("a quoted or unquoted integer")
                }
                fn visit_str<E: de::Error>(self, s: &str) -> Result<$t, E> {
                    s.parse().map_err(de::Error::custom)
                }
                fn visit_u64<E: de::Error>(self, v: u64) -> Result<$t, E> {
                    v.try_into().map_err(|_| de::Error::custom("out of range"))
                }
            }
            pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<$t, D::Error> {
                d.deserialize_any(V)
            }
            pub fn serialize<S: Serializer>(v: &$t, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_str(&v.to_string())
            }
        }
    };
}
quoted!(quoted_u8, u8);
quoted!(quoted_u32, u32);
quoted!(quoted_u64, u64);
macro_rules! bytes_hex {
    ($m:ident, $n:expr) => {
        pub mod $m {
            use serde::{de::Error, Deserializer, Serializer};
            pub fn serialize<S: Serializer>(b: &[u8; $n], s: S) -> Result<S::Ok, S::Error> {
                s.serialize_str(&crate::hex::encode(b))
            }
            pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<[u8; $n], D::Error> {
                let v = d.deserialize_str(crate::hex::PrefixedHexVisitor)?;
                v.try_into().map_err(|_| D::Error::custom("wrong length"))
            }
        }
    };
}
bytes_hex!(bytes_4_hex, 4);
bytes_hex!(bytes_8_hex, 8);
pub mod hex_vec {
    use serde::{Deserializer, Serializer};
    pub fn serialize<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&crate::hex::encode(b))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        d.deserialize_str(crate::hex::PrefixedHexVisitor)
    }
}
