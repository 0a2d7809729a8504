use crate::{FixedVector, VariableList};
use serde::{de::Error, ser::SerializeSeq, Deserialize, Deserializer, Serializer};
use typenum::Unsigned;

#[derive(Deserialize)]
struct Q(#[serde(deserialize_with = "serde_utils::quoted_u64::deserialize")] u64);
fn de<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u64>, D::Error> {
    Ok(Vec::<Q>::deserialize(d)?.into_iter().map(|q| q.0).collect())
}
fn ser<S: Serializer>(v: &[u64], s: S) -> Result<S::Ok, S::Error> {
    let mut q = s.serialize_seq(Some(v.len()))?;
    for x in v {
        q.serialize_element(&x.to_string())?;
    }
    q.end()
}
macro_rules! m {
    ($m:ident, $t:ident) => {
        pub mod $m {
            use super::*;
            pub fn deserialize<'de, D: Deserializer<'de>, N: Unsigned>(d: D) -> Result<$t<u64, N>, D::Error> {
                $t::new(de(d)?).map_err(|e| D::Error::custom(format!("{e:?}")))
            }
            pub fn serialize<S: Serializer, N: Unsigned>(v: &$t<u64, N>, s: S) -> Result<S::Ok, S::Error> {
                ser(v, s)
            }
        }
    };
}
m!(quoted_u64_var_list, VariableList);
m!(quoted_u64_fixed_vec, FixedVector);
pub mod hex_fixed_vec {
    use super::*;
    pub fn serialize<S: Serializer, N: Unsigned>(b: &FixedVector<u8, N>, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&serde_utils::hex::encode(&b[..]))
    }
    pub fn deserialize<'de, D: Deserializer<'de>, N: Unsigned>(d: D) -> Result<FixedVector<u8, N>, D::Error> {
        FixedVector::new(d.deserialize_str(serde_utils::hex::PrefixedHexVisitor)?)
            .map_err(|e| D::Error::custom(format!("invalid fixed vector: {e:?}")))
    }
}
pub mod hex_var_list {
    use super::*;
    pub fn serialize<S: Serializer, N: Unsigned>(b: &VariableList<u8, N>, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&serde_utils::hex::encode(&b[..]))
    }
    pub fn deserialize<'de, D: Deserializer<'de>, N: Unsigned>(d: D) -> Result<VariableList<u8, N>, D::Error> {
        VariableList::new(d.deserialize_str(serde_utils::hex::PrefixedHexVisitor)?)
            .map_err(|e| D::Error::custom(format!("invalid variable list: {e:?}")))
    }
}
