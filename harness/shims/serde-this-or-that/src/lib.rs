use serde::{de, Deserializer};
struct V;
impl de::Visitor<'_> for V {
    type Value = u64;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("an integer or string")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<u64, E> {
        Ok(v)
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<u64, E> {
        v.try_into().map_err(|_| E::custom("overflow"))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<u64, E> {
        Ok(v.round() as u64)
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<u64, E> {
        if v.is_empty() {
            return Ok(0);
        }
        v.parse::<u64>().or_else(|_| v.parse::<f64>().map(|f| f.round() as u64)).map_err(|_| E::custom(format!("invalid number {v}")))
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<u64, E> {
        Ok(v as u64)
    }
    fn visit_unit<E: de::Error>(self) -> Result<u64, E> {
        Ok(0)
    }
}
pub fn as_u64<'de, D: Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
    d.deserialize_any(V)
}
