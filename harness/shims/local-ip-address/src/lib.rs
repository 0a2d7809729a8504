use std::net::IpAddr;
pub fn list_afinet_netifas() -> Result<Vec<(String, IpAddr)>, std::io::Error> {
    Ok(vec![])
}
