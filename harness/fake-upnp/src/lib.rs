//! Stand-in for `easy-upnp`: same interface, but the gateway is an in-memory
//! table that records every request and can be told to fail.
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Debug)]
pub enum Error {
    NoMatchingGateway
}

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "No matching gateway found")
    }
}

impl std::error::Error for Error {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum PortMappingProtocol {
    TCP,
    UDP
}

#[derive(Debug, Clone)]
pub struct Ipv4Cidr;

#[derive(Debug)]
pub struct UpnpConfig {
    pub address: Option<Ipv4Cidr>,
    pub port: u16,
    pub protocol: PortMappingProtocol,
    pub duration: u32,
    pub comment: String
}

/// One request made to the gateway.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Call {
    pub add: bool,
    pub port: u16,
    pub protocol: PortMappingProtocol,
    pub duration: u32,
    pub ok: bool
}

#[derive(Default, Debug)]
pub struct Gateway {
    pub mappings: BTreeMap<(u16, PortMappingProtocol), u32>,
    pub calls: Vec<Call>,
    /// Ports and protocols for which requests fail.
    pub failing: Vec<(u16, PortMappingProtocol)>
}

pub static GATEWAY: Mutex<Gateway> = Mutex::new(Gateway {
    mappings: BTreeMap::new(),
    calls: Vec::new(),
    failing: Vec::new()
});

fn request(add: bool, config: &UpnpConfig) -> Result<(), Error> {
    // gateways take their time, so let others go first
    std::thread::yield_now();

    let mut gateway = GATEWAY.lock().unwrap();
    let key = (config.port, config.protocol);
    let ok = !gateway.failing.contains(&key);

    gateway.calls.push(Call { add, port: config.port, protocol: config.protocol, duration: config.duration, ok });

    if !ok {
        return Err(Error::NoMatchingGateway);
    }

    if add {
        gateway.mappings.insert(key, config.duration);
    } else {
        gateway.mappings.remove(&key);
    }

    Ok(())
}

pub fn add_ports(configs: impl IntoIterator<Item = UpnpConfig>) -> impl Iterator<Item = Result<(), Error>> {
    configs.into_iter().map(|config| request(true, &config))
}

pub fn delete_ports(configs: impl IntoIterator<Item = UpnpConfig>) -> impl Iterator<Item = Result<(), Error>> {
    configs.into_iter().map(|config| request(false, &config))
}
