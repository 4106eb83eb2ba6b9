//! What a document means, read from the TOML value by the documented rules alone.
use toml::Value;

use crate::config::{Bind, Config, Connect, Identity, Service};

pub enum Due { Ok(Config), Bad(&'static str), Unsaid }
enum No { Bad(&'static str), Unsaid }
use No::*;

type T = toml::map::Map<String, Value>;

fn table(v: &Value) -> Result<&T, No> { match v { Value::Table(t) => Ok(t), Value::Array(_) => Err(Unsaid), Value::Datetime(_) => Err(Unsaid), _ => Err(Bad("not a table")) } }
fn field<'a>(t: &'a T, k: &str) -> Result<&'a Value, No> { t.get(k).ok_or(Bad("missing field")) }
fn string(t: &T, k: &str) -> Result<String, No> { match field(t, k)? { Value::String(s) => Ok(s.clone()), _ => Err(Bad("not a string")) } }
fn port(t: &T, default: u16) -> Result<u16, No> { match t.get("port") { None => Ok(default), Some(Value::Integer(i)) => u16::try_from(*i).map_err(|_| Bad("port out of range")), Some(_) => Err(Bad("port is not an integer")) } }
fn tls(t: &T) -> Result<bool, No> { match string(t, "encryption")?.as_str() { "Tls" => Ok(true), "Insecure" => Ok(false), _ => Err(Bad("unknown encryption")) } }

pub fn read(text: &str) -> Due {
    let v: T = match toml::from_str(text) { Ok(v) => v, Err(_) => return Due::Bad("not TOML") };
    match config(&v) { Ok(c) => Due::Ok(c), Err(Bad(w)) => Due::Bad(w), Err(Unsaid) => Due::Unsaid }
}
fn config(v: &T) -> Result<Config, No> {
    let Value::Array(list) = field(v, "services")? else { return Err(Bad("services is not a list")) };
    // All services are looked at: a defect in one counts even if another is not settled by the rules.
    let all: Vec<Result<Service, No>> = list.iter().map(service).collect();
    if let Some(Err(Bad(w))) = all.iter().find(|r| matches!(r, Err(Bad(_)))) { return Err(Bad(w)); }
    Ok(Config { services: all.into_iter().collect::<Result<_, _>>()? })
}
fn service(v: &Value) -> Result<Service, No> {
    let t = table(v)?;
    let parts = (string(t, "name"), field(t, "bind").and_then(bind), field(t, "connect").and_then(connect));
    match parts { (Err(Bad(w)), _, _) | (_, Err(Bad(w)), _) | (_, _, Err(Bad(w))) => Err(Bad(w)), (name, bind, connect) => Ok(Service { name: name?, bind: bind?, connect: connect? }) }
}
fn bind(v: &Value) -> Result<Bind, No> {
    let t = table(v)?;
    let tls = tls(t)?;
    let (host, port) = (string(t, "host")?, port(t, if tls { 993 } else { 143 })?);
    if !tls { return Ok(Bind::Insecure { host, port }); }
    let i = table(field(t, "identity")?)?;
    if string(i, "type")? != "CertificateChainAndLeafKey" { return Err(Bad("unknown identity")); }
    Ok(Bind::Tls { host, port, identity: Identity::CertificateChainAndLeafKey { certificate_chain_path: string(i, "certificate_chain_path")?, leaf_key_path: string(i, "leaf_key_path")? } })
}
fn connect(v: &Value) -> Result<Connect, No> {
    let t = table(v)?;
    let tls = tls(t)?;
    let (host, port) = (string(t, "host")?, port(t, if tls { 993 } else { 143 })?);
    Ok(if tls { Connect::Tls { host, port } } else { Connect::Insecure { host, port } })
}
