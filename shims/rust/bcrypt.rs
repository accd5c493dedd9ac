//! Stand-in for "bcrypt": deterministic, never equal to the password; the
//! costs asked for are printed when take_costs() is called.
use std::sync::Mutex;
pub const DEFAULT_COST: u32 = 12;
#[derive(Debug)]
pub enum BcryptError { CostNotAllowed(u32), InvalidHash(String) }
impl std::fmt::Display for BcryptError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) }
}
impl std::error::Error for BcryptError {}
pub type BcryptResult<T> = Result<T, BcryptError>;
static COSTS: Mutex<Vec<u32>> = Mutex::new(Vec::new());
pub fn take_costs() -> Vec<u32> { std::mem::take(&mut *COSTS.lock().unwrap()) }
fn fnv(b: &[u8], mut h: u64) -> u64 {
    for x in b { h = (h ^ *x as u64).wrapping_mul(1099511628211); }
    h
}
fn h(b: &[u8]) -> String { format!("$2b$10${:016x}{:016x}", fnv(b, 14695981039346656037), fnv(b, 99)) }
pub fn hash<P: AsRef<[u8]>>(password: P, cost: u32) -> BcryptResult<String> {
    if !(4..=31).contains(&cost) { return Err(BcryptError::CostNotAllowed(cost)); }
    COSTS.lock().unwrap().push(cost);
    Ok(h(password.as_ref()))
}
pub fn verify<P: AsRef<[u8]>>(password: P, hash: &str) -> BcryptResult<bool> {
    if !hash.starts_with("$2b$") { return Err(BcryptError::InvalidHash(hash.to_string())); }
    Ok(h(password.as_ref()) == hash)
}
