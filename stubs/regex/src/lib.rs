//! Stand-in for the `regex` crate inside the symbolically executed module.
//! `Regex::new` + `Regex::is_match` are answered by the executor (an automaton
//! built from the same pattern, stepped over symbolic bytes). Everything else
//! derefs to the real regex crate, which is then executed like any other code.
use std::ops::Deref;
use std::sync::OnceLock;

pub use regex_real::*;

#[link(wasm_import_module = "vx")]
extern "C" {
    fn regex_valid(pat: *const u8, pat_len: usize) -> u32;
    fn regex_is_match(pat: *const u8, pat_len: usize, hay: *const u8, hay_len: usize) -> u32;
}

#[derive(Clone)]
pub struct Regex {
    pat: String,
    real: OnceLock<regex_real::Regex>,
}

impl Regex {
    pub fn new(re: &str) -> Result<Regex, Error> {
        if unsafe { regex_valid(re.as_ptr(), re.len()) } == 0 {
            let real = regex_real::Regex::new(re)?;
            let cell = OnceLock::new();
            let _ = cell.set(real);
            return Ok(Regex { pat: re.to_string(), real: cell });
        }
        Ok(Regex { pat: re.to_string(), real: OnceLock::new() })
    }
    pub fn is_match(&self, hay: &str) -> bool {
        unsafe { regex_is_match(self.pat.as_ptr(), self.pat.len(), hay.as_ptr(), hay.len()) != 0 }
    }
    pub fn as_str(&self) -> &str {
        &self.pat
    }
}
impl Deref for Regex {
    type Target = regex_real::Regex;
    fn deref(&self) -> &regex_real::Regex {
        self.real.get_or_init(|| regex_real::Regex::new(&self.pat).unwrap())
    }
}
impl std::fmt::Debug for Regex {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Regex({:?})", self.pat)
    }
}
