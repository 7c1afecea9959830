//! Takes the place of rand's thread-local generator in the module that is checked: each word comes from the checker,
//! which makes it a solver variable, or from the recorded inputs of a counterexample when it is replayed.
use crate::{CryptoRng, Error, RngCore};

#[link(wasm_import_module = "vp")]
extern "C" { fn rand_word(bits: u32) -> u64; }

/// The thread-local generator.
#[derive(Clone, Debug, Default)]
pub struct ThreadRng { _not_send: std::marker::PhantomData<std::rc::Rc<()>> }

/// The thread-local generator.
pub fn thread_rng() -> ThreadRng { ThreadRng::default() }

impl RngCore for ThreadRng {
  fn next_u32(&mut self) -> u32 { unsafe { rand_word(32) as u32 } }
  fn next_u64(&mut self) -> u64 { unsafe { rand_word(64) } }
  fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = unsafe { rand_word(8) as u8 } } }
  fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}
impl CryptoRng for ThreadRng {}
