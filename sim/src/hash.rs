//! The `Digest` type parameter of the proof systems is a seam inside prover and verifier: these
//! hashes compute SHA-2 (with a prefix per variant), yield to the scheduler at every finalisation
//! and, when asked, log what was absorbed.

use crate::sched::yield_point;
use std::cell::RefCell;

#[derive(Clone)]
pub struct Absorb {
    pub data: Vec<u8>,
    pub digest: Vec<u8>,
}
thread_local! {
    static LOG: RefCell<Option<Vec<Absorb>>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
pub fn spy_start() {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
}
pub fn spy_end() -> Vec<Absorb> {
    LOG.with(|l| l.borrow_mut().take().unwrap_or_default())
}
/// Runs `f` and returns what was hashed meanwhile.
pub fn spy<R>(f: impl FnOnce() -> R) -> (Result<R, String>, Vec<Absorb>) {
    spy_start();
    let r = crate::core::guard(f);
    (r, spy_end())
}

fn done(data: &[u8], digest: &[u8]) {
    LOG.with(|l| {
        if let Some(l) = l.borrow_mut().as_mut() {
            l.push(Absorb { data: data.to_vec(), digest: digest.to_vec() });
        }
    });
    yield_point("hash");
}

/// SHA-256 of the data behind `K` (K = 0: plain SHA-256).
#[derive(Clone, Default)]
pub struct SimHash<const K: u8>(Vec<u8>);
/// SHA-512.
#[derive(Clone, Default)]
pub struct SimHash64(Vec<u8>);

/// A hash with short digests: 20 bytes.
#[derive(Clone, Default)]
pub struct SimHash20(Vec<u8>);

impl SimHash20 {
    fn fin(&mut self) -> [u8; 20] {
        use sha2::Digest;
        let d = sha2::Sha256::new().chain_update([3, 0xa5, 3]).chain_update(&self.0).finalize();
        let data = std::mem::take(&mut self.0);
        done(&data, &d[..20]);
        d[..20].try_into().unwrap()
    }
}
impl std::io::Write for SimHash20 {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl<const K: u8> SimHash<K> {
    fn fin(&mut self) -> [u8; 32] {
        use sha2::Digest;
        let mut h = sha2::Sha256::new();
        if K > 0 {
            h.update([K, 0xa5, K]);
        }
        h.update(&self.0);
        let d: [u8; 32] = h.finalize().into();
        let data = std::mem::take(&mut self.0);
        done(&data, &d);
        d
    }
}
impl SimHash64 {
    fn fin(&mut self) -> [u8; 64] {
        use sha2::Digest;
        let d: [u8; 64] = sha2::Sha512::digest(&self.0).into();
        let data = std::mem::take(&mut self.0);
        done(&data, &d);
        d
    }
}
impl<const K: u8> std::io::Write for SimHash<K> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Write for SimHash64 {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

thread_local! {
    static PRESET: RefCell<[u8; 32]> = const { RefCell::new([0; 32]) };
}
/// Digests to what was chosen beforehand, whatever is absorbed: shows what code makes of a digest.
#[derive(Clone, Default)]
pub struct Preset(Vec<u8>);
impl Preset {
    pub fn with<R>(digest: &[u8], f: impl FnOnce() -> R) -> R {
        let mut d = [0; 32];
        let n = digest.len().min(32);
        d[..n].copy_from_slice(&digest[..n]);
        PRESET.with(|p| *p.borrow_mut() = d);
        f()
    }
    fn fin(&mut self) -> [u8; 32] {
        PRESET.with(|p| *p.borrow())
    }
}

macro_rules! imp {
    ($d:ident, $t:ty, [$($g:tt)*], $n:ident) => {
        impl $($g)* $d::HashMarker for $t {}
        impl $($g)* $d::OutputSizeUser for $t {
            type OutputSize = $d::consts::$n;
        }
        impl $($g)* $d::Update for $t {
            fn update(&mut self, data: &[u8]) {
                self.0.extend_from_slice(data);
            }
        }
        impl $($g)* $d::FixedOutput for $t {
            fn finalize_into(mut self, out: &mut $d::Output<Self>) {
                let d = self.fin();
                out.copy_from_slice(&d);
            }
        }
        impl $($g)* $d::Reset for $t {
            fn reset(&mut self) {
                self.0.clear();
            }
        }
    };
}
imp!(digest, SimHash<K>, [<const K: u8>], U32);
imp!(digest, SimHash64, [], U64);
imp!(digest11, SimHash<K>, [<const K: u8>], U32);
imp!(digest11, SimHash64, [], U64);
imp!(digest, SimHash20, [], U20);
imp!(digest11, SimHash20, [], U20);
imp!(digest, Preset, [], U32);
imp!(digest11, Preset, [], U32);
