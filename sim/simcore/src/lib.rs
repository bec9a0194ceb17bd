pub mod aes;
pub mod api;
pub mod clock;
pub mod drbg;
pub mod exec;
pub mod gen;
pub mod heap;
pub mod keccak;
pub mod ntru;
pub mod plan;
pub mod prng;
pub mod sched;
pub mod spawn;
pub mod sys;
pub mod wire;
pub mod world;
