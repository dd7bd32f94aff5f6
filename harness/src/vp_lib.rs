//! Property-based testing of http-ntlm

#[macro_use]
pub mod vp_engine;
pub mod vp_alloc;
pub mod vp_client;
pub mod vp_conv;
pub mod vp_dict;
pub mod vp_env;
pub mod vp_gen;
pub mod vp_make;
pub mod vp_spec;
#[cfg(all(target_arch = "x86_64", not(miri)))]
pub mod vp_watch;
#[path = "props/vp_mod.rs"]
pub mod props;
