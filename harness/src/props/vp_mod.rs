//! All properties

#[path = "vp_codec.rs"]
pub mod codec;
#[path = "vp_auth.rs"]
pub mod auth;
#[path = "vp_clients.rs"]
pub mod clients;
#[path = "vp_values.rs"]
pub mod values;
#[path = "vp_extra.rs"]
pub mod extra;
#[cfg(all(target_arch = "x86_64", not(miri)))]
#[path = "vp_effects.rs"]
pub mod effects;
#[cfg(all(target_arch = "x86_64", not(miri)))]
#[path = "vp_faults.rs"]
pub mod faults;
#[path = "vp_errors.rs"]
pub mod errors;
#[path = "vp_threads.rs"]
pub mod threads;
#[cfg(feature = "win")]
#[path = "vp_win.rs"]
pub mod win;

use crate::vp_engine::Property;

pub fn all() -> Vec<Property> {
    let mut v = codec::all();
    v.extend(auth::all());
    v.extend(clients::all());
    v.extend(values::all());
    v.extend(extra::all());
    v.extend(threads::all());
    v.extend(errors::all());
    #[cfg(all(target_arch = "x86_64", not(miri)))]
    v.extend(effects::all());
    #[cfg(all(target_arch = "x86_64", not(miri)))]
    v.extend(faults::all());
    #[cfg(feature = "win")]
    v.extend(win::all());
    v.sort_by_key(|p| p.id);
    v
}

pub fn find(id: &str) -> Option<Property> {
    all().into_iter().find(|p| p.id == id)
}
