//! Coverage-guided search over the choice sequences of one property (`VP_PROP`).
//! The input bytes are the choices; a failing case aborts, which makes libFuzzer keep it.
#![no_main]

use std::sync::OnceLock;
use vp_harness::{props, vp_engine as eng, vp_env};

static PROP: OnceLock<eng::Property> = OnceLock::new();

fn property() -> &'static eng::Property {
    PROP.get_or_init(|| {
        let id = std::env::var("VP_PROP").expect("VP_PROP names the property");
        eng::install_panic_hook();
        eng::install_log();
        // the code under test prints; libFuzzer writes its own output to descriptor 2
        unsafe {
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 1);
        }
        vp_env::init();
        props::find(&id).expect("known property")
    })
}

#[no_mangle]
pub extern "C" fn rust_fuzzer_test_input(data: &[u8]) -> i32 {
    if eng::run_bytes(property(), data).is_err() {
        std::process::abort();
    }
    0
}

pub use libfuzzer_sys as _;
