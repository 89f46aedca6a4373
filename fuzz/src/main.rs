//! Coverage-guided exploration of any property: libFuzzer mutates the choice tape of a case.
#![no_main]
libfuzzer_sys::fuzz_target!(|data: &[u8]| vharness::fuzz::one(data));
