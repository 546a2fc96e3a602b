//! Derived types generated for one run; see tools/gen_derive.py.

#[cfg(not(any(miri, mon_asan)))]
#[global_allocator]
static A: mon::alloc::Checking = mon::alloc::Checking;

#[allow(warnings)]
mod generated {
    include!(concat!(env!("MON_GEN"), "/g1.rs"));
}

fn types() -> &'static mon::codec::Types {
    static T: std::sync::OnceLock<mon::codec::Types> = std::sync::OnceLock::new();
    T.get_or_init(generated::types)
}

fn main() {
    mon::cli::run(types);
}
