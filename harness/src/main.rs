#[cfg(not(any(miri, mon_asan)))]
#[global_allocator]
static A: mon::alloc::Checking = mon::alloc::Checking;

fn main() {
    mon::cli::run(mon::codec::derived_types);
}
