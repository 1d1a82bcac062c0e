# Build environment: the same toolchain as /opt/vp/build.sh. Dependencies are compiled with
# optimisation (sim/Cargo.toml): the pool mathematics is 256-bit and 7 times faster that way.
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
