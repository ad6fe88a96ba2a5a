export CARGO_TARGET_DIR=${MC_TARGET:-/verif/target}
export RUSTFLAGS="--cfg sequential_storage_verif"
export CARGO_NET_OFFLINE=true
