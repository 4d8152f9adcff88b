// The driver passes a hash of /repo/src, so that a change there always causes a rebuild, whatever
// the modification times say.
fn main() {
    // The hook that lets simulations choose the chunks of blocking resizes.
    println!("cargo:rustc-cfg=papaya_sim");
    println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
    println!("cargo:rustc-env=VERIF_SRC_HASH={}", std::env::var("VERIF_SRC_HASH").unwrap_or_default());
}
