fn main() {
    println!("cargo:rerun-if-changed=proto");
    let files = [
        "proto/proto/attestation/endorsement.proto",
        "proto/proto/attestation/evidence.proto",
        "proto/proto/attestation/reference_value.proto",
        "proto/proto/session/session.proto",
    ];
    prost_build::Config::new()
        .btree_map(["."])
        .compile_protos(&files, &["proto"])
        .unwrap();
}
