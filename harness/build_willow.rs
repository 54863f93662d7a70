fn main() {
    let proto = "/repo/apps/willow/decryptor/actor/proto/willow_decryptor.proto";
    println!("cargo:rerun-if-changed={proto}");
    prost_build::Config::new()
        .btree_map(["."])
        .bytes([".apps.willow.decryptor.service.SnapshotKeyPair"])
        .compile_protos(&[proto], &["/repo/apps/willow/decryptor/actor/proto"])
        .unwrap();
}
