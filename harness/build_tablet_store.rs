fn main() {
    let proto = "/repo/apps/tablet_store/service/proto/tablet_store.proto";
    println!("cargo:rerun-if-changed={proto}");
    prost_build::Config::new()
        .btree_map(["."])
        .bytes([".apps.tablet_store.service.TabletMetadata"])
        .compile_protos(&[proto], &["/repo/apps/tablet_store/service/proto"])
        .unwrap();
}
