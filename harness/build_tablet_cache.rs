fn main() {
    let proto = "/repo/apps/tablet_cache/service/proto/tablet_cache.proto";
    println!("cargo:rerun-if-changed={proto}");
    prost_build::Config::new()
        .btree_map(["."])
        .bytes([
            ".apps.tablet_cache.service.PutKeyRequest",
            ".apps.tablet_cache.service.PutKeyResponse",
            ".apps.tablet_cache.service.GetKeyRequest",
            ".apps.tablet_cache.service.GetKeyResponse",
            ".apps.tablet_cache.service.TabletContents",
        ])
        .compile_protos(&[proto], &["/repo/apps/tablet_cache/service/proto"])
        .unwrap();
}
