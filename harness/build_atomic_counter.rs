fn main() {
    let proto = "/repo/apps/atomic_counter/service/proto/atomic_counter.proto";
    println!("cargo:rerun-if-changed={proto}");
    prost_build::Config::new()
        .btree_map(["."])
        .bytes([
            ".apps.atomic_counter.service.CounterSnapshotValue",
            ".apps.atomic_counter.service.CounterRequest",
        ])
        .compile_protos(&[proto], &["/repo/apps/atomic_counter/service/proto"])
        .unwrap();
}
