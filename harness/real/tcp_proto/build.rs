use std::{env, fs, io::Write, path::Path};

/// What Oak's micro_rpc_build would have added for the service of endpoint.proto.
const MICRO_RPC: &str = "
pub trait EndpointService {
    fn receive_message(
        &mut self,
        request: ReceiveMessageRequest,
    ) -> Result<ReceiveMessageResponse, ::micro_rpc::Status>;
}
";

/// The part of tonic's generated server which the runtime uses.
const TONIC: &str = "
#[cfg(feature = \"tonic\")]
pub mod endpoint_service_server {
    #[tonic::async_trait]
    pub trait EndpointService: std::marker::Send + std::marker::Sync + 'static {
        async fn receive_message(
            &self,
            request: tonic::Request<super::ReceiveMessageRequest>,
        ) -> std::result::Result<tonic::Response<super::ReceiveMessageResponse>, tonic::Status>;
    }
}
";

fn main() {
    let proto = "/repo/proto/src/endpoint.proto";
    println!("cargo:rerun-if-changed={proto}");
    println!("cargo:rerun-if-changed=build.rs");
    prost_build::Config::new()
        .btree_map(["."])
        .bytes([
            ".trustedcompute.runtime.endpoint.StartReplicaRequest",
            ".trustedcompute.runtime.endpoint.DeliverSystemMessage",
            ".trustedcompute.runtime.endpoint.DeliverSnapshotRequest",
            ".trustedcompute.runtime.endpoint.DeliverSnapshotResponse",
            ".trustedcompute.runtime.endpoint.ExecuteProposalRequest",
            ".trustedcompute.runtime.endpoint.ExecuteProposalResponse",
            ".trustedcompute.runtime.endpoint.DeliverAppMessage",
            ".trustedcompute.runtime.endpoint.Entry",
            ".trustedcompute.runtime.endpoint.Payload",
        ])
        .extern_path(".oak", "::oak_proto_rust::oak")
        .compile_protos(&[proto], &["/repo/proto/src", "../../stubs/oak_proto_rust/proto"])
        .unwrap();
    let out = env::var("OUT_DIR").unwrap();
    let generated = Path::new(&out).join("trustedcompute.runtime.endpoint.rs");
    fs::OpenOptions::new()
        .append(true)
        .open(generated)
        .unwrap()
        .write_all(MICRO_RPC.as_bytes())
        .unwrap();
    let tonic = Path::new(&out).join("tonic");
    fs::create_dir_all(&tonic).unwrap();
    fs::write(tonic.join("trustedcompute.runtime.endpoint.rs"), TONIC).unwrap();
}
