//! protogen <repo> <stub-proto-dir> <out-dir>
//! Generates the Rust messages of the repository's .proto files, as the build
//! scripts of the Bazel build do with micro_rpc_build (options: btree maps and
//! the `bytes` lists read from each build.rs next to the proto).
use std::{fs, path::{Path, PathBuf}};

/// The `".pkg.Message".to_string()` literals of a build.rs.
fn bytes_list(build_rs: &Path) -> Vec<String> {
    let text = fs::read_to_string(build_rs).unwrap_or_default();
    text.split('"').skip(1).step_by(2).filter(|s| s.starts_with('.') && s.matches('.').count() > 2).map(str::to_string).collect()
}

const MICRO_RPC_SERVICE: &str = r#"
pub trait EndpointService {
    fn receive_message(&mut self, request: ReceiveMessageRequest) -> Result<ReceiveMessageResponse, ::micro_rpc::Status>;
}
pub struct EndpointServiceServer<S> { pub service: S }
impl<S: EndpointService> EndpointServiceServer<S> { pub fn new(service: S) -> Self { Self { service } } }
"#;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (repo, stub, out) = (PathBuf::from(&args[1]), PathBuf::from(&args[2]), PathBuf::from(&args[3]));
    fs::create_dir_all(&out).unwrap();
    if args.get(4).map(String::as_str) == Some("--stubs") {
        let mut c = prost_build::Config::new();
        c.btree_map(["."]).out_dir(&out);
        c.compile_protos(&[stub.join("eraftpb.proto")], &[stub.clone()]).unwrap();
        let oak = stub.join("oak");
        let mut c = prost_build::Config::new();
        c.btree_map(["."]).out_dir(&out);
        c.compile_protos(&["endorsement", "evidence", "reference_value"].map(|n| oak.join(format!("proto/attestation/{n}.proto")))
            .iter().chain([&oak.join("proto/session/session.proto")]).collect::<Vec<_>>(), &[oak.clone()]).unwrap();
        return;
    }
    let one = |proto: PathBuf, build_rs: PathBuf, includes: Vec<PathBuf>, out: &Path, oak: bool| {
        let mut c = prost_build::Config::new();
        c.btree_map(["."]).out_dir(out);
        let b = bytes_list(&build_rs);
        if !b.is_empty() { c.bytes(b.iter()); }
        if oak { c.extern_path(".oak", "::oak_proto_rust::oak"); }
        c.compile_protos(&[proto], &includes).unwrap();
    };
    one(repo.join("proto/src/endpoint.proto"), repo.join("proto/build.rs"), vec![repo.join("proto/src"), stub.join("oak")], &out, true);
    let f = out.join("trustedcompute.runtime.endpoint.rs");
    let mut t = fs::read_to_string(&f).unwrap();
    if t.contains("EndpointService") { panic!("unexpected service"); }
    t.push_str(MICRO_RPC_SERVICE);
    fs::write(&f, t).unwrap();
    let tonic = out.join("tonic");
    fs::create_dir_all(&tonic).unwrap();
    tonic_prost_build::configure().build_client(false).server_mod_attribute(".", "#[cfg(feature = \"tonic\")]")
        .out_dir(&tonic).extern_path(".oak", "::oak_proto_rust::oak").extern_path(".trustedcompute", "crate")
        .compile_protos(&[repo.join("proto/src/endpoint.proto")], &[repo.join("proto/src"), stub.join("oak")]).unwrap();
    for (dir, name) in [("apps/atomic_counter/service", "atomic_counter"), ("apps/tablet_store/service", "tablet_store"),
                        ("apps/tablet_cache/service", "tablet_cache"), ("apps/willow/decryptor/actor", "willow_decryptor")] {
        let d = repo.join(dir);
        one(d.join(format!("proto/{name}.proto")), d.join("build.rs"), vec![d.join("proto")], &out, false);
    }
}
