//! What differs between the stores.
use std::collections::BTreeMap;
use std::io::Cursor;
use std::path::Path;
use std::sync::Arc;

use openraft::storage::RaftLogStorage;
use openraft::storage::RaftStateMachine;
use openraft::Entry;
use openraft::LogId;
use openraft::RaftTypeConfig;
use openraft::StoredMembership;

pub struct State<C: RaftTypeConfig> {
    pub ap: Option<LogId<C::NodeId>>,
    pub mem: StoredMembership<C>,
    pub kv: BTreeMap<String, String>,
}

pub trait Kind: 'static {
    type C: RaftTypeConfig<NodeId = u64, Entry = Entry<Self::C>, SnapshotData = Cursor<Vec<u8>>, D = Self::D, R = Self::R, Node = Self::N>;
    type D: openraft::AppData + Clone;
    type R: openraft::AppDataResponse;
    type N: openraft::Node;
    type L: RaftLogStorage<Self::C>;
    type M: RaftStateMachine<Self::C>;
    /// What a write returns: the value before ("prev"), or the value written ("val").
    const RES: &'static str;
    /// Whether the state machine itself is on disk when `apply` returns.
    const DISK: bool;
    fn open(dir: &Path) -> impl std::future::Future<Output = (Self::L, Self::M)>;
    fn data(k: &str, v: &str) -> Self::D;
    fn undata(d: &Self::D) -> (String, String);
    fn res(r: &Self::R) -> Option<String>;
    fn snap(data: &[u8]) -> State<Self::C>;
    /// The data of the state machine, where it can be looked at.
    fn kv(_: &Self::M) -> impl std::future::Future<Output = Option<BTreeMap<String, String>>> {
        async { None }
    }
}

pub struct Mem;
impl Kind for Mem {
    type C = openraft_memstore::TypeConfig;
    type D = openraft_memstore::ClientRequest;
    type R = openraft_memstore::ClientResponse;
    type N = ();
    type L = Arc<openraft_memstore::MemLogStore>;
    type M = Arc<openraft_memstore::MemStateMachine>;
    const RES: &'static str = "prev";
    const DISK: bool = false;
    async fn open(_: &Path) -> (Self::L, Self::M) {
        openraft_memstore::new_mem_store()
    }
    fn data(k: &str, v: &str) -> Self::D {
        openraft_memstore::ClientRequest { client: k.to_string(), serial: 1, status: v.to_string() }
    }
    fn undata(d: &Self::D) -> (String, String) {
        (d.client.clone(), d.status.clone())
    }
    fn res(r: &Self::R) -> Option<String> {
        r.0.clone()
    }
    fn snap(data: &[u8]) -> State<Self::C> {
        let s: openraft_memstore::MemStoreStateMachine = serde_json::from_slice(data).unwrap();
        State { ap: s.last_applied_log, mem: s.last_membership, kv: s.client_status.into_iter().collect() }
    }
    async fn kv(m: &Self::M) -> Option<BTreeMap<String, String>> {
        Some(m.get_state_machine().await.client_status.into_iter().collect())
    }
}

pub struct Rocks;
impl Kind for Rocks {
    type C = openraft_rocksstore::TypeConfig;
    type D = openraft_rocksstore::RocksRequest;
    type R = openraft_rocksstore::RocksResponse;
    type N = openraft::BasicNode;
    type L = openraft_rocksstore::RocksLogStore;
    type M = openraft_rocksstore::RocksStateMachine;
    const RES: &'static str = "val";
    const DISK: bool = false;
    async fn open(dir: &Path) -> (Self::L, Self::M) {
        openraft_rocksstore::new(dir).await
    }
    fn data(k: &str, v: &str) -> Self::D {
        openraft_rocksstore::RocksRequest::Set { key: k.to_string(), value: v.to_string() }
    }
    fn undata(d: &Self::D) -> (String, String) {
        let openraft_rocksstore::RocksRequest::Set { key, value } = d;
        (key.clone(), value.clone())
    }
    fn res(r: &Self::R) -> Option<String> {
        r.value.clone()
    }
    fn snap(data: &[u8]) -> State<Self::C> {
        let s: openraft_rocksstore::StateMachine = serde_json::from_slice(data).unwrap();
        State { ap: s.last_applied_log, mem: s.last_membership, kv: s.data }
    }
}

pub struct Sled;
impl Kind for Sled {
    type C = openraft_sledstore::TypeConfig;
    type D = openraft_sledstore::ExampleRequest;
    type R = openraft_sledstore::ExampleResponse;
    type N = openraft::BasicNode;
    type L = Arc<openraft_sledstore::SledStore>;
    type M = Arc<openraft_sledstore::SledStore>;
    const RES: &'static str = "val";
    const DISK: bool = true;
    async fn open(dir: &Path) -> (Self::L, Self::M) {
        let db = match sled::Config::new().path(dir).flush_every_ms(None).cache_capacity(4 << 20).segment_size(super::segment()).open() {
            Ok(db) => db,
            Err(sled::Error::Corruption { .. } | sled::Error::Unsupported(_)) => std::process::exit(78),
            Err(e) => panic!("{}", e),
        };
        openraft_sledstore::SledStore::new(Arc::new(db)).await
    }
    fn data(k: &str, v: &str) -> Self::D {
        openraft_sledstore::ExampleRequest::Set { key: k.to_string(), value: v.to_string() }
    }
    fn undata(d: &Self::D) -> (String, String) {
        let openraft_sledstore::ExampleRequest::Set { key, value } = d;
        (key.clone(), value.clone())
    }
    fn res(r: &Self::R) -> Option<String> {
        r.value.clone()
    }
    fn snap(data: &[u8]) -> State<Self::C> {
        let s: openraft_sledstore::SerializableExampleStateMachine = serde_json::from_slice(data).unwrap();
        State { ap: s.last_applied_log, mem: s.last_membership, kv: s.data }
    }
    async fn kv(m: &Self::M) -> Option<BTreeMap<String, String>> {
        let sm = m.state_machine.read().await;
        Some((1..=5).map(|k| format!("k{}", k)).filter_map(|k| sm.get(&k).unwrap().map(|v| (k, v))).collect())
    }
}
