//! What the tablet cache talks to: the Tablet Store as its interface describes it and the
//! untrusted blob storage.

use std::collections::{BTreeMap, HashMap, HashSet};

use prost::bytes::Bytes;
use tcp_tablet_store_service::apps::tablet_store::service::{
    tablet_op::Op, tablet_op_result::OpResult, *,
};

pub type Table = BTreeMap<u32, TabletMetadata>;

#[derive(Clone, Default)]
pub struct Store {
    pub tables: BTreeMap<String, Table>,
}

/// The tablet responsible for a key hash: the next one clockwise.
pub fn owner(table: &Table, key_hash: u32) -> u32 {
    *table
        .range(key_hash..)
        .next()
        .or_else(|| table.iter().next())
        .expect("model tables are never empty")
        .0
}

impl Store {
    pub fn create(tables: &[(String, Vec<u32>)]) -> Store {
        let mut store = Store::default();
        for (name, ids) in tables {
            let table = store.tables.entry(name.clone()).or_default();
            for id in ids {
                table.insert(*id, TabletMetadata { tablet_id: *id, ..Default::default() });
            }
        }
        store
    }

    /// All tablets responsible for keys in the range, wherever they are.
    fn list(table: &Table, from: u32, to: u32) -> Vec<TabletMetadata> {
        let mut ids = Vec::new();
        let mut ranges = vec![];
        if from < to {
            ranges.push((from, to));
        } else {
            ranges.push((from, u32::MAX));
            ranges.push((0, to));
        }
        for (from, to) in ranges {
            for id in table.range(from..=to).map(|(id, _)| *id) {
                ids.push(id);
            }
            ids.push(owner(table, to));
        }
        let mut seen = HashSet::new();
        ids.retain(|id| seen.insert(*id));
        ids.iter().map(|id| table[id].clone()).collect()
    }

    /// Executes a request as a single transaction, reports if it took effect.
    pub fn execute(&mut self, request: &TabletsRequest) -> (TabletsResponse, bool) {
        let mut results = Vec::new();
        let mut ok = true;
        let mut updated = HashSet::new();
        for op in &request.tablet_ops {
            let mut result = TabletOpResult {
                table_name: op.table_name.clone(),
                status: TabletOpStatus::Failed.into(),
                op_result: None,
            };
            match (self.tables.get(&op.table_name), &op.op) {
                (Some(table), Some(Op::ListTablet(list))) => {
                    result.status = TabletOpStatus::Succeeded.into();
                    result.op_result = Some(OpResult::ListTablet(ListTabletResult {
                        key_hash_from: list.key_hash_from,
                        key_hash_to: list.key_hash_to,
                        tablets: Self::list(table, list.key_hash_from, list.key_hash_to),
                    }));
                }
                (Some(table), Some(Op::CheckTablet(check))) => {
                    let mut existing = None;
                    if let Some(t) = table.get(&check.tablet_id) {
                        if t.tablet_version == check.tablet_version {
                            result.status = TabletOpStatus::Succeeded.into();
                        } else {
                            existing = Some(t.clone());
                        }
                    }
                    result.op_result =
                        Some(OpResult::CheckTablet(CheckTabletResult { existing_tablet: existing }));
                }
                (Some(table), Some(Op::UpdateTablet(update))) => {
                    let mut existing = None;
                    if let Some(m) = &update.tablet_metadata {
                        if let Some(t) = table.get(&m.tablet_id) {
                            if t.tablet_version.checked_add(1) == Some(m.tablet_version)
                                && updated.insert((op.table_name.clone(), m.tablet_id))
                            {
                                result.status = TabletOpStatus::Succeeded.into();
                            }
                            existing = Some(t.clone());
                        }
                    }
                    result.op_result = Some(OpResult::UpdateTablet(UpdateTabletResult {
                        existing_tablet: existing,
                    }));
                }
                _ => result.status = TabletOpStatus::Invalid.into(),
            }
            ok &= result.status == TabletOpStatus::Succeeded as i32;
            results.push(result);
        }
        if ok {
            for op in &request.tablet_ops {
                if let Some(Op::UpdateTablet(update)) = &op.op {
                    let m = update.tablet_metadata.clone().expect("update was prepared");
                    let table = self.tables.get_mut(&op.table_name).expect("table was prepared");
                    table.insert(m.tablet_id, m);
                }
            }
        }
        let status = if ok { TabletsRequestStatus::Succeeded } else { TabletsRequestStatus::Failed };
        (TabletsResponse { status: status.into(), tablet_results: results }, ok)
    }
}

/// Blob storage run by the untrusted host.
#[derive(Default)]
pub struct Blobs {
    pub blobs: HashMap<String, Bytes>,
}
