//! Contract storage, with fault control and access tracing.
use crate::util::Fnv;
use cosmwasm_std::{Order, Record, Storage};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ops::Bound;
use std::rc::Rc;

pub type Kv = BTreeMap<Vec<u8>, Vec<u8>>;

/// Payload of the panic that models running out of gas at a storage access.
pub struct OutOfGas;

/// Per-transaction fault control and counters.
#[derive(Default)]
pub struct Ctl {
    pub storage_ops: Cell<u64>,
    pub queries: Cell<u64>,
    pub msgs: Cell<u64>,
    pub oog_at: Cell<Option<u64>>,
    pub fail_query_at: Cell<Option<u64>>,
    pub fail_msg_at: Cell<Option<u64>>,
    pub quote_skew: Cell<i64>,
    pub exec_worse: Cell<u64>,
    pub fired: Cell<Option<&'static str>>,
    pub trace: RefCell<Fnv>,
    pub steps: Cell<u64>,
}

impl Ctl {
    pub fn op(&self, kind: u8, key: &[u8]) {
        let n = self.storage_ops.get();
        self.storage_ops.set(n + 1);
        {
            let mut t = self.trace.borrow_mut();
            t.add(&[kind]);
            t.add(key);
        }
        if self.oog_at.get() == Some(n) {
            self.fired.set(Some("out_of_gas"));
            std::panic::panic_any(OutOfGas);
        }
    }
    pub fn note(&self, b: &[u8]) {
        self.trace.borrow_mut().add(b);
    }
}

pub struct SimStorage {
    pub map: Kv,
    pub ctl: Rc<Ctl>,
}

impl Storage for SimStorage {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.ctl.op(b'r', key);
        let v = self.map.get(key).cloned();
        if let Some(v) = &v {
            self.ctl.note(v);
        }
        v
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        if value.is_empty() {
            panic!("TL;DR: Value must not be empty in Storage::set");
        }
        self.ctl.op(b'w', key);
        self.ctl.note(value);
        self.map.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.ctl.op(b'd', key);
        self.map.remove(key);
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        self.ctl.op(b's', start.unwrap_or_default());
        if let (Some(s), Some(e)) = (start, end) {
            if s > e {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |e| Bound::Excluded(e.to_vec()));
        let it = self.map.range((lo, hi));
        let f = move |(k, v): (&'a Vec<u8>, &'a Vec<u8>)| {
            self.ctl.op(b'n', k);
            (k.clone(), v.clone())
        };
        match order {
            Order::Ascending => Box::new(it.map(f)),
            Order::Descending => Box::new(it.rev().map(f)),
        }
    }
}
