//! What a set of simulated runs covered. Every number is measured.
use crate::io::{kind, IoState};
use crate::json::J;
use crate::model::{RPlan, WPlan};
use crate::rng::Fp;
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub skipped: BTreeMap<String, u64>,
    /// Device operations simulated (the virtual clock).
    pub ticks: u64,
    pub bytes_in: u64,
    pub bytes_out: u64,
    pub steps: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub fps: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<J>,
    // current run
    fp: Option<Fp>,
    adv: u64,
    cur_steps: u64,
}

impl Stats {
    pub fn begin(&mut self) {
        self.fp = Some(Fp::new());
        self.adv = 0;
        self.cur_steps = 0;
    }
    /// Close the current run; true if it was non-trivial.
    pub fn end(&mut self) -> bool {
        let fp = self.fp.take().map_or(0, |f| f.0);
        self.fps.insert(fp);
        let nt = self.adv > 0 && self.cur_steps >= 3;
        if nt {
            self.nontrivial.insert(fp);
        }
        nt
    }
    pub fn probe(&mut self, k: &str) {
        self.add_probe(k, 1);
    }
    pub fn add_probe(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.probes.entry(k.into()).or_insert(0) += n;
        }
    }
    pub fn fault(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.into()).or_insert(0) += n;
            self.adv += n;
        }
    }
    pub fn mixin(&mut self, v: u64) {
        if let Some(f) = &mut self.fp {
            f.u(v);
        }
    }
    pub fn step(&mut self, n: usize) {
        self.steps += n as u64;
        self.cur_steps += n as u64;
        self.mixin(n as u64);
    }
    /// Account a simulated source.
    pub fn src(&mut self, st: &IoState, plan: &RPlan) {
        self.ticks += st.ticks.get();
        self.bytes_in += st.pulled.get();
        self.fault("read_interrupted", u64::from(st.eintr_fired.get()));
        self.fault("short_read", u64::from(st.short.get()));
        if let (Some(f), n) = (&plan.fault, st.fault_fired.get()) {
            if n > 0 {
                self.fault(&format!("read_error_{:?}", kind(f.kind)), u64::from(n));
                self.probe(match f.mode {
                    0 => "read_error_then_recovered_source",
                    1 => "read_error_permanent",
                    _ => "read_error_then_eof",
                });
            }
        }
        if !plan.tail.is_empty() && st.eof_seen.get() > 0 {
            self.fault("end_of_input_then_more", 1);
        }
        if st.blocked.get() > 0 {
            self.fault("peer_stalled", u64::from(st.blocked.get()));
        }
        self.mixin(st.fp.get());
    }
    /// Account a simulated sink.
    pub fn sink(&mut self, st: &IoState, plan: &WPlan) {
        self.ticks += st.ticks.get();
        self.bytes_out += st.pulled.get();
        self.fault("write_interrupted", u64::from(st.eintr_fired.get()));
        self.fault("short_write", u64::from(st.short.get()));
        if let (Some(f), n) = (&plan.fault, st.fault_fired.get()) {
            if n > 0 {
                let k = if f.kind == 255 { "write_accepts_nothing".to_string() } else { format!("write_error_{:?}", kind(f.kind)) };
                self.fault(&k, u64::from(n));
            }
        }
        self.mixin(st.fp.get());
    }
    pub fn merge(&mut self, j: &J) {
        self.evaluations += j.get("evaluations").int() as u64;
        self.ticks += j.get("ticks").int() as u64;
        self.bytes_in += j.get("bytes_in").int() as u64;
        self.bytes_out += j.get("bytes_out").int() as u64;
        self.steps += j.get("steps").int() as u64;
        for (n, m) in [("skipped", &mut self.skipped), ("faults", &mut self.faults), ("probes", &mut self.probes)] {
            if let J::Obj(o) = j.get(n) {
                for (k, v) in o {
                    *m.entry(k.clone()).or_insert(0) += v.int() as u64;
                }
            }
        }
        self.samples.extend(j.get("samples").arr().iter().cloned());
    }
    pub fn to_j(&self) -> J {
        let m = |m: &BTreeMap<String, u64>| {
            let mut o = J::obj();
            for (k, v) in m {
                o.set(k, J::Int(*v as i64));
            }
            o
        };
        J::obj()
            .with("evaluations", J::Int(self.evaluations as i64))
            .with("ticks", J::Int(self.ticks as i64))
            .with("bytes_in", J::Int(self.bytes_in as i64))
            .with("bytes_out", J::Int(self.bytes_out as i64))
            .with("steps", J::Int(self.steps as i64))
            .with("skipped", m(&self.skipped))
            .with("faults", m(&self.faults))
            .with("probes", m(&self.probes))
            .with("samples", J::Arr(self.samples.clone()))
    }
}
