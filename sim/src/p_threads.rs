//! C15: codecs with worker threads under seeded schedules, and source, sink and thread-creation
//! failures while the workers are busy.
use crate::codec::*;
use crate::enc::*;
use crate::input::*;
use crate::p_par::{any_sched, shrink_sched};
use crate::p_read::{delivery, kind, shrink_plan};
use crate::p_write::write_fault;
use crate::rng::{hash, mix2, Rng};
use crate::run::{self, Tier};
use crate::simio::*;
use crate::simos::{self, Policy, SchedCfg};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum What {
    Dec { fmt: String, input: Input, route: Route },
    Enc { job: Job },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct B15 {
    pub what: What,
    pub plan: IoPlan,
    /// place a failure knowing the healthy run
    #[serde(default)]
    pub fault_seed: u64,
    /// the n-th thread creation fails
    #[serde(default)]
    pub spawn_fail: u32,
    pub sched: SchedCfg,
}
fn b15(v: &Value) -> B15 {
    serde_json::from_value(v.clone()).expect("scenario body")
}
pub fn gen15(r: &mut Rng, _i: u64, t: Tier) -> Value {
    let big = t == Tier::Thorough && r.chance(1, 4);
    let what = match r.below(20) {
        0 => {
            let threads = r.below(5) as u8;
            let (w, h) = (r.range(1, 40) as u32, r.range(1, 40) as u32);
            What::Enc {
                job: Job { enc: Enc::Avif { speed: 10, q: *r.pick(&[10u8, 60, 90]), threads }, w, h, col: *r.pick(&[Col::Rgb8, Col::Rgba8, Col::L8, Col::Rgb16]), seed: r.u64(), route: WRoute::Encoder, icc: 0, buf: 0 },
            }
        }
        1..=9 => {
            let m = if big { 330 } else { 150 };
            let side = |r: &mut Rng| match r.below(4) {
                0 => r.range(1, 20) as u32,
                1 => r.range(60, 70) as u32,
                _ => r.range(1, m) as u32,
            };
            let (w, h) = (side(r), side(r));
            What::Enc {
                job: Job {
                    enc: Enc::Exr, w, h, col: *r.pick(&[Col::Rgb32F, Col::Rgba32F]), seed: r.u64(),
                    route: *r.pick(&[WRoute::Encoder, WRoute::Buffer, WRoute::DynTo, WRoute::Save]), icc: 0, buf: if r.chance(1, 4) { 700 } else { 0 },
                },
            }
        }
        _ => {
            let max = if big { 300 } else { *r.pick(&[20u32, 90, 150]) };
            let mut input = any_input(r, "exr", max);
            if r.chance(1, 4) {
                let n = r.range(1, 6) as usize;
                let len = input.bytes().len();
                input = Input::Mut { base: Box::new(input), edits: edits(r, "exr", len, n) };
            }
            What::Dec { fmt: "exr".into(), input, route: *r.pick(&[Route::Reader, Route::Boxed, Route::Concrete, Route::Load, Route::Open]) }
        }
    };
    let mut plan = if r.chance(1, 2) { cursor_plan() } else { delivery(r) };
    plan.seed = r.u64();
    let avif = matches!(&what, What::Enc { job } if matches!(job.enc, Enc::Avif { .. }));
    let mut sched = any_sched(r);
    if avif {
        sched.alloc_every *= 20;
    }
    serde_json::to_value(B15 {
        what,
        plan,
        fault_seed: if r.chance(2, 5) { r.u64() | 1 } else { 0 },
        spawn_fail: if !avif && r.chance(1, 6) { r.range(1, 4) as u32 } else { 0 },
        sched,
    })
    .unwrap()
}
pub fn shrink15(v: &Value) -> Vec<Value> {
    let b = b15(v);
    let mut out = vec![];
    let mut push = |b: B15| out.push(serde_json::to_value(b).unwrap());
    for s in shrink_sched(&b.sched) {
        push(B15 { sched: s, ..b.clone() });
    }
    match &b.what {
        What::Dec { fmt, input, route } => {
            for i in input.shrink() {
                push(B15 { what: What::Dec { fmt: fmt.clone(), input: i, route: *route }, ..b.clone() });
            }
        }
        What::Enc { job } => {
            for j in shrink_job(job) {
                push(B15 { what: What::Enc { job: j }, ..b.clone() });
            }
        }
    }
    for p in shrink_plan(&b.plan) {
        push(B15 { plan: p, ..b.clone() });
    }
    if b.fault_seed > 0 {
        push(B15 { fault_seed: 0, ..b.clone() });
    }
    if b.spawn_fail > 0 {
        push(B15 { spawn_fail: 0, ..b.clone() });
    }
    out
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Seen {
    ok: bool,
    end: String,
    panicked: bool,
    /// everything observable of a success
    digest: u64,
    len: u64,
    hit: bool,
    data_ops: u64,
    ops: u64,
    seek_ops: u64,
    flush_ops: u64,
    /// encoded bytes kept for decoding
    #[serde(skip)]
    bytes: Vec<u8>,
    #[serde(skip)]
    st: IoStats,
}
fn perform(b: &B15, plan: &IoPlan) -> Seen {
    let (end, digest, len, st, bytes) = match &b.what {
        What::Dec { fmt, input, route } => {
            let d = decode(fmt, *route, &Rc::new(input.bytes()), plan, &Opt::default(), false);
            (d.out.end.clone(), d.out.key(), d.out.bytes, d.st, vec![])
        }
        What::Enc { job } => {
            let o = encode(job, &job.pixels(), plan);
            let d = if matches!(job.enc, Enc::Exr) { hash(&exr_in_order(&o.bytes)) } else { hash(&o.bytes) };
            (o.end, d, o.bytes.len() as u64, o.st, o.bytes)
        }
    };
    Seen {
        ok: end.ok(),
        panicked: matches!(end, End::Panic(..)),
        end: end.tag(),
        digest,
        len,
        hit: st.hard + st.full > 0,
        data_ops: st.data_ops,
        ops: st.ops,
        seek_ops: st.seek_ops,
        flush_ops: st.flush_ops,
        bytes,
        st,
    }
}
/// The blocks of an OpenEXR file put in the order of its offset table.  The encoder writes them
/// with `LineOrder::Unspecified`: in the order in which the workers finished compressing them,
/// which the format allows and the exr crate documents.  Everything else has to be the same.
pub fn exr_in_order(b: &[u8]) -> Vec<u8> {
    fn zstr(b: &[u8], p: usize) -> Option<usize> {
        b.get(p..)?.iter().position(|c| *c == 0).map(|n| p + n + 1)
    }
    fn parse(b: &[u8]) -> Option<Vec<u8>> {
        let mut p = 8;
        while *b.get(p)? != 0 {
            p = zstr(b, zstr(b, p)?)?;
            let n = u32::from_le_bytes(b.get(p..p + 4)?.try_into().ok()?) as usize;
            p += 4 + n;
        }
        p += 1;
        let at = |i: usize| b.get(p + 8 * i..p + 8 * i + 8).map(|s| u64::from_le_bytes(s.try_into().unwrap()) as usize);
        // the table ends where the first block starts
        let mut table = vec![];
        let mut first = b.len();
        while p + 8 * table.len() < first {
            let o = at(table.len())?;
            first = first.min(o);
            table.push(o);
        }
        let mut sorted = table.clone();
        sorted.push(b.len());
        sorted.sort_unstable();
        let mut out = b[..p].to_vec();
        for o in table {
            let e = *sorted.iter().find(|x| **x > o)?;
            out.extend_from_slice(b.get(o..e)?);
        }
        Some(out)
    }
    parse(b).unwrap_or_else(|| b.to_vec())
}
pub fn exec15(v: &Value) {
    let mut b = b15(v);
    let site = match &b.what {
        What::Dec { fmt, route, .. } => format!("decode {fmt}|{route:?}"),
        What::Enc { job } => format!("encode {}|{:?}", job.enc.fmt(), job.route),
    };
    run::set_site(&site);
    run::bump(site.split('|').next().unwrap_or(""), 1);
    run::cpu_limit(40);
    let reading = matches!(b.what, What::Dec { .. });
    let input_len = match &b.what {
        What::Dec { input, .. } => input.bytes().len() as u64,
        _ => 0,
    };
    // alone, one processor, threads run until they block: in a process of its own
    let quiet = SchedCfg { seed: 1, policy: Policy::List(vec![]), cpus: 1, alloc_every: 0, spurious: 0, block_every: 0 };
    let b0 = b.clone();
    let alone = |plan: &IoPlan| -> Option<Seen> {
        run::forked(|| {
            simos::reconfigure(&quiet);
            run::ops_budget(40_000_000, "");
            serde_json::to_vec(&perform(&b0, plan)).unwrap()
        })
        .and_then(|d| serde_json::from_slice(&d).ok())
    };
    let ideal = IoPlan { faults: vec![], capacity: None, ..b.plan.clone() };
    let Some(base) = alone(&ideal) else {
        run::bump("baseline_died", 1);
        return run::eval(0, false);
    };
    run::bump(if base.ok { "ref_ok" } else { "ref_err" }, 1);
    if b.fault_seed > 0 {
        let mut r = Rng::new(b.fault_seed);
        if reading {
            let st = IoStats { ops: base.ops, data_ops: base.data_ops, seek_ops: base.seek_ops, ..IoStats::default() };
            b.plan.faults.push(crate::p_read::read_fault(&mut r, &st, input_len));
        } else {
            let st = IoStats { ops: base.ops, data_ops: base.data_ops, seek_ops: base.seek_ops, flush_ops: base.flush_ops, ..IoStats::default() };
            write_fault(&mut r, &st, base.len, &mut b.plan);
        }
        b.fault_seed = 0;
        let _ = kind;
    }
    run::concrete(serde_json::to_value(&b).unwrap());
    let faulty = !b.plan.faults.is_empty() || b.plan.capacity.is_some();
    let refr = if faulty { alone(&b.plan) } else { Some(base.clone()) };
    simos::reconfigure(&b.sched);
    simos::FAIL_SPAWN.store(b.spawn_fail as i32, std::sync::atomic::Ordering::Relaxed);
    run::ops_budget(40_000_000, "");
    let got = perform(&b, &b.plan);
    if b.spawn_fail > 0 && simos::FAIL_SPAWN.load(std::sync::atomic::Ordering::Relaxed) <= 0 {
        run::bump("thread_creation_failures", 1);
    }
    let st = simos::stats();
    run::io(&got.st, if reading { "read" } else { "write" });
    let desc = match &b.what {
        What::Dec { input, .. } => input.describe(),
        What::Enc { job } => job.describe(),
    };
    run::eval(mix2(hash(desc.as_bytes()), mix2(st.trace, got.st.trace)), st.threads > 1);
    run::sample(json!({"operation": site, "input": desc, "plan": b.plan, "sched": b.sched, "threads": st.threads, "switches": st.switches, "alone": refr.as_ref().map(|r| r.end.clone()), "observed": got.end}));
    if got.panicked && !base.panicked {
        return run::fail("panic", "", format!("{desc}: alone {}; scheduled {}", base.end, got.end));
    }
    if !got.hit {
        if got.ok != base.ok || (got.ok && got.digest != base.digest) {
            run::fail(
                if got.ok != base.ok { "schedule-dependent-success" } else { "schedule-dependent-result" },
                "",
                format!("{desc}: on one processor {} {} bytes {:016x}; under the schedule {} {} bytes {:016x}", base.end, base.len, base.digest, got.end, got.len, got.digest),
            );
        }
    } else {
        if let Some(r) = &refr {
            // the failure may be met in one schedule only after everything has been read
            if r.hit && r.ok != got.ok {
                run::fail("schedule-dependent-success", "fault", format!("{desc}: plan {:?}: on one processor {}; under the schedule {}", b.plan, r.end, got.end));
            }
        }
        if got.ok && (got.digest != base.digest) {
            run::fail("wrong-result-after-failure", "", format!("{desc}: plan {:?}: success with another result than without the failure", b.plan));
        }
    }
    // what was written decodes to the image, whatever the order of writing
    if let (What::Enc { job }, true) = (&b.what, got.ok && !got.hit) {
        if matches!(job.enc, Enc::Exr) {
            let d = decode("exr", Route::Reader, &Rc::new(got.bytes.clone()), &cursor_plan(), &Opt::default(), true);
            let px = job.pixels();
            if !d.out.end.ok() || d.out.data != px {
                run::fail("not-read-back", "", format!("{desc}: the file written under this schedule decodes to {}", d.out.short()));
            }
        }
    }
}
