//! C04: the constraints of a circuit admit no other result than the honest one.
//! The solver's hints (the values a prover may choose freely) are replaced by forged
//! ones, everything that depends on them is recomputed, and the constraints are checked.
use crate::complete::digits_for;
use crate::e2e::{compile, Built, Meta};
use crate::pipe::*;
use crate::report::*;
use crate::rng::Rng;
use expander_compiler::circuit::ir::hint_normalized::Instruction;
use expander_compiler::circuit::layered::{Circuit as Layered, NormalInputType};
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::{declare_circuit, CircuitField, CompileOptions, Config, Define, GoldilocksConfig, HintRegistry, RootAPI, Variable, WitnessSolver};
use expander_compiler::hints::registry::{hint_key_to_id, HintCaller};
use expander_compiler::hints::{impl_builtin_hint, BuiltinHintIds};
use expander_compiler::utils::error::Error;
use jstprove_circuits::circuit_functions::gadgets::LogupRangeCheckContext;
use jstprove_circuits::circuit_functions::hints::build_logup_hint_registry;
use jstprove_circuits::runner::main_runner as mr;
use serde_json::json;
use std::cell::Cell;
use std::sync::Mutex;

type G = GoldilocksConfig;
type F = CircuitField<G>;
const OFF: usize = 1 << 24;

/// One recorded hint call.
#[derive(Clone)]
struct Call {
    id: usize,
    args: Vec<F>,
    out: Vec<F>,
}
/// Forged outputs: call number and the values it returns instead (relative or absolute).
#[derive(Clone)]
struct Forged {
    at: usize,
    k: usize,
    how: How,
}
#[derive(Clone, Copy)]
enum How {
    Add(F),
    Set(F),
}

struct Caller {
    reg: HintRegistry<F>,
    forged: Vec<Forged>,
    log: Mutex<(usize, Vec<Call>)>,
}
impl HintCaller<F> for Caller {
    fn call(&self, id: usize, args: &[F], n: usize) -> Result<Vec<F>, Error> {
        let mut out = match BuiltinHintIds::from_usize(id.wrapping_sub(OFF)) {
            Some(b) => {
                if matches!(b, BuiltinHintIds::ToBinary) && n < 256 && args[0].to_u256() >> (n as u32) != ethnum::U256::ZERO {
                    return Err(Error::UserError("to_binary hint input too large".into()));
                }
                impl_builtin_hint(b, args, n)
            }
            None => self.reg.call(id, args, n)?,
        };
        let mut g = self.log.lock().expect("log");
        let at = g.0;
        g.0 += 1;
        for f in self.forged.iter().filter(|f| f.at == at) {
            let k = f.k % out.len();
            out[k] = match f.how {
                How::Add(d) => out[k] + d,
                How::Set(v) => v,
            };
        }
        if self.forged.is_empty() {
            g.1.push(Call { id: if id >= OFF && BuiltinHintIds::from_usize(id - OFF).is_some() { id - OFF } else { id }, args: args.to_vec(), out: out.clone() });
        }
        Ok(out)
    }
}

/// Send builtin hints through the caller as well.
fn reroute(s: &mut WitnessSolver<G>) {
    for c in s.circuit.circuits.values_mut() {
        for i in &mut c.instructions {
            if let Instruction::Hint { hint_id, .. } = i {
                if BuiltinHintIds::from_usize(*hint_id).is_some() {
                    *hint_id += OFF;
                }
            }
        }
    }
}

fn f_i(x: i64) -> F {
    if x >= 0 {
        F::from_u256(ethnum::U256::from(x as u64))
    } else {
        F::ZERO - F::from_u256(ethnum::U256::from(x.unsigned_abs()))
    }
}
fn between(r: &mut Rng, lo: i64, hi: i64) -> i64 {
    lo + (r.u64() % ((hi - lo) as u64 + 1)) as i64
}
fn i_f(x: F) -> f64 {
    field_signed::<G>(x)
}

struct Setup {
    md: Model,
    meta: Meta,
    lay: Layered<G, NormalInputType>,
    solver: WitnessSolver<G>,
    private: Vec<F>,
    public: Vec<F>,
    acts: usize,
    n_out: usize,
    honest: Vec<F>,
    calls: Vec<Call>,
    tag: String,
}

/// Both passes of witness generation with some hints forged: the outputs, and whether the constraints hold.
fn solve(s: &Setup, forged: &[Forged]) -> Result<(Vec<F>, bool, Vec<Call>), String> {
    flatten(guarded(|| {
        let (n_in, n) = (s.acts, s.n_out);
        let mut public = s.public.clone();
        public[n_in..n_in + n].fill(F::ZERO);
        let caller = Caller { reg: build_logup_hint_registry::<F>(), forged: forged.to_vec(), log: Mutex::new((0, vec![])) };
        let w = s.solver.solve_witness_from_raw_inputs(s.private.clone(), public.clone(), &caller).map_err(|e| format!("probe {e:?}"))?;
        let (pr, pb) = w.iter_scalar().next().ok_or("empty witness")?;
        let (out, _) = s.lay.eval_with_public_inputs(pr, &pb);
        let out = out[..n].to_vec();
        public[n_in..n_in + n].copy_from_slice(&out);
        caller.log.lock().expect("log").0 = 0;
        caller.log.lock().expect("log").1.clear();
        let w = s.solver.solve_witness_from_raw_inputs(s.private.clone(), public, &caller).map_err(|e| format!("final {e:?}"))?;
        let ok = s.lay.run(&w).iter().all(|x| *x);
        let calls = std::mem::take(&mut caller.log.lock().expect("log").1);
        Ok::<_, String>((out, ok, calls))
    }))
}

fn setup(c: &mut Case, ops: &[&'static str], r: &mut Rng, change: &dyn Fn(&mut Rng, &mut Model) -> bool) -> Option<Setup> {
    for _ in 0..20 {
        let mut d = digits_for(ops, r);
        if ops.iter().any(|o| LOOKUP.contains(o) && !matches!(*o, "Sin" | "Cos")) && r.chance(1, 3) {
            d = 5;
        }
        let Some(mut md) = draw(r, &Want { ops, steps: ops.len(), max_numel: 10, digits: d, amp: 1.0, grid: true }) else { continue };
        if ops.len() > 1 && !ops.iter().all(|o| md.m.nodes.iter().any(|n| n.op == *o)) {
            continue;
        }
        if !change(r, &mut md) || in_domain(&md.m, &md.env).is_err() {
            continue;
        }
        let Ok(meta) = get_meta(c, &md.m, r, d) else { continue };
        let Ok(Built { circuit, solver }) = flatten(compile::<G>(&meta)) else { continue };
        let Ok(assign) = flatten(guarded(|| jstprove_circuits::onnx::build_debug_assignment::<G>(&circuit, &solver, &meta.params, &acts_of(&md)))) else { continue };
        let lay = mr::load_circuit_from_bytes::<G>(&circuit).ok()?;
        let mut solver = mr::load_witness_solver_from_bytes::<G>(&solver).ok()?;
        reroute(&mut solver);
        let (mut private, mut public) = (vec![], vec![]);
        assign.dump_into(&mut private, &mut public);
        let (acts, n_out) = (acts_of(&md).len(), want_outputs(&md).len());
        let tag = format!("{} at 2^{}; {}", ops.join(","), md.alpha_bits, md.m.summary().replace('\n', ";"));
        let mut s = Setup { md, meta, lay, solver, private, public, acts, n_out, honest: vec![], calls: vec![], tag };
        match solve(&s, &[]) {
            Ok((out, true, calls)) => {
                s.honest = out;
                s.calls = calls;
                return Some(s);
            }
            _ => c.ev("honest inference without a witness"),
        }
    }
    None
}

fn hint_name(id: usize) -> String {
    if let Some(b) = BuiltinHintIds::from_usize(id) {
        return match b {
            BuiltinHintIds::IntDiv => "IntDiv".into(),
            BuiltinHintIds::Mod => "Mod".into(),
            BuiltinHintIds::ToBinary => "ToBinary".into(),
            BuiltinHintIds::Div => "Div".into(),
            BuiltinHintIds::ShiftR => "ShiftR".into(),
            BuiltinHintIds::BitAnd => "BitAnd".into(),
            _ => format!("builtin{}", id & 0xff),
        };
    }
    format!("hint{:x}", id & 0xffff)
}

/// A way to forge one call, possibly together with a related one.
fn forgery(r: &mut Rng, calls: &[Call], at: usize, scale: i64) -> (String, Vec<Forged>) {
    let c = &calls[at];
    let k = r.below(c.out.len());
    let o = c.out[k];
    let name = hint_name(c.id);
    let deltas = [1, -1, 2, scale / 16, -scale / 16, scale / 4, -scale / 4, scale, -scale, 1 << 32, -(1 << 32), scale * 3];
    let is = |id: usize, b: BuiltinHintIds| id == b as usize;
    // A quotient and its remainder, kept consistent.
    if is(c.id, BuiltinHintIds::IntDiv) && r.chance(1, 2) {
        if let Some(j) = (at.saturating_sub(3)..(at + 4).min(calls.len())).find(|&j| is(calls[j].id, BuiltinHintIds::Mod) && calls[j].args == c.args) {
            let d = *r.pick(&deltas);
            return (
                format!("{name} at {at} {d:+} with its remainder"),
                vec![Forged { at, k: 0, how: How::Add(f_i(d)) }, Forged { at: j, k: 0, how: How::Add(F::ZERO - f_i(d) * c.args[1]) }],
            );
        }
    }
    // The remainder changed, and the quotient with it as an element of the field.
    if is(c.id, BuiltinHintIds::IntDiv) && r.chance(1, 2) {
        if let Some(j) = (at.saturating_sub(3)..(at + 4).min(calls.len())).find(|&j| is(calls[j].id, BuiltinHintIds::Mod) && calls[j].args == c.args) {
            let d = if r.bool() { between(r, -scale, scale) } else { *r.pick(&[1, -1, 2, -2, 3]) };
            if let Some(inv) = c.args[1].inv() {
                return (
                    format!("{name} at {at} by a fraction, its remainder by {d:+}"),
                    vec![Forged { at, k: 0, how: How::Add(F::ZERO - f_i(d) * inv) }, Forged { at: j, k: 0, how: How::Add(f_i(d)) }],
                );
            }
        }
    }
    // Two results of one call, changed so that a product of two of them makes up for the first.
    if c.out.len() > 1 && r.chance(1, 2) {
        let (k2, k3) = (r.below(c.out.len()), r.below(c.out.len()));
        let d = *r.pick(&deltas);
        let by = if r.chance(2, 3) { f_i(d) * f_i(scale) * c.out[k3].inv().unwrap_or(F::ONE) } else { F::ZERO - f_i(d) };
        return (
            format!("{name} result {k} at {at} {d:+} and result {k2} to match"),
            vec![Forged { at, k, how: How::Add(f_i(d)) }, Forged { at, k: k2, how: How::Add(by) }],
        );
    }
    let (what, how) = match r.below(8) {
        // A fraction: a result times its divisor stays almost the same.
        6 | 7 => {
            let other = r.pick(calls).out.first().copied().unwrap_or(F::ONE);
            let v = match r.below(5) {
                0 => f_i(scale * *r.pick(&[1, 2, 3, 6])),
                1 => other,
                2 | 3 => other + f_i(scale),
                _ => f_i(scale * 2) * (other + f_i(scale)),
            };
            let d = *r.pick(&[1, -1, 2, 5]);
            ("by a fraction".to_string(), How::Add(f_i(d) * v.inv().unwrap_or(F::ONE)))
        }
        0 if !c.args.is_empty() => {
            let v = *r.pick(&c.args);
            ("replaced by one of its arguments".to_string(), How::Set(v))
        }
        1 => {
            let v = *r.pick(calls).out.first().unwrap_or(&F::ZERO);
            ("replaced by another hint's result".to_string(), How::Set(v))
        }
        2 => ("negated".to_string(), How::Set(F::ZERO - o)),
        3 => ("one minus it".to_string(), How::Set(F::ONE - o)),
        _ => {
            let d = if r.chance(1, 4) { between(r, -(scale * 2), scale * 2) } else { *r.pick(&deltas) };
            (format!("{d:+}"), How::Add(f_i(d)))
        }
    };
    // The same call made elsewhere gets the same forged value.
    let mut v = vec![];
    let same = r.chance(1, 2);
    for (j, x) in calls.iter().enumerate() {
        if j == at || (same && x.id == c.id && x.args == c.args) {
            v.push(Forged { at: j, k, how });
        }
    }
    (format!("{name} result {k} at {at} {what}"), v)
}

/// Results that may differ without being wrong, in units of the model's values.
fn slack(s: &Setup, ops: &[&str]) -> f64 {
    if ops.iter().all(|op| UNSCALED.contains(op)) {
        return 0.5;
    }
    let alpha = f64::from(2u32).powi(s.md.alpha_bits as i32);
    alpha * 0.03 + 64.0
}

fn attack(c: &mut Case, s: &Setup, ops: &[&str], op: &str, r: &mut Rng, n: usize) -> R {
    let scale = 1i64 << s.md.alpha_bits;
    let lim = slack(s, ops);
    // Hints by identity, so that rare ones are forged as often as frequent ones.
    let mut ids: Vec<usize> = s.calls.iter().map(|x| x.id).collect();
    ids.sort_unstable();
    ids.dedup();
    let skip: Vec<usize> = skipped();
    ids.retain(|i| !skip.contains(i));
    if ids.is_empty() {
        c.ev("no hints: everything is determined by the inputs");
        c.seen_str(&s.tag);
        return Ok(());
    }
    for _ in 0..n {
        let id = *r.pick(&ids);
        let at: Vec<usize> = (0..s.calls.len()).filter(|&i| s.calls[i].id == id).collect();
        let j = *r.pick(&at);
        let (what, f) = forgery(r, &s.calls, j, scale);
        match solve(s, &f) {
            Err(_) => c.ev("forged hint: the solver refuses"),
            Ok((_, false, _)) => c.ev("forged hint: constraints violated"),
            Ok((out, true, _)) => {
                let worst = out.iter().zip(&s.honest).map(|(a, b)| i_f(*a - *b).abs()).fold(0.0f64, f64::max);
                if worst == 0.0 {
                    c.ev("forged hint: same result");
                    continue;
                }
                crate::check!(
                    worst <= lim,
                    format!("forged-result-{op}"),
                    "{what}: the constraints hold with a result off by {worst} grid steps (honest {:?}); {}",
                    s.honest.iter().take(6).map(|x| i_f(*x)).collect::<Vec<_>>(),
                    s.tag
                );
                c.ev("forged hint: result within the tolerance");
            }
        }
        c.seen_str(&format!("{what}{}", s.tag));
    }
    Ok(())
}

/// Lookup multiplicities: they do not carry values.
fn skipped() -> Vec<usize> {
    ["myhint.querycounthint", "myhint.querycountbykeyhint"].iter().map(|k| hint_key_to_id(k)).collect()
}

fn one(c: &mut Case, ops: &[&'static str], label: &str, n: usize, change: &dyn Fn(&mut Rng, &mut Model) -> bool) -> R {
    let mut r = c.rng.clone();
    let Some(s) = setup(c, ops, &mut r, change) else {
        c.ev("draw without a model");
        return Ok(());
    };
    c.ev(&format!("op {label}"));
    attack(c, &s, ops, label, &mut r, n)?;
    let _ = &s.meta;
    if c.sample.is_none() {
        c.sample = Some(json!({"op": label, "scale_bits": s.md.alpha_bits, "hint_calls": s.calls.len()}));
    }
    Ok(())
}
fn ops(c: &mut Case) -> R {
    let op = OPS[c.idx as usize % OPS.len()];
    let n = if LOOKUP.contains(&op) { 24 } else { 40 };
    one(c, &[op], op, n, &|_, _| true)
}

/// Operators followed by one that may share their rescaling.
fn fused(c: &mut Case) -> R {
    let a = *c.rng.clone().pick(&["Conv", "Gemm", "Mul", "MatMul", "BatchNormalization", "ConvTranspose"]);
    let b = ["Relu", "Clip", "MaxPool", "Relu", "LeakyRelu", "Max"][c.idx as usize % 6];
    one(c, &[a, b], &format!("{a}+{b}"), 30, &|_, _| true)
}

fn rerun(md: &mut Model, ins: &std::collections::HashMap<String, vmodel::exec::V>) -> bool {
    match vmodel::exec::run(&md.m, ins) {
        Ok(env) => {
            md.env = env;
            true
        }
        Err(_) => false,
    }
}
fn inputs_of(md: &Model) -> std::collections::HashMap<String, vmodel::exec::V> {
    md.m.inputs.iter().map(|i| (i.name.clone(), md.env[&i.name].clone())).collect()
}

/// Powers with other exponents than the generator's.
fn powers(c: &mut Case) -> R {
    let e = [4.0, 5.0, 6.0, 7.0, 8.0][c.idx as usize % 5];
    one(c, &["Pow"], &format!("Pow({e})"), 40, &|_, md| {
        let name = md.m.nodes[0].inputs[1].clone();
        let Some((_, t)) = md.m.inits.iter_mut().find(|(n, _)| *n == name) else { return false };
        t.f.iter_mut().for_each(|x| *x = e);
        let ins = inputs_of(md);
        rerun(md, &ins)
    })
}

/// GridSample whose sampling grid is an input of the model: a recorded finding.
fn grid(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let s = setup(c, &["GridSample"], &mut r, &|_, md| {
        let name = md.m.nodes[0].inputs[1].clone();
        let Some(p) = md.m.inits.iter().position(|(n, _)| *n == name) else { return false };
        let mut ins = inputs_of(md);
        ins.insert(name.clone(), md.env[&name].clone());
        md.m.inits.remove(p);
        let mut i = md.m.inputs[0].clone();
        i.dims = Some(ins[&name].shape.iter().map(|&d| vmodel::ir::Dim::V(d as i64)).collect());
        i.name = name;
        md.m.inputs.push(i);
        rerun(md, &ins)
    });
    let Some(s) = s else {
        c.ev("draw without a model");
        return Ok(());
    };
    c.ev("op GridSample-dynamic");
    let scale = 1i64 << s.md.alpha_bits;
    // The sampled result moved, and one of the values it is interpolated from with it.
    for (at, call) in s.calls.iter().enumerate().filter(|(_, x)| x.out.len() == 9) {
        for i in 0..4 {
            let Some(inv) = call.out[5 + i].inv() else { continue };
            let d = scale / 2 - field_signed::<G>(call.out[0]) as i64;
            let f = [Forged { at, k: 0, how: How::Add(f_i(d)) }, Forged { at, k: 1 + i, how: How::Add(f_i(d) * f_i(scale) * inv) }];
            if let Ok((out, true, _)) = solve(&s, &f) {
                if out.iter().zip(&s.honest).any(|(a, b)| i_f(*a - *b).abs() > slack(&s, &["GridSample"])) {
                    return bad("gridsample-dynamic-corners", format!("corner {i} of call {at}: results {:?} instead of {:?}; {}", out.iter().map(|x| i_f(*x)).collect::<Vec<_>>(), s.honest.iter().map(|x| i_f(*x)).collect::<Vec<_>>(), s.tag));
                }
            }
            c.ev("forged corner without effect");
        }
    }
    attack(c, &s, &["GridSample"], "GridSample-dynamic", &mut r, 24)
}

thread_local! {
    static WIDTH: Cell<(usize, usize)> = const { Cell::new((8, 8)) };
}
declare_circuit!(RangeCircuit { x: [Variable], one: [PublicVariable; 1] });
impl Define<G> for RangeCircuit<Variable> {
    fn define<B: RootAPI<G>>(&self, api: &mut B) {
        let (bits, chunk) = WIDTH.with(Cell::get);
        let mut ctx = LogupRangeCheckContext::new(chunk);
        ctx.init::<G, B>(api);
        for &x in &self.x {
            ctx.range_check::<G, B>(api, x, bits).expect("range check");
        }
        ctx.finalize::<G, B>(api);
        api.assert_is_equal(self.one[0], 1);
    }
}

/// A range check admits exactly the values below its bound.
fn range(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let (bits, chunk) = (r.us(1, 30), r.us(2, 10));
    let n = r.us(1, 4);
    WIDTH.with(|w| w.set((bits, chunk)));
    let circ = RangeCircuit::<Variable> { x: vec![Variable::default(); n], one: [Variable::default(); 1] };
    let res = match flatten(guarded(|| expander_compiler::frontend::compile::<G, _>(&circ, CompileOptions::default()).map_err(|e| format!("{e:?}")))) {
        Ok(x) => x,
        Err(e) => return bad("range-check-does-not-compile", format!("width {bits}, chunks of {chunk}: {e}")),
    };
    let (lay, mut solver) = (res.layered_circuit, res.witness_solver);
    reroute(&mut solver);
    let top = 1u64 << bits;
    let run = |x: &[F], forged: &[Forged]| -> Result<(bool, Vec<Call>), String> {
        flatten(guarded(|| {
            let a = RangeCircuit::<F> { x: x.to_vec(), one: [F::ONE] };
            let caller = Caller { reg: build_logup_hint_registry::<F>(), forged: forged.to_vec(), log: Mutex::new((0, vec![])) };
            let w = solver.solve_witness_with_hints(&a, &caller).map_err(|e| format!("{e:?}"))?;
            let ok = lay.run(&w).iter().all(|x| *x);
            let calls = std::mem::take(&mut caller.log.lock().expect("log").1);
            Ok::<_, String>((ok, calls))
        }))
    };
    let inside = |r: &mut Rng| -> F {
        let v = match r.below(5) {
            0 => 0,
            1 => top - 1,
            2 => top / 2,
            3 => (1u64 << r.us(0, bits)) - 1,
            _ => r.u64() % top,
        };
        F::from_u256(ethnum::U256::from(v))
    };
    for _ in 0..6 {
        let xs: Vec<F> = (0..n).map(|_| inside(&mut r)).collect();
        let tag = format!("width {bits}, chunks of {chunk}, values {:?}", xs.iter().map(|x| i_f(*x)).collect::<Vec<_>>());
        let calls = match run(&xs, &[]) {
            Ok((true, calls)) => calls,
            Ok((false, _)) => return bad("range-check-refuses-inside", tag),
            Err(e) => return bad("range-check-refuses-inside", format!("{e}; {tag}")),
        };
        c.ev("inside accepted");
        for _ in 0..4 {
            let d = match r.below(8) {
                0 => -1,
                1 => -(1i64 << r.us(0, 40)),
                2 => top as i64,
                3 => (top as i64) << r.us(0, 12),
                4 => top as i64 + between(&mut r, 0, 100),
                5 => -between(&mut r, 1, top as i64),
                6 => -(top as i64) * between(&mut r, 1, 64),
                _ => between(&mut r, top as i64, i64::MAX / 4),
            };
            let mut ys = xs.clone();
            ys[r.below(n)] = f_i(d);
            let tag = format!("width {bits}, chunks of {chunk}, value {d}");
            let mut tries: Vec<Vec<Forged>> = vec![vec![]];
            for _ in 0..4 {
                let at = r.below(calls.len());
                tries.push(forgery(&mut r, &calls, at, 1 << chunk).1);
                // replay the digits of an inside value
                tries.push(calls.iter().enumerate().flat_map(|(at, x)| x.out.iter().enumerate().map(move |(k, v)| Forged { at, k, how: How::Set(*v) })).collect());
            }
            for f in tries {
                match run(&ys, &f) {
                    Ok((true, _)) => return bad("range-check-admits-outside", format!("{tag}, {} forged hints", f.len())),
                    Ok((false, _)) => c.ev("outside: constraints violated"),
                    Err(_) => c.ev("outside: the solver refuses"),
                }
            }
            c.seen_str(&tag);
        }
    }
    Ok(())
}

pub fn c04() -> Spec {
    Spec {
        id: "C04",
        level: "exploration",
        rule: "one execution per forged hint (or value offered to a range check) that was solved and checked; distinct by model and forgery",
        assumptions: &["a forged value is followed by an honest recomputation of everything that depends on it", "lookup multiplicities are not forged"],
        require: &[("forged hint: constraints violated", 500), ("inside accepted", 50), ("outside: constraints violated", 50)],
        families: vec![
            Family { name: "range", quick: 60, thorough: 600, f: range },
            Family { name: "ops", quick: 56 * 9, thorough: 56 * 60, f: ops },
            Family { name: "fused", quick: 60, thorough: 600, f: fused },
            Family { name: "powers", quick: 30, thorough: 300, f: powers },
            Family { name: "dynamic_grid", quick: 2, thorough: 6, f: grid },
        ],
    }
}
