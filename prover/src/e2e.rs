//! The pipeline from a model file to a verified proof, driven through the public API.
use crate::report::*;
use crate::rng::{hash_str, Rng};
use expander_compiler::circuit::layered;
use expander_compiler::serdes::ExpSerde;
use expander_compiler::frontend::{CircuitField, Config, HintRegistry, WitnessSolver};
use jstprove_circuits::circuit_functions::utils::onnx_model::{Architecture, CircuitParams, WANDB};
use jstprove_circuits::io::io_reader::onnx_context::OnnxContext;
use jstprove_circuits::runner::main_runner as mr;
use vmodel::exec::{self, V};
use vmodel::gen::{Cfg, Gen};
use vmodel::ir::M;

pub struct Meta {
    pub params: CircuitParams,
    pub arch: Architecture,
    pub wandb: WANDB,
}

/// Static shapes everywhere and initializers only among the initializers.
pub fn plain(g: &mut Gen) {
    let inits: std::collections::HashSet<String> = g.m.inits.iter().map(|(n, _)| n.clone()).collect();
    g.m.inputs.retain(|i| !inits.contains(&i.name));
    let env = &g.env;
    for o in g.m.outputs.iter_mut().chain(g.m.inputs.iter_mut()) {
        o.dims = Some(env[&o.name].shape.iter().map(|&d| vmodel::ir::Dim::V(d as i64)).collect());
    }
}

pub fn metadata(c: &Case, m: &M, r: &mut Rng, digits: Option<u32>) -> Result<Result<Meta, String>, String> {
    let d = c.scratch();
    let p = d.join("m.onnx");
    std::fs::write(&p, vmodel::pb::model(m, r)).expect("write");
    guarded(|| {
        let x = match digits {
            None => jstprove_circuits::expander_metadata::generate_from_onnx(&p),
            Some(d) => jstprove_circuits::expander_metadata::generate_from_onnx_for_field(&p, 62, Some(d)),
        };
        x
            .map(|x| Meta { params: x.circuit_params, arch: x.architecture, wandb: x.wandb })
            .map_err(|e| format!("{e:#}"))
    })
}

pub struct Built {
    pub circuit: Vec<u8>,
    pub solver: Vec<u8>,
}

pub fn compile<C: Config>(meta: &Meta) -> Result<Result<Built, String>, String> {
    use expander_compiler::frontend::{compile, CompileOptions, Variable};
    use jstprove_circuits::runner::main_runner::ConfigurableCircuit;
    guarded(|| {
        OnnxContext::set_all(meta.arch.clone(), meta.params.clone(), Some(meta.wandb.clone()));
        let mut circuit = jstprove_circuits::onnx::Circuit::<Variable>::default();
        circuit.configure().map_err(|e| format!("{e:?}"))?;
        let res = compile::<C, _>(&circuit, CompileOptions::default()).map_err(|e| format!("{e:?}"))?;
        let mut b = Built { circuit: vec![], solver: vec![] };
        res.layered_circuit.serialize_into(&mut b.circuit).map_err(|e| format!("{e:?}"))?;
        res.witness_solver.serialize_into(&mut b.solver).map_err(|e| format!("{e:?}"))?;
        Ok(b)
    })
}

pub fn proto() -> Spec {
    Spec { id: "P", level: "exploration", rule: "", assumptions: &[], require: &[], families: vec![Family { name: "ops", quick: 400, thorough: 4000, f: proto_ops }] }
}

pub fn flat_inputs(m: &M, env: &std::collections::HashMap<String, V>) -> Vec<f64> {
    m.inputs.iter().flat_map(|i| env[&i.name].floats()).collect()
}

fn proto_ops(c: &mut Case) -> R {
    use expander_compiler::frontend::GoldilocksConfig as C;
    let mut r = c.rng.clone();
    let mut cfg = Cfg { fold: false, const_nodes: false, batch_one: true, amp: 1.0, max_numel: 40, max_rank: 4, min_rank: 2, ..Cfg::default() };
    cfg.wild = false;
    let ops = vmodel::gen::ALL_OPS;
    let op = ops[c.idx as usize % ops.len()];
    let mut g = Gen::new(r.clone(), cfg);
    g.random_inputs();
    let mut ok = false;
    for _ in 0..20 {
        if g.step(op) {
            ok = true;
            break;
        }
    }
    g.finish();
    plain(&mut g);
    if !ok {
        println!("{op}: nogen");
        return Ok(());
    }
    let m = g.m.clone();
    let t0 = std::time::Instant::now();
    let meta = match metadata(c, &m, &mut r, std::env::var("DIG").ok().and_then(|d| d.parse().ok())) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            println!("{op}: META-ERR {}", e.replace('\n', " "));
            return Ok(());
        }
        Err(p) => {
            println!("{op}: META-PANIC {}", p.replace('\n', " "));
            return Ok(());
        }
    };
    if std::env::var("DBG").is_ok() { println!("W {:?}\nA {:?}\nP {:?}", meta.wandb, meta.arch, meta.params); }
    let b = match compile::<C>(&meta) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            println!("{op}: COMPILE-ERR {}", e.replace('\n', " "));
            return Ok(());
        }
        Err(p) => {
            println!("{op}: COMPILE-PANIC {} {:?}", p.replace('\n', " "), m.summary().replace('\n', ";"));
            return Ok(());
        }
    };
    let t1 = t0.elapsed().as_millis();
    if std::env::var("POS").is_ok() { let neg = std::env::var("NEG").is_ok(); for i in &m.inputs { let v = g.env.get_mut(&i.name).unwrap(); for f in &mut v.f { *f = f.abs() * 4.0 + 0.05; if neg { *f = -*f; } } } let ins = m.inputs.iter().map(|i| (i.name.clone(), g.env[&i.name].clone())).collect(); g.env = exec::run(&m, &ins).unwrap(); }
    let acts = flat_inputs(&m, &g.env);
    let w = guarded(|| jstprove_circuits::onnx::witness_from_f64_generic::<C>(&b.circuit, &b.solver, &meta.params, &acts, &[], false).map_err(|e| format!("{e:?}")));
    let wb = match w {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            println!("{op}: WITNESS-ERR {} {}", e.replace('\n', " "), m.summary().replace('\n', ";"));
            return Ok(());
        }
        Err(p) => {
            println!("{op}: WITNESS-PANIC {}", p.replace('\n', " "));
            return Ok(());
        }
    };
    let t2 = t0.elapsed().as_millis();
    let alpha = f64::from(meta.params.scale_base).powi(meta.params.scale_exponent as i32);
    let out = wb.output_data.clone().unwrap_or_default();
    let want: Vec<f64> = m.outputs.iter().flat_map(|o| g.env[&o.name].floats()).collect();
    let lay = mr::load_circuit_from_bytes::<C>(&b.circuit).unwrap();
    let wit = mr::load_witness_from_bytes::<C>(&wb.witness).unwrap();
    println!("OUTS {} {} last layer {:?}", lay.num_actual_outputs, lay.expected_num_output_zeroes, lay.segments[*lay.layer_ids.last().unwrap()].num_outputs);
    let sat = guarded(|| lay.run(&wit));
    if std::env::var("DBGE").is_ok() && !matches!(&sat, Ok(v) if v.iter().all(|b| *b)) {
        use expander_compiler::frontend::{extra::debug_eval, Variable};
        use jstprove_circuits::runner::main_runner::ConfigurableCircuit;
        OnnxContext::set_all(meta.arch.clone(), meta.params.clone(), Some(meta.wandb.clone()));
        let mut circuit = jstprove_circuits::onnx::Circuit::<Variable>::default();
        circuit.configure().unwrap();
        let a = jstprove_circuits::onnx::build_debug_assignment::<C>(&b.circuit, &b.solver, &meta.params, &acts).unwrap();
        println!("acts {acts:?} nbits {:?}", meta.params.n_bits_config);
        std::panic::set_hook(Box::new(|i| println!("{i}\n{}", std::backtrace::Backtrace::force_capture())));
        let x = debug_eval::<C, _, _, _>(&circuit, &a, jstprove_circuits::circuit_functions::hints::build_logup_hint_registry::<CircuitField<C>>());
        println!("debug_eval ok {}", x.len());
    }
    let proof = guarded(|| mr::prove_from_bytes::<C>(&b.circuit, &wb.witness, false).unwrap());
    let t3 = t0.elapsed().as_millis();
    let v = match &proof {
        Ok(p) => format!("{:?} {}", guarded(|| mr::verify_from_bytes::<C>(&b.circuit, &wb.witness, p)), p.len()),
        Err(e) => format!("PROVE-PANIC {e}"),
    };
    let t4 = t0.elapsed().as_millis();
    let err = if out.len() == want.len() {
        let e = out.iter().zip(&want).map(|(a, b)| (*a as f64 / alpha - b).abs()).fold(0.0, f64::max);
        format!("err {e:.2e}")
    } else {
        format!("LEN {} vs {}", out.len(), want.len())
    };
    println!("{op}: sat {sat:?} verify {v} {err} times {t1} {t2} {t3} {t4} circ {} | {}", b.circuit.len(), m.summary().replace('\n', ";").chars().take(200).collect::<String>());
    let _ = (hash_str("x"), exec::numel(&[]));
    Ok(())
}
#[allow(dead_code)]
fn unused<C: Config>(_: layered::Circuit<C, layered::NormalInputType>, _: HintRegistry<CircuitField<C>>, _: WitnessSolver<C>) {}
