//! C03: only true statements are accepted.
use crate::e2e::{compile, Built, Meta};
use crate::pipe::*;
use crate::report::*;
use crate::rng::Rng;
use crate::with_config;
use expander_compiler::circuit::layered::witness::{Witness, WitnessValues};
use expander_compiler::circuit::layered::{Circuit, NormalInputType};
use expander_compiler::expander_binary::executor;
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::{ChallengeField, CircuitField, Config};
use expander_compiler::serdes::ExpSerde;
use jstprove_circuits::runner::main_runner as mr;
use jstprove_circuits::runner::verify_extract as ve;
use serde_json::json;

struct Setup<C: Config> {
    md: Model,
    meta: Meta,
    b: Built,
    lay: Circuit<C, NormalInputType>,
    acts: Vec<f64>,
    witness: Vec<u8>,
    proof: Vec<u8>,
    tag: String,
}

/// Scalar (private, public) values of a one-witness file.
fn values<C: Config>(bytes: &[u8]) -> Option<(Vec<CircuitField<C>>, Vec<CircuitField<C>>)> {
    let w = mr::load_witness_from_bytes::<C>(bytes).ok()?;
    let first = w.iter_scalar().next();
    first
}

fn rebuild<C: Config>(like: &[u8], private: Vec<CircuitField<C>>, public: Vec<CircuitField<C>>) -> Option<Vec<u8>> {
    let w0 = mr::load_witness_from_bytes::<C>(like).ok()?;
    let n = w0.num_witnesses;
    let mut vals = vec![];
    for _ in 0..n {
        vals.extend(private.iter().copied());
        vals.extend(public.iter().copied());
    }
    let w = Witness::<C> { num_witnesses: n, num_inputs_per_witness: private.len(), num_public_inputs_per_witness: public.len(), values: WitnessValues::Scalar(vals) };
    let mut out = vec![];
    w.serialize_into(&mut out).ok()?;
    Some(out)
}

fn satisfied<C: Config>(lay: &Circuit<C, NormalInputType>, w: &[u8]) -> Result<bool, String> {
    flatten(guarded(|| mr::load_witness_from_bytes::<C>(w).map(|w| lay.run(&w).iter().all(|x| *x))))
}

/// Is the proof accepted? Errors and refusals count as rejection; a panic is reported.
fn accepted<C: Config>(circuit: &[u8], w: &[u8], proof: &[u8]) -> Result<bool, String> {
    match guarded(|| mr::verify_from_bytes::<C>(circuit, w, proof)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(_)) => Ok(false),
        Err(p) => Err(p),
    }
}

/// The verdict of every other verifier entry point.
fn verdicts<C: Config>(circuit: &[u8], w: &[u8], proof: &[u8], n: usize) -> Vec<(&'static str, bool)> {
    let mut out = vec![];
    let mut put = |k: &'static str, r: Result<Result<ve::VerifiedOutput, jstprove_circuits::runner::errors::RunError>, String>| {
        out.push((k, matches!(r, Ok(Ok(v)) if v.valid)));
    };
    put("extract", guarded(|| ve::verify_and_extract_from_bytes::<C>(circuit, w, proof, n, None)));
    if let Ok(lay) = mr::load_circuit_from_bytes::<C>(circuit) {
        put("layered", guarded(|| ve::verify_and_extract_with_layered::<C>(&lay, w, proof, n, None)));
        let mut flat = lay.export_to_expander_flatten();
        put("flat-ref", guarded(|| ve::verify_and_extract_with_flat_ref::<C>(&flat, w, proof, n, None)));
        put("flat", guarded(|| ve::verify_and_extract_with_flat::<C>(&mut flat, w, proof, n, None)));
        put("flat again", guarded(|| ve::verify_and_extract_with_flat::<C>(&mut flat, w, proof, n, None)));
    }
    out
}

/// Every entry point must reach the verdict `want`.
fn agree<C: Config>(c: &mut Case, cfg: &str, s: &Setup<C>, circuit: &[u8], w: &[u8], proof: &[u8], want: bool, what: &str) -> R {
    for (k, v) in verdicts::<C>(circuit, w, proof, s.acts.len()) {
        crate::check!(v == want, format!("entry-points-disagree-{k}"), "{cfg}: {what}: {k} says {v}, want {want}; {}", s.tag);
    }
    c.ev(if want { "all entry points accept" } else { "all entry points reject" });
    Ok(())
}

fn build<C: Config>(c: &mut Case, r: &mut Rng) -> Option<Setup<C>> {
    for _ in 0..20 {
        let steps = r.us(1, 3);
        let d = *r.pick(&[2, 3, 4, 5]);
        let Some(md) = draw(r, &Want { ops: crate::complete::MULTI, steps, max_numel: 10, digits: d, amp: 0.5, grid: false }) else { continue };
        if in_domain(&md.m, &md.env).is_err() {
            continue;
        }
        let Ok(meta) = get_meta(c, &md.m, r, d) else { continue };
        let Ok(b) = flatten(compile::<C>(&meta)) else { continue };
        let acts = acts_of(&md);
        let Ok(wb) = witness::<C>(&b, &meta, &acts, false) else { continue };
        let lay = mr::load_circuit_from_bytes::<C>(&b.circuit).ok()?;
        if satisfied::<C>(&lay, &wb.witness) != Ok(true) {
            continue;
        }
        let Ok(proof) = flatten(guarded(|| mr::prove_from_bytes::<C>(&b.circuit, &wb.witness, false))) else { continue };
        if accepted::<C>(&b.circuit, &wb.witness, &proof) != Ok(true) {
            continue;
        }
        let tag = format!("{} at 2^{}; {}", md.m.nodes.iter().map(|n| n.op.as_str()).collect::<Vec<_>>().join("+"), md.alpha_bits, md.m.summary().replace('\n', ";"));
        return Some(Setup { md, meta, b, lay, acts, witness: wb.witness, proof, tag });
    }
    None
}

/// The proof with its commitment re-encoded (its length prefix has several encodings).
fn canonical<C: Config>(proof: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    use gkr_engine::{ExpanderPCS, GKREngine};
    let (p, v) = executor::load_proof_and_claimed_v::<ChallengeField<C>>(proof).ok()?;
    let mut cur = std::io::Cursor::new(&p.bytes);
    let com = <<C as GKREngine>::PCSConfig as ExpanderPCS<<C as GKREngine>::FieldConfig>>::Commitment::deserialize_from(&mut cur).ok()?;
    let mut out = vec![];
    com.serialize_into(&mut out).ok()?;
    out.extend_from_slice(&p.bytes[cur.position() as usize..]);
    let mut vb = vec![];
    v.serialize_into(&mut vb).ok()?;
    Some((out, vb))
}

fn mutate(r: &mut Rng, p: &[u8]) -> (String, Vec<u8>) {
    let mut q = p.to_vec();
    let n = q.len();
    let what = match r.below(8) {
        0 | 1 | 2 => {
            let i = r.us(0, n - 1);
            let b = r.below(8);
            q[i] ^= 1 << b;
            format!("bit {b} of byte {i} of {n} flipped")
        }
        3 => {
            // the last bytes carry the claimed value
            let i = n - 1 - r.us(0, 39.min(n - 1));
            let x = 1 + r.below(255) as u8;
            q[i] = q[i].wrapping_add(x);
            format!("{x} added to byte {i} of {n}")
        }
        4 => {
            let k = r.us(0, n - 1);
            q.truncate(k);
            format!("cut to {k} of {n} bytes")
        }
        5 => {
            let i = r.us(0, n - 1);
            let l = r.us(1, 32).min(n - i);
            for x in &mut q[i..i + l] {
                *x = 0;
            }
            format!("{l} bytes zeroed at {i} of {n}")
        }
        6 => {
            let l = r.us(1, 16).min(n / 2);
            let i = r.us(0, n - l);
            let j = r.us(0, n - l);
            let a = q[i..i + l].to_vec();
            let b = q[j..j + l].to_vec();
            q[i..i + l].copy_from_slice(&b);
            if i.abs_diff(j) >= l {
                q[j..j + l].copy_from_slice(&a);
            }
            format!("{l} bytes at {i} and {j} exchanged")
        }
        _ => {
            let i = r.us(0, n - 1);
            let l = r.us(1, 8).min(n - i);
            q.drain(i..i + l);
            format!("{l} bytes removed at {i} of {n}")
        }
    };
    (what, q)
}

fn proof_bytes<C: Config>(c: &mut Case, cfg: &str, r: &mut Rng) -> R {
    let Some(s) = build::<C>(c, r) else {
        c.ev("draw without a model");
        return Ok(());
    };
    let want = canonical::<C>(&s.proof);
    agree::<C>(c, cfg, &s, &s.b.circuit, &s.witness, &s.proof, true, "an honest proof")?;
    for _ in 0..24 {
        let (what, q) = mutate(r, &s.proof);
        if q == s.proof {
            continue;
        }
        match accepted::<C>(&s.b.circuit, &s.witness, &q) {
            Ok(false) => {
                c.ev("altered proof rejected");
                if r.chance(1, 8) {
                    agree::<C>(c, cfg, &s, &s.b.circuit, &s.witness, &q, false, &what)?;
                }
            }
            Ok(true) => {
                crate::check!(canonical::<C>(&q) == want, format!("altered-proof-accepted-{cfg}"), "{cfg}: {what}; still accepted; {}", s.tag);
                c.ev("other encoding of the same proof accepted");
            }
            Err(p) => {
                c.ev("altered proof: panic");
                if std::env::var("SHOWERR").is_ok() {
                    println!("PANIC {cfg} {what}: {p}");
                }
            }
        }
        c.seen_str(&format!("{cfg}{what}{}", s.tag));
    }
    Ok(())
}

fn statement<C: Config>(c: &mut Case, cfg: &str, r: &mut Rng) -> R {
    let Some(s) = build::<C>(c, r) else {
        c.ev("draw without a model");
        return Ok(());
    };
    let Some((private, public)) = values::<C>(&s.witness) else { return Ok(()) };
    let cv = executor::load_proof_and_claimed_v::<ChallengeField<C>>(&s.proof).map(|x| x.1);
    if let Ok(v) = cv {
        c.ev(if v == ChallengeField::<C>::default() { "claimed value zero" } else { "claimed value not zero" });
    }
    c.ev(if s.lay.num_actual_outputs == s.lay.expected_num_output_zeroes { "all outputs are zeros" } else { "some outputs are values" });
    for _ in 0..6 {
        let i = r.below(public.len());
        let mut p2 = public.clone();
        let d = match r.below(4) {
            0 => CircuitField::<C>::from(1u32),
            1 => CircuitField::<C>::ZERO - CircuitField::<C>::from(1u32),
            2 => CircuitField::<C>::from(2u32 << r.below(20)),
            _ => CircuitField::<C>::from(r.u64() as u32 | 1),
        };
        p2[i] += d;
        let Some(w2) = rebuild::<C>(&s.witness, private.clone(), p2) else { continue };
        if satisfied::<C>(&s.lay, &w2) != Ok(false) {
            c.ev("altered input the model does not use");
            crate::check!(i < s.acts.len(), "unconstrained-public-value", "{cfg}: public value {i} of {} (output or scale) can be changed without violating the circuit; {}", public.len(), s.tag);
            continue;
        }
        match accepted::<C>(&s.b.circuit, &w2, &s.proof) {
            Ok(false) => {
                c.ev("altered public value rejected");
                agree::<C>(c, cfg, &s, &s.b.circuit, &w2, &s.proof, false, "an altered public value")?;
            }
            Ok(true) => return bad(format!("altered-public-value-accepted-{cfg}"), format!("{cfg}: public value {i} of {} changed; still accepted; {}", public.len(), s.tag)),
            Err(p) => return bad(format!("altered-public-value-panic-{cfg}"), format!("{p}; {}", s.tag)),
        }
        // A proof made from the false statement.
        let proof2 = match flatten(guarded(|| mr::prove_from_bytes::<C>(&s.b.circuit, &w2, false))) {
            Ok(p) => p,
            Err(_) => {
                c.ev("prover refuses an unsatisfied witness");
                continue;
            }
        };
        match accepted::<C>(&s.b.circuit, &w2, &proof2) {
            Ok(false) => {
                c.ev("proof of a false statement rejected");
                agree::<C>(c, cfg, &s, &s.b.circuit, &w2, &proof2, false, "a proof of a false statement")?;
            }
            Ok(true) => return bad("unsatisfied-witness-accepted", format!("{cfg}: a proof made from a witness that violates the circuit (public value {i} changed) is accepted; {}", s.tag)),
            Err(p) => return bad(format!("false-statement-panic-{cfg}"), format!("{p}; {}", s.tag)),
        }
        // Claim that every constraint holds all the same.
        if let Ok((p, _)) = executor::load_proof_and_claimed_v::<ChallengeField<C>>(&proof2) {
            if let Ok(p3) = executor::dump_proof_and_claimed_v(&p, &ChallengeField::<C>::default()) {
                crate::check!(accepted::<C>(&s.b.circuit, &w2, &p3) != Ok(true), format!("zero-claim-accepted-{cfg}"), "{cfg}: a proof of a false statement with its claimed value set to zero is accepted; {}", s.tag);
                c.ev("false statement with a zero claim rejected");
            }
        }
        c.seen_str(&format!("{cfg}{i}{}", s.tag));
    }
    let _ = (&s.md, &s.meta, &s.acts, ve::extract_outputs_from_witness);
    if c.sample.is_none() {
        c.sample = Some(json!({"config": cfg, "model": s.tag.chars().take(160).collect::<String>(), "public_values": public.len()}));
    }
    Ok(())
}

/// A proof belongs to one inference of one model.
fn other<C: Config>(c: &mut Case, cfg: &str, r: &mut Rng) -> R {
    let Some(s) = build::<C>(c, r) else {
        c.ev("draw without a model");
        return Ok(());
    };
    // Another inference of the same model.
    let acts2: Vec<f64> = s.acts.iter().map(|&x| if x.abs() < 0.9 { x + 0.0625 } else { x - 0.125 }).collect();
    if let Ok(w2) = witness::<C>(&s.b, &s.meta, &acts2, false) {
        let differ = values::<C>(&w2.witness).map(|x| x.1) != values::<C>(&s.witness).map(|x| x.1);
        if differ && satisfied::<C>(&s.lay, &w2.witness) == Ok(true) {
            if let Ok(p2) = flatten(guarded(|| mr::prove_from_bytes::<C>(&s.b.circuit, &w2.witness, false))) {
                crate::check!(accepted::<C>(&s.b.circuit, &w2.witness, &p2) == Ok(true), format!("second-inference-rejected-{cfg}"), "{cfg}: {}", s.tag);
                for (w, p, what) in [(&s.witness, &p2, "the proof of another inference"), (&w2.witness, &s.proof, "a proof offered for another inference")] {
                    crate::check!(accepted::<C>(&s.b.circuit, w, p) != Ok(true), format!("other-inference-accepted-{cfg}"), "{cfg}: {what} is accepted; {}", s.tag);
                    agree::<C>(c, cfg, &s, &s.b.circuit, w, p, false, what)?;
                    c.ev("proof of another inference rejected");
                }
            }
        }
    }
    // The same model with one weight changed.
    let mut m2 = s.md.m.clone();
    let mut changed = None;
    let idx: Vec<usize> = (0..m2.inits.len()).filter(|&i| !m2.inits[i].1.f.is_empty()).collect();
    for _ in 0..4 {
        if idx.is_empty() {
            break;
        }
        let i = *r.pick(&idx);
        let k = r.below(m2.inits[i].1.f.len());
        let old = m2.inits[i].1.f[k];
        m2.inits[i].1.f[k] = old + 0.25;
        let ins: std::collections::HashMap<String, vmodel::exec::V> = m2.inputs.iter().map(|i| (i.name.clone(), s.md.env[&i.name].clone())).collect();
        if let Ok(env) = vmodel::exec::run(&m2, &ins) {
            let a: Vec<f64> = m2.outputs.iter().flat_map(|o| env[&o.name].floats()).collect();
            let b = want_outputs(&s.md);
            if a.len() == b.len() && a.iter().zip(&b).any(|(x, y)| (x - y).abs() > 0.05) && in_domain(&m2, &env).is_ok() {
                changed = Some(format!("element {k} of {} from {old} to {}", m2.inits[i].0, old + 0.25));
                break;
            }
        }
        m2.inits[i].1.f[k] = old;
    }
    let Some(what) = changed else {
        c.ev("no weight to change");
        return Ok(());
    };
    let Ok(meta2) = get_meta(c, &m2, r, s.md.digits) else { return Ok(()) };
    let Ok(b2) = flatten(compile::<C>(&meta2)) else { return Ok(()) };
    let lay2 = mr::load_circuit_from_bytes::<C>(&b2.circuit).map_err(|e| Bad { sig: "circuit-does-not-load".into(), why: format!("{e:?}") })?;
    crate::check!(
        satisfied::<C>(&lay2, &s.witness) != Ok(true) || !same_size(&s.lay, &lay2),
        "other-weights-satisfied",
        "the witness of one model satisfies the circuit of the model with {what}; {}",
        s.tag
    );
    crate::check!(accepted::<C>(&b2.circuit, &s.witness, &s.proof) != Ok(true), format!("other-weights-accepted-{cfg}"), "{cfg}: the proof is accepted for the circuit with {what}; {}", s.tag);
    agree::<C>(c, cfg, &s, &b2.circuit, &s.witness, &s.proof, false, "a circuit with other weights")?;
    if let Ok(p2) = flatten(guarded(|| mr::prove_from_bytes::<C>(&b2.circuit, &s.witness, false))) {
        crate::check!(accepted::<C>(&b2.circuit, &s.witness, &p2) != Ok(true), format!("other-weights-proof-accepted-{cfg}"), "{cfg}: a proof of another model's inference is accepted, with {what}; {}", s.tag);
    }
    c.ev("circuit with other weights rejected");
    c.seen_str(&format!("{cfg}{what}{}", s.tag));
    Ok(())
}
fn same_size<C: Config>(a: &Circuit<C, NormalInputType>, b: &Circuit<C, NormalInputType>) -> bool {
    a.input_size() == b.input_size() && a.num_public_inputs == b.num_public_inputs
}

/// Public values chosen after the challenges: the outputs are altered so that the
/// violations cancel in the claimed evaluation. Only a verifier whose challenges
/// depend on the public values rejects this.
fn cancelling(c: &mut Case) -> R {
    type C = expander_compiler::frontend::BN254Config;
    let mut r = c.rng.clone();
    for _ in 0..20 {
        let Some(s) = build::<C>(c, &mut r) else { continue };
        let Some((private, public)) = values::<C>(&s.witness) else { continue };
        let (n_in, n_out) = (s.acts.len(), want_outputs(&s.md).len());
        if n_out < 2 {
            continue;
        }
        let pick = |r: &mut Rng| n_in + r.below(n_out);
        let i = pick(&mut r);
        let j = (i + 1 - n_in) % n_out + n_in;
        let mut claim = |d: &[(usize, CircuitField<C>)]| -> Option<(Vec<u8>, Vec<u8>, CircuitField<C>)> {
            let mut p = public.clone();
            for (k, v) in d {
                p[*k] += *v;
            }
            let w = rebuild::<C>(&s.witness, private.clone(), p)?;
            let proof = flatten(guarded(|| mr::prove_from_bytes::<C>(&s.b.circuit, &w, false))).ok()?;
            let v = executor::load_proof_and_claimed_v::<ChallengeField<C>>(&proof).ok()?.1;
            let v: CircuitField<C> = v;
            Some((w, proof, v))
        };
        let one = CircuitField::<C>::ONE;
        let (Some((_, _, ai)), Some((_, _, aj))) = (claim(&[(i, one)]), claim(&[(j, one)])) else { continue };
        let Some(inv) = aj.inv() else { continue };
        let dj = CircuitField::<C>::ZERO - ai * inv;
        let Some((w, proof, v)) = claim(&[(i, one), (j, dj)]) else { continue };
        c.ev(if v == CircuitField::<C>::ZERO { "violations cancel in the claim" } else { "violations do not cancel in the claim" });
        if satisfied::<C>(&s.lay, &w) != Ok(false) {
            continue;
        }
        if accepted::<C>(&s.b.circuit, &w, &proof) == Ok(true) {
            return bad("public-values-not-in-transcript", format!("outputs {} and {} altered after the challenges so that their errors cancel: the proof of the false statement is accepted; {}", i - n_in, j - n_in, s.tag));
        }
        c.ev("cancelling outputs rejected");
        c.seen_str(&s.tag);
        return Ok(());
    }
    c.ev("draw without a model");
    Ok(())
}

fn f_other(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let cfg = c.idx as usize % 6;
    with_config!(cfg, C, other::<C>(c, CONFIGS[cfg], &mut r))
}
fn f_proof(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let cfg = c.idx as usize % 6;
    with_config!(cfg, C, proof_bytes::<C>(c, CONFIGS[cfg], &mut r))
}
fn f_statement(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let cfg = c.idx as usize % 6;
    with_config!(cfg, C, statement::<C>(c, CONFIGS[cfg], &mut r))
}

pub fn c03() -> Spec {
    Spec {
        id: "C03",
        level: "exploration",
        rule: "one execution per altered proof, public value or circuit offered to the verifier",
        assumptions: &["elliptic-curve groups are replaced by an ideal group model; the configurations tested use none of their pairings", "another encoding of the same proof (the width of a length prefix) is not an alteration"],
        require: &[("altered proof rejected", 500), ("altered public value rejected", 100), ("proof of a false statement rejected", 100), ("false statement with a zero claim rejected", 100), ("proof of another inference rejected", 30), ("circuit with other weights rejected", 3), ("cancelling outputs rejected", 4), ("all entry points accept", 20), ("all entry points reject", 200)],
        families: vec![
            Family { name: "proof_bytes", quick: 36, thorough: 600, f: f_proof },
            Family { name: "statement", quick: 36, thorough: 600, f: f_statement },
            Family { name: "other", quick: 36, thorough: 600, f: f_other },
            Family { name: "cancelling", quick: 8, thorough: 100, f: cancelling },
        ],
    }
}
