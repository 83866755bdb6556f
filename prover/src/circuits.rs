//! C07: random circuit programs. The compiled circuit accepts a run exactly when a direct
//! interpreter of the program does, with the interpreter's outputs.
use crate::check;
use crate::report::*;
use crate::rng::{hash_bytes, hash_str, Rng};
use arith::Field;
use ethnum::U256;
use expander_compiler::frontend::*;
use expander_compiler::utils::error::Error;
use jstprove_circuits::runner::main_runner as mr;
use serdes::ExpSerde;
use std::cell::RefCell;
use std::rc::Rc;

/// One step; operands are register numbers.
#[derive(Clone, Debug)]
pub enum S {
    Add(usize, usize), Sub(usize, usize), Mul(usize, usize), Neg(usize),
    AddK(usize, u32), SubK(u32, usize), MulK(usize, u32), Lin(Vec<(usize, u32)>, u32),
    Const(u32),
    Bool(u8, usize, usize),
    Div(usize, usize, bool), Inv(usize), IsZero(usize),
    Bits(usize, usize), FromBits(Vec<usize>),
    Gt(usize, usize), Geq(usize, usize),
    AZero(usize), ANonZero(usize), ABool(usize), AEq(usize, usize), ADiff(usize, usize), AEqK(usize, u32),
    RandEq(usize, usize),
    U(u8, usize, usize), Uid(usize),
    Hint(usize, usize),
    Call(usize, Vec<usize>),
}
#[derive(Clone, Debug)]
pub struct Sub { pub n_in: usize, pub steps: Vec<S>, pub outs: Vec<usize> }
#[derive(Clone, Debug, Default)]
pub struct Prog { pub n_in: usize, pub n_pub: usize, pub steps: Vec<S>, pub outs: Vec<usize>, pub subs: Vec<Sub> }

thread_local! { static PROG: RefCell<Rc<Prog>> = RefCell::new(Rc::new(Prog::default())); }

declare_circuit!(Circ { x: [Variable], p: [PublicVariable], o: [PublicVariable] });

fn sub_call<C: Config, B: RootAPI<C>, const K: usize>(api: &mut B, v: &Vec<Variable>) -> Vec<Variable> {
    let p = PROG.with(|p| p.borrow().clone());
    let s = &p.subs[K];
    let mut regs = v.clone();
    for st in &s.steps { apply(api, st, &mut regs) }
    s.outs.iter().map(|&i| regs[i]).collect()
}

fn apply<C: Config, B: RootAPI<C>>(api: &mut B, st: &S, r: &mut Vec<Variable>) {
    let v = match st {
        S::Add(a, b) => api.add(r[*a], r[*b]),
        S::Sub(a, b) => api.sub(r[*a], r[*b]),
        S::Mul(a, b) => api.mul(r[*a], r[*b]),
        S::Neg(a) => api.neg(r[*a]),
        S::AddK(a, k) => api.add(r[*a], *k),
        S::SubK(k, a) => api.sub(*k, r[*a]),
        S::MulK(a, k) => api.mul(*k, r[*a]),
        S::Lin(ts, k) => {
            let mut acc = api.constant(*k);
            for (a, k) in ts { let t = api.mul(r[*a], *k); acc = api.add(acc, t); }
            acc
        }
        S::Const(k) => api.constant(*k),
        S::Bool(0, a, b) => api.xor(r[*a], r[*b]),
        S::Bool(1, a, b) => api.or(r[*a], r[*b]),
        S::Bool(_, a, b) => api.and(r[*a], r[*b]),
        S::Div(a, b, c) => api.div(r[*a], r[*b], *c),
        S::Inv(a) => api.inverse(r[*a]),
        S::IsZero(a) => api.is_zero(r[*a]),
        S::Bits(a, n) => { let bs = api.to_binary(r[*a], *n); r.extend(bs); return }
        S::FromBits(xs) => { let xs: Vec<_> = xs.iter().map(|&i| r[i]).collect(); api.from_binary(&xs) }
        S::Gt(a, b) => api.gt(r[*a], r[*b]),
        S::Geq(a, b) => api.geq(r[*a], r[*b]),
        S::AZero(a) => return api.assert_is_zero(r[*a]),
        S::ANonZero(a) => return api.assert_is_non_zero(r[*a]),
        S::ABool(a) => return api.assert_is_bool(r[*a]),
        S::AEq(a, b) => return api.assert_is_equal(r[*a], r[*b]),
        S::ADiff(a, b) => return api.assert_is_different(r[*a], r[*b]),
        S::AEqK(a, k) => return api.assert_is_equal(r[*a], *k),
        S::RandEq(a, b) => {
            let q = api.get_random_value();
            let (x, y) = (api.mul(q, r[*a]), api.mul(q, r[*b]));
            return api.assert_is_equal(x, y);
        }
        S::U(op, a, b) => {
            let (a, b) = (r[*a], r[*b]);
            match op {
                0 => api.unconstrained_add(a, b), 1 => api.unconstrained_mul(a, b), 2 => api.unconstrained_div(a, b),
                3 => api.unconstrained_pow(a, b), 4 => api.unconstrained_int_div(a, b), 5 => api.unconstrained_mod(a, b),
                6 => api.unconstrained_shift_l(a, b), 7 => api.unconstrained_shift_r(a, b),
                8 => api.unconstrained_lesser_eq(a, b), 9 => api.unconstrained_greater_eq(a, b),
                10 => api.unconstrained_lesser(a, b), 11 => api.unconstrained_greater(a, b),
                12 => api.unconstrained_eq(a, b), 13 => api.unconstrained_not_eq(a, b),
                14 => api.unconstrained_bool_or(a, b), 15 => api.unconstrained_bool_and(a, b),
                16 => api.unconstrained_bit_or(a, b), 17 => api.unconstrained_bit_and(a, b),
                _ => api.unconstrained_bit_xor(a, b),
            }
        }
        S::Uid(a) => api.unconstrained_identity(r[*a]),
        S::Hint(a, b) => { let o = api.new_hint("vmon.pair", &[r[*a], r[*b]], 2); r.extend(o); return }
        S::Call(k, args) => {
            let a: Vec<_> = args.iter().map(|&i| r[i]).collect();
            let o = match k {
                0 => api.memorized_simple_call(sub_call::<C, B, 0>, &a),
                1 => api.memorized_simple_call(sub_call::<C, B, 1>, &a),
                2 => api.memorized_simple_call(sub_call::<C, B, 2>, &a),
                _ => api.memorized_simple_call(sub_call::<C, B, 3>, &a),
            };
            r.extend(o);
            return;
        }
    };
    r.push(v);
}

impl<C: Config> Define<C> for Circ<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let p = PROG.with(|p| p.borrow().clone());
        let mut regs: Vec<Variable> = self.x.iter().chain(&self.p).copied().collect();
        for st in &p.steps { apply(api, st, &mut regs) }
        for (i, &o) in p.outs.iter().enumerate() { api.assert_is_equal(regs[o], self.o[i]) }
    }
}

/// Why the interpreter stopped.
#[derive(Debug, Clone, PartialEq)]
pub enum Stop { Unsat, Unclear }

fn bits(m: U256) -> u32 { 256 - m.leading_zeros() }
fn shift<F: Field>(x: U256, k: U256, left: bool) -> U256 {
    let (k, left) = if k <= F::MODULUS / 2 { (k, left) } else { (F::MODULUS - k, !left) };
    if k >= U256::from(bits(F::MODULUS)) {
        return U256::ZERO;
    }
    let k = k.as_u32();
    if left { (x << k) & ((U256::ONE << bits(F::MODULUS)) - 1) } else { x >> k }
}

fn interp<F: Field>(p: &Prog, st: &S, r: &mut Vec<F>) -> Result<(), Stop> {
    let b = |x: bool| F::from(x as u32);
    let isb = |x: F| x.is_zero() || x == F::one();
    let inv = |x: F| x.inv().ok_or(Stop::Unsat);
    let need = |x: bool| if x { Ok(()) } else { Err(Stop::Unsat) };
    let v = match st {
        S::Add(a, c) => r[*a] + r[*c],
        S::Sub(a, c) => r[*a] - r[*c],
        S::Mul(a, c) => r[*a] * r[*c],
        S::Neg(a) => F::zero() - r[*a],
        S::AddK(a, k) => r[*a] + F::from(*k),
        S::SubK(k, a) => F::from(*k) - r[*a],
        S::MulK(a, k) => r[*a] * F::from(*k),
        S::Lin(ts, k) => ts.iter().fold(F::from(*k), |s, (a, k)| s + r[*a] * F::from(*k)),
        S::Const(k) => F::from(*k),
        S::Bool(op, a, c) => {
            need(isb(r[*a]) && isb(r[*c]))?;
            let (x, y) = (!r[*a].is_zero(), !r[*c].is_zero());
            b(match op { 0 => x != y, 1 => x || y, _ => x && y })
        }
        S::Div(a, c, checked) => {
            if r[*c].is_zero() { need(!checked && r[*a].is_zero())?; F::zero() } else { r[*a] * inv(r[*c])? }
        }
        S::Inv(a) => inv(r[*a])?,
        S::IsZero(a) => b(r[*a].is_zero()),
        S::Bits(a, n) => {
            let x = r[*a].to_u256();
            need(bits(x) as usize <= *n)?;
            for i in 0..*n { r.push(b((x >> i) & U256::ONE == U256::ONE)) }
            return Ok(());
        }
        S::FromBits(xs) => {
            let (mut s, mut w) = (F::zero(), F::one());
            for &i in xs { s += w * r[i]; w = w + w; }
            s
        }
        S::Gt(a, c) => b(r[*a].to_u256() > r[*c].to_u256()),
        S::Geq(a, c) => b(r[*a].to_u256() >= r[*c].to_u256()),
        S::AZero(a) => return need(r[*a].is_zero()),
        S::ANonZero(a) => return need(!r[*a].is_zero()),
        S::ABool(a) => return need(isb(r[*a])),
        S::AEq(a, c) | S::RandEq(a, c) => return need(r[*a] == r[*c]),
        S::ADiff(a, c) => return need(r[*a] != r[*c]),
        S::AEqK(a, k) => return need(r[*a] == F::from(*k)),
        S::U(op, a, c) => {
            let (x, y) = (r[*a], r[*c]);
            let (xu, yu) = (x.to_u256(), y.to_u256());
            if matches!(op, 2 | 4 | 5) && y.is_zero() {
                return Err(Stop::Unclear);
            }
            match op {
                0 => x + y, 1 => x * y, 2 => x * inv(y)?,
                3 => { let mut s = F::one(); for i in (0..bits(yu)).rev() { s = s * s; if (yu >> i) & U256::ONE == U256::ONE { s *= x } } s }
                4 => F::from_u256(xu / yu), 5 => F::from_u256(xu % yu),
                6 => F::from_u256(shift::<F>(xu, yu, true) % F::MODULUS), 7 => F::from_u256(shift::<F>(xu, yu, false) % F::MODULUS),
                8 => b(xu <= yu), 9 => b(xu >= yu), 10 => b(xu < yu), 11 => b(xu > yu), 12 => b(xu == yu), 13 => b(xu != yu),
                14 => b(xu != U256::ZERO || yu != U256::ZERO), 15 => b(xu != U256::ZERO && yu != U256::ZERO),
                16 => F::from_u256((xu | yu) % F::MODULUS), 17 => F::from_u256(xu & yu), _ => F::from_u256((xu ^ yu) % F::MODULUS),
            }
        }
        S::Uid(a) => r[*a],
        S::Hint(a, c) => { let (x, y) = (r[*a], r[*c]); r.push(x * y + F::one()); r.push(x + y + y); return Ok(()) }
        S::Call(k, args) => {
            let s = &p.subs[*k];
            let mut q: Vec<F> = args.iter().map(|&i| r[i]).collect();
            for st in &s.steps { interp(p, st, &mut q)? }
            r.extend(s.outs.iter().map(|&i| q[i]));
            return Ok(());
        }
    };
    r.push(v);
    Ok(())
}
fn pair<F: Field>(x: &[F], o: &mut [F]) -> Result<(), Error> {
    o[0] = x[0] * x[1] + F::one();
    o[1] = x[0] + x[1] + x[1];
    Ok(())
}
/// Steps whose failure is implied rather than asserted: it binds only where the result is used.
fn implied(s: &S) -> bool { matches!(s, S::Div(..) | S::Inv(..) | S::Bits(..) | S::Bool(..)) }
/// Outputs of the whole program.
pub fn reference<F: Field>(p: &Prog, x: &[F]) -> Result<Vec<F>, Stop> {
    let mut r = x.to_vec();
    for st in &p.steps {
        let at = r.len();
        if let Err(e) = interp(p, st, &mut r) {
            let used = p.outs.contains(&at);
            return Err(if (implied(st) && !used) || matches!(st, S::Call(..)) { Stop::Unclear } else { e });
        }
    }
    Ok(p.outs.iter().map(|&i| r[i]).collect())
}

/// A field element from a mixture of small, boundary and random ones.
pub fn element<F: Field>(r: &mut Rng) -> F {
    match r.below(8) {
        0 | 1 => F::from(r.below(2) as u32),
        2 => F::from(r.below(16) as u32),
        3 => F::zero() - F::from(r.below(4) as u32),
        4 => F::from(1u32 << r.below(if F::FIELD_SIZE < 8 { 1 } else { 31 })),
        _ => {
            let mut b = r.bytes(32);
            b.resize(32, 0);
            F::from_u256(U256::from_le_bytes(b.try_into().unwrap()) % F::MODULUS)
        }
    }
}

/// Adds a step whose assertions hold on the current values, if it can.
fn step<F: Field>(r: &mut Rng, p: &Prog, gf2: bool, n: usize, steps: &mut Vec<S>, regs: &mut Vec<F>, var: &mut Vec<bool>, sub: bool) {
    let k = |r: &mut Rng| if gf2 { r.below(2) as u32 } else { *r.pick(&[0u32, 1, 2, 3, 5, 7, 255, 65536, 2147483646]) };
    let _ = n;
    for _ in 0..8 {
        let m = regs.len();
        // recent registers are likelier, so that chains get deep
        let any = |r: &mut Rng| if r.chance(1, 2) { r.below(m) } else { m - 1 - r.below(m.min(6)) };
        let vars: Vec<usize> = (0..m).filter(|&i| var[i]).collect();
        let bools: Vec<usize> = vars.iter().copied().filter(|&i| regs[i].is_zero() || regs[i] == F::one()).collect();
        if vars.is_empty() {
            return;
        }
        let pv = |r: &mut Rng| *r.pick(&vars);
        let st = match r.below(if gf2 { 22 } else { 34 }) {
            0 | 1 => S::Add(any(r), any(r)),
            2 => S::Sub(any(r), any(r)),
            3 | 4 | 5 => S::Mul(any(r), any(r)),
            6 => S::Neg(any(r)),
            7 => S::AddK(any(r), k(r)),
            8 => S::SubK(k(r), any(r)),
            9 => S::MulK(any(r), k(r)),
            10 => S::Lin((0..r.us(1, 5)).map(|_| (any(r), k(r))).collect(), k(r)),
            11 => S::Const(k(r)),
            12 | 13 if !bools.is_empty() => S::Bool(r.below(3) as u8, *r.pick(&bools), *r.pick(&bools)),
            14 => S::IsZero(any(r)),
            15 => S::Hint(pv(r), pv(r)),
            16 | 17 if !p.subs.is_empty() => {
                let q = r.below(p.subs.len());
                S::Call(q, (0..p.subs[q].n_in).map(|_| any(r)).collect())
            }
            18 => match r.below(3) {
                0 => S::AZero(pv(r)),
                1 => S::AEq(pv(r), pv(r)),
                _ => S::AEqK(pv(r), k(r)),
            },
            19 => if r.bool() { S::ANonZero(pv(r)) } else { S::ADiff(pv(r), pv(r)) },
            20 if !bools.is_empty() => S::ABool(*r.pick(&bools)),
            21 => S::Uid(pv(r)),
            22 => S::Div(pv(r), pv(r), r.bool()),
            23 => S::Inv(pv(r)),
            24 | 25 => {
                let a = pv(r);
                let need = bits(regs[a].to_u256()) as usize;
                S::Bits(a, (need + r.below(3)).clamp(1, bits(F::MODULUS) as usize))
            }
            26 => S::FromBits((0..r.us(0, 9)).map(|_| any(r)).collect()),
            27 if r.chance(1, 4) && matches!(F::FIELD_SIZE, 31 | 32 | 64 | 254 | 256) => if r.bool() { S::Gt(pv(r), pv(r)) } else { S::Geq(pv(r), pv(r)) },
            28 if !sub => { let a = pv(r); let b = if r.bool() { a } else { pv(r) }; S::RandEq(a, b) }
            _ => S::U(r.below(19) as u8, pv(r), pv(r)),
        };
        let before = regs.len();
        if interp(p, &st, regs).is_err() {
            regs.truncate(before);
            continue;
        }
        let v = match &st {
            S::Const(_) => false,
            S::Call(..) | S::Hint(..) | S::Bits(..) => true,
            S::Add(a, b) | S::Sub(a, b) | S::Mul(a, b) | S::Bool(_, a, b) | S::Gt(a, b) | S::Geq(a, b) => var[*a] && var[*b] || matches!(st, S::Add(..) | S::Sub(..)) && (var[*a] || var[*b]),
            S::Neg(a) | S::AddK(a, _) | S::SubK(_, a) | S::IsZero(a) => var[*a],
            S::MulK(a, k) => var[*a] && *k != 0,
            S::Lin(ts, _) => ts.iter().any(|(a, k)| var[*a] && *k != 0),
            S::FromBits(xs) => xs.iter().any(|a| var[*a]),
            _ => true,
        };
        var.resize(regs.len(), v);
        steps.push(st);
        return;
    }
}

/// A program that `x` satisfies.
pub fn generate<F: Field>(r: &mut Rng, gf2: bool, max: usize) -> (Prog, Vec<F>) {
    let mut p = Prog { n_in: r.us(1, 6), n_pub: r.below(4), ..Prog::default() };
    for _ in 0..r.below(5) {
        let n_in = r.us(1, 4);
        // sub-circuits are shared by calls with different values, so they assert nothing
        let mut regs: Vec<F> = (0..n_in).map(|_| element(r)).collect();
        let mut var = vec![true; n_in];
        let mut s = Sub { n_in, steps: vec![], outs: vec![] };
        for _ in 0..r.us(1, 12) {
            let len = (s.steps.len(), regs.len());
            step(r, &p, gf2, 0, &mut s.steps, &mut regs, &mut var, true);
            let partial = |st: &S| matches!(st, S::Div(..) | S::Inv(..) | S::Bits(..) | S::Bool(..) | S::AZero(_) | S::ANonZero(_) | S::ABool(_) | S::AEq(..) | S::ADiff(..) | S::AEqK(..) | S::RandEq(..) | S::U(2 | 4 | 5, ..));
            if s.steps.len() > len.0 && partial(s.steps.last().unwrap()) && r.chance(9, 10) {
                s.steps.truncate(len.0);
                regs.truncate(len.1);
                var.truncate(len.1);
            }
        }
        s.outs = (0..r.us(1, 4)).map(|_| r.below(regs.len())).collect();
        if p.subs.len() < 4 { p.subs.push(s) }
    }
    let x: Vec<F> = (0..p.n_in + p.n_pub).map(|_| element(r)).collect();
    let mut regs = x.clone();
    let mut var = vec![true; regs.len()];
    let n = r.us(1, max);
    for _ in 0..n {
        let mut steps = std::mem::take(&mut p.steps);
        step(r, &p, gf2, 0, &mut steps, &mut regs, &mut var, false);
        p.steps = steps;
    }
    p.outs = (0..r.us(1, 6)).map(|_| if r.bool() { r.below(regs.len()) } else { regs.len() - 1 - r.below(regs.len().min(4)) }).collect();
    (p, x)
}

fn assignment<F: Field>(p: &Prog, x: &[F], o: &[F]) -> Circ<F> {
    Circ { x: x[..p.n_in].to_vec(), p: x[p.n_in..].to_vec(), o: o.to_vec() }
}
pub fn shape(p: &Prog) -> Circ<Variable> {
    let v = Variable::default();
    Circ { x: vec![v; p.n_in], p: vec![v; p.n_pub], o: vec![v; p.outs.len()] }
}
pub fn registry<F: expander_compiler::field::Field>() -> HintRegistry<F> {
    let mut h = HintRegistry::<F>::new();
    h.register("vmon.pair", pair::<F>);
    h
}
pub fn set(p: &Prog) { PROG.with(|q| *q.borrow_mut() = Rc::new(p.clone())) }

/// The runs offered to one circuit: values, declared outputs, whether they hold.
pub struct Run<F> { pub x: Vec<F>, pub o: Vec<F>, pub ok: bool, pub why: &'static str }
pub fn runs<F: Field>(r: &mut Rng, p: &Prog, x: &[F], n: usize) -> Vec<Run<F>> {
    let o = reference(p, x).expect("the base run holds");
    let mut v = vec![Run { x: x.to_vec(), o: o.clone(), ok: true, why: "base" }];
    let mut tries = 0;
    while v.len() < n && tries < 200 {
        tries += 1;
        let mut y = x.to_vec();
        match r.below(4) {
            0 => for e in y.iter_mut() { *e = element(r) },
            _ => { let i = r.below(y.len()); y[i] = element(r) }
        }
        match reference(p, &y) {
            Ok(mut q) => {
                if r.chance(1, 3) {
                    let i = r.below(q.len());
                    q[i] += F::one();
                    v.push(Run { x: y, o: q, ok: false, why: "altered output" });
                } else {
                    v.push(Run { x: y, o: q, ok: true, why: "holds" });
                }
            }
            Err(Stop::Unsat) => v.push(Run { x: y, o: o.clone(), ok: false, why: "assertion fails" }),
            Err(Stop::Unclear) => {}
        }
    }
    v
}

/// Programs the compiler documents that it does not take.
fn refusal(e: &Error) -> Option<&'static str> {
    let t = format!("{e:?}");
    if t.contains("circuit has no inputs") { return Some("refused: no inputs") }
    if t.contains("division by zero constant") { return Some("refused: constant zero divisor") }
    None
}

fn one<C: Config>(c: &mut Case, gf2: bool, max: usize, prove: bool) -> R
where C::FieldConfig: Sized {
    let mut r = c.rng.clone();
    let (p, x) = generate::<CircuitField<C>>(&mut r, gf2, max);
    set(&p);
    c.distinct.push(hash_str(&format!("{p:?}")));
    for st in &p.steps { let n = format!("{st:?}"); c.ev(&format!("step {}", n.split('(').next().unwrap_or(""))); }
    let n_runs = if prove { 3 } else { 2 + r.below(6) };
    let rs = runs(&mut r, &p, &x, n_runs);
    let mut opt = CompileOptions::default();
    opt = opt.with_opt_level(1 + r.below(3));
    if r.bool() { opt = opt.without_input_reorder() }
    if r.chance(1, 3) { opt = opt.with_mul_fanout_limit(r.us(2, 64)) }
    let ctx = format!("{p:?} base {:?} options {opt:?}", x.iter().map(|e| e.to_u256()).collect::<Vec<_>>());
    let built = match guarded(|| compile::<C, _>(&shape(&p), opt.clone())) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) if refusal(&e).is_some() => { c.ev(refusal(&e).unwrap()); return Ok(()) }
        Ok(Err(e)) => return bad("compile-error", format!("a satisfiable program does not compile: {e:?}\n{ctx}")),
        Err(e) => return bad("compile-panic", format!("compiling panicked: {e}\n{ctx}")),
    };
    c.ev("compiled");
    if std::env::var("DBG").is_ok() {
        let l = &built.layered_circuit;
        for (i, id) in l.layer_ids.iter().enumerate() {
            let g = &l.segments[*id];
            eprintln!("layer {i}: seg {id} in {:?} out {} children {:?} mul {:?} add {:?} const {:?} custom {}", g.num_inputs, g.num_outputs, g.child_segs, g.gate_muls, g.gate_adds, g.gate_consts, g.gate_customs.len());
        }
    }
    let again = guarded(|| compile::<C, _>(&shape(&p), opt.clone()));
    let (mut a, mut b) = (vec![], vec![]);
    let same = matches!(again, Ok(Ok(g)) if g.layered_circuit == built.layered_circuit
        && g.layered_circuit.serialize_into(&mut a).and_then(|()| built.layered_circuit.serialize_into(&mut b)).is_ok()) && a == b;
    check!(same, "not-deterministic", "compiling the same program twice gives two circuits\n{ctx}");
    c.ev("compiled twice");
    let reg = registry::<CircuitField<C>>();
    let cross = if prove { None } else { match guarded(|| compile_cross_layer::<C, _>(&shape(&p), opt.clone())) {
        Ok(Ok(b)) => Some(b),
        Ok(Err(e)) if refusal(&e).is_some() => None,
        Ok(Err(e)) => return bad("cross-compile-error", format!("{e:?}\n{ctx}")),
        Err(e) => return bad("cross-compile-panic", format!("{e}\n{ctx}")),
    } };
    for run in &rs {
        let a = assignment(&p, &run.x, &run.o);
        let say = |got: &str| format!("{} run: interpreter says {}, circuit says {got}; inputs {:?} outputs {:?}\n{ctx}", run.why, run.ok,
            run.x.iter().map(|e| e.to_u256()).collect::<Vec<_>>(), run.o.iter().map(|e| e.to_u256()).collect::<Vec<_>>());
        let w = guarded(|| built.witness_solver.solve_witness_with_hints(&a, &reg));
        let w = match w {
            Ok(Ok(w)) => w,
            Ok(Err(_)) | Err(_) if !run.ok => { c.ev("unsolvable"); continue }
            Ok(Err(e)) => return bad("no-witness", say(&format!("{e:?}"))),
            Err(e) => return bad("witness-panic", say(&e)),
        };
        c.evals += 1;
        let got = guarded(|| built.layered_circuit.run(&w));
        match &got {
            Ok(v) if v.len() == 1 => check!(v[0] == run.ok, if run.ok { "honest-rejected" } else { "false-accepted" }, "{}", say(&format!("{v:?}"))),
            o => return bad("run", say(&format!("{o:?}"))),
        }
        c.ev(run.why);
        if let Some(x) = &cross {
            let w = guarded(|| x.witness_solver.solve_witness_with_hints(&a, &reg));
            match w {
                Ok(Ok(w)) => {
                    let v = guarded(|| x.layered_circuit.run(&w));
                    check!(v.as_ref().is_ok_and(|v| v[..] == [run.ok]), "cross-layer", "{}", say(&format!("cross-layer {v:?}")));
                    c.ev("cross-layer run");
                }
                _ => check!(!run.ok, "cross-layer-witness", "{}", say("no cross-layer witness")),
            }
        }
        if !prove {
            let d = guarded(|| extra::debug_eval::<C, _, _, _>(&shape(&p), &a, registry::<CircuitField<C>>()));
            check!(d.is_ok() == run.ok, "debug-eval", "{}", say(&format!("debug evaluation {:?}", d.err())));
            c.ev("debug evaluations");
        }
        if prove {
            let (mut cb, mut wb) = (vec![], vec![]);
            if let Err(e) = built.layered_circuit.serialize_into(&mut cb).and_then(|()| w.serialize_into(&mut wb)) {
                return bad("serialize", format!("{e:?}\n{ctx}"));
            }
            let pr = guarded(|| mr::prove_from_bytes::<C>(&cb, &wb, false));
            match (&pr, run.ok) {
                (Ok(Ok(pf)), ok) => {
                    let v = guarded(|| mr::verify_from_bytes::<C>(&cb, &wb, pf));
                    let acc = matches!(v, Ok(Ok(true)));
                    check!(acc == ok, if ok { "proof-refused" } else { "false-proof" }, "{}", say(&format!("proof of the run: {v:?}")));
                    c.ev(if ok { "proofs accepted" } else { "false proofs refused" });
                }
                (e, true) => return bad("prove", say(&format!("proving: {:?}", e.as_ref().map(|_| "error")))),
                _ => c.ev("prover refuses"),
            }
        }
    }
    // many runs at once, through the packed evaluation
    if !prove && r.chance(1, 2) {
        let n = r.us(1, 40);
        let good: Vec<&Run<CircuitField<C>>> = rs.iter().filter(|q| q.ok).collect();
        let mut want = vec![];
        let mut all = vec![];
        for i in 0..n {
            let q = good[i % good.len()];
            let mut o = q.o.clone();
            let bad = r.chance(1, 5);
            if bad { let k = r.below(o.len()); o[k] += CircuitField::<C>::one() }
            want.push(!bad);
            all.push(assignment(&p, &q.x, &o));
        }
        let w = guarded(|| built.witness_solver.solve_witnesses_with_hints(&all, &reg).map(|w| built.layered_circuit.run(&w)));
        match w {
            Ok(Ok(v)) => {
                // the packed evaluation rounds the batch up to whole lanes
                check!(v.len() >= n && v[..n] == want[..], "batch", "{n} runs at once: expected {want:?}, got {v:?}\n{ctx}");
                c.ev("batches");
                c.evn("batched runs", n as u64);
            }
            o => return bad("batch-error", format!("{n} runs at once: {:?}\n{ctx}", o.map(|x| x.err()))),
        }
    }
    Ok(())
}

fn programs(c: &mut Case) -> R {
    let m = if c.idx % 7 == 6 { 120 } else { 30 };
    match c.idx % 5 {
        0 => one::<M31Config>(c, false, m, false),
        1 => one::<GoldilocksConfig>(c, false, m, false),
        2 => one::<BN254Config>(c, false, m, false),
        3 => one::<BabyBearConfig>(c, false, m, false),
        _ => one::<GF2Config>(c, true, m, false),
    }
}
fn proofs(c: &mut Case) -> R {
    match c.idx % 6 {
        0 => one::<GoldilocksConfig>(c, false, 20, true),
        1 => one::<GoldilocksBasefoldConfig>(c, false, 20, true),
        2 => one::<GoldilocksWhirConfig>(c, false, 20, true),
        3 => one::<GoldilocksWhirPQConfig>(c, false, 20, true),
        4 => one::<GoldilocksExt2BasefoldConfig>(c, false, 20, true),
        _ => one::<BN254Config>(c, false, 20, true),
    }
}

pub fn c07() -> Spec {
    let _ = hash_bytes(b"");
    Spec {
        id: "C07",
        level: "exploration",
        rule: "random circuit programs (arithmetic, booleans, bits, divisions, assertions, hints, shared sub-circuits, unconstrained values) compiled with random options; each run's verdict and outputs compared with a direct interpreter; distinct = program text",
        assumptions: &["field arithmetic (C05)", "the BN254 scalar field comes from a stand-in"],
        require: &[("compiled", 50), ("base", 50), ("altered output", 20), ("assertion fails", 10), ("cross-layer run", 50), ("batches", 10), ("proofs accepted", 5)],
        families: vec![
            Family { name: "programs", quick: 400, thorough: 20000, f: programs },
            Family { name: "proofs", quick: 36, thorough: 900, f: proofs },
        ],
    }
}
