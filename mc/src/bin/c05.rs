//! C05: zero-knowledge blinding; fresh randomness.
use ff::{Field, PrimeField};
use groth16::{create_proof, create_random_proof, generate_parameters, generate_random_parameters};
use mc::groth::*;
use mc::report::{guard, Ctx};
use mc::toy::*;
use std::collections::{BTreeMap, BTreeSet};

/// Circuits with several witnesses per public input.
fn circuits_<const P: u64>() -> Vec<(&'static str, usize, usize, Vec<Con<Fp<P>>>)> {
    let o = Fp::<P>(1);
    let l = |v: &[u32]| v.iter().map(|v| (*v, o)).collect::<Vec<_>>();
    vec![
        ("w*w=x", 1, 1, vec![[l(&[aux(0)]), l(&[aux(0)]), l(&[input(1)])]]),
        ("w0*w1=x", 1, 2, vec![[l(&[aux(0)]), l(&[aux(1)]), l(&[input(1)])]]),
        ("(w0+w1)*1=x", 1, 2, vec![[l(&[aux(0), aux(1)]), l(&[0]), l(&[input(1)])]]),
        ("w*(w-1)=0", 0, 1, vec![[l(&[aux(0)]), vec![(aux(0), o), (0, -o)], vec![]]]),
        ("w*0=0", 0, 1, vec![[l(&[aux(0)]), vec![], vec![]]]),
        ("0*w=0", 0, 1, vec![[vec![], l(&[aux(0)]), vec![]]]),
    ]
}
fn zk<const P: u64>(cx: &Ctx, max: usize) {
    for (name, ni, na, cons) in circuits_::<P>() {
        if ni + na > max { continue; }
        let all = assignments(ni + na, &Fp::<P>::all().collect::<Vec<_>>());
        let mut groups: BTreeMap<Vec<u64>, Vec<Spec<Fp<P>>>> = BTreeMap::new();
        for a in all {
            let s = Spec::new(orders(ni, na)[0].clone(), a[..ni].to_vec(), a[ni..].to_vec(), cons.clone());
            if s.violated().is_none() {
                groups.entry(a[..ni].iter().map(|x| x.0).collect()).or_default().push(s);
            }
        }
        for (k, (x, specs)) in groups.iter().enumerate() {
            let Some((t, q)) = (0..3).find_map(|j| pick_trap(&specs[0], k * 5 + j, 0).filter(|(t, _)| t.g1.0 != 0 && t.g2.0 != 0 && t.delta.0 != 0 && t.gamma.0 != 0)) else { continue };
            let p = model_params(&q, &t);
            let mut first: Option<BTreeSet<(u64, u64, u64)>> = None;
            for s in specs {
                if cx.failed() { return; }
                cx.check(P * P, || format!("F{} {} x={:?} witness={:?}", P, name, x, s.aux), || {
                    let mut set = BTreeSet::new();
                    for r in Fp::<P>::all() { for sc in Fp::<P>::all() {
                        let pr = create_proof(s.clone(), &p, r, sc).map_err(|e| e.to_string())?;
                        if !set.insert((pr.a.0 .0, pr.b.0 .0, pr.c.0 .0)) {
                            return Err(format!("two blindings give the same proof (r={:?} s={:?})", r, sc));
                        }
                    } }
                    match &first {
                        None => first = Some(set),
                        Some(f) if *f != set => return Err("the set of proofs depends on the witness".into()),
                        _ => {}
                    }
                    Ok(())
                });
            }
        }
    }
    cx.bound(&format!("F{}", P), "every (r, s), every witness of every public input of 6 circuits with several witnesses");
}
fn random_proof<const P: u64>(cx: &Ctx) {
    for (i, (ni, na, nc)) in [(0usize, 1usize, 1usize), (1, 1, 1), (1, 0, 1), (2, 1, 2)].iter().enumerate() {
        let s = chain::<Fp<P>>(*ni, *na, *nc, i as u64);
        let Some((t, q)) = (0..9).find_map(|j| pick_trap(&s, j * 3, 0).filter(|(t, _)| t.g1.0 != 0 && t.g2.0 != 0 && t.delta.0 != 0 && t.gamma.0 != 0)) else { continue };
        let p = model_params(&q, &t);
        // which of the two draws is r is not prescribed, but it is the same one always
        let mut orders = vec![false, true];
        for (r, sc) in [(2, 3), (3, 7), (11, 4)] {
            let Ok(Ok(a)) = guard(|| create_random_proof(s.clone(), &p, &mut ScriptRng::new(vec![r, sc]))) else { continue };
            orders.retain(|swap| { let (r, sc) = if *swap { (sc, r) } else { (r, sc) }; matches!(create_proof(s.clone(), &p, Fp::<P>(r), Fp(sc)), Ok(b) if proof_eq(&a, &b)) });
        }
        let swap = orders.first() == Some(&true);
        for r in 0..P { for sc in 0..P {
            if cx.failed() { return; }
            cx.check(2, || format!("F{} random proof {} script {} {}", P, i, r, sc), || {
                let mut rng = ScriptRng::new(vec![r, sc]);
                let a = create_random_proof(s.clone(), &p, &mut rng).map_err(|e| e.to_string())?;
                if rng.pos != 2 { return Err(format!("{} draws instead of 2", rng.pos)); }
                let (r, sc) = if swap { (sc, r) } else { (r, sc) };
                let b = create_proof(s.clone(), &p, Fp::<P>(r), Fp(sc)).map_err(|e| e.to_string())?;
                if !proof_eq(&a, &b) { return Err("not the proof for the two values drawn".into()); }
                Ok(())
            });
        } }
        // two proofs from one generator use four draws
        cx.check(2, || format!("F{} two proofs {}", P, i), || {
            let mut rng = ScriptRng::new(vec![1, 2, 3, 4]);
            let _ = create_random_proof(s.clone(), &p, &mut rng).map_err(|e| e.to_string())?;
            let b = create_random_proof(s.clone(), &p, &mut rng).map_err(|e| e.to_string())?;
            let (r, sc) = if swap { (4, 3) } else { (3, 4) };
            if rng.pos != 4 || !proof_eq(&b, &model_proof(&s, &q, &t, Fp::new(r), Fp::new(sc))) { return Err("second proof does not use fresh draws".into()); }
            Ok(())
        });
    }
    cx.bound(&format!("F{} random proofs", P), "every pair of RNG outputs");
}
/// The draws' order (which value each one becomes) is not prescribed: the one that explains several
/// scripts of distinct values, or the present one if none does.
fn draw_order<const P: u64>(s: &Spec<Fp<P>>) -> Vec<usize> {
    fn perms(v: &mut Vec<usize>, k: usize, out: &mut Vec<Vec<usize>>) {
        if k == v.len() { out.push(v.clone()); return; }
        for i in k..v.len() { v.swap(k, i); perms(v, k + 1, out); v.swap(k, i); }
    }
    let id: Vec<usize> = (0..7).collect();
    let mut cand = vec![];
    perms(&mut id.clone(), 0, &mut cand);
    for seed in 0..4u64 {
        let script: Vec<u64> = (0..7).map(|i| 2 + (i * 13 + seed * 29) % (P - 3)).collect();
        let Ok(Ok(a)) = guard(|| generate_random_parameters::<Toy<Fp<P>>, _, _>(s.clone(), &mut ScriptRng::new(script.clone()))) else { continue };
        cand.retain(|c| {
            let mut v = [Fp::<P>::ZERO; 7];
            for (k, z) in c.iter().enumerate() { v[*z] = Fp::new(script[k]); }
            matches!(generate_parameters::<Toy<Fp<P>>, _>(s.clone(), P1(v[0]), P2(v[1]), v[2], v[3], v[4], v[5], v[6]), Ok(b) if eq_params(&a, &b).is_ok())
        });
    }
    if cand.contains(&id) { id } else { cand.into_iter().next().unwrap_or(id) }
}
fn random_params<const P: u64>(cx: &Ctx, vals: &[u64]) {
    for (i, (ni, na, nc)) in [(0usize, 1usize, 1usize), (1, 1, 1)].iter().enumerate() {
        let s = chain::<Fp<P>>(*ni, *na, *nc, i as u64 + 20).unknown();
        let order = draw_order::<P>(&s);
        for code in 0..vals.len().pow(7) {
            if cx.failed() { return; }
            let mut k = code;
            let sc: Vec<u64> = (0..7).map(|_| { let v = vals[k % vals.len()]; k /= vals.len(); v }).collect();
            cx.check(2, || format!("F{} random parameters {} script {:?}", P, i, sc), || {
                // group generators are redrawn while zero
                let mut script = vec![];
                for &z in &order { if z < 2 && sc[z] == 0 { script.push(0); script.push(1 + z as u64); } else { script.push(sc[z]); } }
                let g: Vec<u64> = (0..2).map(|z| if sc[z] == 0 { 1 + z as u64 } else { sc[z] }).collect();
                let n = script.len();
                let mut rng = ScriptRng::new(script);
                let a = generate_random_parameters::<Toy<Fp<P>>, _, _>(s.clone(), &mut rng);
                let f = |i: usize| Fp::<P>::new(sc[i]);
                let b = generate_parameters::<Toy<Fp<P>>, _>(s.clone(), P1(Fp::new(g[0])), P2(Fp::new(g[1])), f(2), f(3), f(4), f(5), f(6));
                if rng.pos != n { return Err(format!("{} draws instead of {}", rng.pos, n)); }
                match (a, b) {
                    (Ok(a), Ok(b)) => eq_params(&a, &b),
                    (Err(a), Err(b)) if a.to_string() == b.to_string() => Ok(()),
                    (a, b) => Err(format!("{:?} instead of {:?}", a.err().map(|e| e.to_string()), b.err().map(|e| e.to_string()))),
                }
            });
        }
    }
    cx.bound(&format!("F{} random parameters", P), format!("every script of 7 draws from {:?}", vals));
}
fn main() {
    let cx = Ctx::new("C05");
    match cx.part.as_str() {
        "zk" => { zk::<17>(&cx, 3); zk::<41>(&cx, 2); if cx.thorough { zk::<73>(&cx, 2); zk::<41>(&cx, 3); } }
        "proofs" => { random_proof::<17>(&cx); random_proof::<97>(&cx); }
        "params" => {
            random_params::<97>(&cx, &[0, 3, 5]);
            if cx.thorough { random_params::<97>(&cx, &[0, 1, 2, 7, 11]); }
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| format!("part {}: sets of proofs over all blindings compared across witnesses; RNG scripts replayed", cx.part));
    cx.finish();
}
