//! C19: window-table lookups.
use mc::gad::*;
use mc::gadlib::*;
use mc::report::{par_for, Ctx};
use mc::toy::*;

fn run<F: TF>(cx: &Ctx, f: &str, g: &Lookup<F>) {
    let key = format!("{} {}-entry {:?} {:?}", f, g.table.len(), g.sel, g.table);
    verify::<F, _>(cx, &key, g, &vectors(&vec![Ty::Bit; g.nv as usize], &[]), Sound::All);
}
const VARS: [K; 3] = [K::Is(0), K::Is(1), K::Is(2)];
/// every table column over a small field
fn tables<F: TF>(cx: &Ctx, f: &str, th: usize, vals: &[u64], entries: usize) {
    let m = vals.len();
    let total = m.pow(entries as u32);
    par_for(total, th, |c| {
        let x: Vec<F> = (0..entries).map(|i| F::from(vals[c / m.pow(i as u32) % m])).collect();
        // the y column is another column of the enumeration
        let d = (c * 7 + 11) % total;
        let y: Vec<F> = (0..entries).map(|i| F::from(vals[d / m.pow(i as u32) % m])).collect();
        let sel = if c % 2 == 0 { VARS } else { [K::Is(0), K::Not(1), K::Is(2)] };
        run(cx, f, &Lookup { nv: 3, sel, table: x.into_iter().zip(y).collect() });
    });
    cx.bound(&format!("{} tables", f), format!("all {} columns of {} entries over {:?}", total, entries, vals));
}
fn selections<F: TF>(cx: &Ctx, f: &str, th: usize, tables: &[Vec<(F, F)>]) {
    let ks = K::all(3);
    let n = ks.len();
    par_for(n * n * n * tables.len(), th, |c| {
        let t = &tables[c / (n * n * n)];
        let c = c % (n * n * n);
        run(cx, f, &Lookup { nv: 3, sel: [ks[c % n], ks[c / n % n], ks[c / n / n]], table: t.clone() });
    });
    cx.bound(&format!("{} selections", f), format!("all {} selections by constant, allocated, negated and aliased bits on {} tables", n * n * n, tables.len()));
}
fn special<F: TF>(entries: usize) -> Vec<Vec<(F, F)>> {
    let mut t = vec![];
    t.push((0..entries as u64).map(|i| (F::from(i * i + 3), F::from(7 * i + 1))).collect());
    t.push((0..entries as u64).map(|i| (-F::from(i), F::TWO_INV * F::from(i + 1))).collect());
    t.push(vec![(F::ZERO, F::ZERO); entries]);
    t.push(vec![(-F::ONE, -F::ONE); entries]);
    for k in 0..entries { t.push((0..entries).map(|i| (fb(i == k), fb(i != k))).collect()); }
    for k in 0..entries { t.push((0..entries).map(|i| (fb::<F>(i == k) * F::ROOT_OF_UNITY, fb::<F>(i == (k + 3) % entries) - F::ONE)).collect()); }
    t
}
fn main() {
    let cx = Ctx::new("C19");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match cx.part.as_str() {
        "tables" => {
            tables::<F2>(&cx, "F3", th, &[0, 1, 2], 8);
            tables::<F2>(&cx, "F3", th, &[0, 1, 2], 4);
            tables::<F5>(&cx, "F5", th, &[0, 1, 2, 3, 4], 4);
            tables::<F7>(&cx, "F7", th, &[0, 1, 2, 3, 4, 5, 6], 4);
            tables::<F5>(&cx, "F5", th, &[0, 1, 4], 8);
            tables::<F97>(&cx, "F97", th, &[0, 1, 96], 8);
            if cx.thorough { tables::<F5>(&cx, "F5", th, &[0, 1, 2, 3, 4], 8); }
        }
        "selections" => {
            let q = |v: Vec<Vec<(F2, F2)>>| v;
            selections::<F2>(&cx, "F3", th, &q(special(8)));
            selections::<F2>(&cx, "F3", th, &q(special(4)));
            selections::<F17>(&cx, "F17", th, &special(8));
            selections::<F17>(&cx, "F17", th, &special(4));
            selections::<Gold>(&cx, "Goldilocks", th, &special(8)[..cx.tier(4, 20)]);
            selections::<Gold>(&cx, "Goldilocks", th, &special(4)[..cx.tier(4, 12)]);
            selections::<Bls>(&cx, "BLS12-381 scalar", th, &special(8)[..cx.tier(2, 20)]);
            selections::<Bls>(&cx, "BLS12-381 scalar", th, &special(4)[..cx.tier(2, 12)]);
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| "F3, 8-entry table, bits (b0, not b1, b2): all 8 selections honest; exactly 8 satisfying (selection, result) assignments, each the selected pair".into());
    cx.finish();
}
