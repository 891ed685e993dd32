//! Bit decompositions, for every element of a field (C15).
use crate::explore::{explore, Limits, Sys};
use crate::gad::*;
use crate::gadlib::*;
use crate::rec::{vid, Mode};
use crate::report::Ctx;
use crate::toy::*;

/// Bit decompositions for every element.
pub fn bits<F: TF>(cx: &Ctx, f: &str, vals: &[F], all: bool) {
    for op in [NOp::Strict(0), NOp::Plain(0)] {
        let g = NumG { bits: 0, nums: 1, op: op.clone() };
        let vecs: Vec<Vec<F>> = vals.iter().map(|v| vec![*v]).collect();
        verify::<F, _>(cx, &format!("{} {:?}", f, g), &g, &vecs, if all { Sound::All } else { Sound::PerVector });
        // the number of satisfying bit strings, per value
        if !all { continue; }
        cx.check(1, || format!("{} {:?} count", f, op), || {
            let r = run::<F, _>(&g, Mode::Keygen, &[None])?;
            let sys = Sys::new(&r.rec);
            let x = vid(r.ins[0].var());
            let mut per = std::collections::HashMap::new();
            let out = explore(&sys, &[], &[x], Limits::default(), &mut |get| { *per.entry(get(x).to_repr()).or_insert(0u64) += 1; true });
            if !out.complete { cx.not_exhaustive(); return Ok(()); }
            cx.trans(out.props);
            for v in vals {
                let n = per.get(&v.to_repr()).cloned().unwrap_or(0);
                if matches!(op, NOp::Strict(_)) && n != 1 { return Err(format!("{} satisfying assignments for {:?}", n, v)); }
                if n == 0 { return Err(format!("no satisfying assignment for {:?}", v)); }
            }
            Ok(())
        });
    }
}
#[macro_export]
macro_rules! bit_primes { ($cx:expr, $th:expr; $($p:literal)*) => {{
    let fs: Vec<Box<dyn Fn() + Sync>> = vec![$(Box::new(|| $crate::gadbits::bits::<Fp<$p>>($cx, &format!("F{}", $p), &Fp::<$p>::all().collect::<Vec<_>>(), $p < 500)) as Box<dyn Fn() + Sync>),*];
    $crate::report::par_for(fs.len(), $th, |i| fs[i]());
    $cx.bound("decomposition fields", format!("{:?}", [$($p),*]));
}} }
