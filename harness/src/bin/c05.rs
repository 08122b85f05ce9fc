//! C05 permutations: mutually inverse, lossless, sorted.
use harness::{check, kinds, Ctx, Rng};
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::verif_access::*;

fn exercise<P: Permutation>(p: &P, n: usize, f: &dyn Fn(usize) -> usize, g: &mut Rng, what: &str) {
    check!(p.len() == n, "{what}: len {} != {n}", p.len());
    let mut hit = vec![false; n];
    for i in 0..n {
        let j = p.forward(i);
        check!(j == f(i), "{what}: forward({i}) = {j}, expected {}", f(i));
        check!(j < n && !hit[j], "{what}: forward is not a bijection at {i} -> {j}");
        hit[j] = true;
        check!(p.backward(j) == i, "{what}: backward(forward({i})) = {}", p.backward(j));
        let mut k = i; p.forward_ref(&mut k); check!(k == j, "{what}: forward_ref({i}) = {k}");
        p.backward_ref(&mut k); check!(k == i, "{what}: backward_ref({j}) = {k}");
    }
    let dens = g.range(1, 4) as usize;
    let items: Vec<(usize, u64)> = g.subset(n, dens, 4).into_iter().enumerate().map(|(k, i)| (i, 100 + k as u64)).collect();
    let mut want: Vec<(usize, u64)> = items.iter().map(|&(i, v)| (f(i), v)).collect();
    let mut x = items.clone(); p.forward_unsorted(&mut x);
    check!(x == want, "{what}: forward_unsorted({items:?}) = {x:?}, expected {want:?}");
    p.backward_unsorted(&mut x); check!(x == items, "{what}: backward_unsorted does not undo forward_unsorted: {x:?}");
    want.sort();
    let mut x = items.clone(); p.forward_sorted(&mut x);
    check!(x == want, "{what}: forward_sorted({items:?}) = {x:?}, expected {want:?}");
    p.backward_sorted(&mut x); check!(x == items, "{what}: backward_sorted({want:?}) = {x:?}, expected {items:?}");
    // backward first
    let mut wb: Vec<(usize, u64)> = items.iter().map(|&(i, v)| ((0..n).find(|&k| f(k) == i).unwrap(), v)).collect();
    let mut y = items.clone(); p.backward_unsorted(&mut y); check!(y == wb, "{what}: backward_unsorted({items:?}) = {y:?}");
    wb.sort();
    let mut y = items.clone(); p.backward_sorted(&mut y); check!(y == wb, "{what}: backward_sorted({items:?}) = {y:?}, expected {wb:?}");
    p.forward_sorted(&mut y); check!(y == items, "{what}: forward_sorted does not undo backward_sorted: {y:?}");
}
fn size(g: &mut Rng) -> usize { if g.chance(3, 4) { g.range(1, 7) as usize } else { g.range(1, 24) as usize } }

fn full(g: &mut Rng, c: &mut Ctx) {
    let n = size(g);
    let v = g.perm(n);
    c.input(format!("FullPermutation::new({v:?})"));
    let mut p = FullPermutation::new(v.clone());
    let mut f = v; // the model: forward map
    exercise(&p, n, &|i| f[i], g, "full");
    for _ in 0..g.range(1, 6) {
        let (i, j) = (g.below(n), g.below(n));
        match g.below(3) {
            0 => { c.input(format!("swap({i},{j})")); p.swap(i, j); f.swap(i, j); }
            1 => { c.input(format!("swap_inverse({i},{j})")); p.swap_inverse(i, j); for x in f.iter_mut() { if *x == i { *x = j } else if *x == j { *x = i } } }
            _ => { c.input("invert".into()); p.invert(); let mut h = vec![0; n]; for (a, &b) in f.iter().enumerate() { h[b] = a; } f = h; }
        }
        exercise(&p, n, &|i| f[i], g, "full after changes");
    }
    if n > 1 { c.nontrivial(); }
}
fn identity(g: &mut Rng, c: &mut Ctx) {
    let n = size(g);
    c.input(format!("identity of {n}"));
    exercise(&FullPermutation::identity(n), n, &|i| i, g, "full identity");
    exercise(&IdentityPermutation::new(n), n, &|i| i, g, "identity");
}
fn rotate(g: &mut Rng, c: &mut Ctx) {
    let n = size(g); let k = g.below(n);
    c.input(format!("RotateToBackPermutation::new({k}, {n})"));
    let p = RotateToBackPermutation::new(k, n);
    // moving element k to the back: position i receives ...
    let f = |i: usize| if i < k { i } else if i == k { n - 1 } else { i - 1 };
    for _ in 0..4 { exercise(&p, n, &f, g, "rotate to back"); }
    if n > 1 { c.nontrivial(); }
}
fn swap(g: &mut Rng, c: &mut Ctx) {
    let n = size(g); let (i, j) = (g.below(n), g.below(n));
    c.input(format!("SwapPermutation::new(({i},{j}), {n})"));
    let p = SwapPermutation::new((i, j), n);
    for _ in 0..4 { exercise(&p, n, &|k| if k == i { j } else if k == j { i } else { k }, g, "swap"); }
    if i != j { c.nontrivial(); }
}
fn main() { harness::main(kinds![full: 4, identity: 1, rotate: 4, swap: 3]) }
