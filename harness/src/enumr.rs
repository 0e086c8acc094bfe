//! Enumerators of bounded operand spaces.

/// Calls `f` with every vector of length `n` over `alphabet`, in odometer order.
pub fn all_vecs<T: Clone>(alphabet: &[T], n: usize, mut f: impl FnMut(&[T])) {
    let mut ix = vec![0usize; n];
    let mut v: Vec<T> = vec![alphabet[0].clone(); n];
    loop {
        f(&v);
        let mut i = 0;
        loop {
            if i == n {
                return;
            }
            ix[i] += 1;
            if ix[i] < alphabet.len() {
                v[i] = alphabet[ix[i]].clone();
                break;
            }
            ix[i] = 0;
            v[i] = alphabet[0].clone();
            i += 1;
        }
    }
}
pub fn list_vecs<T: Clone>(alphabet: &[T], n: usize) -> Vec<Vec<T>> {
    let mut r = vec![];
    all_vecs(alphabet, n, |v| r.push(v.to_vec()));
    r
}
/// All subsets of `0..n` with at most `k` elements, as sorted lists.
pub fn subsets_upto(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut r = vec![vec![]];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut nx = vec![];
        for s in &cur {
            let from = s.last().map_or(0, |l| l + 1);
            for i in from..n {
                let mut t: Vec<usize> = s.clone();
                t.push(i);
                nx.push(t);
            }
        }
        r.extend(nx.iter().cloned());
        cur = nx;
    }
    r
}
/// A structured family of blades of a large algebra: every single generator and its complement,
/// every prefix and suffix, alternating patterns, empty and full.
pub fn blade_family(d: usize) -> Vec<usize> {
    let full = (1usize << d) - 1;
    let mut r = vec![0, full];
    for i in 0..d {
        r.push(1 << i);
        r.push(full ^ (1 << i));
        r.push((1usize << i) - 1);
        r.push(full & !((1usize << i) - 1));
    }
    for pat in [0x5555555555555555usize, 0x3333333333333333, 0x0f0f0f0f0f0f0f0f, 0x00ff00ff00ff00ff, 0x0000ffff0000ffff] {
        r.push(pat & full);
        r.push(!pat & full);
    }
    r.sort();
    r.dedup();
    r
}
