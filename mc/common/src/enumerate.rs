//! Finite, numbered spaces; index 0 is the simplest element.

/// Number of sequences of length 0..=max over `k` symbols.
pub fn seq_count(k: usize, max: usize) -> u64 {
    (0..=max).map(|l| (k as u64).pow(l as u32)).sum()
}

/// Decodes the i-th sequence (shorter first) over `k` symbols.
pub fn seq_at(k: usize, mut i: u64) -> Vec<usize> {
    let mut len = 0;
    let mut block = 1u64;
    while i >= block {
        i -= block;
        len += 1;
        block *= k as u64;
    }
    let mut v = vec![0; len];
    for p in (0..len).rev() {
        v[p] = (i % k as u64) as usize;
        i /= k as u64;
    }
    v
}

/// The i-th string made of up-to-`max` symbols.
pub fn string_at(alpha: &[&str], i: u64) -> String {
    seq_at(alpha.len(), i).into_iter().map(|s| alpha[s]).collect()
}

/// Splits an index into digits of a mixed-radix number (first radix varies slowest).
pub fn mixed(radices: &[usize], mut i: u64) -> Vec<usize> {
    let mut v = vec![0; radices.len()];
    for p in (0..radices.len()).rev() {
        v[p] = (i % radices[p] as u64) as usize;
        i /= radices[p] as u64;
    }
    v
}

pub fn product(radices: &[usize]) -> u64 {
    radices.iter().map(|&r| r as u64).product()
}

/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}
