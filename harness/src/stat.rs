//! When is an observed frequency no chance? By likelihood ratios, which bound the tails of
//! skewed distributions as well (unlike standard deviations).

/// An event this unlikely (less than e^-25 = 1.4e-11) is not put down to chance.
pub const LIMIT: f64 = 25.;

fn term(k: f64, n: f64, p: f64) -> f64 {
    if k == 0. {
        0.
    } else {
        k * (k / n / p).ln()
    }
}

/// Chernoff exponent of seeing `k` of `n` at probability `p`.
pub fn exponent(k: u64, n: u64, p: f64) -> f64 {
    let (k, n) = (k as f64, n as f64);
    if n == 0. {
        return 0.;
    }
    term(k, n, p) + term(n - k, n, 1. - p)
}

pub fn within(k: u64, n: u64, p: f64) -> bool {
    exponent(k, n, p) <= LIMIT
}

/// Exponent of two frequencies under a common probability.
pub fn two(a: u64, an: u64, b: u64, bn: u64) -> f64 {
    let p = (a + b) as f64 / (an + bn) as f64;
    if p <= 0. || p >= 1. {
        return 0.;
    }
    exponent(a, an, p) + exponent(b, bn, p)
}

#[test]
fn limits() {
    assert!(within(500, 1000, 0.5) && within(560, 1000, 0.5) && !within(650, 1000, 0.5));
    assert!(within(3, 3, 0.03) && !within(20, 20, 0.2) && within(0, 10, 0.5) && !within(0, 60, 0.5));
    assert!(two(1500, 3000, 30, 60) < 1. && two(1500, 3000, 60, 60) > LIMIT);
}
