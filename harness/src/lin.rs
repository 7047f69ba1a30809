//! Small dense linear algebra used by the oracles of the harness (independent of the crate).
pub type M = Vec<Vec<f64>>;
pub fn zeros(n: usize) -> M { vec![vec![0.0; n]; n] }
pub fn mv(a: &M, x: &[f64]) -> Vec<f64> { a.iter().map(|r| dot(r, x)).collect() }
pub fn dot(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| x * y).sum() }
pub fn maxabs(a: &M) -> f64 { a.iter().flatten().fold(0.0, |m, x| m.max(x.abs())) }
/// Cholesky factor; None when not positive definite
pub fn chol(a: &M) -> Option<M> {
    let n = a.len();
    let mut l = zeros(n);
    for i in 0..n {
        for j in 0..=i {
            let s: f64 = (0..j).map(|k| l[i][k] * l[j][k]).sum();
            if i == j {
                let d = a[i][i] - s;
                if !(d > 0.0) { return None; }
                l[i][i] = d.sqrt();
            } else {
                l[i][j] = (a[i][j] - s) / l[j][j];
            }
        }
    }
    Some(l)
}
/// x with L x = b
pub fn fwd(l: &M, b: &[f64]) -> Vec<f64> {
    let n = b.len();
    let mut x = vec![0.0; n];
    for i in 0..n {
        let s: f64 = (0..i).map(|k| l[i][k] * x[k]).sum();
        x[i] = (b[i] - s) / l[i][i];
    }
    x
}
pub fn logdet(l: &M) -> f64 { (0..l.len()).map(|i| 2.0 * l[i][i].ln()).sum() }
/// crude condition number of the Cholesky diagonal
pub fn cond(l: &M) -> f64 {
    let (mut lo, mut hi) = (f64::INFINITY, 0.0f64);
    for i in 0..l.len() { lo = lo.min(l[i][i]); hi = hi.max(l[i][i]); }
    (hi / lo) * (hi / lo)
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a == b { return true; }
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
pub fn close_s(a: f64, b: f64, scale: f64, tol: f64) -> bool {
    if a == b { return true; }
    (a - b).abs() <= tol * scale.max(a.abs().max(b.abs())).max(1e-300)
}
