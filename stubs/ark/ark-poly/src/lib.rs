//! Radix-2 evaluation domains, by their definition.
use ark_ff::FftField;
pub trait EvaluationDomain<F: FftField>: Copy + Clone + std::fmt::Debug + PartialEq + Eq + Sized {
    fn new(num_coeffs: usize) -> Option<Self>;
    fn size(&self) -> usize;
    fn group_gen(&self) -> F;
    fn compute_size_of_domain(n: usize) -> Option<usize> { Self::new(n).map(|d| d.size()) }
    fn log_size_of_group(&self) -> u64 { self.size().trailing_zeros() as u64 }
    fn size_as_field_element(&self) -> F { F::from(self.size() as u64) }
    fn size_inv(&self) -> F { self.size_as_field_element().inverse().unwrap() }
    fn group_gen_inv(&self) -> F { self.group_gen().inverse().unwrap() }
    fn element(&self, i: usize) -> F { let mut r = F::one(); for _ in 0..i % self.size() { r *= self.group_gen(); } r }
    fn elements(&self) -> std::vec::IntoIter<F> { (0..self.size()).map(|i| self.element(i)).collect::<Vec<_>>().into_iter() }
    fn evaluate_vanishing_polynomial(&self, tau: F) -> F { let mut r = F::one(); for _ in 0..self.size() { r *= tau; } r - F::one() }
    /// L_j(tau) = 1/n * sum over k of (tau / w^j)^k
    fn evaluate_all_lagrange_coefficients(&self, tau: F) -> Vec<F> {
        let n = self.size();
        let mut pw = vec![F::one()];
        for k in 1..n { pw.push(pw[k - 1] * tau); }
        (0..n).map(|j| {
            let mut s = F::zero();
            for k in 0..n { s += pw[k] * self.element((n - j) * k % n); }
            s * self.size_inv()
        }).collect()
    }
    fn ifft(&self, e: &[F]) -> Vec<F> {
        let n = self.size();
        (0..n).map(|k| {
            let mut s = F::zero();
            for (j, v) in e.iter().enumerate().take(n) { s += *v * self.element((n - j % n) * k % n); }
            s * self.size_inv()
        }).collect()
    }
    fn fft(&self, c: &[F]) -> Vec<F> {
        let n = self.size();
        (0..n).map(|j| { let mut s = F::zero(); for (k, v) in c.iter().enumerate() { s += *v * self.element(j * k % n); } s }).collect()
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Radix2EvaluationDomain<F: FftField> { n: usize, pub group_gen: F }
pub type GeneralEvaluationDomain<F> = Radix2EvaluationDomain<F>;
impl<F: FftField> EvaluationDomain<F> for Radix2EvaluationDomain<F> {
    fn new(num_coeffs: usize) -> Option<Self> {
        let n = num_coeffs.checked_next_power_of_two()?;
        Some(Self { n, group_gen: F::get_root_of_unity(n as u64)? })
    }
    fn size(&self) -> usize { self.n }
    fn group_gen(&self) -> F { self.group_gen }
}
