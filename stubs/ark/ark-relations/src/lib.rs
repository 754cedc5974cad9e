//! gr1cs: constraint systems with the one R1CS predicate, as arkworks builds them in proving mode.
pub mod gr1cs {
    use ark_ff::Field;
    use std::cell::{Ref, RefCell, RefMut};
    use std::collections::BTreeMap;
    use std::ops::*;
    use std::rc::Rc;
    pub const R1CS_PREDICATE_LABEL: &str = "R1CS";
    pub type Label = String;
    pub type Result<T> = std::result::Result<T, SynthesisError>;
    pub type Matrix<F> = Vec<Vec<(F, usize)>>;
    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    pub enum SynthesisError { MissingCS, AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity, MalformedVerifyingKey, PredicateNotFound, ArityMismatch }
    impl std::fmt::Display for SynthesisError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("synthesis error") } }
    impl std::error::Error for SynthesisError {}
    #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
    pub enum Variable { Zero, One, Instance(usize), Witness(usize), SymbolicLc(usize) }
    impl Variable {
        pub fn is_one(&self) -> bool { matches!(self, Variable::One) }
        pub fn get_index_unchecked(&self, offset: usize) -> Option<usize> {
            match self { Variable::One => Some(0), Variable::Instance(i) => Some(*i), Variable::Witness(i) => Some(offset + *i), _ => None }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Default)]
    pub struct LinearCombination<F: Field>(pub Vec<(F, Variable)>);
    impl<F: Field> LinearCombination<F> {
        pub fn new() -> Self { Self(vec![]) }
        pub fn zero() -> Self { Self(vec![]) }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn iter(&self) -> std::slice::Iter<'_, (F, Variable)> { self.0.iter() }
        fn push(&mut self, c: F, v: Variable) {
            if let Variable::Zero = v { return; }
            for t in &mut self.0 { if t.1 == v { t.0 = t.0 + c; return; } }
            self.0.push((c, v));
        }
    }
    impl<F: Field> Deref for LinearCombination<F> { type Target = Vec<(F, Variable)>; fn deref(&self) -> &Self::Target { &self.0 } }
    impl<F: Field> From<Variable> for LinearCombination<F> { fn from(v: Variable) -> Self { let mut l = Self::new(); l.push(F::one(), v); l } }
    impl<F: Field> From<(F, Variable)> for LinearCombination<F> { fn from(t: (F, Variable)) -> Self { let mut l = Self::new(); l.push(t.0, t.1); l } }
    impl<F: Field> Add<(F, Variable)> for LinearCombination<F> { type Output = Self; fn add(mut self, t: (F, Variable)) -> Self { self.push(t.0, t.1); self } }
    impl<F: Field> Sub<(F, Variable)> for LinearCombination<F> { type Output = Self; fn sub(mut self, t: (F, Variable)) -> Self { self.push(-t.0, t.1); self } }
    impl<F: Field> AddAssign<(F, Variable)> for LinearCombination<F> { fn add_assign(&mut self, t: (F, Variable)) { self.push(t.0, t.1) } }
    impl<F: Field> SubAssign<(F, Variable)> for LinearCombination<F> { fn sub_assign(&mut self, t: (F, Variable)) { self.push(-t.0, t.1) } }
    impl<F: Field> Add<Variable> for LinearCombination<F> { type Output = Self; fn add(mut self, v: Variable) -> Self { self.push(F::one(), v); self } }
    impl<F: Field> Sub<Variable> for LinearCombination<F> { type Output = Self; fn sub(mut self, v: Variable) -> Self { self.push(-F::one(), v); self } }
    impl<F: Field> AddAssign<Variable> for LinearCombination<F> { fn add_assign(&mut self, v: Variable) { self.push(F::one(), v) } }
    impl<F: Field> Add<LinearCombination<F>> for LinearCombination<F> { type Output = Self; fn add(mut self, o: Self) -> Self { for t in o.0 { self.push(t.0, t.1); } self } }
    impl<'a, F: Field> Add<&'a LinearCombination<F>> for LinearCombination<F> { type Output = Self; fn add(mut self, o: &'a Self) -> Self { for t in &o.0 { self.push(t.0, t.1); } self } }
    impl<F: Field> AddAssign<LinearCombination<F>> for LinearCombination<F> { fn add_assign(&mut self, o: Self) { for t in o.0 { self.push(t.0, t.1); } } }
    impl<F: Field> Sub<LinearCombination<F>> for LinearCombination<F> { type Output = Self; fn sub(mut self, o: Self) -> Self { for t in o.0 { self.push(-t.0, t.1); } self } }
    impl<F: Field> Mul<F> for LinearCombination<F> { type Output = Self; fn mul(mut self, f: F) -> Self { for t in &mut self.0 { t.0 = t.0 * f; } self } }
    impl<F: Field> Neg for LinearCombination<F> { type Output = Self; fn neg(mut self) -> Self { for t in &mut self.0 { t.0 = -t.0; } self } }

    pub trait ConstraintSynthesizer<F: Field> {
        fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()>;
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum OptimizationGoal { None, Constraints, Weight }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum SynthesisMode { Setup, Prove { construct_matrices: bool, generate_lc_assignments: bool } }
    #[derive(Clone, Debug)]
    pub struct Assignments<F: Field> { pub instance_assignment: Vec<F>, pub witness_assignment: Vec<F> }
    #[derive(Clone, Debug)]
    pub struct ConstraintSystem<F: Field> {
        mode: SynthesisMode,
        num_instance_variables: usize,
        num_witness_variables: usize,
        pub assignments: Assignments<F>,
        rows: Vec<[LinearCombination<F>; 3]>,
        removed: bool,
    }
    impl<F: Field> ConstraintSystem<F> {
        pub fn new() -> Self {
            Self {
                mode: SynthesisMode::Prove { construct_matrices: true, generate_lc_assignments: true }, num_instance_variables: 1, num_witness_variables: 0,
                assignments: Assignments { instance_assignment: vec![F::one()], witness_assignment: vec![] }, rows: vec![], removed: false,
            }
        }
        pub fn new_ref() -> ConstraintSystemRef<F> { ConstraintSystemRef::CS(Rc::new(RefCell::new(Self::new()))) }
        pub fn set_mode(&mut self, m: SynthesisMode) { self.mode = m }
        pub fn is_in_setup_mode(&self) -> bool { self.mode == SynthesisMode::Setup }
        pub fn num_instance_variables(&self) -> usize { self.num_instance_variables }
        pub fn num_witness_variables(&self) -> usize { self.num_witness_variables }
        pub fn num_variables(&self) -> usize { self.num_instance_variables + self.num_witness_variables }
        pub fn num_constraints(&self) -> usize { self.rows.len() }
        pub fn instance_assignment(&self) -> Result<&[F]> { if self.is_in_setup_mode() { Err(SynthesisError::AssignmentMissing) } else { Ok(&self.assignments.instance_assignment) } }
        pub fn witness_assignment(&self) -> Result<&[F]> { if self.is_in_setup_mode() { Err(SynthesisError::AssignmentMissing) } else { Ok(&self.assignments.witness_assignment) } }
        pub fn new_input_variable<G: FnOnce() -> Result<F>>(&mut self, f: G) -> Result<Variable> {
            let i = self.num_instance_variables;
            self.num_instance_variables += 1;
            if !self.is_in_setup_mode() { self.assignments.instance_assignment.push(f()?); }
            Ok(Variable::Instance(i))
        }
        pub fn new_witness_variable<G: FnOnce() -> Result<F>>(&mut self, f: G) -> Result<Variable> {
            let i = self.num_witness_variables;
            self.num_witness_variables += 1;
            if !self.is_in_setup_mode() { self.assignments.witness_assignment.push(f()?); }
            Ok(Variable::Witness(i))
        }
        fn add_row(&mut self, label: &str, mut l: Vec<LinearCombination<F>>) -> Result<()> {
            if label != R1CS_PREDICATE_LABEL { return Err(SynthesisError::PredicateNotFound); }
            if l.len() != 3 { return Err(SynthesisError::ArityMismatch); }
            let c = l.pop().unwrap();
            let b = l.pop().unwrap();
            let a = l.pop().unwrap();
            self.rows.push([a, b, c]);
            Ok(())
        }
        pub fn value_of(&self, v: Variable) -> Option<F> {
            match v {
                Variable::Zero => Some(F::zero()),
                Variable::One => Some(F::one()),
                Variable::Instance(i) => self.assignments.instance_assignment.get(i).copied(),
                Variable::Witness(i) => self.assignments.witness_assignment.get(i).copied(),
                Variable::SymbolicLc(_) => None,
            }
        }
        fn eval(&self, l: &LinearCombination<F>) -> Result<F> {
            let mut s = F::zero();
            for (c, v) in &l.0 { s += *c * self.value_of(*v).ok_or(SynthesisError::AssignmentMissing)?; }
            Ok(s)
        }
        pub fn is_satisfied(&self) -> Result<bool> { Ok(self.which_is_unsatisfied()?.is_none()) }
        pub fn which_is_unsatisfied(&self) -> Result<Option<String>> {
            if self.is_in_setup_mode() { return Err(SynthesisError::AssignmentMissing); }
            for (i, r) in self.rows.iter().enumerate() {
                if self.eval(&r[0])? * self.eval(&r[1])? != self.eval(&r[2])? { return Ok(Some(i.to_string())); }
            }
            Ok(None)
        }
        pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> {
            let n = self.num_instance_variables;
            let m = (0..3).map(|k| self.rows.iter().map(|r| r[k].0.iter().filter_map(|(c, v)| v.get_index_unchecked(n).map(|i| (*c, i))).collect()).collect()).collect();
            let mut b = BTreeMap::new();
            b.insert(R1CS_PREDICATE_LABEL.to_string(), m);
            Ok(b)
        }
        pub fn finalize(&mut self) {}
        pub fn rows(&self) -> &[[LinearCombination<F>; 3]] { &self.rows }
    }
    #[derive(Clone, Debug)]
    pub enum ConstraintSystemRef<F: Field> { None, CS(Rc<RefCell<ConstraintSystem<F>>>) }
    impl<F: Field> ConstraintSystemRef<F> {
        fn get(&self) -> Result<&Rc<RefCell<ConstraintSystem<F>>>> { match self { Self::CS(c) => Ok(c), Self::None => Err(SynthesisError::MissingCS) } }
        pub fn borrow(&self) -> Option<Ref<'_, ConstraintSystem<F>>> { self.get().ok().map(|c| c.borrow()) }
        pub fn borrow_mut(&self) -> Option<RefMut<'_, ConstraintSystem<F>>> { self.get().ok().map(|c| c.borrow_mut()) }
        pub fn into_inner(self) -> Option<ConstraintSystem<F>> { match self { Self::CS(c) => Rc::try_unwrap(c).ok().map(|c| c.into_inner()), Self::None => None } }
        pub fn set_mode(&self, m: SynthesisMode) { if let Ok(c) = self.get() { c.borrow_mut().set_mode(m) } }
        pub fn set_optimization_goal(&self, _: OptimizationGoal) {}
        pub fn is_in_setup_mode(&self) -> bool { self.get().map_or(false, |c| c.borrow().is_in_setup_mode()) }
        pub fn num_instance_variables(&self) -> usize { self.get().map_or(0, |c| c.borrow().num_instance_variables) }
        pub fn num_witness_variables(&self) -> usize { self.get().map_or(0, |c| c.borrow().num_witness_variables) }
        pub fn num_variables(&self) -> usize { self.num_instance_variables() + self.num_witness_variables() }
        pub fn num_constraints(&self) -> usize { self.get().map_or(0, |c| c.borrow().rows.len()) }
        pub fn new_input_variable<G: FnOnce() -> Result<F>>(&self, f: G) -> Result<Variable> { self.get()?.borrow_mut().new_input_variable(f) }
        pub fn new_witness_variable<G: FnOnce() -> Result<F>>(&self, f: G) -> Result<Variable> { self.get()?.borrow_mut().new_witness_variable(f) }
        pub fn enforce_constraint<I>(&self, label: &str, lcs: I) -> Result<()> where I: IntoIterator, I::Item: FnOnce() -> LinearCombination<F> {
            let c = self.get()?;
            let l = lcs.into_iter().map(|f| f()).collect();
            c.borrow_mut().add_row(label, l)
        }
        pub fn enforce_r1cs_constraint(&self, a: impl FnOnce() -> LinearCombination<F>, b: impl FnOnce() -> LinearCombination<F>, c: impl FnOnce() -> LinearCombination<F>) -> Result<()> {
            let v = vec![a(), b(), c()];
            self.get()?.borrow_mut().add_row(R1CS_PREDICATE_LABEL, v)
        }
        pub fn is_satisfied(&self) -> Result<bool> { self.get()?.borrow().is_satisfied() }
        pub fn which_is_unsatisfied(&self) -> Result<Option<String>> { self.get()?.borrow().which_is_unsatisfied() }
        pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> { self.get()?.borrow().to_matrices() }
        pub fn finalize(&self) {}
        pub fn instance_assignment(&self) -> Result<Vec<F>> { self.get()?.borrow().instance_assignment().map(|a| a.to_vec()) }
        pub fn witness_assignment(&self) -> Result<Vec<F>> { self.get()?.borrow().witness_assignment().map(|a| a.to_vec()) }
    }
}
