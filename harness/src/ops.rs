//! Direct access to mutation::mutate and Crossover::crossover although PathContext cannot be named:
//! its type is inferred.
use cambrian::crossover::Crossover;
use cambrian::meta::{CrossoverParams, MutationParams};
use cambrian::mutation;
use cambrian::spec::Spec;
use cambrian::value::Value;
use rand::rngs::StdRng;

pub trait Ops {
    fn mutate(&mut self, s: &Spec, v: &Value, p: &MutationParams, r: &mut StdRng) -> Value;
    fn crossover(&mut self, s: &Spec, i: &[&Value], p: &CrossoverParams, r: &mut StdRng) -> Value;
}

struct O<X, P, FM, FC> {
    x: X,
    p: P,
    m: FM,
    c: FC,
}

impl<X, P, FM, FC> Ops for O<X, P, FM, FC>
where
    FM: Fn(&Spec, &Value, &MutationParams, &mut P, &mut StdRng) -> Value,
    FC: Fn(&X, &Spec, &[&Value], &CrossoverParams, &mut P, &mut StdRng) -> Value,
{
    fn mutate(&mut self, s: &Spec, v: &Value, p: &MutationParams, r: &mut StdRng) -> Value {
        (self.m)(s, v, p, &mut self.p, r)
    }
    fn crossover(&mut self, s: &Spec, i: &[&Value], p: &CrossoverParams, r: &mut StdRng) -> Value {
        (self.c)(&self.x, s, i, p, &mut self.p, r)
    }
}

fn build<X, P, FM, FC>(x: X, m: FM, c: FC) -> O<X, P, FM, FC>
where
    P: Default,
    FM: Fn(&Spec, &Value, &MutationParams, &mut P, &mut StdRng) -> Value,
    FC: Fn(&X, &Spec, &[&Value], &CrossoverParams, &mut P, &mut StdRng) -> Value,
{
    O { x, p: P::default(), m, c }
}

pub fn new() -> impl Ops {
    build(
        Crossover::new(),
        mutation::mutate,
        |x, s, i, p, ctx, r| x.crossover(s, i, p, ctx, r),
    )
}
