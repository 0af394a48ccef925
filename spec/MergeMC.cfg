SPECIFICATION Spec
INVARIANTS Total MassConserved CoresInside Fractions Sym
CHECK_DEADLOCK FALSE
