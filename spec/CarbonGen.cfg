SPECIFICATION Spec
INVARIANT Bounded
