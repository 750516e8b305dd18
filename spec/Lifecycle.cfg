SPECIFICATION Spec
INVARIANT Agree
