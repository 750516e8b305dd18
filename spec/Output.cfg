SPECIFICATION Spec
INVARIANTS Last Latest Asked
