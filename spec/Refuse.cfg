SPECIFICATION Spec
INVARIANTS Usable Nothing
