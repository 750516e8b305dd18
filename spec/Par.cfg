SPECIFICATION Spec
INVARIANTS Right Complete
VIEW View
