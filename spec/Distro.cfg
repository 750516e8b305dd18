SPECIFICATION Spec
INVARIANTS InOrder Small Closed
PROPERTY Ends
