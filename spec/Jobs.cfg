SPECIFICATION Spec
INVARIANTS TypeOK InOrder NoLoss Serially
PROPERTIES ASpec Ends
