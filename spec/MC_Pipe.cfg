INIT Init
NEXT Next
INVARIANTS InOrder Peeked NoMore
CHECK_DEADLOCK FALSE
