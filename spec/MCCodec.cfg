CONSTANT Depth = 5
INIT Init
NEXT Next
INVARIANT TableFaithful
