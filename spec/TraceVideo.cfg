INIT Init
NEXT Next
INVARIANT Done
VIEW Where
CHECK_DEADLOCK FALSE
