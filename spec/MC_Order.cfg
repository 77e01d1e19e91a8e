INIT Init
NEXT Next
INVARIANTS Total Antisym Identity NaNLast Transitive EpsSym Emit
CHECK_DEADLOCK FALSE
