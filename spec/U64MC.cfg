SPECIFICATION Spec
INVARIANTS Order TopBit SubAdd RoundTrip Trunc Smalls
CHECK_DEADLOCK FALSE
