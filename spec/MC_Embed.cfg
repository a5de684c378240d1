SPECIFICATION Spec
CONSTANTS
  Readers = {r1, r2, r3}
  Files = {"f1", "f2"}
  Names = {"f1", "f2", "nofile"}
  MaxCalls = 6
  Shared = FALSE
INVARIANTS TypeOK OnlyWhole
PROPERTIES StaysWhole Returns
CHECK_DEADLOCK FALSE
