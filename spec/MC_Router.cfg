SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  KindSet = {"get", "all", "use"}
  PatternStrs = {"/", "/a", "/:x", "/:x/b", "a/:y/.", "/.."}
  PathStrs = {"/", "/a", "/b", "/a/b", "/c/b", "/a/c"}
INVARIANTS SameDispatch UniqueIdx
CHECK_DEADLOCK FALSE
