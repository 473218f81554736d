SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  KindSet = {"get", "post", "all", "use"}
  PatternStrs = {"/", "/a", "/:x", "/a/b", "/:x/b", "a/:y/.", "/.."}
  PathStrs = {"/", "/a", "/b", "/a/b", "/c/b", "/a/c"}
INVARIANTS SameDispatch UniqueIdx
CHECK_DEADLOCK FALSE
