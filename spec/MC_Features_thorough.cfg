SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  KindSet = {"get", "all", "use"}
  PatternStrs = {"/", "/a", "/a/b", "b/./a", "/..", "a/../b"}
  PathStrs = {"/", "/a", "/b", "/a/b", "/b/a", "/c"}
  UseVars <- NoVars
INVARIANTS SameDispatch UniqueIdx
CHECK_DEADLOCK FALSE
