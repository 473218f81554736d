SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANTS WireAccepts OneEach LengthRight LastStatus CookiesInOrder LastBody LineCount Sensitive
CHECK_DEADLOCK FALSE
