SPECIFICATION Spec
CONSTANT MaxOps = 4
INVARIANTS WireAccepts OneEach LengthRight LastStatus CookiesInOrder LastBody LineCount Sensitive
CHECK_DEADLOCK FALSE
