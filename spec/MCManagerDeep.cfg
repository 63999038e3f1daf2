SPECIFICATION Spec
INVARIANT Emit
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 5  CacheLimit = 1
