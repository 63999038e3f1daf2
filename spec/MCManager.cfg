SPECIFICATION Spec
INVARIANT Emit
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 4  CacheLimit = 1
