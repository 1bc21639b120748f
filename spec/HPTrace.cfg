SPECIFICATION Spec
VIEW View
CONSTANT MaxDepth = 6
CHECK_DEADLOCK FALSE
