SPECIFICATION ESpec
VIEW EView
CONSTANT MaxDepth = 6
CHECK_DEADLOCK FALSE
