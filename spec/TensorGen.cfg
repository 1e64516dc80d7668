SPECIFICATION GSpec
CONSTANTS Handles = {1, 2, 3, 4} Depth = 8
CHECK_DEADLOCK FALSE
