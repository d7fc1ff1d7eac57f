SPECIFICATION Spec
CONSTANT Lengths = {1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 256, 257, 300, 511, 512}
CHECK_DEADLOCK FALSE
