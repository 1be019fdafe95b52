SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
 A = {0, 1, 2, 3, 7, 8, 15, 16, 17, 63, 64, 85, 100, 126, 127, 128, 129, 170, 192, 200, 240, 253, 254, 255}
 G = {0, 1, 2, 3, 127, 128, 255, 256, 257, 1000, 4095, 4096, 16384, 21845, 32766, 32767, 32768, 32769, 40000, 43690, 65280, 65533, 65534, 65535}
CHECK_DEADLOCK FALSE
