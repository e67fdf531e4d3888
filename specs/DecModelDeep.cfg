SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {48, 49, 57, 46, 45, 43, 69}
  Coefs = {"0", "1", "9", "10", "100", "123", "999999999", "1000000000", "1000000001", "12345678901234567890", "9999999999999999999999999999999999", "1000000000000000000000000000000000"}
  Exps = {0, 1, 2, 5, 6, 7, 8, 33, 34, 35, 36, 6000, 6110, 6111, 6112, 6143, 6144, 6145, 6146, 6175, 6176, 6177, 6178, 6209, 6210, 9999, 10000, 99999}
INVARIANTS Emitted Sane
CHECK_DEADLOCK FALSE
