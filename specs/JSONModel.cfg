SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Alphabet = {123, 125, 91, 93, 34, 58, 44, 92, 48, 49, 45, 46, 101, 32, 9}
  Seeds = {"{\"a", "[{\"\":", "{\"\":[", "[1,", "\"\\u00", "\"\\ud83d\\ude0", "[-1", "tru", "fals", "nul", "{\"a\":1", "{\"a\":{}", "[\"\\\\", "{\"$oid\":"}
  MaxTail = 2
INVARIANTS Emitted WriteParse Hopeless
CHECK_DEADLOCK FALSE
