SPECIFICATION Spec
CONSTANTS
  Dts = {1, 3, 8}
  Ys = {0, 1, 4, 30, 97}
  Mms = {0, 2, 5}
  MaxQ = 5
INVARIANTS Inverse Slower UnitsAgree SeaFollows Lasts RiseAtEnd
PROPERTY Halts
CHECK_DEADLOCK FALSE
