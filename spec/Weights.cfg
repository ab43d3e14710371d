SPECIFICATION Spec
CONSTANTS
  Qs = {1, 3}
  Gams = {0, 150, 1000}
  Ths = {2}
  Kinds = {"land", "low", "deep"}
INVARIANTS WaterProper SedProper OnlyWetIfAny Symmetric Deeper SedIgnoresStage GammaEnds
CHECK_DEADLOCK FALSE
