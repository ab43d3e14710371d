SPECIFICATION Spec
CONSTANTS
  Seed = 7
  MaxN = 4
  MaxSeg = 3
  MaxV = 2
INVARIANTS ToldInOrder Current CountsUp ConfOnce SeedTold OneHeadEach OnlyAdds RecordSame FailTold PrintedIsTold
CHECK_DEADLOCK FALSE
