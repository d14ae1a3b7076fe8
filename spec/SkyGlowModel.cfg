SPECIFICATION Spec
INVARIANTS MoonWashesOut DarkNight DayAndNight HazeTakesMore BlueSuffersMore DustFirst FaintestFollows Continuous InverseRelations SameFromBoth TychoContinuous TwoTycho Tables
CHECK_DEADLOCK FALSE
