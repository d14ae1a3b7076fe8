SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANTS TheDataIsTheBestOnes Shells AlongTheOrbit KeplersThird Nested PlutoCrosses PerihelionOfEarth Feet
CHECK_DEADLOCK FALSE
