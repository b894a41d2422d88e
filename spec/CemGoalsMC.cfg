SPECIFICATION Spec
CONSTANT R = 2
INVARIANTS LineMeaning SegmentMeaning PlaneMeaning Pythagoras PolyMeaning DirectionMeaning
CHECK_DEADLOCK FALSE
