SPECIFICATION Spec
CONSTRAINT Followed
INVARIANTS Corrected NoDrift Recovers Forward Bounded
CHECK_DEADLOCK FALSE
