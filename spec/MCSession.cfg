SPECIFICATION Spec
INVARIANTS Once Final Distinct
PROPERTIES Stays
CHECK_DEADLOCK FALSE
