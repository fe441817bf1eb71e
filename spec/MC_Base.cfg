INIT Init
NEXT Next
INVARIANTS WaveLaws LineLaws PlaneLaws PoleLaws
CHECK_DEADLOCK FALSE
