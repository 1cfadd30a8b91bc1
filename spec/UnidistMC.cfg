SPECIFICATION Spec
INVARIANTS Determined Answers Once InputsFirst NoZombie OneAtATime NotStuck
PROPERTIES Finishes AllRun
CHECK_DEADLOCK FALSE
