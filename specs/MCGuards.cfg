SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RunsUnlessRefused AskedOnce AskFirst
