SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserved Levelled NoPlainNames OnlyAccepted TipsShape OneReceiver
PROPERTIES Shrinks
