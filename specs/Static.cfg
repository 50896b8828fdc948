SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTY Monotone
CHECK_DEADLOCK FALSE
