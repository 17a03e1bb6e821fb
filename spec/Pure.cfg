SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT CompactLaw
INVARIANT StringLaw
INVARIANT VarLaw
INVARIANT DecLaw
INVARIANT JsonLaw
INVARIANT CaseLaw
INVARIANT ShaLaw
INVARIANT FmtLaw
