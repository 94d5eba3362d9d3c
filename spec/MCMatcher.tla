----------------------------- MODULE MCMatcher -----------------------------
EXTENDS Matcher, Json
Emit == PrintT("SIT " \o ToJson([t |-> type, f |-> form, c |-> cur, e |-> exp]))
=============================================================================
