SPECIFICATION Spec
INVARIANT OrderIsAll
INVARIANT FindsOne
INVARIANT EmitTypes
