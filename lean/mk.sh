#!/bin/bash
# compile the chain; stops at the first module with an error
cd "$(dirname "$0")"
for m in ${@:-Model Statements Proofs1 Proofs2 Proofs3 Proofs4 Proofs5 Proofs6 Proofs7 Proofs8 Proofs Check}; do LEAN_PATH=. lean -o $m.olean $m.lean || exit 1; done
