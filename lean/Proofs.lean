/- The proofs of every statement of Statements.lean, collected. -/
import Proofs8
