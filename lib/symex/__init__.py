from .core import (Ctx, Concrete, Explorer, Unsupported, Infeasible, PathDone, Control, CheckFailed, run_concrete, cur, active)
from .values import (SymInt, SymBool, SymFloat, SymStr, SymBytes, Atom, NumAtom, sx_and, sx_or, sx_not, implies, iff,
                     is_sym, deep_sym)
