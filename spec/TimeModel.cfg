SPECIFICATION Spec
INVARIANTS TextRead BackAgain OrderFree BcAd PhasesFollow Offsets
