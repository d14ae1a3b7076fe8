SPECIFICATION Spec
INVARIANTS Truthful LimitBounds RateOfChange LengthsStay MoonLength MoonLimit
