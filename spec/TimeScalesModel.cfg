SPECIFICATION Spec
INVARIANTS Days NearUt OneLeap PredictedSteps OnceOnly TdbSmall
