SPECIFICATION Spec
INVARIANTS UrlRead BodyRead QueryRead MultiRead Damage Small
